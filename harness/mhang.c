// Running a command that uses its pipes in any order, with more data than they hold: neither side waits for ever, nobody is killed, nothing is lost.
#include "env.h"
#include "blogc-make/exec.h"
#include "common/error.h"
#include "common/utils.h"
// p0: steps of the command; p1: how often it may run ahead; p2: largest size (0 small, 1 the capacity, 2 twice the capacity); p3: symbolic bytes at the end of every piece; p4: capacity in pages
static size_t size(void) {
    size_t c = ve_child_cap; int big = v_param(2);
    const size_t S[] = {1, c, c + 1, 2 * c + 3};
    return S[v_choose(big == 0 ? 1 : big == 1 ? 3 : 4)];
}
static char *piece(size_t n, int salt) { size_t k = v_param(3); if (k > n) k = n; char *r = malloc(n + 1), *t = v_strn(k); for (size_t i = 0; i + k < n; i++) r[i] = 'a' + (i + salt) % 26; for (size_t i = 0; i <= k; i++) r[n - k + i] = t[i]; return r; }
void v_main(void) {
    ve_child_cap = 4096 * v_param(4); ve_child = 1; ve_child_free = v_param(1);
    char *in = NULL; size_t ni = 0;
    if (v_choose(2)) { ni = size(); in = piece(ni, 7); }
    v_buf o, e; v_buf_init(&o, 8 + v_param(0) * 40000); v_buf_init(&e, 8 + v_param(0) * 40000);
    size_t need = 0; int n = v_choose(v_param(0) + 1), all = 0;
    for (int i = 0; i < n; i++) {
        ve_step *s = &ve_child_step[i]; int k = v_choose(4);
        if (k == 0) { s->op = 'r'; s->n = size(); need += s->n; }
        else if (k == 1) { s->op = 'r'; s->n = (size_t) -1; all = 1; }
        else { s->op = k == 2 ? 'o' : 'e'; s->n = size(); char *t = piece(s->n, i); s->s = t; v_buf_n(k == 2 ? &o : &e, t, s->n); }
    }
    char *ro = NULL, *re = NULL; bc_error_t *err = NULL; ve_wait_status = v_choose(2) << 8;
    int rv = bm_exec_command("cmd", in, &ro, &re, &err);
    V_CHECK(!err, "an error without a reason");
    V_CHECK(rv == ve_wait_status >> 8, "status of the command");
    V_CHECK(o.n ? ro && v_len(ro) == o.n && v_eqn(ro, o.s, o.n) : !ro, "output of the command");
    V_CHECK(e.n ? re && v_len(re) == e.n && v_eqn(re, e.s, e.n) : !re, "messages of the command");
    size_t want = all || need > ni ? ni : need;
    V_CHECK(ve_child_got.n == want && v_eqn(ve_child_got.s, in, want), "the command does not get its input");
    V_CHECK(ve_open_fds() == 0, "pipes left open");
    V_CHECK(ve_sigpipe_default(), "signals stay ignored");
    v_log_s(ro); v_log_s(re); v_log_i(rv); v_reach(want < ni ? "input left" : "done");
}
