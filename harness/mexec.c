// Running a command: its input, output, messages and status are passed on completely, failures of the system are reported.
#include "env.h"
#include "blogc-make/exec.h"
#include "common/error.h"
#include "common/utils.h"
static char *out_, *err_; static size_t no, ne; static int np;
static void feed(int k) { if (np++ % 3 == 1) ve_pipe_feed(k, out_, no); else if (np % 3 == 0) ve_pipe_feed(k, err_, ne); }
// p4: that many fixed bytes first
static char *text(size_t max, size_t *n) {
    size_t k = v_choose(max + 1), f = v_param(4); *n = f + k; char *r = malloc(f + k + 1), *t = v_strn(k);
    for (size_t i = 0; i < f; i++) r[i] = 'a' + i % 26; for (size_t i = 0; i <= k; i++) r[f + i] = t[i];
    return r;
}
static int status, code;
static void pick_status(void) { int k = v_choose(5); static const int ST[] = {0, 1 << 8, 127 << 8, 78 << 8, 9}, C[] = {0, 1, 127, 78, 128 + 9}; status = ST[k]; code = C[k]; ve_wait_status = status; }
static int has(const ve_out *o, const char *s, size_t n) { for (size_t i = 0; i + n <= o->n; i++) if (v_eqn(o->s + i, s, n)) return 1; return 0; }
static void exec_(const char *f, char *const *a) {
    V_CHECK(v_eq(f, "/bin/sh") && v_eq(a[0], "/bin/sh") && v_eq(a[1], "-c") && v_eqs(a[2], out_) && !a[3], "the command is run by the shell unchanged");
    v_reach("child");
}
static void on_exit_(int s) { V_CHECK(s != 0, "a command that could not be run ends with failure"); }
static void command(void) {
    size_t max = v_param(1), ni = 0; char *in = v_choose(2) ? text(max, &ni) : NULL;
    out_ = text(max, &no); err_ = text(v_param(2), &ne); pick_status();
    ve_pipe_hook = feed; ve_faults = v_param(3); ve_fault_mask = VF_PIPE | VF_FORK | VF_READ | VF_WRITE | VF_SHORT | VF_WAIT | VF_CLOSE;
    if (!ve_faults && v_choose(4) == 3) { ve_fork_ret = 0; ve_exec_hook = exec_; ve_exit_hook = on_exit_; }
    char *o = NULL, *e = NULL; bc_error_t *err = NULL;
    int rv = bm_exec_command(ve_fork_ret ? "cmd" : out_, in, &o, &e, &err);
    V_CHECK(ve_open_fds() == 0, "pipes left open");
    if (err) { V_CHECK(ve_faulted > 0, "an error without a reason"); V_CHECK(rv != 0, "an error with the status of success"); v_reach("error"); return; }
    V_CHECK(rv == code, "status of the command");
    V_CHECK(no ? o && v_len(o) == no && v_eqn(o, out_, no) : !o, "output of the command");
    V_CHECK(ne ? e && v_len(e) == ne && v_eqn(e, err_, ne) : !e, "messages of the command");
    ve_out *w = ve_pipe_written(0);
    V_CHECK((ve_epipe ? w->n <= ni : w->n == ni) && v_eqn(w->s, in, w->n), "the command does not get its whole input");
    v_log_s(o); v_log_s(e); v_log_i(rv); v_reach(ve_faulted ? "fault" : "command");
}
static bm_filectx_t *F(char *p) { bm_filectx_t *f = malloc(sizeof *f); f->path = p; f->short_path = p; f->slug = NULL; f->tv_sec = f->tv_nsec = 0; f->readable = 1; return f; }
static void blogc(void) {       // mode 1: build, 2: query
    size_t max = v_param(1); int query = v_param(0) == 2;
    bm_ctx_t c; for (size_t i = 0; i < sizeof c; i++) ((char *) &c)[i] = 0;
    bm_settings_t s; s.settings = bc_trie_new(free); s.global = bc_trie_new(free); s.posts = s.pages = s.copy = s.tags = NULL;
    c.blogc = "blogc"; c.settings = &s; c.verbose = v_choose(2);
    bc_slist_t *l = NULL; int n = v_choose(3), first = v_choose(2); char *p[2];
    v_buf in; v_buf_init(&in, 40);
    for (int i = 0; i < n; i++) { p[i] = v_str(1, 2); for (size_t j = 0; p[i][j]; j++) v_assume(p[i][j] != '\n'); l = bc_slist_append(l, F(p[i])); if (!i || !first) { v_buf_s(&in, p[i]); v_buf_c(&in, '\n'); } }
    out_ = text(max, &no); err_ = text(v_param(2), &ne); pick_status(); for (size_t i = 0; i < ne; i++) v_assume((err_[i] > 32) & (err_[i] < 127));
    ve_pipe_hook = feed; ve_faults = v_param(3); ve_fault_mask = VF_PIPE | VF_FORK | VF_READ | VF_WAIT;
    bc_trie_t *gv = bc_trie_new(free);
    if (!query) {
        int rv = bm_exec_blogc(&c, gv, NULL, 1, NULL, F("t"), F("o"), l, first);
        V_CHECK((rv == 0) == (status == 0 && !ve_faulted), "a build step succeeds exactly when its command did");
        V_CHECK(rv != 127, "status of a missing program is not passed on");
        if (rv == 0 || !ve_faulted) { V_CHECK(!ne || has(&ve_stderr, err_, ne), "messages of the command are lost"); v_reach(rv ? "failed" : "built"); }
        else V_CHECK(ve_stderr.n > 0, "failure without a message");
        V_CHECK(has(&ve_stdout, c.verbose ? "blogc " : "  BLOGC    o\n", c.verbose ? 6 : 13), "progress");
        v_log_i(rv);
    } else {
        char *v = bm_exec_blogc_get_variable(&c, gv, NULL, "X", 1, l, first);
        int want = status == 0 && !ve_faulted && no;
        V_CHECK((v != NULL) == want, "a value exists exactly when the command printed one");
        if (v) V_CHECK(v_len(v) == no - 1 && v_eqn(v, out_, no - 1), "value is the output without its last character");
        if (!v && (ve_faulted || (code && code != 78))) V_CHECK(ve_stderr.n > 0, "failure without a message");
        v_log_s(v); v_reach(v ? "value" : "no value");
    }
    if (!ve_faulted) { ve_out *w = ve_pipe_written(0); V_CHECK(w->n == in.n && v_eqn(w->s, in.s, in.n), "names of the sources given to blogc"); }
    V_CHECK(ve_open_fds() == 0, "pipes left open");
}
void v_main(void) { if (v_param(0)) blogc(); else command(); }
