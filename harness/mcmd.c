// The command that runs blogc: a shell makes exactly the intended words of it, whatever the names and values hold.
#include "env.h"
#include "bcargs.h"
#include "blogc-make/exec.h"
#include "common/utils.h"
static char *dup_(const char *s) { size_t n = v_len(s); char *r = malloc(n + 1); for (size_t i = 0; i <= n; i++) r[i] = s[i]; return r; }
static void cmd(void) {
    int f = v_choose(11); size_t max = v_param(1);
    char *x = f < 10 ? v_str(0, max) : "q";
    bm_settings_t s, *ps = v_choose(2) ? &s : NULL;
    if (!ps && f < 4) v_end();
    s.settings = bc_trie_new(free); s.global = bc_trie_new(free); s.posts = s.pages = s.copy = s.tags = NULL;
    bc_trie_t *gv = bc_trie_new(free), *lv = v_choose(2) ? bc_trie_new(free) : NULL; char *tags[3] = {0};
    int nd = 0, ntag = 0, dev = v_choose(2), listing = v_choose(2), in = v_choose(2), tm = v_choose(2), out = v_choose(2), pr = v_choose(2), le = listing || f == 6 ? v_choose(2) : 0;
    if (f == 6) { listing = 1; le = 1; } if (f == 7) tm = 1; if (f == 8) out = 1;
    if (f == 0) bc_trie_insert(s.settings, "locale", dup_(x));
    if (f == 1 || f == 2) { s.tags = tags; tags[0] = f == 1 ? x : "one"; tags[1] = f == 2 ? x : NULL; ntag = f; if (!x[0]) v_end(); }
    if (f == 3) bc_trie_insert(s.global, "A_1", dup_(x)); else if (f == 9) bc_trie_insert(s.global, "A", dup_(x));
    if (f == 9) bc_trie_insert(s.global, "AUTHOR", dup_("x y"));
    if (f == 4) bc_trie_insert(gv, "B", dup_(x));
    if (f == 5) { if (!lv) v_end(); bc_trie_insert(lv, "C", dup_(x)); }
    char *r = bm_exec_build_blogc_cmd("'b c'", ps, gv, lv, pr ? "LAST_PAGE" : NULL, listing, le ? (f == 6 ? x : "en try") : NULL, tm ? (f == 7 ? x : "t") : NULL, out ? (f == 8 ? x : "o'") : NULL, dev, in);
    args_t a; words(r, &a);
    V_CHECK(v_eq(a.prog, "b c"), "program");
    V_CHECK(v_eqs(a.locale, f == 0 ? x : NULL), "locale");
    if (f == 1) { nd++; V_CHECK(defined(&a, "MAKE_TAGS", x), "MAKE_TAGS"); }
    if (f == 2) { nd++; v_buf b; v_buf_init(&b, 20); v_buf_s(&b, "one "); v_buf_s(&b, x); V_CHECK(defined(&a, "MAKE_TAGS", b.s), "MAKE_TAGS of two tags"); }
    if (f == 3) { nd++; V_CHECK(defined(&a, "A_1", x), "value of a global variable"); }
    if (f == 9 && ps) { nd += 2; V_CHECK(defined(&a, "A", x) && defined(&a, "AUTHOR", "x y"), "values of global variables"); }
    if (f == 4) { nd++; V_CHECK(defined(&a, "B", x), "value of a rule variable"); }
    if (f == 5) { nd++; V_CHECK(defined(&a, "C", x), "value of a local variable"); }
    if (dev) { nd += 2; V_CHECK(defined(&a, "MAKE_ENV_DEV", "1") && defined(&a, "MAKE_ENV", "dev"), "development variables"); }
    V_CHECK(a.nd == nd, "number of definitions"); V_CHECK(a.other == 0, "unexpected words");
    V_CHECK(a.l == listing && a.i == in, "-l and -i"); V_CHECK(v_eq(a.p, pr ? "LAST_PAGE" : NULL), "-p");
    V_CHECK(v_eqs(a.e, le ? (f == 6 ? x : "en try") : NULL), "listing entry"); V_CHECK(v_eqs(a.t, tm ? (f == 7 ? x : "t") : NULL), "template"); V_CHECK(v_eqs(a.o, out ? (f == 8 ? x : "o'") : NULL), "output");
    v_log_s(r); v_reach("command"); (void) ntag;
}
static void binary(void) {
    size_t max = v_param(1); int env = v_choose(2), how = v_choose(4); char *e = env ? v_str(1, max) : NULL, *d = how > 1 ? v_str(0, max) : NULL;
    if (env) ve_setenv("BLOGC", e);
    ve_mkdir("/vfs/w"); ve_chdir("/vfs/w");
    const char *a0 = NULL; v_buf b, path; v_buf_init(&b, 40); v_buf_init(&path, 40); int found = 0;
    if (how == 1) a0 = "blogc-make";
    if (how > 1) {
        for (size_t i = 0; d[i]; i++) v_assume((d[i] != '/') & (d[i] != '.'));
        v_buf_s(&path, "/vfs/"); v_buf_s(&path, d[0] ? d : "x"); v_buf_s(&path, "/blogc");
        if (how == 2) { ve_file(path.s, "x", 1); found = 1; }
        v_buf_s(&b, path.s); v_buf_s(&b, "-make"); a0 = b.s;
    }
    char *r = bm_exec_find_binary(a0, "blogc", "BLOGC");
    sw_t w; sw_parse(r, &w);
    V_CHECK(!w.bad && !w.active && w.n == 1, "the program is one word");
    V_CHECK(v_eqs(w.w[0], env ? e : found ? path.s : "blogc"), "the program that was found is the one that runs");
    v_log_s(r); v_reach(env ? "environment" : found ? "same directory" : "path");
}
static void server(void) {
    size_t max = v_param(1); int f = v_choose(4); char *x = v_str(f == 3, max); bm_ctx_t c; for (size_t i = 0; i < sizeof c; i++) ((char *) &c)[i] = 0;
    c.blogc_runserver = "'r s'"; c.output_dir = f == 3 ? x : "/o ut"; c.verbose = v_choose(2);
    static const int ST[] = {0, 1 << 8, 127 << 8, 130 << 8, 3 << 8}; int st = v_choose(5);
    extern int v_system(const char *); static int stat_; stat_ = ST[st];
    static int calls; int hook(const char *cmd);
    ve_system_hook = hook; ve_wait_status = stat_;
    static const char *DEF[] = {"127.0.0.1", "8080", "20"}, *arg[3]; int more = 0; for (int i = 0; i < 3; i++) { arg[i] = f == i ? x : v_choose(2) ? DEF[i] : NULL; more += arg[i] != NULL; }
    int rv = bm_exec_blogc_runserver(&c, arg[0], arg[1], arg[2]);
    V_CHECK(ve_nsystem == 1, "one command");
    sw_t w; sw_parse(ve_system_cmd[0], &w);
    V_CHECK(!w.bad && !w.active && v_eq(w.w[0], "r s"), "server program");
    V_CHECK(w.n == 2 + 2 * more, "words of the server command");
    for (int i = 0; i < 3; i++) if (arg[i]) { int at = 0; for (int k = 1; k < w.n - 1; k += 2) if (v_eq(w.w[k], i == 0 ? "-t" : i == 1 ? "-p" : "-m")) { V_CHECK(!at, "an argument is given twice"); at = 1; V_CHECK(v_eqs(w.w[k + 1], arg[i]), "server arguments"); } V_CHECK(at, "a server argument is lost"); }
    V_CHECK(v_eqs(w.w[w.n - 1], f == 3 ? x : "/o ut"), "directory to serve");
    V_CHECK(rv == (st == 2 ? 1 : ST[st] >> 8), "status of the server"); v_reach("server"); (void) calls;
}
int hook(const char *cmd) { (void) cmd; return ve_wait_status; }
void v_main(void) { if (v_param(0) == 0) cmd(); else if (v_param(0) == 1) binary(); else server(); }
