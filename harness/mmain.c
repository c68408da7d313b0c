// blogc-make's command line: which blogcfile is used, what is refused, what is run.
#include "env.h"
#include "bcargs.h"
#ifdef MAKE_EMBEDDED                    // blogc with blogc-make inside
extern int blogc_main(int, char **);
#define PROGRAM blogc_main
#define PROGRAM_M 1
#else
extern int blogc_make_main(int, char **);
#define PROGRAM blogc_make_main
#define PROGRAM_M 0
#endif
static char *cat(const char *a, const char *b) { v_buf r; v_buf_init(&r, 200); v_buf_s(&r, a); v_buf_s(&r, b); return r.s; }
static int dev, verbose, info, bad, nrules, pages, which, refused, exists = 1; static const char *slug, *dir;
static void judge(int ran) {
    int run = !info && !bad && !refused && exists && (pages || !nrules);
    V_CHECK(run == ran, ran ? "something is built that was not asked for" : "nothing is built");
}
static void command(const char *f, char *const *a) {
    judge(1); V_CHECK(v_eq(f, "/bin/sh") && v_eq(a[1], "-c"), "how commands are run");
    args_t w; words(a[2], &w); V_CHECK(v_eq(w.prog, "blogc") && !w.other && !w.p && !w.l, "the program");
    int n; V_CHECK(dev ? defined(&w, "MAKE_ENV", "dev") && defined(&w, "MAKE_ENV_DEV", "1") : !define_of(&w, "MAKE_ENV", &n) && !define_of(&w, "MAKE_ENV_DEV", &n), "-D");
    V_CHECK(defined(&w, "WHICH", slug) && defined(&w, "MAKE_SLUG", slug), "the blogcfile that is read");
    char *end = cat(cat("/_build/", slug), "/index.html"); size_t l = v_len(w.o), e = v_len(end); V_CHECK(l > e && v_eq(w.o + l - e, end), "name of the output");
    char *root = cat(w.o, ""); root[l - e] = 0; vnode *r = ve_get(root, 1); V_CHECK(r && r == ve_get(dir, 1), "outputs are made beside the blogcfile");
    // what is announced
    ve_stdout.n ? 0 : v_fail("the command is not announced"); int cmd = 0; for (size_t i = 0; i + 8 < ve_stdout.n; i++) if (v_eqn(ve_stdout.s + i, "MAKE_ENV", 4)) cmd = 1;
    V_CHECK(cmd == verbose, "the command is shown in verbose mode only"); v_reach("runs");
}
static void site(const char *d, const char *file, const char *s, const char *rfm) {
    v_buf b; v_buf_init(&b, 300); v_buf_s(&b, "[global]\nWHICH = "); v_buf_s(&b, s); v_buf_s(&b, "\nAUTHOR_NAME = A\nAUTHOR_EMAIL = e\nSITE_TITLE = T\nSITE_TAGLINE = L\nBASE_DOMAIN = http://x\n[settings]\nx = y\n"); if (rfm) { v_buf_s(&b, "run_from_make = "); v_buf_s(&b, rfm); v_buf_s(&b, "\n"); }
    v_buf_s(&b, "[pages]\n"); v_buf_s(&b, s); v_buf_s(&b, "\n"); ve_text(cat(cat(d, "/"), file), b.s); ve_text(cat(cat(cat(d, "/content/"), s), ".txt"), "x"); ve_text(cat(d, "/templates/main.tmpl"), "t");
}
void v_main(void) {
    char *rfm = NULL; int yes = 0, mf;
    if (v_param(1)) {
        rfm = v_str_of(1, v_param(1), "YyEeSsTtRrUuOoNn10"); mf = v_choose(3); static const char *Y[] = {"y", "yes", "true", "on", "1"}; size_t l = v_len(rfm);
        for (int k = 0; k < 5; k++) if (l == v_len(Y[k])) { int same = 1; for (size_t i = 0; i < l; i++) same &= (rfm[i] | (Y[k][0] == '1' ? 0 : 32)) == Y[k][i]; yes |= same; }
        if (yes) yes = 1;
    } else { int k = v_choose(3); rfm = k ? "true" : NULL; yes = k > 0; mf = 2 * (k == 2); }
    if (mf) ve_setenv("MAKEFLAGS", mf == 1 ? "" : "-j"); refused = yes && !mf;
    site("/vfs/s", "blogcfile", "a", rfm); site("/vfs/t", "o.ini", "b", rfm); site("/vfs/t", "blogcfile", "c", rfm); ve_mkdir("/tmp"); ve_chdir("/vfs/s"); slug = "a"; dir = "/vfs/s";
    char *av[12]; int ac = 0; av[ac++] = PROGRAM_M ? "blogc" : "blogc-make"; if (PROGRAM_M) av[ac++] = "-m"; int n = v_choose(v_param(0) + 1);
    for (int i = 0; i < n && !info && !bad; i++) switch (v_choose(8)) {
        case 0: av[ac++] = "-D"; dev = 1; break;
        case 1: av[ac++] = "-V"; verbose = 1; break;
        case 2: case 3: {
            static const char *F[] = {"/vfs/t/o.ini", "../t/o.ini", "blogcfile", "none", "../t/blogcfile", "/vfs/t", "/vfs/s/../t/o.ini", "-x"}; int k = v_choose(8); if (v_choose(2)) av[ac++] = cat("-f", F[k]); else { av[ac++] = "-f"; av[ac++] = (char *) F[k]; }
            exists = 1; if (k == 2) { slug = "a"; dir = "/vfs/s"; } else if (k == 4) { slug = "c"; dir = "/vfs/t"; } else if (k == 3 || k == 5 || k == 7) exists = 0; else { slug = "b"; dir = "/vfs/t"; } break; }
        case 4: { char *o = v_strn(1); v_assume((o[0] != 'h') & (o[0] != 'v') & (o[0] != 'D') & (o[0] != 'V') & (o[0] != 'f') & (!PROGRAM_M | (o[0] != 'm'))); av[ac++] = cat("-", o); bad = 1; break; }
        case 5: av[ac++] = v_choose(2) ? "-h" : "-v"; info = 1; break;
        case 6: av[ac++] = v_choose(2) ? "pages" : "all"; nrules++; pages = 1; break;
        case 7: av[ac++] = "posts"; nrules++; break;
    }
    if (bad) av[ac++] = "pages";
    av[ac] = NULL; ve_fork_ret = 0; ve_exec_hook = command;
    int rv = PROGRAM(ac, av);
    judge(0); int ok = info || (!bad && !refused && exists); V_CHECK((rv == 0) == ok, "status"); v_log_i(rv);
    V_CHECK(ok || ve_stderr.n, "a failure without a message"); if (info) V_CHECK(ve_stdout.n > 0, "-h and -v print something"); V_CHECK(ve_open_fds() == 0, "files left open");
    v_reach(info ? "info" : bad ? "bad option" : !exists ? "no blogcfile" : refused ? "refused" : "nothing to do");
}
