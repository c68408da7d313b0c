// blogc-make as a program: which commands it runs for a blogcfile, what it builds again, what it cleans, when it fails.
#include "env.h"
#include "bcargs.h"
#include "mname.h"
#include "common/utils.h"
extern int blogc_make_main(int, char **);
#define MAXC 120
static struct { args_t a; int k; size_t status; } C[MAXC]; static int nc, nqueries, npipe;
static int pages_all, pages_tag[2];                    // what blogc answers for LAST_PAGE; -1: the variable does not exist
static int fail_at = -1, fail_status, failed, fail_cmd;          // n-th command fails
static long built_sec, built_nsec; static int incomplete;
static const char *outdir = "_build"; static vnode *outnode;
static char *cat(const char *a, const char *b) { v_buf r; v_buf_init(&r, 200); v_buf_s(&r, a); v_buf_s(&r, b); return r.s; }
static char *tagname[2], *postname[2], *pagename[2], *copyname[2]; static int ntags, nposts, npages, ncopy;
static char *digit(int n) { char *r = malloc(3); int i = 0; if (n > 9) r[i++] = '0' + n / 10; r[i++] = '0' + n % 10; r[i] = 0; return r; }
static void answer(int k, int n) { char *t = cat(digit(n), "\n"); ve_pipe_feed(k, t, v_len(t)); }
static int query_k, query_n, watching, fail_next;
static void on_pipe(int k) {
    if (npipe++ % 3) { if (npipe % 3 == 2 && query_k == k - 1 && query_n >= 0) answer(k, query_n); return; }
    size_t e = ve_stdout.n - 1, s = e; V_CHECK(ve_stdout.n > 0 && ve_stdout.s[e] == '\n', "command is not announced");
    while (s > 0 && ve_stdout.s[s - 1] != '\n') s--;
    char *line = malloc(e - s + 1); for (size_t i = s; i < e; i++) line[i - s] = ve_stdout.s[i]; line[e - s] = 0;
    if (nc >= MAXC) v_fail("oracle: too many commands");
    args_t *a = &C[nc].a; words(line, a); C[nc].k = k; query_k = -1;
    ve_wait_status = nc == fail_at ? fail_status : 0; int f = nc == fail_at; if (fail_next) { f = 1; fail_next = 0; ve_wait_status = 1 << 8; }
    V_CHECK(v_eq(a->prog, "blogc") && !a->other, "unexpected program or words");
    if (a->p) {
        V_CHECK(v_eq(a->p, "LAST_PAGE") && !a->o && !a->t && a->l, "unexpected query");
        nqueries++; query_k = k; int n; char *tag = define_of(a, "FILTER_TAG", &n);
        query_n = pages_all;
        if (n) { V_CHECK(n == 1, "tag of a query"); query_n = -2; for (int i = 0; i < ntags; i++) if (v_eqs(tag, tagname[i])) query_n = pages_tag[i]; V_CHECK(query_n != -2, "query for a tag that is not listed"); }
        define_of(a, "FILTER_PAGE", &n); if (!n) query_n = -1;
        if (query_n < 0 && !f) ve_wait_status = 78 << 8;
        if (f) query_n = -1;
    } else {
        V_CHECK(a->o && a->t, "no output or no template"); V_CHECK(!failed || watching, "something is built after a command failed");
        vnode *t = ve_get(a->t, 1); V_CHECK(t && t->type == 'f' && t->len > 0, "the template is missing when it is used");
        if (!f) { ve_remove(ve_file(a->o, "built", 5)); vnode *f = ve_file(a->o, "built", 5); f->sec = built_sec; f->nsec = built_nsec; }
    }
    if (f && !(a->p && fail_status == 78 << 8)) { failed = 1; fail_cmd = nc; }
    nc++;
}
// ---- what has to be built
enum { R_INDEX, R_ATOM, R_ATOMTAGS, R_PAG, R_PAGTAGS, R_POSTS, R_TAGS, R_PAGES, R_COPY, NR };
static const char *RN[] = {"index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"};
typedef struct { int rule, tag, page, item; char *out; int done, made; } exp_t;
static exp_t X[MAXC]; static int nx;
static char *ppp, *appp, *html_ext, *bprefix, *atomtmpl, *entry, *dates; static int sort, asc, aasc, dev;
static const char *cdata = "some data";
static char *abs_(const char *p) { return p[0] == '/' ? cat(p, "") : cat("/vfs/s/", p); }
static void ex(int rule, int tag, int page, int item, char *out) { if (!out) return; if (nx >= MAXC) v_fail("oracle: too many outputs"); X[nx].rule = rule; X[nx].tag = tag; X[nx].page = page; X[nx].item = item; X[nx].out = abs_(out); X[nx].done = X[nx].made = 0; nx++; }
static long num(const char *s) { return !s ? 10 : s[0] == '-' ? -(long) (s[1] - '0') : s[0] - '0'; }
static char *name(const char *prefix, const char *f, const char *ext) { return expect(outdir, bprefix, prefix, f, ext); }
static void expected(void) {
    nx = 0; char *he = html_ext ? html_ext : "/index.html";
    if (nposts) {
        if (num(ppp)) { ex(R_INDEX, -1, -1, -1, name("", NULL, he)); for (int i = 0; i < ntags; i++) ex(R_TAGS, i, -1, -1, name("tag", tagname[i], he)); }
        if (num(appp)) { ex(R_ATOM, -1, -1, -1, name("atom", NULL, ".xml")); for (int i = 0; i < ntags; i++) ex(R_ATOMTAGS, i, -1, -1, name("atom", tagname[i], ".xml")); }
        if (num(ppp) > 0) {
            for (int p = 1; p <= pages_all; p++) ex(R_PAG, -1, p, -1, name("page", digit(p), he));
            for (int i = 0; i < ntags; i++) for (int p = 1; p <= pages_tag[i]; p++) ex(R_PAGTAGS, i, p, -1, name(cat(cat("tag/", tagname[i]), "/page"), digit(p), he));
        }
        for (int i = 0; i < nposts; i++) ex(R_POSTS, -1, -1, i, name("post", postname[i], he));
    }
    for (int i = 0; i < npages; i++) ex(R_PAGES, -1, -1, i, expect(outdir, NULL, NULL, pagename[i], he));
    for (int i = 0; i < ncopy; i++) ex(R_COPY, -1, -1, i, cat(cat(outdir, "/"), copyname[i]));
}
static char *src_path(int page, int i) { return abs_(expect("content", page ? NULL : bprefix, page ? NULL : "post", page ? pagename[i] : postname[i], ".txt")); }
static void check_cmd(int c, exp_t *x) {
    args_t *a = &C[c].a; int nd = 0, r = x->rule, list = r <= R_PAGTAGS || r == R_TAGS, at = r == R_ATOM || r == R_ATOMTAGS;
#define D(k, v) do { V_CHECK(defined(a, k, v), "variable of a command"); nd++; } while (0)
    D("AUTHOR_NAME", "A N"); D("AUTHOR_EMAIL", "e@x"); D("SITE_TITLE", "T"); D("SITE_TAGLINE", "L"); D("BASE_DOMAIN", "http://x");
    if (ntags) D("MAKE_TAGS", ntags == 2 ? cat(cat(tagname[0], " "), tagname[1]) : tagname[0]);
    if (dev) { D("MAKE_ENV_DEV", "1"); D("MAKE_ENV", "dev"); }
    D("MAKE_RULE", RN[r]); D("MAKE_TYPE", at ? "atom" : r == R_PAGES ? "page" : "post");
    D("DATE_FORMAT", at ? "%Y-%m-%dT%H:%M:%SZ" : dates ? dates : "%b %d, %Y, %I:%M %p GMT");
    if (list) {
        char *pp = at ? appp : ppp;
        if (num(pp) >= 0 || r == R_PAG || r == R_PAGTAGS) { D("FILTER_PAGE", x->page > 0 ? digit(x->page) : "1"); D("FILTER_PER_PAGE", pp ? pp : "10"); }
        if (x->tag >= 0) D("FILTER_TAG", tagname[x->tag]);
    }
    if (r != R_PAGES && r != R_POSTS) { int up = at ? aasc : asc; if (sort) D("FILTER_SORT", "1"); if (sort ? up : !up) D("FILTER_REVERSE", "1"); }
    else if (r == R_POSTS) { int n; if (sort && define_of(a, "FILTER_SORT", &n)) nd++; if ((sort ? asc : !asc) && define_of(a, "FILTER_REVERSE", &n)) nd++; }
    if (r == R_POSTS) { D("IS_POST", "1"); D("MAKE_SLUG", postname[x->item]); } else if (r == R_PAGES) D("MAKE_SLUG", pagename[x->item]);
    V_CHECK(a->nd == nd, "a command defines something else");
    V_CHECK(a->l == list && a->i == 1, "-l and -i");
    V_CHECK(v_eqs(a->e, list && !at && entry ? "/vfs/s/content/" : NULL) || (list && !at && entry && v_eqs(a->e, abs_(expect("content", bprefix, NULL, entry, ".txt")))), "listing entry");
    if (!at) V_CHECK(v_eq(a->t, "/vfs/s/templates/main.tmpl"), "template"); else if (atomtmpl) V_CHECK(v_eqs(a->t, cat("/vfs/s/templates/", atomtmpl)), "atom template");
    v_buf in; v_buf_init(&in, 200);
    if (list) for (int i = 0; i < nposts; i++) { v_buf_s(&in, src_path(0, i)); v_buf_c(&in, '\n'); } else { v_buf_s(&in, src_path(r == R_PAGES, x->item)); v_buf_c(&in, '\n'); }
    ve_out *w = ve_pipe_written(C[c].k);
    V_CHECK(w->n == in.n && v_eqn(w->s, in.s, in.n), "sources of a command");
}
static void settings(void) {
    v_buf b; v_buf_init(&b, 900);
    v_buf_s(&b, "[global]\nAUTHOR_NAME = A N\nAUTHOR_EMAIL = e@x\nSITE_TITLE = T\nSITE_TAGLINE = L\nBASE_DOMAIN = http://x\n[settings]\n");
#define S(k, v) if (v) { v_buf_s(&b, k " = "); v_buf_s(&b, v); v_buf_c(&b, '\n'); }
    S("posts_per_page", ppp); S("atom_posts_per_page", appp); S("html_ext", html_ext); S("blog_prefix", bprefix); S("atom_template", atomtmpl); S("listing_entry", entry); S("date_format", dates);
    S("posts_sort", sort ? "true" : NULL); S("html_order", asc ? "ASC" : NULL); S("atom_order", aasc ? "asc" : NULL);
#define L(k, n, v) if (n) { v_buf_s(&b, "[" k "]\n"); for (int i = 0; i < n; i++) { v_buf_s(&b, v[i]); v_buf_c(&b, '\n'); } }
    L("posts", nposts, postname); L("pages", npages, pagename); L("tags", ntags, tagname); L("copy", ncopy, copyname);
    ve_text("/vfs/s/blogcfile", b.s);
    for (int i = 0; i < nposts; i++) ve_text(src_path(0, i), "x");
    for (int i = 0; i < npages; i++) ve_text(src_path(1, i), "x");
    for (int i = 0; i < ncopy; i++) ve_text(abs_(copyname[i]), cdata);
    ve_text("/vfs/s/templates/main.tmpl", "t"); if (atomtmpl) ve_text(cat("/vfs/s/templates/", atomtmpl), "t"); if (entry) ve_text(abs_(expect("content", bprefix, NULL, entry, ".txt")), "x");
}
static int run(int n, char **rule) {
    char *argv[8] = {"blogc-make", "-V"}; int argc = 2; if (dev) argv[argc++] = "-D"; for (int i = 0; i < n; i++) argv[argc++] = rule[i];
    argv[argc] = NULL; nc = nqueries = 0;
    int rv = blogc_make_main(argc, argv);
    V_CHECK(ve_open_fds() == 0, "files left open");
    vnode *tmp = ve_get("/tmp", 1); V_CHECK(!tmp || ve_count(tmp) == 0, "a temporary file is left behind");
    return rv;
}
static char *ch(const char *pre, int sym) { char *r = cat(pre, "x"); if (sym) { size_t n = v_len(pre); v_sym(r + n, 1); v_assume(v_in_set(r[n], "x'$-Z8") ); } return r; }
static void judge(unsigned want /* rules that run */, int (*need)(exp_t *)) {   // every command is expected, everything expected is built exactly once
    for (int c = 0; c < nc; c++) {
        if (C[c].a.p) continue;
        int m = -1; for (int i = 0; i < nx; i++) if (X[i].rule != R_COPY && v_eqs(C[c].a.o, X[i].out)) m = i;
        V_CHECK(m >= 0, "something is built that should not exist");
        V_CHECK(want >> X[m].rule & 1, "something is built that was not asked for"); V_CHECK(!need || need(&X[m]), "something up to date is built again"); V_CHECK(!X[m].done, "the same file is built twice");
        X[m].done = 1; check_cmd(c, &X[m]);
    }
    for (int i = 0; i < nx; i++) {
        if (!(want >> X[i].rule & 1) || (need && !need(&X[i]))) continue;
        if (X[i].rule == R_COPY) { vnode *f = ve_get(X[i].out, 1); V_CHECK(f && f->len == 9 && v_eqn(f->data, "some data", 9), "a file is not copied"); }
        else V_CHECK(X[i].done, "something is not built");
    }
}
static int many;
static void config(int full) {      // one dimension away from a site with everything
    int dim = full ? v_choose(15) : 0;
    nposts = 2; npages = 1; ntags = 1; ncopy = 1; pages_all = 1; pages_tag[0] = 1; pages_tag[1] = 1;
    postname[0] = ch("p", dim == 0); postname[1] = "q"; pagename[0] = ch("a", dim == 1); pagename[1] = "z"; tagname[0] = ch("t", dim == 2); tagname[1] = "u"; copyname[0] = ch("c", dim == 3); copyname[1] = "d/e";
    if (dim == 4) nposts = v_choose(3); if (dim == 5) npages = v_choose(3); if (dim == 6) ntags = v_choose(3); if (dim == 7) ncopy = v_choose(3);
    if (dim == 8) { static char *P[] = {"0", "1", "-1"}; ppp = P[v_choose(3)]; } if (dim == 9) { static char *P[] = {"0", "2", "-1"}; appp = P[v_choose(3)]; }
    if (dim == 10) { html_ext = v_choose(2) ? ".html" : NULL; bprefix = v_choose(2) ? ch("b", 1) : NULL; npages = 2; if (bprefix) pagename[1] = "index"; }
    if (dim == 11) { sort = v_choose(2); asc = v_choose(2); aasc = v_choose(2); dates = v_choose(2) ? "%Y" : NULL; }
    if (dim == 12) { atomtmpl = v_choose(2) ? "at.tmpl" : NULL; entry = v_choose(2) ? "ent" : NULL; dev = v_choose(2); }
    if (dim == 14) { html_ext = v_choose(2) ? "" : NULL; ntags = 2; pages_all = 9 + 2 * v_choose(2); pages_tag[0] = 10; pages_tag[1] = v_choose(2) * 11; many = 1; npages = ncopy = 0; }
    if (dim == 13) { ntags = 2; pages_all = v_choose(4) - 1; pages_tag[0] = v_choose(4) - 1; pages_tag[1] = v_choose(3) - 1; }
}
static void start(void) { ve_pipe_hook = on_pipe; ve_time = built_sec = 1700000100; built_nsec = 0; ve_mkdir("/tmp"); ve_chdir("/vfs/s"); settings(); expected(); }
static void fresh(void) {
    config(v_param(1) != 1); start(); unsigned want = (1 << NR) - 1; char *rule[2]; int n = 0, bad = 0;
    if (many) { rule[n++] = "pagination_tags"; rule[n++] = "pagination"; want = 1 << R_PAG | 1 << R_PAGTAGS; }     // without an extension the other rules need directories of the same names
    else if (v_param(1)) {       // rules asked for
        want = 0; n = 1 + v_choose(2);
        for (int i = 0; i < n; i++) {
            int k = v_choose(NR + 3);
            if (k < NR) { want |= 1 << k; int form = i ? 0 : v_choose(3); rule[i] = form == 0 ? cat(RN[k], "") : form == 1 ? cat(RN[k], ":a=b,c=d") : cat(RN[k], ":x"); }
            else { rule[i] = k == NR ? "all" : k == NR + 1 ? "nope" : "al"; if (k == NR) want = (1 << NR) - 1; else bad = 1; }
        }
    }
    int rv = run(n, rule);
    judge(want, NULL);
    for (int i = 0; i < nx; i++) if (!(want >> X[i].rule & 1)) { vnode *n = ve_get(X[i].out, 1); V_CHECK(!n || n->type == 'd', "something is built that was not asked for"); }
    V_CHECK((rv != 0) == bad, "status"); v_log_i(nc); v_reach(bad ? "unknown rule" : "built");
}
// ---- second run
static int touched, t_index; static long t_sec, t_nsec;
enum { T_NONE, T_SETTINGS, T_MAIN, T_ENTRY, T_ATOM, T_POST, T_PAGE, T_COPY, T_OUT, NT };
static int uses(exp_t *x) {
    int r = x->rule, list = r <= R_PAGTAGS || r == R_TAGS, at = r == R_ATOM || r == R_ATOMTAGS;
    switch (touched) {
        case T_SETTINGS: return 1;
        case T_MAIN: return !at && r != R_COPY;
        case T_ENTRY: return entry && list && !at;
        case T_ATOM: return at && atomtmpl;
        case T_POST: return list || (r == R_POSTS && x->item == t_index);
        case T_PAGE: return r == R_PAGES && x->item == t_index;
        case T_COPY: return r == R_COPY && x->item == t_index;
    }
    return 0;
}
static int need2(exp_t *x) { if (touched == T_OUT) return x == &X[t_index]; return uses(x) && (t_sec > built_sec || (t_sec == built_sec && t_nsec > built_nsec)); }
static void again(void) {
    config(0); ntags = 2; npages = 2; ncopy = 2; entry = v_choose(2) ? "ent" : NULL; atomtmpl = v_choose(2) ? "at.tmpl" : NULL; start();
    long T = 1700000100; v_sym(&built_nsec, sizeof built_nsec); v_assume((built_nsec >= 0) & (built_nsec < 1000000000));
    V_CHECK(run(0, NULL) == 0, "first build"); judge((1 << NR) - 1, NULL);
    for (int i = 0; i < nx; i++) { X[i].done = 0; vnode *f = ve_get(X[i].out, 1); f->sec = T; f->nsec = built_nsec; if (X[i].rule == R_COPY) { f->len = 0; } }
    touched = v_choose(NT); t_index = touched == T_POST || touched == T_PAGE || touched == T_COPY ? v_choose(2) : touched == T_OUT ? v_choose(nx) : 0;
    v_sym(&t_sec, sizeof t_sec); v_sym(&t_nsec, sizeof t_nsec); v_assume((t_sec > 0) & (t_sec < 4000000000) & (t_nsec >= 0) & (t_nsec < 1000000000));
    char *f = touched == T_SETTINGS ? "/vfs/s/blogcfile" : touched == T_MAIN ? "/vfs/s/templates/main.tmpl" : touched == T_ENTRY ? (entry ? "/vfs/s/content/ent.txt" : NULL) : touched == T_ATOM ? (atomtmpl ? "/vfs/s/templates/at.tmpl" : NULL)
        : touched == T_POST ? src_path(0, t_index) : touched == T_PAGE ? src_path(1, t_index) : touched == T_COPY ? abs_(copyname[t_index]) : NULL;
    if (f) ve_mtime(ve_get(f, 1), t_sec, t_nsec); else if (touched == T_ENTRY || touched == T_ATOM) touched = T_NONE;
    if (touched == T_OUT) ve_remove(ve_get(X[t_index].out, 1));
    ve_time = built_sec = T + 50;       // times of what is built now do not matter
    long keep = built_sec; built_sec = T; int any = 0; for (int i = 0; i < nx; i++) any |= need2(&X[i]);
   
    int rv = run(0, NULL); V_CHECK(rv == 0, "second build");
    judge((1 << NR) - 1, need2);
    for (int i = 0; i < nx; i++) if (X[i].rule == R_COPY && !need2(&X[i])) V_CHECK(ve_get(X[i].out, 1)->len == 0, "something up to date is copied again");
    v_log_i(nc); v_reach(any ? "rebuilt" : "current");
}
// ---- clean
static vnode *user[3]; static int nuser; static int cleaning;
static int is_output(vnode *n) { for (int i = 0; i < nx; i++) if (ve_get(X[i].out, 0) == n) return 1; return 0; }
static void guard(int op, vnode *n, const char *path) {
    if (!cleaning || (n->parent && v_eq(n->parent->name, "tmp")) || v_eq(n->name, "tmp")) return;
    if (op == VO_UNLINK) { V_CHECK(is_output(n), "clean removes a file it did not build"); return; }
    if (op == VO_RMDIR) { V_CHECK(ve_inside(n, outnode) && ve_count(n) == 0, "clean removes a directory outside of the output directory"); return; }
    v_fail("clean changes something"); (void) path;
}
static int has_file(vnode *d) { for (vnode *c = d->child; c; c = c->next) if (c->type != 'd' || has_file(c)) return 1; return 0; }
static int empties(vnode *d) { int n = 0; for (vnode *c = d->child; c; c = c->next) if (c->type == 'd') n += ve_count(c) == 0 || empties(c); return n; }
static void clean(void) {
    config(0); int o = v_choose(6); static char *O[] = {NULL, "out", "out//", "a/b", "/vfs/o", ""}; static const char *OD[] = {"_build", "out", "out", "a/b", "/vfs/o", "_build"};
    outdir = OD[o]; if (O[o]) ve_setenv("OUTPUT_DIR", O[o]);
    html_ext = v_choose(2) ? ".html" : NULL; bprefix = v_choose(2) ? "b" : NULL; copyname[0] = "c"; copyname[1] = "d/e"; ncopy = 2; start();
    if (o == 4) ve_text("/vfs/keep", "k"); if (o == 3) { if (v_choose(2)) ve_text("/vfs/s/a/keep", "k"); }
    int built = v_choose(3); char *some[] = {"posts", "copy"};      // everything, nothing, some rules
    if (built != 1) { V_CHECK(run(built ? 2 : 0, some) == 0, "build"); }
    char *out = abs_(outdir);
    static const char *U[] = {"/mine", "/post/mine", "/d/mine", "/tag/zz/mine"};
    int u = built == 1 ? 4 : v_choose(5); if (u < 4) user[nuser++] = ve_text(cat(out, U[u]), "mine");
    int gone = v_choose(2); if (gone && built == 0) { vnode *f = ve_get(X[0].out, 1); ve_remove(f); }
    outnode = ve_get(out, 1);
    ve_hook = guard; cleaning = 1; char *r[] = {"clean"}; int rv = run(1, r); ve_hook = NULL;
    V_CHECK(rv == 0, "clean fails");
    for (int i = 0; i < nx; i++) V_CHECK(!ve_get(X[i].out, 1), "clean leaves a built file");
    for (int i = 0; i < nuser; i++) V_CHECK(ve_get(cat(out, U[u]), 1) == user[i] && user[i]->len == 4, "clean removes a file of the user");
    vnode *left = ve_get(out, 1);
    if (built != 1) { if (nuser) { V_CHECK(left != NULL, "output directory"); V_CHECK(!empties(left) || gone, "clean leaves empty directories"); } else if (!gone) V_CHECK(!left, "clean leaves the empty output directory"); }
    v_log_i(rv); v_reach(nuser ? "kept" : left ? "left" : "gone");
}
// ---- a command fails
static void failing(void) {
    config(0); ntags = 1 + v_choose(2); start(); pages_all = v_choose(2);
    expected(); 
    { unsigned char st[2]; v_sym(st, 2); int sig = v_choose(2); if (sig) { v_assume((st[0] >= 1) & (st[0] <= 64)); st[1] &= 0x80; fail_status = st[0] | st[1]; } else { v_assume(st[0] != 0); fail_status = st[0] << 8; } }
    int sub = v_choose(3); fail_at = v_choose(14); char *r[2] = {"pagination", "pages"};
    int rv = run(sub == 2 ? 2 : sub, r); 
    if (!failed) { V_CHECK(rv == 0, "a build without a failure fails"); v_reach("no failure"); return; }
    if (C[fail_cmd].a.p && fail_status == 78 << 8) { v_end(); }
    V_CHECK(rv != 0 && rv != 127, "a build with a failed command succeeds"); V_CHECK(ve_stderr.n > 0, "failure without a message");
    v_log_i(rv); v_reach(C[fail_cmd].a.p ? "query failed" : "failed");
}
// ---- watching: whatever happened before, the output ends up as a fresh build of the final state
extern void bm_reloader_stop(int);
static int steps, settle, broken;
static vnode *touch(const char *p) { vnode *f = ve_get(p, 1); f->sec = ve_time; f->nsec = ve_time_nsec; return f; }
static void blogcfile(void) { int had = ve_get(src_path(0, 1), 1) != NULL; settings(); if (!had && nposts > 1) touch(src_path(0, 1)); touch("/vfs/s/blogcfile"); broken = 0; }
static unsigned now_ = 8;       // time in steps; p2: 4 to a second, one nanosecond apart
static void later(void) { unsigned short t; v_sym(&t, sizeof t); v_assume((unsigned) t > now_); now_ = t; ve_time = v_param(2) ? now_ >> 2 : now_; ve_time_nsec = v_param(2) ? now_ & 3 : 0; }
static long stamp(vnode *f) { return f->sec << 2 | f->nsec; }
static void old(vnode *d) { d->sec = 1; d->nsec = 0; for (vnode *c = d->child; c; c = c->next) old(c); }
static void on_sleep(void) {
    later();
    if (steps-- > 0) switch (v_choose(entry ? 12 : 9)) {
        case 0: break;
        case 1: ve_text("/vfs/s/blogcfile", "[global]\nfoo\n"); touch("/vfs/s/blogcfile"); broken = 1; break;
        case 2: ve_text("/vfs/s/blogcfile", "[posts]\np\n"); touch("/vfs/s/blogcfile"); broken = 1; break;
        case 3: nposts = 3 - nposts; blogcfile(); break;
        case 4: touch(src_path(0, 0)); break;
        case 5: touch("/vfs/s/templates/main.tmpl"); break;
        case 6: cdata = "different"; ve_text("/vfs/s/c", cdata); touch("/vfs/s/c"); break;
        case 7: fail_next = 1; touch("/vfs/s/templates/main.tmpl"); break;
        case 8: if (ve_get("/vfs/s/blogcfile", 1)) ve_remove(ve_get("/vfs/s/blogcfile", 1)); broken = 1; break;
        case 9: touch("/vfs/s/content/ent.txt"); break;
        case 10: touch("/vfs/s/templates/at.tmpl"); break;
        case 11: touch(src_path(1, 0)); break;
    } else if (broken) { if (!ve_get("/vfs/s/blogcfile", 1)) ve_text("/vfs/s/blogcfile", ""); blogcfile(); }
    else if (settle++ >= 2) bm_reloader_stop(0);
    later(); built_sec = ve_time; built_nsec = ve_time_nsec;
}
static long of(const char *p) { return stamp(ve_get(p, 1)); }
static void watch(void) {
    steps = v_param(1); nposts = npages = ncopy = 1; postname[0] = "p"; postname[1] = "q"; pagename[0] = "a"; copyname[0] = "c"; ppp = "-1"; appp = "0"; pages_all = -1;
    if (v_param(2)) { entry = "ent"; atomtmpl = "at.tmpl"; appp = "-1"; dev = 1; }
    later(); start(); later(); old(ve_get("/vfs", 1)); built_sec = ve_time; built_nsec = ve_time_nsec; watching = 1; ve_sleep_hook = on_sleep; char *r[] = {"watch"};
    int rv = run(1, r);
    V_CHECK(settle == 3 && rv == 0, "watching ends by itself");
    expected();
    for (int i = 0; i < nx; i++) {
        vnode *f = ve_get(X[i].out, 1); V_CHECK(f != NULL, "something is not built"); long s = stamp(f); int r = X[i].rule, at = r == R_ATOM;
        V_CHECK(s >= of("/vfs/s/blogcfile"), "not built again after the settings changed");
        if (r == R_COPY) { V_CHECK(f->len == 9 && v_eqn(f->data, cdata, 9) && s >= of("/vfs/s/c"), "the copy is not up to date"); continue; }
        if (!at) V_CHECK(s >= of("/vfs/s/templates/main.tmpl"), "not built again after the template changed"); else V_CHECK(s >= of("/vfs/s/templates/at.tmpl"), "the feed is not built again after its template changed");
        if (r == R_INDEX || at) for (int k = 0; k < nposts; k++) V_CHECK(s >= of(src_path(0, k)), "index or feed is older than a post");
        if (r == R_INDEX && entry) V_CHECK(s >= of("/vfs/s/content/ent.txt"), "index is older than its listing entry");
        if (r == R_POSTS || r == R_PAGES) V_CHECK(s >= of(src_path(r == R_PAGES, X[i].item)), "post or page is older than its source");
        int last = -1; for (int c = 0; c < nc; c++) if (!C[c].a.p && v_eqs(C[c].a.o, X[i].out)) last = c;
        V_CHECK(last >= 0, "something is not built"); check_cmd(last, &X[i]);
    }
    v_log_i(nc); v_reach(failed ? "failed" : "watched");
}
// ---- arguments of rules
extern bc_trie_t *bm_rule_parse_args(const char *);
static void rule_args(void) {
    size_t n = v_choose(v_param(1) + 1); char *s = v_strn(n + 1); s[0] = ':';
    bc_trie_t *t = bm_rule_parse_args(s);
    // KEY=VALUE pairs separated by commas; a value ends at the next comma, a piece without '=' is not judged unless it is the last
    size_t i = 1; int bad = 0; char *k[8], *v[8]; int np = 0;
    while (i <= n + 1 && !bad) {
        size_t b = i; while (i <= n && s[i] != ',' && s[i] != '=') i++;
        if (i > n || s[i] != '=') { if (i <= n) v_end(); bad = 1; break; }
        k[np] = malloc(i - b + 1); for (size_t x = b; x < i; x++) k[np][x - b] = s[x]; k[np][i - b] = 0;
        b = ++i; while (i <= n && s[i] != ',') i++;
        v[np] = malloc(i - b + 1); for (size_t x = b; x < i; x++) v[np][x - b] = s[x]; v[np][i - b] = 0;
        np++; if (i > n) break;
        i++;
    }
    V_CHECK((t == NULL) == bad, "rule arguments are accepted exactly when they are KEY=VALUE pairs");
    if (bad) { v_reach("bad arguments"); return; }
    for (int x = 0; x < np; x++) {
        int later = 0; for (int y = x + 1; y < np; y++) later |= v_eqs(k[x], k[y]);
        if (!later) V_CHECK(v_eqs(bc_trie_lookup(t, k[x]), v[x]), "value of a rule argument");
    }
    v_log_i(np); v_reach("arguments");
}
static int serve(const char *cmd) { (void) cmd; return 0; }
static int thread(void *(*fn)(void *), void *arg) { fn(arg); return 0; }
static void runserver(void) {
    nposts = 1; postname[0] = "p"; ppp = "-1"; appp = "0"; start(); ve_system_hook = serve; ve_thread_hook = thread;
    static const char *K[] = {"host", "port", "threads"}, *O[] = {"-t", "-p", "-m"}; char *val[3] = {0}; v_buf b; v_buf_init(&b, 100); v_buf_s(&b, "runserver"); int n = 0;
    for (int i = 0; i < 3; i++) if (v_choose(2)) { int lit = v_choose(2); static const char *DEF[] = {"127.0.0.1", "8080", "20"}; val[i] = lit ? cat(DEF[i], "") : v_strn(v_param(1)); for (int j = 0; val[i][j]; j++) v_assume(val[i][j] != ','); v_buf_c(&b, n++ ? ',' : ':'); v_buf_s(&b, K[i]); v_buf_c(&b, '='); v_buf_s(&b, val[i]); }
    char *r[] = {b.s}; run(1, r);
    V_CHECK(ve_nsystem == 1, "one server is run"); sw_t w; sw_parse(ve_system_cmd[0], &w);
    V_CHECK(!w.bad && !w.active && w.n == 2 + 2 * n && v_eq(w.w[0], "blogc-runserver") && v_eq(w.w[w.n - 1], "/vfs/s/_build"), "server command");
    for (int i = 0, k = 1; i < 3; i++) if (val[i]) { V_CHECK(v_eq(w.w[k], O[i]) && v_eqs(w.w[k + 1], val[i]), "server argument"); k += 2; }
    v_reach("server");
}
// ---- serving: the server runs in a thread of its own while the site is watched
static int srv, srv_rounds, srv_status, srv_after, srv_cmds, srv_edit, early, srv_runs;
static int server(const char *cmd) {
    (void) cmd; srv = 1; int r = srv_rounds; while (r-- > 0) ve_thread_switch(0);
    if (srv_status == 2) ve_deliver(2);                    // ^C goes to all of them
    srv = 2; srv_cmds = nc; srv_runs++; return srv_status;
}
static int srv_rv(void) { int st = srv_status == 2 ? 130 : srv_status >> 8; return st == 127 ? 1 : st; }
static void srv_sleep(void) {
    ve_time += 2; built_sec = ve_time; early++;
    if (srv == 2 && !ve_thread_live()) { srv_after++; V_CHECK(srv_after <= 2, "it does not end when the server has ended"); }
    V_CHECK(early < 60, "it goes on without a server");
    if (srv == 1 && srv_edit == 2) { srv_edit = 9; touch("/vfs/s/blogcfile"); }
}
static void srv_killed(int s) { V_CHECK(s == 2 && srv_rv() == 130, "killed by a signal it was not sent"); v_log_i(nc); v_reach("killed"); }
static int srv_create(void *(*fn)(void *), void *arg) { (void) fn; (void) arg; if (srv_edit == 1) touch("/vfs/s/blogcfile"); return 0; }
static void srv_yield(const char *what) { if (v_eq(what, "stat") && !srv) ve_thread_yield(); }
static void serving(void) {
    static const int R[] = {0, 1, 2, 9};
    nposts = 1; postname[0] = "p"; ppp = "-1"; appp = "0"; start(); old(ve_get("/vfs", 1)); ve_time += 100; built_sec = ve_time; watching = 1;
    unsigned char st_; if (v_choose(2)) { v_sym(&st_, 1); srv_status = st_ << 8; } else srv_status = 2; srv_rounds = R[v_choose(4)]; srv_edit = v_choose(4); if (srv_edit == 3) fail_next = 1;
    v_opaque_ints = 1; ve_threads = ve_signals = 1; ve_preempt = v_param(1); ve_lazy = v_param(2); ve_system_hook = server; ve_sleep_hook = srv_sleep; ve_killed_hook = srv_killed; ve_thread_hook = srv_create; ve_yield_hook = srv_yield; ve_signal_default(2, 0);
    char *r[] = {"runserver:port=81", "runserver:port=81"}; int two = v_param(3), rv = run(1 + two, r); ve_yield_hook = NULL; if (two && srv_status == 0) { V_CHECK(ve_nsystem == 2 && srv_runs == 2, "the second server is run, to its end"); v_reach("again"); return; }
    V_CHECK(ve_nsystem == 1 && (srv == 2 || (srv == 1 && srv_status == 2)), "one server is run, to its end"); sw_t w; sw_parse(ve_system_cmd[0], &w);
    V_CHECK(!w.bad && !w.active && w.n == 4 && v_eq(w.w[0], "blogc-runserver") && v_eq(w.w[1], "-p") && v_eq(w.w[2], "81") && v_eq(w.w[3], "/vfs/s/_build"), "server command");
    V_CHECK(rv == srv_rv(), "its status is the status of the server");
    if (srv_rounds == 9) {
        if (!srv_edit) judge((1 << NR) - 1, NULL);
        else { expected(); for (int i = 0; i < nx; i++) { vnode *f = ve_get(X[i].out, 1); V_CHECK(f != NULL, "something is not built"); V_CHECK(stamp(f) >= of("/vfs/s/blogcfile"), "not built again after the settings changed"); } }
        v_reach("built");
    }
    v_log_i(rv); v_reach(rv == 0 ? "ended" : rv == 130 ? "interrupted" : "failed");
}
// watching is ended by ^C
static int int_at, int_done;
static void int_sleep(void) { ve_time += 2; built_sec = ve_time; V_CHECK(!int_done, "it goes on after it was interrupted"); if (int_at-- == 0) { int_done = 1; ve_deliver(2); } }
static void int_killed(int s) { V_CHECK(s == 2 && int_done, "killed by a signal it was not sent"); v_log_i(nc); v_reach("killed"); }
static void interrupted(void) {
    nposts = 1; postname[0] = "p"; ppp = "-1"; appp = "0"; start(); old(ve_get("/vfs", 1)); ve_time += 100; built_sec = ve_time; watching = 1; int_at = v_choose(3); fail_next = v_choose(2); ve_lazy = v_param(1);
    ve_signals = 1; ve_sleep_hook = int_sleep; ve_killed_hook = int_killed; ve_signal_default(2, 0);
    char *r[] = {"watch", "all"}; int rv = run(2, r); V_CHECK(int_done, "watching ends by itself"); V_CHECK(rv == 130, "status after an interruption"); v_reach("status");
}
void v_main(void) { switch (v_param(0)) { case 0: fresh(); break; case 1: again(); break; case 2: clean(); break; case 3: failing(); break; case 4: watch(); break; case 5: rule_args(); break; case 7: serving(); break; case 8: interrupted(); break; default: runserver(); } }
