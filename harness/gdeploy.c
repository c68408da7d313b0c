// blogc-git-receiver as a git hook: deploys (0), refs of a push (1), mirroring (2).
#include "env.h"
#include "shellwords.h"
#include "common/utils.h"
int blogc_git_receiver_main(int argc, char **argv);
bc_trie_t *bgr_pre_receive_parse(const char *input, size_t input_len);
static char *dup_(const char *s) { v_buf b; v_buf_init(&b, v_len(s)); v_buf_s(&b, s); return b.s; }
static char *cat(const char *a, const char *b) { v_buf x; v_buf_init(&x, v_len(a) + v_len(b)); v_buf_s(&x, a); v_buf_s(&x, b); return x.s; }
static int starts(const char *s, const char *p) { size_t i = 0; while (p[i]) { if (s[i] != p[i]) return 0; i++; } return 1; }
static int contains(const char *s, size_t n, const char *t) { size_t m = v_len(t); for (size_t i = 0; i + m <= n; i++) if (v_eqn(s + i, t, m)) return 1; return 0; }

// ---- deploy
static const char *base, *builds, *repo, *sym, *ref; static char *symdir;
static vnode *prev, *tmpd, *newd, *bdir; static int kind, content, buildfail, archivefail, built, probes, gm, mk_, bm, checked; static long prevcount; static vnode *tree, *treef, *buildsd, *repon;
static int complete(vnode *d) { if (!d || d->type != 'd') return 0; for (vnode *c = d->child; c; c = c->next) if (v_eq(c->name, "complete")) return 1; return 0; }
// what visitors see: a complete build, the previous one or the new one
static void live(const char *when) { if (!prev && !built) return; vnode *h = ve_get(sym, 1); if (!prev && !h) return; V_CHECK(complete(h), when); }
static void mutated(int op, vnode *n, const char *p) {
    if (op == VO_CHDIR) return;
    live("at some point no complete build is published");
    V_CHECK(!ve_inside(n, tree), "something outside of the builds was changed"); (void) treef;
    char *path = ve_path(n); v_log_i(op);
    int ok = starts(path, "/tmp/blogc_") || v_eq(path, "/tmp") || ve_inside(n, buildsd);
    vnode *sp = ve_get(symdir, 1); if (n == sp || n->parent == sp) ok = 1;       // the link and its replacement
    V_CHECK(ok, "a file that has nothing to do with the build was changed"); (void) p;
    if (n->parent == buildsd && n != newd && n != prev && op != VO_MKDIR) V_CHECK(!complete(n) || op == VO_CREATE, "another build is changed");
}
static void quiet(void (*f)(void)) { void (*h)(int, vnode *, const char *) = ve_hook; unsigned m = ve_fault_mask; ve_hook = NULL; ve_fault_mask = 0; f(); ve_hook = h; ve_fault_mask = m; }
static char *tmpdir;
static void extract(void) {
    tmpd = ve_get(tmpdir, 1); V_CHECK(tmpd && tmpd->type == 'd', "the directory to extract to exists");
    static const char *F[] = {"/blogcfile", "/Makefile", "/GNUMakefile", "/README"}; ve_text(cat(tmpdir, F[kind]), "x");
    if (content & 1) { ve_mkdir(cat(tmpdir, "/d")); ve_text(cat(tmpdir, "/d/f"), "x"); ve_link(cat(tmpdir, "/d/out"), "/vfs/other"); }
    if (content & 2) { ve_link(cat(tmpdir, "/l"), "/vfs/other/f"); ve_link(cat(tmpdir, "/g"), "nowhere"); }
}
static char *outdir;
static void build(void) {
    V_CHECK(!ve_get(outdir, 1), "a build goes to a directory that is not there yet");
    newd = ve_mkdir(outdir); V_CHECK(newd->parent == buildsd, "builds are made in the directory of builds");
    ve_text(cat(outdir, "/index.html"), "x"); if (content & 1) { ve_mkdir(cat(outdir, "/a")); ve_link(cat(outdir, "/a/out"), "/vfs/other"); } if (content & 2) ve_link(cat(outdir, "/g"), "nowhere");
    if (!buildfail) { ve_text(cat(outdir, "/complete"), "x"); }
}
static int system_(const char *cmd) {
    if (starts(cmd, "git archive ")) {
        size_t i = 0; while (cmd[i] && cmd[i] != '|') i++;
        char *a = dup_(cmd); a[i] = 0; sw_t w; sw_parse(a, &w); V_CHECK(!w.bad && !w.active && w.n == 3 && v_eq(w.w[2], ref), "the commit that is deployed"); V_CHECK(cmd[i] == '|', "the content is extracted");
        sw_t t; sw_parse(cmd + i + 1, &t); V_CHECK(!t.bad && !t.active && v_eq(t.w[0], "tar"), "the content is extracted"); tmpdir = NULL; for (int k = 1; k + 1 < t.n; k++) if (v_eq(t.w[k], "-C")) tmpdir = t.w[k + 1];
        V_CHECK(tmpdir && starts(tmpdir, "/tmp/"), "content goes to a temporary directory"); vnode *c = ve_get(".", 1); V_CHECK(c == repon, "git runs in the repository");
        quiet(extract); return archivefail ? 2 << 8 : 0;
    }
    vnode *c = ve_get(".", 1); V_CHECK(c == tmpd, "commands run where the content is");
    if (starts(cmd, "blogc-make -v")) { probes++; return bm ? 0 : 127 << 8; }
    if (starts(cmd, "gmake -f")) return gm ? 0 : 127 << 8;
    if (starts(cmd, "make -f")) return mk_ ? 0 : 127 << 8;
    sw_t w; sw_parse(cmd, &w); V_CHECK(!w.bad && !w.active, "quoting of the command"); outdir = NULL;
    int flag = 0; char *prog = NULL; for (int k = 0; k < w.n; k++) { if (starts(w.w[k], "OUTPUT_DIR=")) outdir = w.w[k] + 11; else if (v_eq(w.w[k], "BLOGC_GIT_RECEIVER=1")) flag = 1; else if (!prog) prog = w.w[k]; }
    V_CHECK(outdir && prog, "the command that builds"); V_CHECK(v_eq(prog, kind == 0 ? "blogc-make" : gm ? "gmake" : "make") && flag == (kind != 0), "the program that builds");
    if (kind == 0) V_CHECK(v_eq(w.w[w.n - 1], "all"), "the rule that is built");
    V_CHECK(starts(outdir, builds) && outdir[v_len(builds)] == '/' && starts(outdir + v_len(builds) + 1, ref) && outdir[v_len(builds) + 1 + v_len(ref)] == '-', "name of the build");
    checked++; quiet(build); if (buildfail == 2 ) { newd = NULL; quiet(build); }
    return buildfail ? 2 << 8 : 0;
}
static int manual, badprev; static char *oldtarget;
static void after(int rv, int exited) {
    ve_hook = NULL; ve_fault_mask = 0;
    vnode *h = ve_get(sym, 1); v_log_i(rv); v_log_i(exited);
    live("in the end no complete build is published");
    int should = ref && kind < 3 && !buildfail && !archivefail && (kind == 0 ? bm : gm || mk_) && !badprev;
    if (!ve_faulted) {
        V_CHECK(!exited, "the hook gives up");
        if (should) { V_CHECK(rv == 0, "a good push is accepted"); V_CHECK(h == newd && newd, "the new build is published"); if (prev) V_CHECK(!ve_get(oldtarget, 0), "the previous build is removed"); V_CHECK(ve_count(buildsd) == prevcount + 1 - (prev != NULL), "nothing else is left in the builds"); v_reach(manual ? "rebuilt" : "deployed"); }
        else {
            V_CHECK(!newd || !newd->parent || !ve_get(outdir, 1), "a failed build is left behind"); V_CHECK(h == prev, "the published build is still the previous one"); V_CHECK(ve_count(buildsd) == prevcount, "nothing else is left in the builds");
            int harmless = (!ref && !manual) || (kind == 3 && !archivefail && ref && !badprev); V_CHECK(harmless ? rv == 0 : rv != 0, harmless ? "nothing to deploy is not a failure" : "a failure is reported"); v_reach(harmless ? "nothing" : "failed");
        }
        V_CHECK(ve_count(ve_get("/tmp", 1)) == 1, "the temporary directory is left behind");
    } else { if (rv == 0 && should) V_CHECK(h == newd && newd, "the new build is published"); if (rv != 0 && !exited) V_CHECK(h == prev || h == newd, "the published build is the previous one"); v_reach("fault"); }
    vnode *s = ve_get(sym, 0); V_CHECK(!s || s->type == 'l', "the published link is a link");
}
static void exited(int st) { V_CHECK(st != 0, "giving up is a failure"); after(st, 1); }
static void deploy(int nf) {
    base = "/h"; int full = v_param(2), lay = full || nf ? -1 : v_choose(4), bk = lay < 0 ? v_choose(2) : lay & 1; builds = bk ? "/srv/b $x'" : "/h/builds"; if (bk) ve_setenv("BLOGC_GIT_RECEIVER_BUILDS_DIR", builds); ve_setenv("HOME", base); repo = "/h/repos/g/r.git"; ve_time = 1234;
    ve_mkdir("/tmp/mine"); tree = ve_mkdir("/vfs/other"); ve_text("/vfs/other/f", "keep"); ve_mkdir("/vfs/other/d"); repon = ve_mkdir(repo); ve_mkdir(cat(repo, "/hooks")); buildsd = ve_mkdir(builds); ve_link(cat(repo, "/hooks/pre-receive"), "/usr/bin/blogc-git-receiver");
    int sk = lay < 0 ? v_choose(nf ? 2 : 4) : lay; sym = sk == 1 ? "/vfs/www/site" : sk == 2 ? "/h/repos/g/r.git/pub/l" : "/h/repos/g/r.git/htdocs"; if (sk == 1) { ve_mkdir("/vfs/www"); } if (sk == 2) ve_mkdir("/h/repos/g/r.git/pub"); symdir = sk == 1 ? "/vfs/www" : sk == 2 ? "/h/repos/g/r.git/pub" : (char *) repo;
    if (sk == 1) ve_text("/h/blogc-git-receiver.ini", "[repo:g/r]\nsymlink=/no\n[repo:g/r.git]\nsymlink=/vfs/www/site\n"); if (sk == 2) ve_text("/h/blogc-git-receiver.ini", "[repo:g/r.git]\nsymlink=pub/l\n"); if (sk == 3) ve_text("/h/blogc-git-receiver.ini", "[repo:r.git]\nsymlink=/no\n[other]\n");
    manual = v_choose(2); ref = manual ? "aa" : v_strn_of(2, "ab"); if (!manual) { ve_setenv("GIT_DIR", "."); if (!nf && !v_choose(4)) ref = NULL; }
    // previous builds: none, one, one of the same commit and second, and two of them; or a link that leads nowhere
    int pk = v_choose(5); const char *N[] = {NULL, "aa-99", "aa-1234", "aa-1234-", "zz-1"};
    if (pk) { oldtarget = cat(cat(builds, "/"), N[pk]); if (pk == 3) { char *o = cat(builds, "/aa-1234"); ve_mkdir(o); ve_text(cat(o, "/complete"), "other"); } if (pk < 4) { prev = ve_mkdir(oldtarget); ve_text(cat(oldtarget, "/complete"), "x"); ve_link(cat(oldtarget, "/out"), "/vfs/other"); ve_mkdir(cat(oldtarget, "/s")); ve_text(cat(oldtarget, "/s/f"), "x"); } ve_link(sym, oldtarget); }
    if (manual) { if (pk == 0 || pk == 4) badprev = 1; else ref = "aa"; }
    prevcount = ve_count(buildsd);
    kind = v_choose(4); content = nf ? 3 : full ? v_choose(4) : 3 * v_choose(2); bm = gm = mk_ = 1; if (!nf) { if (kind == 0) bm = v_choose(2); if (kind == 1) { gm = v_choose(2); mk_ = v_choose(2); } archivefail = !v_choose(4); buildfail = v_choose(2); } else buildfail = v_choose(2);
    static char in[200]; v_buf b; v_buf_init(&b, 190); if (!manual) { if (ref) { int two = lay > 0 ? lay - 1 : v_choose(3); if (two == 1) v_buf_s(&b, "00 cc refs/heads/main\n"); v_buf_s(&b, "00 "); v_buf_s(&b, ref); v_buf_s(&b, two == 2 ? " refs/heads/main\n" : " refs/heads/master\n"); } v_buf_s(&b, "11 dd refs/heads/x\n22 ee refs/tags/master\n"); } (void) in; ve_stdin = b.s; ve_stdin_len = b.n;
    ve_system_hook = system_; ve_exit_hook = exited; ve_hook = mutated; ve_chdir("/h"); char *a0; if (manual) { ve_chdir(repo); a0 = dup_("./hooks/pre-receive"); } else { ve_chdir(repo); a0 = dup_("hooks/pre-receive"); }
    ve_faults = nf; ve_fault_mask = nf ? VF_UNLINK | VF_RMDIR | VF_SYMLINK | VF_RENAME | VF_CHDIR | VF_TMP | VF_SYSTEM | (sk == 1 ? 0 : VF_REALPATH) | VF_OPENDIR | VF_STAT | VF_MKDIR | (sk == 1 || sk == 2 ? 0 : VF_READ) : 0;
    char *av[] = {a0, NULL}; int rv = blogc_git_receiver_main(1, av); after(rv, 0);
}
// ---- refs (git allows neither blanks nor control characters in their names)
static void refs(size_t max) {
    int n = v_choose(4); v_buf in; v_buf_init(&in, 300); char *name[3], *id[3]; int head[3];
    for (int i = 0; i < n; i++) {
        char *o = v_strn_of(2, "0af"); id[i] = v_strn_of(v_choose(2) ? 2 : 3, "0af"); int k = v_choose(4); head[i] = k == 0 || k == 3; char *nm = k == 3 ? dup_(v_choose(2) ? "master" : "main") : v_str(1, max); for (size_t j = 0; nm[j]; j++) v_assume(((unsigned char) nm[j] > ' ') & (nm[j] != 127)); name[i] = nm;
        v_buf_s(&in, o); v_buf_c(&in, ' '); v_buf_s(&in, id[i]); v_buf_c(&in, ' '); if (k == 2 && i == 0) { char *h = dup_("refs/heads/"), c; size_t at = v_choose(11); v_sym(&c, 1); v_assume((c != h[at]) & ((unsigned char) c > ' ') & (c != 127)); h[at] = c; v_buf_s(&in, h); } else v_buf_s(&in, k == 1 ? "refs/tags/" : k == 2 ? "refs/head/" : "refs/heads/"); v_buf_s(&in, nm); v_buf_c(&in, '\n');
    }
    bc_trie_t *t = bgr_pre_receive_parse(in.s, in.n); int any = 0;
    for (int i = 0; i < n; i++) if (head[i]) any = 1;
    V_CHECK(any == (t != NULL), "branches are found"); if (!t) { v_reach("no branch"); return; }
    for (int i = 0; i < n; i++) if (head[i]) { int last = i; for (int j = i + 1; j < n; j++) if (head[j] && v_eq(name[j], name[i])) last = j; char *g = bc_trie_lookup(t, name[i]); V_CHECK(g && v_eqs(g, id[last]), "the commit of a branch"); v_reach("branch"); }
        else { int also = 0; for (int j = 0; j < n; j++) if (head[j] && v_eq(name[j], name[i])) also = 1; if (!also) V_CHECK(!bc_trie_lookup(t, name[i]), "a ref that is not a branch is taken as one"); }
}
static void rawrefs(size_t max) { size_t n = v_choose(max + 1); char *x = malloc(n ? n : 1); if (n) v_sym(x, n); int p = v_choose(2); v_buf b; v_buf_init(&b, 60); if (p) v_buf_s(&b, "0 a refs/heads/"); v_buf_n(&b, x, n); char *y = malloc(b.n ? b.n : 1); for (size_t i = 0; i < b.n; i++) y[i] = b.s[i]; bc_trie_t *t = bgr_pre_receive_parse(y, b.n); v_log_i(t != NULL); v_reach(t ? "any branch" : "nothing"); }
// ---- mirroring
static char *url; static int remote, pushes, pushfail;
static int msystem(const char *cmd) {
    V_CHECK(ve_get(".", 1) == repon, "git runs in the repository");
    if (starts(cmd, "git config --local remote.mirror.pushurl")) return remote == 1 ? 0 : 1 << 8;
    if (starts(cmd, "git config --local remote.mirror.url")) return remote == 2 ? 0 : 1 << 8;
    sw_t w; sw_parse(cmd, &w); V_CHECK(!w.bad && !w.active, "a character of the address is acted on by the shell"); V_CHECK(w.n == 4 && v_eq(w.w[0], "git") && v_eq(w.w[1], "push") && v_eq(w.w[2], "--mirror"), "the command that mirrors");
    V_CHECK(url && v_eqs(w.w[3], remote ? "mirror" : url), "the address of the mirror"); pushes++; return pushfail ? 1 << 8 : 0;
}
static void mirror(size_t max) {
    base = "/h"; ve_setenv("HOME", base); repo = "/h/repos/g/r.git"; repon = ve_mkdir(repo); ve_mkdir(cat(repo, "/hooks")); ve_mkdir("/h/repos/r.git"); ve_link("/h/repos/alias", "g"); remote = v_choose(3); pushfail = v_choose(2);
    static const char *S[] = {"repo:g/r.git", "repo:r.git", "repo:alias/r.git", "other", "repo:g/r.git/", "repo:none", "repo:/g/r.git"}; int s = v_choose(7), has = v_choose(3); char *x = v_str(1, max); size_t n = v_len(x);
    for (size_t i = 0; i < n; i++) v_assume((x[i] != '\n') & (x[i] != '\r') & (x[i] != ' ') & (x[i] != '\t') & (x[i] != '\f') & (x[i] != '\v') & (x[i] != '"') & (x[i] != '\\') & (x[i] > 0));
    v_buf b; v_buf_init(&b, 200); static const char *O[] = {"repo:q", "repo:g/r", "repo:g/r.git.x", "repo:g", "repo:", "repo"}; ve_mkdir("/h/repos/g/r"); ve_mkdir("/h/repos/g/r.git.x"); v_buf_c(&b, '['); v_buf_s(&b, O[v_choose(6)]); v_buf_s(&b, "]\nmirror=no\n["); v_buf_s(&b, S[s]); v_buf_s(&b, "]\n"); if (has) { v_buf_s(&b, "mirror=u"); v_buf_s(&b, x); v_buf_s(&b, "\n"); }
    int ini = has == 2 ? 0 : 1; if (ini) ve_text("/h/blogc-git-receiver.ini", b.s); url = NULL; if (remote) url = "mirror"; else if (ini && has && s != 1 && s != 3 && s != 5) url = cat("u", x);
    ve_chdir(repo); ve_system_hook = msystem; char *av[] = {dup_("hooks/post-receive"), NULL}; int rv = blogc_git_receiver_main(1, av);
    V_CHECK(rv == 0, "mirroring never fails a push"); V_CHECK(pushes == (url != NULL), "the mirror is updated"); if (!url || pushfail) V_CHECK(contains(ve_stderr.s, ve_stderr.n, "warning"), "a warning is given");
    v_reach(url ? "mirrored" : "disabled");
}
void v_main(void) { switch (v_param(0)) { case 0: deploy(v_param(1)); break; case 1: refs(v_param(1)); break; case 2: mirror(v_param(1)); break; default: rawrefs(v_param(1)); } }
