// blogc-git-receiver as a login shell: which commands run, where, and what is set up for a push.
#include "env.h"
#include "shellwords.h"
int blogc_git_receiver_main(int argc, char **argv);
char *bgr_shell_command_parse(const char *command);
static char *dup_(const char *s) { v_buf b; v_buf_init(&b, v_len(s)); v_buf_s(&b, s); return b.s; }
static char *cat(const char *a, const char *b) { v_buf x; v_buf_init(&x, v_len(a) + v_len(b)); v_buf_s(&x, a); v_buf_s(&x, b); return x.s; }
static const char *base, *expectrepo, *expectcmd, *SELF = "/usr/bin/blogc-git-receiver";
static int execs, mutations, mayinit, tmpl, initfails; static vnode *reposd;
// what git sends: a quoted word; returns its value or NULL
static char *unquote(const char *s, int git) {
    v_buf b; v_buf_init(&b, v_len(s) + 1); size_t i = 0;
    while (s[i]) {
        if (s[i] == '\'') { i++; while (s[i] && s[i] != '\'') v_buf_c(&b, s[i++]); if (!s[i]) return NULL; i++; }
        else if (s[i] == '\\' && (s[i + 1] == '\'' || s[i + 1] == '!') && (!git || (i && s[i + 2] == '\''))) { v_buf_c(&b, s[i + 1]); i += 2; }
        else return NULL;
    }
    return b.s;
}
static const char *noslash(const char *s) { while (*s == '/') s++; return s; }
static int starts(const char *s, const char *p) { size_t i = 0; while (p[i]) { if (s[i] != p[i]) return 0; i++; } return 1; }
static int escapes(const char *s) { size_t i = 0; while (s[i]) { size_t j = i; while (s[j] && s[j] != '/') j++; if (j - i == 2 && s[i] == '.' && s[i + 1] == '.') return 1; i = s[j] ? j + 1 : j; } return 0; }
static void inside(int op, vnode *n, const char *p) {
    (void) p; if (op == VO_CHDIR) return;
    mutations++; V_CHECK(reposd && ve_inside(n, reposd), "something outside of the repositories was changed");
}
static void exec_(const char *f, char *const *a) {
    execs++; V_CHECK(v_eq(f, "git-shell") && v_eq(a[0], "git-shell") && v_eq(a[1], "-c") && a[2] && !a[3], "the program that runs");
    V_CHECK(expectcmd != NULL, "a command that is not of git runs");
    size_t l = v_len(expectcmd);
    V_CHECK(starts(a[2], expectcmd) && a[2][l] == ' ', "the command that runs");
    char *path = unquote(a[2] + l + 1, 1); v_log_s(a[2]);
    V_CHECK(path != NULL, "git-shell can't read the path");
    char *rd = cat(base, "/repos/"); V_CHECK(starts(path, rd), "the repository is in the base directory");
    const char *rest = path + v_len(rd);
    V_CHECK(v_eq(noslash(rest), noslash(expectrepo)), "the repository that was asked for"); V_CHECK(!escapes(rest), "the path leaves the base directory");
    vnode *c = ve_get(".", 1); V_CHECK(c && v_eq(ve_path(c), base), "git-shell runs in the base directory");
    if (l == 16) {
        static const char *H[] = {"/hooks/pre-receive", "/hooks/post-receive"};
        for (int k = 0; k < 2; k++) { vnode *h = ve_get(cat(path, H[k]), 0); V_CHECK(h && h->type == 'l' && v_eq(h->target, SELF), "the hooks of the repository are installed"); V_CHECK((h->parent->mode & 0700) == 0700, "the hooks can be reached"); }
        v_reach("push");
    } else { V_CHECK(mutations == 0 && ve_nsystem == 0, "reading changes nothing"); v_reach("fetch"); }
    v_end();
}
static int init_(const char *cmd) {
    V_CHECK(mayinit, "an unexpected command runs");
    size_t n = v_len(cmd), m = v_len(" > /dev/null"); V_CHECK(n > m && v_eq(cmd + n - m, " > /dev/null"), "the command that creates a repository");
    char *s = dup_(cmd); s[n - m] = 0; sw_t w; sw_parse(s, &w);
    V_CHECK(!w.bad && !w.active && w.n == 4 && v_eq(w.w[0], "git") && v_eq(w.w[1], "init") && v_eq(w.w[2], "--bare"), "the command that creates a repository");
    char *rd = cat(base, "/repos/"); V_CHECK(starts(w.w[3], rd) && v_eq(noslash(w.w[3] + v_len(rd)), noslash(expectrepo)) && !escapes(expectrepo), "the repository that is created");
    V_CHECK(!ve_get(w.w[3], 1), "an existing repository is created again"); v_reach("created");
    if (initfails) return 128 << 8;
    v_buf cp; v_buf_init(&cp, 5000); const char *z = w.w[3]; for (size_t i = 0; z[i]; ) { size_t j = i; while (z[j] && z[j] != '/') j++; if (j > i && !(j - i == 1 && z[i] == '.')) { v_buf_c(&cp, '/'); v_buf_n(&cp, z + i, j - i); } i = z[j] ? j + 1 : j; }
    w.w[3] = cp.s; ve_mkdir(w.w[3]); if (tmpl) { ve_mkdir(cat(w.w[3], "/hooks")); ve_text(cat(w.w[3], "/hooks/update.sample"), "x"); }
    return 0;
}
static int shell(char *cmd) { char *av[] = {dup_("-blogc-git-receiver"), dup_("-c"), cmd, NULL}; ve_setenv("SHELL", SELF); ve_exec_hook = exec_; ve_system_hook = init_; ve_hook = inside; return blogc_git_receiver_main(3, av); }
static const char *CMDS[] = {"git-receive-pack", "git-upload-pack", "git-upload-archive"};
static void setbase(int k) {
    base = k == 1 ? "/h o'm!e" : "/home/b"; ve_mkdir(base); reposd = ve_mkdir(cat(base, "/repos")); ve_mkdir("/etc"); ve_mkdir(cat(base, "/x")); ve_chdir(base);
    if (k == 2) { ve_setenv("BLOGC_GIT_RECEIVER_BASE_DIR", base); ve_setenv("HOME", "/etc"); } else ve_setenv("HOME", base);
}
// arbitrary text behind a prefix of a command
static void commands(size_t max) {
    static const char *PRE[] = {"", "git-receive-pack '", "git-upload-pack '", "git-upload-archive '", "git-receive-pack ", "git-upload-pac", "git-receive-pack 'a/../../x", "git-receive-pack ''\\''"};
    int p = v_choose(8); setbase(v_choose(3));
    char *x = p ? v_str_of(0, max, "a'\\!/. -$\n\"") : v_str(0, max); char *tail = p && p != 4 && v_choose(2) ? "'" : ""; char *cmd = cat(cat(PRE[p], x), tail);
    const char *q = NULL; expectcmd = NULL; for (int i = 0; i < 3; i++) if (starts(cmd, CMDS[i]) && cmd[v_len(CMDS[i])] == ' ') { expectcmd = CMDS[i]; q = unquote(cmd + v_len(CMDS[i]) + 1, 0); }
    int must = q && noslash(q)[0] && !escapes(q); if (!q || !q[0] || escapes(q)) expectcmd = NULL;
    // only slashes: the directory of the repositories itself, refused or left to git-shell
    expectrepo = q; mayinit = expectcmd == CMDS[0];
    int rv = shell(cmd); ve_hook = NULL;
    V_CHECK(rv != 0 && ve_stderr.n > 0, "a refused command fails with a message");
    V_CHECK(!expectcmd || !must, "a git command is refused");
    V_CHECK(mutations == 0 && ve_nsystem == 0, "a refused command changes nothing"); v_reach("refused");
}
// a push to each kind of repository, with failing calls
static void push(int nf) {
    setbase(v_choose(2)); expectcmd = CMDS[0]; expectrepo = v_choose(2) ? "r.git" : "g/r.git"; mayinit = 1; char *repo = cat(cat(base, "/repos/"), expectrepo);
    int st = v_choose(3); tmpl = v_choose(2); initfails = st == 0 ? v_choose(2) : 0; int self = v_choose(2);
    if (st) { ve_mkdir(repo); if (tmpl || st == 2) ve_mkdir(cat(repo, "/hooks")); mayinit = 0; }
    if (st == 2) { const char *H[] = {"/hooks/pre-receive", "/hooks/post-receive"}; for (int i = 0; i < 2; i++) { int k = v_choose(5); char *h = cat(repo, H[i]); if (k == 1) ve_text(h, "old"); if (k == 2) ve_link(h, SELF); if (k == 3) ve_link(h, "nowhere"); if (k == 4) ve_mkdir(h); } }
    ve_faults = nf; ve_fault_mask = VF_MKDIR | VF_CHDIR | VF_UNLINK | VF_SYMLINK | VF_SYSTEM;
    char *cmd = cat(cat(self ? "git-receive-pack '" : "git-receive-pack '/", expectrepo), "'");
    int rv = shell(cmd);
    V_CHECK(rv != 0 && ve_stderr.n > 0, "a failure is reported"); v_log_i(ve_faulted);
    int dir = 0; if (st == 2) { vnode *a = ve_get(cat(repo, "/hooks/pre-receive"), 0), *b = ve_get(cat(repo, "/hooks/post-receive"), 0); dir = (a && a->type == 'd') || (b && b->type == 'd'); }
    V_CHECK(ve_faulted || initfails || dir, "a failure without a reason"); v_reach("failed");
}
// how the program is started
static void start(void) {
    setbase(0); ve_setenv("SHELL", SELF); int k = v_choose(6), sh = v_choose(2); expectcmd = CMDS[1]; expectrepo = "r.git"; ve_exec_hook = exec_; ve_system_hook = init_; ve_hook = inside;
    static char *A[6][4] = {{"/usr/bin/blogc-git-receiver", 0}, {"blogc-git-receiver", 0}, {"-blogc-git-receiver", "-c", "git-upload-pack 'r.git'", 0}, {"x", "-c", 0}, {"x", "-l", "git-upload-pack 'r.git'", 0}, {"x", "-c", "git-upload-pack 'r.git'", "y"}};
    int ac = k < 2 ? 1 : k == 3 ? 2 : k == 5 ? 4 : 3; char *av[6]; for (int i = 0; i < ac; i++) av[i] = dup_(A[k][i]); av[ac] = NULL;
    if (sh) ve_setenv("SSH_ORIGINAL_COMMAND", "git-upload-pack 'r.git'");
    int may = k == 2 || (k == 0 && sh); if (!may) expectcmd = NULL;
    int rv = blogc_git_receiver_main(ac, av);
    V_CHECK(!may, "a git command is refused"); V_CHECK(rv != 0 && ve_stderr.n > 0 && mutations == 0 && ve_nsystem == 0, "anything else is refused"); v_reach("refused");
}
// names around the size of the command buffer
static void longname(int d) {
    setbase(0); int k = v_choose(3); size_t fixed = v_len(CMDS[k]) + 1 + 2 + v_len("/home/b/repos/"), n = 4095 - fixed - d + v_choose(2 * d + 1);
    v_buf b; v_buf_init(&b, 5000); v_buf_s(&b, CMDS[k]); v_buf_s(&b, " '"); size_t o = b.n; for (size_t i = 0; i < n; i++) v_buf_c(&b, i % 100 == 99 ? '/' : 'a');
    char c; v_sym(&c, 1); v_assume((c != 0) & (c != '/') & (c != '\'') & (c != '!') & (c != '.')); b.s[o + 50] = c;
    char *r = malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = b.s[o + i]; r[n] = 0; v_buf_c(&b, '\'');
    expectcmd = CMDS[k]; expectrepo = r; mayinit = k == 0; initfails = 1;
    int rv = shell(b.s); V_CHECK(rv != 0 && ve_stderr.n > 0 && mutations == 0, "a refused command"); V_CHECK(k == 0 || n + fixed > 4095, "a git command is refused"); v_reach("refused");
}
void v_main(void) { if (v_param(0) == 3) longname(v_param(1)); else if (v_param(0) == 0) commands(v_param(1)); else if (v_param(0) == 1) push(v_param(1)); else start(); (void) execs; }
