// Copying a file: on success the copy equals the source, whatever happens the source is untouched and nothing else is written.
#include "env.h"
#include "blogc-make/exec-native.h"
#include "blogc-make/ctx.h"
static vnode *src; static char *data; static size_t n; static vnode *outdir;
static void hook(int op, vnode *node, const char *path) {
    V_CHECK(node != src, "the source file is written to or removed");
    if (op == VO_MKDIR || op == VO_CREATE) { V_CHECK(ve_inside(node, outdir) || node == outdir->parent, "something is created outside of the output directory"); return; }
    V_CHECK((op == VO_WRITE || op == VO_TRUNC || (op == VO_UNLINK && node->type == 'f')) && ve_inside(node, outdir), "something is changed outside of the output directory");
    (void) path;
}
static bm_filectx_t *F(const char *p) { bm_filectx_t *f = malloc(sizeof *f); f->path = (char *) p; f->short_path = (char *) p; f->slug = NULL; f->readable = 1; return f; }
void v_main(void) {
    n = v_choose(v_param(0) + 2);
    if (n <= (size_t) v_param(0)) data = v_strn(n);
    else { n = 1030; data = malloc(n + 1); for (size_t i = 0; i < n; i++) data[i] = 'a' + i % 26; data[n] = 0; v_sym(data + 1020, 8); }      // more than one buffer
    int where = v_choose(7), have = v_choose(2);
    src = ve_file("/vfs/s/d/f", data, n);
    outdir = ve_mkdir("/vfs/o"); ve_mkdir("/vfs/w"); ve_chdir("/vfs/s");
    const char *from = v_choose(2) ? "/vfs/s/d/f" : "d/f", *to = "/vfs/o/a/b/f";
    int ok = 1;
    if (where == 0 && have) ve_text("/vfs/o/a/b/f", "a longer old content");
    if (where == 1) { ve_text("/vfs/o/a", "file in the way"); ok = 0; }
    if (where == 2) { ve_mkdir("/vfs/o/a/b/f"); ok = 0; }
    if (where == 3) { ve_remove(src); src = NULL; ok = 0; if (have) ve_text("/vfs/o/a/b/f", "old"); }
    if (where == 4) { to = have ? "/vfs/s/d/f" : "/vfs/s/./d/../d/f"; outdir = ve_get("/vfs/s", 1); ok = 0; }       // onto itself
    if (where == 5) { ve_mkdir("/vfs/o/a/b"); ve_link("/vfs/o/a/b/f", have ? "/vfs/s/d/f" : "../../../s/d/f"); ok = 0; }
    if (where == 6) { if (have) ve_mkdir("/vfs/o/a/b"); to = "../o/a/b/f"; }
    ve_hook = hook;
    ve_faults = v_param(1); ve_fault_mask = VF_OPEN | VF_READ | VF_WRITE | VF_CLOSE | VF_MKDIR | VF_SHORT | (where < 4 ? VF_STAT : 0);
    int verb = v_choose(2); unsigned m = ve_fault_mask;
    int rv = bm_exec_native_cp(F(from), F(to), verb);
    ve_hook = NULL; ve_fault_mask = 0; (void) m;
    V_CHECK(ve_open_fds() == 0, "files left open");
    if (src) V_CHECK(src->len == n && v_eqn(src->data, data, n) && ve_get("/vfs/s/d/f", 1) == src, "the source is changed");
    vnode *d = ve_get(where == 4 ? "/vfs/s/d/f" : "/vfs/o/a/b/f", 1);
    if (rv == 0) { V_CHECK(ok, "an impossible copy succeeds"); V_CHECK(d && d != src && d->type == 'f' && d->len == n && v_eqn(d->data, data, n), "copied successfully but the copy differs from the source");
        V_CHECK((d->mode & 0644) == 0644, "a copy that is not readable");
        for (vnode *k = d->parent; k != k->parent; k = k->parent) V_CHECK((k->mode & 0755) == 0755, "the copy is in a directory that cannot be entered"); }
    else { V_CHECK(!ok || ve_faulted, "a possible copy fails"); V_CHECK(ve_stderr.n > 0 || ve_faulted > 0, "failure without a message");
        if (ok && ve_faulted == 1 && d) V_CHECK((d->len == n && v_eqn(d->data, data, n)) || (where == 0 && have && d->len == 20 && v_eqn(d->data, "a longer old content", 20)), "an incomplete copy is left behind"); }
    v_log_i(rv); v_reach(rv ? ve_faulted ? "fault" : "refused" : "copied");
}
