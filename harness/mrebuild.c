// What is built again: exactly what is missing, or older than something it is made from.
#include "env.h"
#include "blogc-make/ctx.h"
#include "blogc-make/rules.h"
#include "common/utils.h"
static bm_filectx_t *F(void) { bm_filectx_t *f = malloc(sizeof *f); f->path = f->short_path = f->slug = NULL; long t[2]; v_sym(t, sizeof t); f->tv_sec = t[0]; f->tv_nsec = t[1]; f->readable = v_choose(2); return f; }
static int newer(long s1, long n1, long s2, long n2) { return s1 > s2 || (s1 == s2 && n1 > n2); }
static void decide(void) {
    bm_filectx_t *in[3] = {0}, *src[4], *out = v_choose(4) ? F() : NULL; bc_slist_t *l = NULL; int n = v_choose(v_param(1) + 1), first = v_choose(2), want = !out || !out->readable;
    for (int i = 0; i < 3; i++) if (v_choose(2)) in[i] = F();
    for (int i = 0; i < n; i++) { src[i] = F(); l = bc_slist_append(l, src[i]); }
    int got = bm_rule_need_rebuild(l, in[0], in[1], in[2], out, first);
    if (!want) {
        for (int i = 0; i < 3; i++) if (in[i]) want |= !in[i]->readable || newer(in[i]->tv_sec, in[i]->tv_nsec, out->tv_sec, out->tv_nsec);
        for (int i = 0; i < (first ? n > 1 ? 1 : n : n); i++) want |= !src[i]->readable || newer(src[i]->tv_sec, src[i]->tv_nsec, out->tv_sec, out->tv_nsec);
    }
    if (want) V_CHECK(got, "an output that is missing or older than one of its inputs is not built again"); else V_CHECK(!got, "an up to date output is built again");
    v_log_i(got); v_reach(got ? "rebuild" : "current");
    V_CHECK(bc_slist_length(l) == (size_t) n, "sources are kept");
}
static void changed(void) {      // times as read from files
    bm_ctx_t c; for (size_t i = 0; i < sizeof c; i++) ((char *) &c)[i] = 0;
    c.root_dir = "/vfs/r";
    ve_mkdir("/vfs/r/d");
    int exists = v_choose(2), abs_ = v_choose(2); long t[4]; v_sym(t, sizeof t); const char *name = abs_ ? "/vfs/r/d/f" : "d/f";
    if (exists) ve_mtime(ve_text("/vfs/r/d/f", "x"), t[0], t[1]);
    bm_filectx_t *f = bm_filectx_new(&c, name, "s", NULL);
    V_CHECK(v_eq(f->path, "/vfs/r/d/f") && v_eq(f->short_path, name) && v_eq(f->slug, "s"), "paths of a file");
    V_CHECK(f->readable == exists, "existence of a file");
    if (exists) V_CHECK((f->tv_sec == t[0]) & (f->tv_nsec == t[1]), "time of a file"); else V_CHECK(f->tv_sec == 0 && f->tv_nsec == 0, "time of a missing file");
    long s0 = f->tv_sec, n0 = f->tv_nsec;
    int now = exists ? v_choose(3) : v_choose(2) * 2;       // same, removed, (re)written
    vnode *x = ve_get("/vfs/r/d/f", 1);
    if (now == 1) ve_remove(x);
    if (now == 2) { if (!x) x = ve_text("/vfs/r/d/f", "y"); ve_mtime(x, t[2], t[3]); }
    int want = now == 2 && newer(t[2], t[3], s0, n0); time_t a = 7; long b = 8;
    V_CHECK(bm_filectx_changed(f, &a, &b) == want, "a file counts as changed exactly when it is newer");
    if (want) V_CHECK((a == t[2]) & (b == t[3]), "time of the change");
    bm_filectx_reload(f);
    if (want) { V_CHECK((f->tv_sec == t[2]) & (f->tv_nsec == t[3]) & f->readable, "reloaded time"); v_reach("changed"); V_CHECK(!bm_filectx_changed(f, NULL, NULL), "still changed after reloading"); }
    else { V_CHECK((f->tv_sec == s0) & (f->tv_nsec == n0) & (f->readable == exists), "unchanged file"); v_reach("same"); }
    bm_filectx_free(f);
}
void v_main(void) { if (v_param(0)) changed(); else decide(); }
