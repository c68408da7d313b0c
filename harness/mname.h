// Oracle: the file an output is written to: the directory, the prefixes that are set, the name and the extension, in this order.
#pragma once
#include "v.h"
static int has(const char *s) { return s && s[0]; }
// independent statement of the rule; dup: a name starting with a slash does not get a second one after a prefix
static char *expect(const char *dir, const char *g, const char *p, const char *f, const char *ext) {
    v_buf w; v_buf_init(&w, 200);
    int bare = ext && ext[0] && ext[0] != '/';
    if (!has(g) && !has(p) && !has(f) && !has(ext)) return NULL;
    if (dir) v_buf_s(&w, dir);
    if (has(g)) { v_buf_c(&w, '/'); v_buf_s(&w, g); }
    if (has(p)) { v_buf_c(&w, '/'); v_buf_s(&w, p); }
    if (has(f)) {
        if (!(v_eq(f, "index") && ext && ext[0] == '/' && !has(p))) { if (!(has(p) && f[0] == '/')) v_buf_c(&w, '/'); v_buf_s(&w, f); }
    } else if (!has(p) && bare) v_buf_s(&w, "/index");
    if (has(ext)) v_buf_s(&w, ext);
    return w.n ? w.s : NULL;
}
