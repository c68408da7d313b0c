// Output names: the directory, the prefixes that are set, the name and the extension, in this order.
#include "v.h"
#include "mname.h"
#include "blogc-make/utils.h"
#include "common/error.h"
static size_t L;
static char *opt(int idx) {      // NULL, arbitrary text up to the bound; idx: also the special name
    int k = v_choose(idx ? 3 : 2);
    if (k == 0) return NULL;
    if (k == 2) { char *r = malloc(6); for (int i = 0; i < 6; i++) r[i] = "index"[i]; return r; }
    return v_str(0, L);
}
void v_main(void) {
    int two = v_param(1); L = v_param(0);
    char *dir = v_choose(2) ? v_str(0, 1) : NULL, *g = opt(0), *p = opt(0), *f = two ? opt(0) : opt(1), *ext = opt(0), *r;
    if (!two) r = bm_generate_filename(dir, g, p, f, ext);
    else {
        char *p2 = opt(0), *f2 = opt(1);
        v_buf q; v_buf_init(&q, 100); const char *part[3] = {p, f, p2}; int n = 0;
        r = bm_generate_filename2(dir, g, p, f, p2, f2, ext);
        for (int i = 0; i < 3; i++) if (has(part[i])) { if (n++) v_buf_c(&q, '/'); v_buf_s(&q, part[i]); }
        p = q.s; f = f2;
    }
    char *e = expect(dir, g, p, f, ext);
    v_log_s(r);
    V_CHECK((r != NULL) == (e != NULL), "a name exists exactly when there is something to name");
    if (!r) { v_reach("none"); return; }
    V_CHECK(v_eqs(r, e), "name differs from the rule");
    v_reach(has(p) ? "prefix" : has(f) ? "name" : "other");
}
