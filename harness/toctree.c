// Table of contents: one entry per header within the depth limit, properly nested lists, relative to the lowest level present.
#include "v.h"
#include "blogc/toctree.h"
void v_main(void) {
    int N = v_param(0), n = v_choose(N + 1), lv[8], low = 100, depth;
    v_sym(&depth, sizeof depth); v_assume(depth >= -2 && depth <= 6);
    static const char *EN[] = {NULL, "\n", "\r\n"};
    int st = v_choose(3); const char *nl = EN[st] ? EN[st] : "\n";
    bc_slist_t *l = NULL;
    static const char *SL[] = {"a", "b-c", "d", "e", "f"}, *TX[] = {"A", "<em>B</em>", "", "E", "F"};
    for (int i = 0; i < n; i++) { lv[i] = 1 + v_choose(v_param(1)); if (lv[i] < low) low = lv[i]; l = blogc_toctree_append(l, lv[i], SL[i], TX[i]); }
    l = blogc_toctree_append(l, 0, "x", "y");        // level 0 is not a header
    V_CHECK((int) bc_slist_length(l) == n, "one entry per header");
    char *r = blogc_toctree_render(l, depth, EN[st]);
    v_log_s(r); v_log_i(depth);
    if (n == 0 || depth == 0) { V_CHECK(r == NULL, "no headers or depth 0: no table"); v_reach("none"); return; }
    V_CHECK(r != NULL, "table exists");
    // walk the output: nesting is exact, each header within the limit appears once, in order, at its depth
    size_t i = 0; int cur = low - 1, k = 0;
    while (r[i]) {
        size_t sp = 0; while (r[i] == ' ') { sp++; i++; }
        if (r[i] == '<' && r[i + 1] == 'u') { cur++; V_CHECK(sp == 4 * (size_t) (cur - low), "indentation"); i += 4; }
        else if (r[i] == '<' && r[i + 1] == '/') { V_CHECK(cur >= low, "list closed that was not open"); V_CHECK(sp == 4 * (size_t) (cur - low), "indentation"); cur--; i += 5; }
        else {
            while (k < n && depth > 0 && lv[k] - low >= depth) { k++; v_reach("too deep"); }
            V_CHECK(k < n && lv[k] == cur, "entry at the wrong depth, out of order or beyond the limit");
            v_buf w; v_buf_init(&w, 80); v_buf_s(&w, "<li><a href=\"#"); v_buf_s(&w, SL[k]); v_buf_s(&w, "\">"); v_buf_s(&w, TX[k]); v_buf_s(&w, "</a></li>");
            V_CHECK(sp == 4 * (size_t) (cur - low + 1), "indentation");
            V_CHECK(v_eqn(r + i, w.s, w.n), "entry"); i += w.n; k++;
        }
        for (size_t j = 0; nl[j]; j++, i++) V_CHECK(r[i] == nl[j], "line ending");
    }
    V_CHECK(cur == low - 1, "every list is closed");
    for (; k < n; k++) V_CHECK(depth > 0 && lv[k] - low >= depth, "header within the limit is missing");
    v_reach("table");
    blogc_toctree_free(l);
}
