// Slugs, HTML entities, descriptions and list item prefixes, for every short text.
#include "v.h"
#include "blogc/content-parser.h"
static int ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static const char *ent(char c) {
    switch (c) { case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&#x27;"; case '/': return "&#x2F;"; }
    return NULL;
}
void v_main(void) {
    int N = v_param(0);
    switch (v_choose(4)) {
    case 0: { // slug: same length, lower case letters, digits, '-'
        char *s = v_str(0, N), *r = blogc_slugify(s); size_t n = v_len(s);
        V_CHECK(v_len(r) == n, "slug has the length of the title");
        for (size_t i = 0; i < n; i++) {
            int up = (s[i] >= 'A') & (s[i] <= 'Z'), keep = ((s[i] >= 'a') & (s[i] <= 'z')) | ((s[i] >= '0') & (s[i] <= '9'));
            V_CHECK(r[i] == (up ? s[i] + 32 : keep ? s[i] : '-'), "slug character");
        }
        v_log_s(r); v_reach("slug"); break; }
    case 1: { // entities
        char *s = v_str(0, N), *r = blogc_htmlentities(s); v_buf w; v_buf_init(&w, 60);
        for (size_t i = 0; s[i]; i++) { const char *e = ent(s[i]); if (e) v_buf_s(&w, e); else v_buf_c(&w, s[i]); }
        V_CHECK(v_eqs(r, w.s), "entities"); v_log_s(r); v_reach("entities"); break; }
    case 2: { // description: one line, white space around lines dropped, encoded
        char *s = v_str(0, N); size_t n = v_len(s); v_buf w; v_buf_init(&w, 80);
        size_t i = 0; int nonl = 0;
        v_buf x; v_buf_init(&x, 80);
        while (i <= n) {
            size_t b = i; while (i < n && s[i] != '\n' && s[i] != '\r') i++;
            size_t e = i; while (b < e && ws(s[b])) b++; while (e > b && ws(s[e - 1])) e--;
            if (nonl) v_buf_c(&x, ' ');
            v_buf_n(&x, s + b, e - b); nonl = 1;
            if (i >= n) break;
            while (i < n && (s[i] == '\n' || s[i] == '\r')) i++;
            if (i >= n) break;
        }
        size_t b = 0, e = x.n; while (b < e && ws(x.s[b])) b++; while (e > b && ws(x.s[e - 1])) e--;
        for (; b < e; b++) { const char *t = ent(x.s[b]); if (t) v_buf_s(&w, t); else v_buf_c(&w, x.s[b]); }
        char *r = blogc_fix_description(s);
        V_CHECK(v_eqs(r, w.s), "description"); v_log_s(r); v_reach("description"); break; }
    case 3: { // ordered list items: digits, '.', blanks up to the alignment, then text (item text may only start there)
        char *s = v_str(0, N); size_t p = v_choose(N + 2), n = v_len(s), i = 0;
        while (s[i] >= '0' && s[i] <= '9') i++;
        int ok = 0;
        if (i > 0 && s[i] == '.') {
            i++;
            while (i < p && (s[i] == ' ' || s[i] == '\t')) i++;
            ok = i == p && s[i] != 0;
        }
        bool r = blogc_is_ordered_list_item(s, p);
        V_CHECK(r == ok, "ordered list item"); v_log_i(r); v_reach(ok ? "item" : "no item"); break; }
    }
}
