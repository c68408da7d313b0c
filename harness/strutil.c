// String helpers every parser is built on, against direct definitions.
#include "v.h"
#include "common/utils.h"
static int sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
void v_main(void) {
    int N = v_param(0);
    switch (v_choose(14)) {
    case 0: { // split: pieces joined by the separator give the text back; separators only in the last piece of a bounded split
        char *s = v_str(0, N); char c; v_sym(&c, 1); v_assume(c != 0);
        int max = v_choose(4);
        char **p = bc_str_split(s, c, max);
        size_t n = bc_strv_length(p), len = v_len(s);
        size_t seps = 0; for (size_t i = 0; i < len; i++) if (s[i] == c) seps++;
        size_t want = len == 0 ? 0 : (max && seps + 1 > (size_t) max ? (size_t) max : seps + 1);
        V_CHECK(n == want, "number of pieces");
        size_t k = 0;
        for (size_t i = 0; i < n; i++) {
            for (size_t j = 0; p[i][j]; j++) {
                V_CHECK(k < len && p[i][j] == s[k], "pieces keep the text"); k++;
                if (i + 1 < n || !max) V_CHECK(p[i][j] != c, "separator inside a piece");
            }
            if (i + 1 < n) { V_CHECK(s[k] == c, "pieces are separated by the separator"); k++; }
        }
        V_CHECK(k == len, "no text lost by splitting");
        char sep[2] = {c, 0};
        char *j = bc_strv_join(p, sep);
        V_CHECK(v_eqs(j, s), "join undoes split");
        bc_strv_free(p); free(j);
        v_reach("split"); break; }
    case 1: { // strip
        char *s = v_str(0, N); size_t n = v_len(s), a = 0, b = n;
        while (a < n && sp(s[a])) a++;
        while (b > a && sp(s[b - 1])) b--;
        char *t = bc_strdup(s);
        char *r = bc_str_strip(t);
        V_CHECK(v_len(r) == b - a && v_eqn(r, s + a, b - a), "strip removes exactly the surrounding white space");
        t = bc_strdup(s); r = bc_str_lstrip(t);
        V_CHECK(v_eqs(r, s + a), "lstrip");
        t = bc_strdup(s); r = bc_str_rstrip(t);
        V_CHECK(v_len(r) == (a == n ? 0 : b) && v_eqn(r, s, v_len(r)), "rstrip");
        v_reach("strip"); break; }
    case 2: { // find honours backslash escapes and never leaves the string
        char *s = v_str(0, N); char c; v_sym(&c, 1); v_assume(c != 0 && c != '\\');
        size_t i = 0; char *want = NULL;
        while (s[i]) { if (s[i] == '\\') { if (!s[i + 1]) break; i += 2; continue; } if (s[i] == c) { want = s + i; break; } i++; }
        V_CHECK(bc_str_find(s, c) == want, "find returns the first unescaped occurrence");
        v_reach("find"); break; }
    case 3: { // append_escaped drops one level of backslashes
        char *s = v_str(0, N); v_buf w; v_buf_init(&w, N);
        for (size_t i = 0; s[i]; i++) { if (s[i] == '\\') { i++; if (!s[i]) break; } v_buf_c(&w, s[i]); }
        bc_string_t *b = bc_string_new();
        bc_string_append_escaped(b, s);
        V_CHECK(v_eqs(b->str, w.s) && b->len == w.n, "append_escaped");
        bc_string_free(b, true); v_reach("escaped"); break; }
    case 4: { // builder around its growth boundaries
        size_t base = 120 + v_choose(18), add = v_choose(16);
        char *p = malloc(base + 1); for (size_t i = 0; i < base; i++) p[i] = 'x'; p[base] = 0;
        char *s = v_strn(add);
        bc_string_t *b = bc_string_new();
        bc_string_append(b, p);
        int how = v_choose(4);
        if (how == 0) bc_string_append(b, s);
        else if (how == 1) for (size_t i = 0; i < add; i++) bc_string_append_c(b, s[i]);
        else if (how == 2) bc_string_append_len(b, s, add);
        else bc_string_append_printf(b, "%s", s);
        V_CHECK(b->len == base + add && b->str[b->len] == 0, "builder length");
        V_CHECK(v_eqn(b->str, p, base) && v_eqn(b->str + base, s, add), "builder content");
        bc_string_t *d = bc_string_dup(b);
        V_CHECK(d->len == b->len && v_eqs(d->str, b->str) && d->str != b->str, "dup");
        bc_string_free(b, true); bc_string_free(d, true); v_reach("builder"); break; }
    case 5: { // starts/ends with
        char *s = v_str(0, N), *x = v_str(0, 3); size_t n = v_len(s), m = v_len(x);
        V_CHECK(bc_str_starts_with(s, x) == (m <= n && v_eqn(s, x, m)), "starts_with");
        V_CHECK(bc_str_ends_with(s, x) == (m <= n && v_eqn(s + n - m, x, m)), "ends_with");
        v_reach("affix"); break; }
    case 6: { // replace
        char *s = v_str(0, N); char c; v_sym(&c, 1); v_assume(c != 0); char *r = v_str(0, 2);
        v_buf w; v_buf_init(&w, 2 * N);
        for (size_t i = 0; s[i]; i++) { if (s[i] == c) v_buf_s(&w, r); else v_buf_c(&w, s[i]); }
        char *g = bc_str_replace(s, c, r);
        V_CHECK(v_eqs(g, w.s), "replace substitutes every occurrence and nothing else");
        free(g); v_reach("replace"); break; }
    case 7: { // booleans
        char *s = v_str(0, 5); static const char *t[] = {"1", "y", "yes", "true", "on"};
        int want = 0;
        for (int k = 0; k < 5; k++) {
            size_t n = v_len(t[k]);
            if (v_len(s) != n) continue;
            int ok = 1; for (size_t i = 0; i < n; i++) { char a = s[i]; ok &= (a == t[k][i]) | (a >= 'A' && a <= 'Z' && a + 32 == t[k][i]); }
            want |= ok;
        }
        V_CHECK(bc_str_to_bool(s) == !!want, "booleans are 1, y, yes, true, on");
        if (want) v_reach("bool"); break; }
    case 8: { // strndup
        char *s = v_str(0, N); size_t n = v_choose(N + 2), l = v_len(s), m = n < l ? n : l;
        char *d = bc_strndup(s, n);
        V_CHECK(v_len(d) == m && v_eqn(d, s, m), "strndup"); free(d); v_reach("ndup"); break; }
    case 9: { // lists keep order
        int n = v_choose(5), v[5]; bc_slist_t *l = NULL; int front = 0, idx[10], lo = 5, hi = 5;
        for (int i = 0; i < n; i++) { if (v_choose(2)) { l = bc_slist_prepend(l, &v[i]); idx[--lo] = i; front++; } else { l = bc_slist_append(l, &v[i]); idx[hi++] = i; } }
        V_CHECK((int) bc_slist_length(l) == n, "list length");
        for (bc_slist_t *t = l; t; t = t->next) V_CHECK(t->data == &v[idx[lo++]], "list order");
        bc_slist_t *m = bc_slist_append(NULL, &v[4]);
        bc_slist_t *j = bc_slist_append_list(l, m);
        V_CHECK((int) bc_slist_length(j) == n + 1, "append_list length");
        bc_slist_free(j); v_reach("list"); break; }
    case 10: { // isspace
        char c; v_sym(&c, 1); V_CHECK(bc_isspace(c) == sp(c), "isspace"); v_reach("space"); break; }
    case 11: { // printf-style allocation
        char *s = v_str(0, N); int k = v_choose(3) * 1000;
        char *g = bc_strdup_printf("<%s|%d|%s>", s, k, s); v_buf w; v_buf_init(&w, 64);
        v_buf_c(&w, '<'); v_buf_s(&w, s); v_buf_s(&w, k == 0 ? "|0|" : k == 1000 ? "|1000|" : "|2000|"); v_buf_s(&w, s); v_buf_c(&w, '>');
        V_CHECK(v_eqs(g, w.s), "formatted text is complete"); free(g); v_reach("printf"); break; }
    case 12: { // join
        int n = v_choose(4); char *v[5]; v_buf w; v_buf_init(&w, 40);
        for (int i = 0; i < n; i++) { v[i] = v_str(0, 2); if (i) v_buf_s(&w, ", "); v_buf_s(&w, v[i]); }
        v[n] = NULL;
        char *g = bc_strv_join(v, ", ");
        V_CHECK(v_eqs(g, w.s), "join"); free(g); v_reach("join"); break; }
    case 13: { // wait status to exit code, as a shell reports it
        int st; v_sym(&st, sizeof st); v_assume(st >= 0 && st <= 0xffff);
        extern int bc_compat_status_code(int);
        int low = st & 0x7f, got = bc_compat_status_code(st);
        if (low == 0) V_CHECK(got == ((st >> 8) & 0xff), "exit status");
        else if (low != 0x7f) V_CHECK(got == 128 + low, "death by signal is 128 + signal");
        v_reach("status"); break; }
    }
}
