// Source files: metadata and content are taken over exactly; malformed files give an error; nothing is silently dropped.
#include "v.h"
#include "blogc/source-parser.h"
#include "common/error.h"
static int ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static int kc(char c) { return (c >= 'A' && c <= 'Z') | (c >= '0' && c <= '9') | (c == '_'); }
static const char *NLS[] = {"\n", "\r\n", "\r"};
static v_buf doc;
static char *strip(const char *v) {
    size_t a = 0, b = v_len(v); while (a < b && ws(v[a])) a++; while (b > a && ws(v[b - 1])) b--;
    char *r = malloc(b - a + 1); for (size_t i = a; i < b; i++) r[i - a] = v[i]; r[b - a] = 0; return r;
}
static char *line(size_t max) { char *s = v_str(0, max); for (size_t i = 0; s[i]; i++) v_assume(s[i] != '\n' && s[i] != '\r'); return s; }
static char *key(size_t max) { char *k = v_str(1, max); v_assume(k[0] >= 'A' && k[0] <= 'Z'); for (size_t i = 1; k[i]; i++) v_assume(kc(k[i])); return k; }
static char *get(bc_trie_t *t, const char *k) { return bc_trie_lookup(t, k); }
static const char *FORBID[] = {"FILENAME", "CONTENT", "DATE_FORMATTED", "DATE_FIRST_FORMATTED", "DATE_LAST_FORMATTED", "PAGE_FIRST", "PAGE_PREVIOUS", "PAGE_CURRENT", "PAGE_NEXT", "PAGE_LAST", "BLOGC_VERSION"};
void v_main(void) {
    int N = v_param(0), st = v_choose(3);
    bc_error_t *err = NULL;
    v_buf_init(&doc, 100);
    switch (v_choose(v_param(1) ? 4 : 3)) {
    case 0: { // two assignments, separator, content
        int lead = v_choose(2), endm = v_choose(4);   // 0 nothing, 1 newline, 2 separator, 3 separator and content
        int what = v_choose(3);     // which part is arbitrary
        if (what == 2 && endm != 3) v_assume(0);
        char *k1 = what == 0 ? key(2) : "K", *v1 = what == 1 ? line(N) : " v", *k2 = what == 0 ? key(1) : "L", *v2 = what == 1 ? line(2) : "w";
        if (lead) { v_buf_s(&doc, NLS[st]); v_buf_s(&doc, " \t"); }
        v_buf_s(&doc, k1); v_buf_c(&doc, ':'); v_buf_s(&doc, v1); v_buf_s(&doc, NLS[st]);
        if (lead) v_buf_s(&doc, NLS[st]);
        v_buf_s(&doc, k2); v_buf_c(&doc, ':'); v_buf_s(&doc, v2);
        char *c = NULL;
        if (endm >= 1) v_buf_s(&doc, NLS[st]);
        if (endm >= 2) { v_buf_s(&doc, lead ? "-----" : "---"); v_buf_s(&doc, NLS[st]); }
        if (endm == 3) { c = what == 2 ? v_str(1, 3) : "c"; v_assume(c[0] != '\n' && c[0] != '\r'); if (lead) v_buf_s(&doc, NLS[st]); v_buf_s(&doc, c); }
        bc_trie_t *t = blogc_source_parse(doc.s, doc.n, 0, &err);
        V_CHECK((t == NULL) == (err != NULL), "either a source or an error");
        if (endm == 0) { // an assignment the file cuts short: refused or complete, never dropped
            if (t) V_CHECK(v_eqs(get(t, k2), strip(v2)), "unterminated last assignment silently dropped");
            v_reach("cut"); break;
        }
        V_CHECK(t != NULL, "well-formed source refused");
        V_CHECK(v_eqs(get(t, k2), strip(v2)), "value of the last assignment");
        if (!v_eqs(k1, k2)) { V_CHECK(v_eqs(get(t, k1), strip(v1)), "value of an assignment"); v_reach("two"); } else v_reach("reassigned");
        V_CHECK(v_eqs(get(t, "RAW_CONTENT"), c), "raw content is the text after the separator");
        V_CHECK((get(t, "CONTENT") != NULL) == (c != NULL) && (get(t, "EXCERPT") != NULL) == (c != NULL), "content and excerpt exist exactly if there is content");
        V_CHECK((int) bc_trie_size(t) >= (v_eqs(k1, k2) ? 1 : 2) + (c ? 3 : 0), "variables of the source");
        v_log_s(get(t, k1)); v_log_s(get(t, "CONTENT"));
        v_reach(endm == 3 ? "content" : "no content");
        bc_trie_free(t);
        break; }
    case 1: { // names the compiler owns
        if (st) v_assume(0);
        int f = v_choose(11); const char *k = FORBID[f]; size_t n = v_len(k), mut = v_choose(n + 3);
        char *kk = malloc(n + 2); for (size_t i = 0; i <= n; i++) kk[i] = k[i];
        if (mut < n && mut > 0) { char c; v_sym(&c, 1); v_assume(kc(c)); kk[mut] = c; }       // any one character changed
        else if (mut == n) { kk[n - 1] = 0; }                                           // cut
        else if (mut == n + 1) { char c; v_sym(&c, 1); v_assume(kc(c)); kk[n] = c; kk[n + 1] = 0; }  // one more
        int bad = 0; for (int i = 0; i < 11; i++) bad |= v_eqs(kk, FORBID[i]);
        if (v_choose(2)) v_buf_s(&doc, "AB: c\nD:\n");      // wherever it stands
        v_buf_s(&doc, kk); v_buf_s(&doc, ": x\n-\nhi");
        bc_trie_t *t = blogc_source_parse(doc.s, doc.n, 0, &err);
        V_CHECK((t == NULL) == (err != NULL) && (err != NULL) == bad, "exactly the compiler's own variables are refused");
        if (t) { V_CHECK(v_eqs(get(t, kk), "x") , "value"); v_reach("allowed"); } else v_reach("forbidden");
        break; }
    case 2: { // what the compiler derives does not replace what the author wrote
        if (st) v_assume(0);
        int w = v_choose(4);
        static const char *ks[] = {"FIRST_HEADER", "DESCRIPTION", "TOCTREE", "TITLE"};
        char *v = line(2);
        v_buf_s(&doc, ks[w]); v_buf_c(&doc, ':'); v_buf_s(&doc, v); v_buf_s(&doc, "\n---\n# he\n\npar\n\n## x\n");
        bc_trie_t *t = blogc_source_parse(doc.s, doc.n, -1, &err);
        V_CHECK(t != NULL, "well-formed source refused");
        V_CHECK(v_eqs(get(t, ks[w]), strip(v)), "author's value replaced");
        if (w != 0) V_CHECK(v_eqs(get(t, "FIRST_HEADER"), "he"), "first header");
        if (w != 1) V_CHECK(v_eqs(get(t, "DESCRIPTION"), "par"), "description");
        if (w != 2) V_CHECK(get(t, "TOCTREE") != NULL, "table of contents");
        V_CHECK(v_eqs(get(t, "CONTENT"), "<h1 id=\"he\">he</h1>\n<p>par</p>\n<h2 id=\"x\">x</h2>\n"), "content");
        v_reach("derived");
        bc_trie_free(t);
        break; }
    case 3: { // arbitrary text
        if (st) v_assume(0);
        size_t n = v_choose(v_param(1) + 1); char *s = v_strn(n);
        bc_trie_t *t = blogc_source_parse(s, n, 0, &err);
        V_CHECK((t == NULL) == (err != NULL), "either a source or an error");
        if (t) { v_reach("any ok"); bc_trie_free(t); } else { v_reach("any error"); bc_error_free(err); }
        break; }
    }
}
