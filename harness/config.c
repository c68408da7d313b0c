// INI files: every value of a well-formed file comes back exactly, malformed ones give an error, for any value text and line ending.
#include "v.h"
#include "common/config-parser.h"
#include "common/utils.h"
#include "common/error.h"
static int ws(char c) { return c == ' ' || c == '\t' || c == '\f' || c == '\v'; }
static const char *NLS[] = {"\n", "\r\n", "\r"};
static v_buf doc;
static void nl(int st) { v_buf_s(&doc, NLS[st]); }

// what a raw value text means; returns 0 value, 1 error expected, 2 not judged
static int value(const char *v, v_buf *out) {
    size_t i = 0, n = v_len(v);
    while (i < n && ws(v[i])) i++;
    if (i < n && v[i] == '"') {
        i++;
        for (;; i++) {
            if (i >= n) return 2;
            if (v[i] == '\\') { i++; if (i >= n) return 2; v_buf_c(out, v[i]); continue; }
            if (v[i] == '"') break;
            v_buf_c(out, v[i]);
        }
        for (i++; i < n; i++) if (!ws(v[i])) return 1;
        v_reach("quoted");
        return 0;
    }
    for (; i < n; i++) {
        if (v[i] == '\\') { i++; if (i >= n || ws(v[i])) return 2; v_reach("escape"); }
        v_buf_c(out, v[i]);
    }
    while (out->n && ws(out->s[out->n - 1])) out->n--;
    out->s[out->n] = 0;
    return 0;
}
// whether a whole text is well formed: 1 yes, 0 no, 2 not judged
static int wellformed(const char *s, size_t n) {
    size_t i = 0; int sec = 0;
    for (;;) {
        while (i < n && v_in_set(s[i], " \t\r\n")) i++;
        if (i >= n) return 1;
        if (s[i] == '#' || s[i] == ';') { while (i < n && s[i] != '\r' && s[i] != '\n') i++; continue; }
        if (s[i] == '[') {
            size_t a = ++i;
            while (i < n && s[i] != ']') { if (s[i] == '\r' || s[i] == '\n') return 0; i++; }
            if (i >= n) return 0;
            if (i == a || !s[a]) return 2;
            sec = i == a + 1 && (s[a] == 'l' || s[a] == 'm') ? 2 : 1;
            for (i++; i < n && v_in_set(s[i], " \t"); i++);
            if (i < n && s[i] != '\r' && s[i] != '\n') return 2;
            continue;
        }
        if (!sec) return 0;
        if (s[i] == '\f' || s[i] == '\v') return 2;
        if (sec == 1) {
            size_t a = i;
            while (i < n && s[i] != '=') { if (s[i] == '\r' || s[i] == '\n') return 0; i++; }
            if (i >= n) return 0;
            if (i == a) return 2;
            i++;
        }
        while (i < n && ws(s[i])) i++;
        if (i < n && s[i] == '"') {
            for (i++;; i++) { if (i < n && s[i] == '\\') { i += 1; if (i >= n) return 0; continue; } if (i >= n) return 0; if (s[i] == '"') break; }
            for (i++; i < n && s[i] != '\r' && s[i] != '\n'; i++) if (!ws(s[i])) return 0;
            v_reach("closed quotes");
        } else for (; i < n && s[i] != '\r' && s[i] != '\n'; i++) if (s[i] == '\\') { if (i + 1 >= n || s[i + 1] == '\r' || s[i + 1] == '\n') return 2; i++; }
    }
}
static char *raw(size_t max) { char *s = v_str(0, max); for (size_t i = 0; s[i]; i++) v_assume(s[i] != '\n' && s[i] != '\r'); return s; }

void v_main(void) {
    int N = v_param(0), st = v_choose(3);
    v_buf_init(&doc, 200);
    static const char *lists[] = {"l", "m", NULL};
    bc_error_t *err = NULL;
    switch (v_choose(v_param(1) ? 4 : 3)) {
    case 0: { // map section
        char *v = raw(N);
        int more = v_choose(3);     // value at end of file, followed by a newline, or by another key
        v_buf_s(&doc, "# c"); nl(st); v_buf_s(&doc, "[s]"); nl(st); v_buf_s(&doc, "k ="); v_buf_s(&doc, v);
        if (more) nl(st);
        if (more == 2) { v_buf_s(&doc, "; c"); nl(st); v_buf_s(&doc, "z=9"); }
        v_buf want; v_buf_init(&want, N + 1);
        int k = value(v, &want);
        v_assume(k != 2);
        bc_config_t *c = bc_config_parse(doc.s, doc.n, lists, &err);
        V_CHECK((c == NULL) == (err != NULL), "either a configuration or an error");
        V_CHECK((err != NULL) == (k == 1), "well-formed values are accepted, text after quotes is refused");
        if (c) {
            const char *g = bc_config_get(c, "s", "k");
            V_CHECK(g != NULL, "a key of the file is missing from the configuration");
            v_log_s(g);
            V_CHECK(v_eqs(g, want.s), "value differs from the file");
            V_CHECK(v_eqs(bc_config_get(c, "s", "z"), more == 2 ? "9" : NULL), "key after the value");
            char **ks = bc_config_list_keys(c, "s");
            V_CHECK(bc_strv_length(ks) == (more == 2 ? 2 : 1), "keys of the section");
            V_CHECK(v_eqs(bc_config_get_with_default(c, "s", "q", "dflt"), "dflt") && v_eqs(bc_config_get_with_default(c, "s", "k", "dflt"), want.s), "defaults only for missing keys");
            V_CHECK(bc_config_get_list(c, "s") == NULL, "a key section is not a list");
            bc_strv_free(ks);
            bc_config_free(c);
            v_reach(more == 0 ? "map eof" : "map");
        } else { bc_error_free(err); v_reach("error"); }
        break; }
    case 1: { // list section
        char *v = raw(N);
        int more = v_choose(3), k = 0, blank = 1;
        for (size_t i = 0; v[i]; i++) if (v[i] != ' ' && v[i] != '\t') { if (blank) v_assume(v[i] != '[' && v[i] != '#' && v[i] != ';' && v[i] != '\f' && v[i] != '\v'); blank = 0; }
        v_buf_s(&doc, "[l]"); nl(st); v_buf_s(&doc, "first"); nl(st); v_buf_s(&doc, v);
        if (more) nl(st);
        if (more == 2) { v_buf_s(&doc, "# c"); nl(st); nl(st); v_buf_s(&doc, "\"la st\""); }
        v_buf want; v_buf_init(&want, N + 1);
        if (!blank) k = value(v, &want);
        v_assume(k != 2);
        bc_config_t *c = bc_config_parse(doc.s, doc.n, lists, &err);
        V_CHECK((err != NULL) == (k == 1) && (c == NULL) == (err != NULL), "well-formed list items are accepted");
        if (c) {
            char **g = bc_config_get_list(c, "l");
            int want_n = 1 + !blank + (more == 2);
            V_CHECK((int) bc_strv_length(g) == want_n, "number of list items");
            V_CHECK(v_eqs(g[0], "first"), "first item");
            if (!blank) { V_CHECK(v_eqs(g[1], want.s), "list item differs from the file"); v_reach(more ? "list" : "list eof"); }
            if (more == 2) V_CHECK(v_eqs(g[want_n - 1], "la st"), "quoted item after it");
            V_CHECK(bc_config_get(c, "l", "first") == NULL && bc_config_list_keys(c, "l") == NULL, "a list section has no keys");
            V_CHECK(bc_config_get_list(c, "m") == NULL, "absent section");
            bc_strv_free(g);
            bc_config_free(c);
        } else bc_error_free(err);
        break; }
    case 2: { // section and key names
        char *s1 = raw(2), *s2 = raw(1), *k1 = raw(2), *k2 = raw(1);
        for (size_t i = 0; s1[i]; i++) v_assume(s1[i] != ']');
        for (size_t i = 0; s2[i]; i++) v_assume(s2[i] != ']');
        v_assume(s1[0] && s2[0] && k1[0] && k2[0]);
        char *ks[2] = {k1, k2};
        for (int j = 0; j < 2; j++) {
            for (size_t i = 0; ks[j][i]; i++) v_assume(ks[j][i] != '=' && !ws(ks[j][i]));
            v_assume(ks[j][0] != '[' && ks[j][0] != '#' && ks[j][0] != ';');
        }
        v_assume(!v_eqs(s1, "l") && !v_eqs(s1, "m") && !v_eqs(s2, "l") && !v_eqs(s2, "m") && !v_eqs(s1, s2));
        v_buf_c(&doc, '['); v_buf_s(&doc, s1); v_buf_c(&doc, ']'); nl(st); v_buf_s(&doc, " \t"); v_buf_s(&doc, k1); v_buf_s(&doc, " = 1"); nl(st); v_buf_s(&doc, k2); v_buf_s(&doc, "=2"); nl(st);
        nl(st); v_buf_c(&doc, '['); v_buf_s(&doc, s2); v_buf_c(&doc, ']'); nl(st); v_buf_s(&doc, k2); v_buf_s(&doc, "=3");
        bc_config_t *c = bc_config_parse(doc.s, doc.n, lists, &err);
        V_CHECK(c && !err, "well-formed file refused");
        V_CHECK(v_eqs(bc_config_get(c, s1, k1), v_eqs(k1, k2) ? "2" : "1"), "last assignment of a key wins");
        V_CHECK(v_eqs(bc_config_get(c, s1, k2), "2") && v_eqs(bc_config_get(c, s2, k2), "3"), "keys belong to their section");
        if (!v_eqs(k1, k2)) { V_CHECK(bc_config_get(c, s2, k1) == NULL, "key leaked into another section"); v_reach("names"); } else v_reach("same key");
        char **ss = bc_config_list_sections(c);
        V_CHECK(bc_strv_length(ss) == 2 && (v_eqs(ss[0], s1) || v_eqs(ss[1], s1)) && (v_eqs(ss[0], s2) || v_eqs(ss[1], s2)), "sections of the file");
        bc_strv_free(ss);
        bc_config_free(c);
        break; }
    case 3: { // arbitrary text: no crash, always ends, a result or an error
        if (st) v_assume(0);
        int kind = v_choose(3);
        size_t pre = kind == 0 ? 0 : 4;
        size_t n = v_choose(v_param(1) + 1);
        char *s = malloc(pre + n + 1);
        if (pre) { s[0] = '['; s[1] = kind == 1 ? 's' : 'l'; s[2] = ']'; s[3] = '\n'; }
        if (n) v_sym(s + pre, n);
        s[pre + n] = 0;
        int wf = wellformed(s, pre + n);
        bc_config_t *c = bc_config_parse(s, pre + n, lists, &err);
        V_CHECK((c == NULL) == (err != NULL), "either a configuration or an error");
        if (wf != 2) V_CHECK((c != NULL) == wf, wf ? "a well-formed file is refused" : "a malformed file is accepted");
        if (c) {
            char **ss = bc_config_list_sections(c);
            for (size_t i = 0; ss[i]; i++) { char **k = bc_config_list_keys(c, ss[i]); for (size_t j = 0; k && k[j]; j++) V_CHECK(bc_config_get(c, ss[i], k[j]) != NULL, "listed key has no value"); bc_strv_free(k); k = bc_config_get_list(c, ss[i]); bc_strv_free(k); }
            bc_strv_free(ss); bc_config_free(c); v_reach("any ok");
        } else { V_CHECK(err->type == BC_ERROR_CONFIG_PARSER && err->msg != NULL, "error message"); bc_error_free(err); v_reach("any error"); }
        break; }
    }
}
