// File list: one entry per line that is neither empty nor a comment, in order, without surrounding white space, whatever ends the lines.
#include "v.h"
#include "blogc/filelist-parser.h"
static int ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
void v_main(void) {
    char *s = v_str(0, v_param(0)); size_t n = v_len(s);
    bc_slist_t *l = blogc_filelist_parse(s, n);
    bc_slist_t *t = l;
    size_t i = 0; int k = 0, last_nl = 0;
    while (i < n) {
        size_t a = i; while (i < n && s[i] != '\n' && s[i] != '\r') i++;
        size_t b = i; last_nl = i < n; i++;
        while (a < b && (s[a] == ' ' || s[a] == '\t')) a++;
        if (a < b && s[a] == '#') { v_reach("comment"); continue; }
        size_t full = b - a;
        while (a < b && ws(s[a])) a++;
        while (b > a && ws(s[b - 1])) b--;
        // a line of nothing but form feeds and vertical tabs may be taken for an empty line or not
        if (a == b) { if (full && t && ((char *) t->data)[0] == 0) t = t->next; continue; }
        V_CHECK(t != NULL, "a listed file is missing");
        V_CHECK(v_len(t->data) == b - a && v_eqn(t->data, s + a, b - a), "file name differs from the line");
        t = t->next; k++;
    }
    V_CHECK(t == NULL, "more files than lines");
    for (t = l; t; t = t->next) v_log_s(t->data);
    if (k) v_reach(last_nl ? "newline" : "no newline"); else v_reach("none");
    bc_slist_free_full(l, free);
}
