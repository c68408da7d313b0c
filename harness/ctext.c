// Content parser, arbitrary documents: memory safe, terminates, loses no text and repeats none.
#include "v.h"
#include "blogc/content-parser.h"
#include "common/utils.h"
#include "clines.h"
// 'z' and 'w' stand for the author's text: no tag, attribute or entity the parser writes contains them
static const char *PRE[] = {"", "- z\n", "1. z\n", "> z\n", " z\n", "z\r\n\r\n", "..\n", "# z\n\n", "[z", "![z](", "**z", "<z\n", "- z\nw\n\n* z\n", "1. z\nw\n\n2. z\n"};
static const char *SUF[] = {"", "\n\nw\n", "z*"};
static int in_link(char c) { return (c == '[') | (c == ']') | (c == '(') | (c == ')') | (c == '!'); }
// sequences of lines, each with any letter: every letter is shown exactly once, in order
static void lines(int K, int kinds) {
    static const char *NLS[] = {"\n", "\r\n", "\r"};
    const char *nl = NLS[v_choose(3)];
    v_buf d; v_buf_init(&d, 200);
    int n = 1 + v_choose(K), cut = v_choose(2), two = v_choose(2); char want[16]; int w = 0;
    for (int i = 0; i < n; i++) {
        int k = v_choose(kinds); char m[2] = {0, 'k'}; v_sym(m, 1); v_assume((m[0] >= 'A') & (m[0] <= 'Z'));
        cl_line(&d, k, m, 1 + two);
        if (cl_text(k)) want[w++] = m[0];
        if (i < n - 1 || !cut) v_buf_s(&d, nl);
    }
    char *doc = malloc(d.n + 1); for (size_t i = 0; i < d.n; i++) doc[i] = d.s[i]; doc[d.n] = 0;
    size_t ee = 0; char *fh = NULL, *de = NULL, *endl = NULL; bc_slist_t *h = NULL;
    char *r = blogc_content_parse(doc, &ee, &fh, &de, &endl, &h);
    v_log_s(r);
    int j = 0;
    for (size_t i = 0; r[i]; i++) if (r[i] >= 'A' && r[i] <= 'Z') { V_CHECK(j < w, "text of the author is repeated in the output"); V_CHECK(r[i] == want[j], "text of the author is missing from the output or out of order"); j++; }
    V_CHECK(j == w, "text of the author is missing from the output");
    v_reach("lines");
}
void v_main(void) {
    if (v_param(3)) { lines(v_param(3), v_param(4) ? NLK : NCORE); return; }
    int N = v_param(0), scaff = v_param(1), p = 0, q = 0;
    v_buf d; v_buf_init(&d, 60);
    if (scaff) { p = v_choose(14); q = v_choose(3); v_assume(p || q); v_buf_s(&d, PRE[p]); }
    char *s = v_param(2) ? v_str(0, N) : v_str_of(0, N, "zw \t\n\r*_`[]()!-\\<>.#1&");
    v_buf_s(&d, s);
    if (scaff) v_buf_s(&d, SUF[q]);
    char *doc = malloc(d.n + 1); for (size_t i = 0; i <= d.n; i++) doc[i] = d.s[i];
    size_t ee = 12345; char *fh = NULL, *de = NULL, *endl = NULL; bc_slist_t *h = NULL;
    int with = v_choose(2);
    char *r = with ? blogc_content_parse(doc, &ee, &fh, &de, &endl, &h) : blogc_content_parse(doc, NULL, NULL, NULL, NULL, NULL);
    V_CHECK(r != NULL, "no output");
    v_log_s(r); v_log_s(fh); v_log_s(de);
    if (with) { V_CHECK(ee == 12345 || ee <= v_len(r), "excerpt ends inside the content"); V_CHECK(endl != NULL, "line ending"); }
    int sz = 0, sw = 0, oz = 0, ow = 0, vz = 0, vw = 0, special = 0, tag = 0;
    for (size_t i = 0; doc[i]; i++) { sz += doc[i] == 'z'; sw += doc[i] == 'w'; special |= in_link(doc[i]) | (doc[i] == '<'); }
    for (size_t i = 0; r[i]; i++) {
        oz += r[i] == 'z'; ow += r[i] == 'w';
        tag = (r[i] == '<') | (tag & (r[i] != '>'));
        vz += (r[i] == 'z') & !tag; vw += (r[i] == 'w') & !tag;
    }
    V_CHECK((oz >= sz) & (ow >= sw), "text of the author is missing from the output");
    V_CHECK((vz <= sz) & (vw <= sw), "text of the author is repeated in the output");
    V_CHECK(special | ((vz == sz) & (vw == sw)), "text of the author is not shown");
    v_reach("done");
    if (sz > 0) v_reach("text");
}
