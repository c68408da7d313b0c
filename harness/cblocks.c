// Content parser: documents built from the documented block elements give the documented HTML, with LF, CRLF or CR line endings;
// first header, description, excerpt position, table of contents entries.
#include "v.h"
#include "blogc/content-parser.h"
#include "blogc/toctree.h"
#include "common/utils.h"
static int fixed;   // texts are short
static v_buf d, w, wd, wf; static const char *NL; static int have_f, have_d, nh, fixed; static long excerpt;
static struct { int level; char *slug, *text; } hd[8];
static const char *ent(char c) {
    switch (c) { case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&#x27;"; case '/': return "&#x2F;"; }
    return NULL;
}
static void put_ent(v_buf *b, const char *t) { for (; *t; t++) { const char *e = ent(*t); if (e) v_buf_s(b, e); else v_buf_c(b, *t); } }
static char *text(size_t min, size_t max) {       // characters with no meaning to the parser inside a line, entities included
    if (fixed) { char *s = v_strn(2); v_assume(s[0] >= 'A' && s[0] <= 'Z'); s[1] = '<'; return s; }
    char *s = v_str(min, max);
    for (size_t i = 0; s[i]; i++) v_assume(!v_in_set(s[i], "\n\r\\*_`[]!- \t"));
    return s;
}
static char *para_text(size_t max) {
    char *s = text(1, max);
    v_assume(!v_in_set(s[0], ".#*+-0123456789 \t<>"));
    return s;
}
static void slug(v_buf *b, const char *t) { for (; *t; t++) v_buf_c(b, (*t >= 'A' && *t <= 'Z') ? *t + 32 : ((*t >= 'a' && *t <= 'z') || (*t >= '0' && *t <= '9')) ? *t : '-'); }
static int spaces(int max) { int n = v_choose(max); for (int i = 0; i < n; i++) v_buf_c(&d, ' '); return n; }
static void nl(void) { v_buf_s(&d, NL); }
static void block(int N, int first, int last_of_doc, int kind) {
    switch (kind) {
    case 0: { // paragraph of one or two lines
        char *a = para_text(N); int two = v_choose(2); char *b = two ? para_text(1) : NULL;
        v_buf_s(&d, a); if (two) { nl(); v_buf_s(&d, b); } nl();
        v_buf_s(&w, "<p>"); put_ent(&w, a); if (two) { v_buf_s(&w, NL); put_ent(&w, b); } v_buf_s(&w, "</p>"); v_buf_s(&w, NL);
        if (!have_d) { have_d = 1; put_ent(&wd, a); if (two) { v_buf_c(&wd, ' '); put_ent(&wd, b); } }
        v_reach("paragraph"); break; }
    case 1: { // header
        int lv = 1 + v_choose(fixed ? 2 : 4); char *t = text(1, N); char L = '0' + lv;
        v_assume(t[0] != '\f' && t[0] != '\v');
        for (int i = 0; i < lv; i++) v_buf_c(&d, '#');
        v_buf_c(&d, v_choose(2) ? '\t' : ' '); v_buf_s(&d, t); nl();
        v_buf_s(&w, "<h"); v_buf_c(&w, L); v_buf_s(&w, " id=\""); slug(&w, t); v_buf_s(&w, "\">"); put_ent(&w, t); v_buf_s(&w, "</h"); v_buf_c(&w, L); v_buf_s(&w, ">"); v_buf_s(&w, NL);
        if (!have_f) { have_f = 1; put_ent(&wf, t); }
        v_buf s, e; v_buf_init(&s, 20); v_buf_init(&e, 60); slug(&s, t); put_ent(&e, t); hd[nh].level = lv; hd[nh].slug = s.s; hd[nh].text = e.s; nh++;
        v_reach("header"); break; }
    case 2: { // blockquote of a paragraph, a header and a list
        char *a = para_text(N); int sp = 1 + v_choose(2), rich = v_choose(3);
        #define Q() do { v_buf_c(&d, '>'); for (int i = 0; i < sp; i++) v_buf_c(&d, ' '); } while (0)
        v_buf_s(&w, "<blockquote>");
        if (rich == 1) { Q(); v_buf_s(&d, "# he"); nl(); Q(); nl(); v_buf_s(&w, "<h1 id=\"he\">he</h1>"); v_buf_s(&w, NL); }
        Q(); v_buf_s(&d, a); nl();
        v_buf_s(&w, "<p>"); put_ent(&w, a); v_buf_s(&w, "</p>"); v_buf_s(&w, NL);
        if (rich == 2) { Q(); nl(); Q(); v_buf_s(&d, "- x"); nl(); Q(); v_buf_s(&d, "  y"); nl(); v_buf_s(&w, "<ul>"); v_buf_s(&w, NL); v_buf_s(&w, "<li>x"); v_buf_s(&w, NL); v_buf_s(&w, "y</li>"); v_buf_s(&w, NL); v_buf_s(&w, "</ul>"); v_buf_s(&w, NL); }
        v_buf_s(&w, "</blockquote>"); v_buf_s(&w, NL);
        v_reach("blockquote"); break; }
    case 3: case 4: { // unordered, ordered list; items of one or two lines
        int items = 1 + v_choose(fixed ? 2 : 3), two = v_choose(items + 1), ol = kind == 4, pad = fixed ? 2 : 1 + v_choose(2), mk = v_choose(3);
        static const char *num[3][3] = {{"1.", "1.", "1."}, {"9.", "0.", "7."}, {"10.", "2. ", "333."}};
        v_buf_s(&w, ol ? "<ol>" : "<ul>"); v_buf_s(&w, NL);
        if (ol && mk == 2 && pad < 2) v_assume(0);     // the widest marker must fit the alignment
        size_t width = ol ? v_len(num[mk][0]) + pad : 1 + pad;
        for (int i = 0; i < items; i++) {
            char *t = i == items - 1 ? text(1, N) : i ? "i\"" : "j"; v_assume(t[0] != '\f' && t[0] != '\v');
            if (ol) { const char *m = num[mk][i]; v_buf_s(&d, m); for (size_t k = v_len(m); k < width; k++) v_buf_c(&d, ' '); }
            else { v_buf_c(&d, "*+-"[mk]); for (int k = 0; k < pad; k++) v_buf_c(&d, ' '); }
            v_buf_s(&d, t); nl();
            v_buf_s(&w, "<li>"); put_ent(&w, t);
            if (two == i + 1) { for (size_t k = 0; k < width; k++) v_buf_c(&d, ' '); v_buf_s(&d, "c-"); nl(); v_buf_s(&w, NL); v_buf_s(&w, "c-"); }
            v_buf_s(&w, "</li>"); v_buf_s(&w, NL);
        }
        v_buf_s(&w, ol ? "</ol>" : "</ul>"); v_buf_s(&w, NL);
        v_reach(ol ? "ordered list" : "unordered list"); break; }
    case 5: { // code
        int lines = 1 + v_choose(2), in = v_choose(3); const char *ind = in == 0 ? " " : in == 1 ? "    " : "\t";
        char *t = fixed ? "<*t " : v_str(1, N); for (size_t i = 0; t[i]; i++) v_assume(t[i] != '\n' && t[i] != '\r');
        v_assume(t[0] != ' ' && t[0] != '\t');
        v_buf_s(&w, "<pre><code>");
        v_buf_s(&d, ind); v_buf_s(&d, t); nl(); put_ent(&w, t);
        if (lines == 2) { v_buf_s(&d, ind); v_buf_s(&d, "  <*\\x "); nl(); v_buf_s(&w, NL); v_buf_s(&w, "  &lt;*\\x "); }
        v_buf_s(&w, "</code></pre>"); v_buf_s(&w, NL);
        v_reach("code"); break; }
    case 6: { // horizontal rule
        int n = 3 + v_choose(2); char c = "*+-"[v_choose(3)];
        for (int i = 0; i < n; i++) v_buf_c(&d, c);
        nl(); v_buf_s(&w, "<hr />"); v_buf_s(&w, NL); v_reach("rule"); break; }
    case 7: { // HTML block
        char *t = fixed ? "b>t  " : v_str(0, N); for (size_t i = 0; t[i]; i++) v_assume(t[i] != '\n' && t[i] != '\r');
        int two = v_choose(2);
        v_buf_c(&d, '<'); v_buf_s(&d, t); if (two) { nl(); v_buf_s(&d, "  # &*x* \\"); } nl();
        v_buf_c(&w, '<'); v_buf_s(&w, t); if (two) { v_buf_s(&w, NL); v_buf_s(&w, "  # &*x* \\"); } v_buf_s(&w, NL);
        v_reach("html"); break; }
    case 8: { // excerpt separator
        int n = 2 + v_choose(2); for (int i = 0; i < n; i++) v_buf_c(&d, '.');
        nl(); if (!last_of_doc) excerpt = w.n; v_reach("excerpt"); break; }
    }
    if (!last_of_doc) { nl(); if (first && v_choose(2)) nl(); }
}
void v_main(void) {
    static const char *NLS[] = {"\n", "\r\n", "\r"};
    int N = v_param(0), st = v_choose(3);
    NL = NLS[st];
    v_buf_init(&d, 300); v_buf_init(&w, 600); v_buf_init(&wd, 100); v_buf_init(&wf, 100);
    int two = v_param(1), k1 = v_choose(9), k2 = two ? v_choose(9) : 9;     // one block with arbitrary text, or any two blocks with an arbitrary capital and '<'
    fixed = two;
    excerpt = -1;
    block(N, 1, !two, k1);
    if (two) block(N, 0, 1, k2);
    if (!two && k1 == 8) excerpt = -2;        // separator ends the document: nothing is cut off either way
    int cut = v_choose(2);                       // the last line need not be terminated
    if (cut) { d.n -= v_len(NL); d.s[d.n] = 0; }
    char *doc = malloc(d.n + 1); for (size_t i = 0; i <= d.n; i++) doc[i] = d.s[i];
    size_t ee = 0; char *fh = NULL, *de = NULL, *endl = NULL; bc_slist_t *h = NULL;
    char *r = blogc_content_parse(doc, &ee, &fh, &de, &endl, &h);
    v_log_s(r);
    // without any line ending in the document the default is used
    int any = 0; for (size_t i = 0; doc[i]; i++) any |= (doc[i] == '\n') | (doc[i] == '\r');
    if (any || st == 0) { V_CHECK(v_eqs(r, w.s), "content differs from the documented rendering"); V_CHECK(v_eqs(endl, any ? NL : "\n"), "line ending of the source"); }
    else v_reach("single line");
    if (excerpt >= 0) V_CHECK((long) ee == excerpt, "excerpt ends at the separator");
    else if (excerpt == -1 && k2 != 8) V_CHECK(ee == 0, "no excerpt separator");
    V_CHECK(v_eqs(fh, have_f ? wf.s : NULL), "first header");
    V_CHECK((de != NULL) == have_d, "description exists exactly if there is a paragraph");
    if (have_d) {      // surrounding white space is not part of it
        size_t a = 0, b = wd.n; while (a < b && v_in_set(wd.s[a], " \t\f\v")) a++; while (b > a && v_in_set(wd.s[b - 1], " \t\f\v")) b--;
        wd.s[b] = 0;
        int ff = 0; for (size_t i = 0; i < wd.n; i++) ff |= (wd.s[i] == '\f') | (wd.s[i] == '\v');
        if (!ff) V_CHECK(v_eqs(de, wd.s + a), "description is the first paragraph");
    }
    bc_slist_t *l = h; int i = 0;
    for (; l && i < nh; l = l->next, i++) {
        blogc_toctree_header_t *t = l->data;
        V_CHECK(t->level == (size_t) hd[i].level && v_eqs(t->slug, hd[i].slug) && v_eqs(t->text, hd[i].text), "headers of the table of contents");
    }
    V_CHECK(l == NULL && i == nh, "number of headers");
    v_reach("done");
}
