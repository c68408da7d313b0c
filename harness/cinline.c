// Inline elements: text built from the documented elements gives the documented HTML; everything else is shown escaped.
#include "v.h"
#include "blogc/content-parser.h"
#include "common/utils.h"
static v_buf d, w; static int N; static char dl1, dl2, dl3;   // delimiters of the elements around
static const char *ent(char c) {
    switch (c) { case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&#x27;"; case '/': return "&#x2F;"; }
    return NULL;
}
static void put_ent(v_buf *b, const char *t) { for (; *t; t++) { const char *e = ent(*t); if (e) v_buf_s(b, e); else v_buf_c(b, *t); } }
static char *text(size_t max, const char *not) { char *s = v_str(1, max); for (size_t i = 0; s[i]; i++) v_assume(!v_in_set(s[i], not) & ((s[i] != dl1) | !dl1) & ((s[i] != dl2) | !dl2) & ((s[i] != dl3) | !dl3)); return s; }
// text of the source, with the text it stands for: a character may be escaped, at the start or the end of it
static void etext(int arb, const char *simple, const char *not, char **src, char **shown) {
    if (!arb) { *src = *shown = (char *) simple; return; }
    char *t = text(N, not); int where = v_param(1) ? 0 : v_choose(3);
    if (!where) { *src = *shown = t; return; }
    char c; v_sym(&c, 1); v_assume(c != 0);
    v_buf a, b; v_buf_init(&a, 20); v_buf_init(&b, 20);
    if (where == 2) { v_buf_s(&a, t); v_buf_s(&b, t); }
    v_buf_c(&a, '\\'); v_buf_c(&a, c); v_buf_c(&b, c);
    if (where == 1) { v_buf_s(&a, t); v_buf_s(&b, t); }
    *src = a.s; *shown = b.s; v_reach("escape inside a link or image");
}
static void plain(int arb) {
    if (!arb) { v_buf_s(&d, "t"); v_buf_s(&w, "t"); return; }
    char *t = text(N, "\\*_`[]!- \n\r"); v_buf_s(&d, t); put_ent(&w, t);
}
static void gap(v_buf *b) { static const char *g[] = {"", " ", "\n", "\r\n \t"}; v_buf_s(b, g[v_param(1) ? v_choose(2) * 3 : v_choose(4)]); }
// ctx: delimiter characters that may not appear inside
static void element(int kind, int depth, int arb);
static void inner(int depth, int arb, char dl) {       // content of an emphasis or link
    if (!depth) { plain(arb); return; }
    static const int in_em[] = {0, 1, 2, 3, 4, 5, 6, 8, 10, 11};
    int k = in_em[v_choose(10)];
    if ((k == 1 || k == 2) && dl == '*') k += 20;       // the other delimiter inside
    else if ((k == 1 || k == 2) && dl == '_') k += 30;
    v_buf_s(&d, "u"); v_buf_s(&w, "u");
    char o1 = dl1, o2 = dl2, o3 = dl3;
    if (dl) { if (dl1) dl2 = dl; else dl1 = dl; } else { dl2 = '['; dl3 = ']'; }
    element(k, depth - 1, arb);
    dl1 = o1; dl2 = o2; dl3 = o3;
}
static void element(int kind, int depth, int arb) {
    int force = 0; if (kind >= 30) { force = '*'; kind -= 30; } else if (kind >= 20) { force = '_'; kind -= 20; }
    switch (kind) {
    case 0: plain(arb); break;
    case 1: { char m = force ? force : "*_"[v_choose(2)]; v_buf_c(&d, m); v_buf_s(&w, "<em>"); inner(depth, arb, m); v_buf_c(&d, m); v_buf_s(&w, "</em>"); v_reach("em"); break; }
    case 2: { char m = force ? force : "*_"[v_choose(2)]; v_buf_c(&d, m); v_buf_c(&d, m); v_buf_s(&w, "<strong>"); inner(depth, arb, m); v_buf_c(&d, m); v_buf_c(&d, m); v_buf_s(&w, "</strong>"); v_reach("strong"); break; }
    case 3: { char *t = arb ? text(N, "`\\") : dl1 || dl2 ? "c" : "*c_"; v_buf_s(&d, "`"); v_buf_s(&d, t); v_buf_s(&d, "`"); v_buf_s(&w, "<code>"); put_ent(&w, t); v_buf_s(&w, "</code>"); v_reach("code"); break; }
    case 4: { char *t = arb ? text(N, "`\\") : dl1 || dl2 ? "c" : "!["; v_buf_s(&d, "``"); v_buf_s(&d, t); v_buf_s(&d, "`x``"); v_buf_s(&w, "<code>"); put_ent(&w, t); v_buf_s(&w, "`x</code>"); v_reach("code with a back quote"); break; }
    case 5: { char *a, *u, *as, *us; int on = v_param(1) ? 2 : v_choose(2); etext(arb && on, "a", "\\]", &as, &a); etext(arb && on != 1, "u", "\\)", &us, &u); v_buf_s(&d, "!["); v_buf_s(&d, as); v_buf_s(&d, "]"); gap(&d); v_buf_s(&d, "("); v_buf_s(&d, us); v_buf_s(&d, ")");
        v_buf_s(&w, "<img src=\""); v_buf_s(&w, u); v_buf_s(&w, "\" alt=\""); v_buf_s(&w, a); v_buf_s(&w, "\">"); v_reach("image"); break; }
    case 6: { char *u, *us; etext(arb, "u", "\\)", &us, &u); v_buf_s(&d, "["); v_buf_s(&w, "<a href=\""); v_buf_s(&w, u); v_buf_s(&w, "\">"); inner(depth, arb, 0); v_buf_s(&d, "]"); gap(&d); v_buf_s(&d, "("); v_buf_s(&d, us); v_buf_s(&d, ")"); v_buf_s(&w, "</a>"); v_reach("link"); break; }
    case 7: { char *u, *us; etext(arb, "u", "\\)", &us, &u); v_buf_s(&d, "[![al]"); gap(&d); v_buf_s(&d, "(p.png)]"); gap(&d); v_buf_s(&d, "("); v_buf_s(&d, us); v_buf_s(&d, ")");
        v_buf_s(&w, "<a href=\""); v_buf_s(&w, u); v_buf_s(&w, "\"><img src=\"p.png\" alt=\"al\"></a>"); v_reach("image link"); break; }
    case 8: { char *u, *us; etext(arb, "u", "\\]", &us, &u); v_buf_s(&d, "[["); v_buf_s(&d, us); v_buf_s(&d, "]]"); v_buf_s(&w, "<a href=\""); v_buf_s(&w, u); v_buf_s(&w, "\">"); v_buf_s(&w, u); v_buf_s(&w, "</a>"); v_reach("auto link"); break; }
    case 9: { int n = 2 + v_choose(3); static const char *nl[] = {"\n", "\r\n", "\r"}; int k = v_choose(3); for (int i = 0; i < n; i++) v_buf_c(&d, ' '); v_buf_s(&d, nl[k]); v_buf_s(&w, "<br />"); v_buf_s(&w, nl[k]); v_reach("line break"); break; }
    case 10: { int n = 1 + v_choose(3); for (int i = 0; i < n; i++) v_buf_c(&d, '-'); v_buf_s(&w, n == 1 ? "-" : n == 2 ? "&ndash;" : "&mdash;"); v_buf_s(&d, "e"); v_buf_s(&w, "e"); v_reach("dash"); break; }
    case 11: { char c; if (arb) { v_sym(&c, 1); v_assume(c != 0); } else c = '*'; v_buf_c(&d, '\\'); v_buf_c(&d, c); const char *e = ent(c); if (e) v_buf_s(&w, e); else v_buf_c(&w, c); v_reach("escape"); break; }
    }
}
void v_main(void) {
    N = v_param(0);
    v_buf_init(&d, 200); v_buf_init(&w, 400);
    if (v_choose(2)) { v_buf_s(&d, "y"); v_buf_s(&w, "y"); }
    int k1 = v_choose(12), k2 = v_choose(12), first = v_choose(2);
    element(k1, first ? v_param(1) : 0, first);
    v_buf_s(&d, "&"); v_buf_s(&w, "&amp;");
    element(k2, first ? 0 : v_param(1), !first);
    int end = v_choose(2); v_assume(end || (k2 != 11 && k2 != 9));
    if (end) { v_buf_s(&d, "z"); v_buf_s(&w, "z"); }
    char *doc = malloc(d.n + 1); for (size_t i = 0; i <= d.n; i++) doc[i] = d.s[i];
    char *r = blogc_content_parse_inline(doc);
    v_log_s(r);
    V_CHECK(v_eqs(r, w.s), "inline elements differ from the documented rendering");
    v_reach("done");
}
