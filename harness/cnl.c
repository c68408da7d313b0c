// Content parser: the same document means the same whatever line endings it uses (LF, CRLF, CR, or LF and CRLF mixed).
#include "v.h"
#include "blogc/content-parser.h"
#include "blogc/toctree.h"
#include "common/utils.h"
#include "clines.h"
static const char *PRE[] = {"", "- z\n", "1. z\n", "> z\n", " z\n", "z\n\n", "..\n", "# z\n\n", "<z\n", "- z\n  w\n", "z\n\n..\n\n"};
static const char *SUF[] = {"", "\n\nw\n", "\nz"};
static char *norm(const char *s, int cr) { if (!s) return NULL; size_t n = v_len(s), k = 0; char *r = malloc(n + 1); for (size_t i = 0; i < n; i++) if (s[i] == '\r') { if (cr) r[k++] = '\n'; } else r[k++] = s[i]; r[k] = 0; return r; }
static char *enc(const char *s, int style, int *mixed) {
    v_buf b; v_buf_init(&b, 80);
    for (; *s; s++) { if (*s == '\n') { int k = style == 3 ? v_choose(2) : style; v_buf_s(&b, k == 2 ? "\r" : k == 1 ? "\r\n" : "\n"); *mixed |= 1 << k; } else v_buf_c(&b, *s); }
    char *r = malloc(b.n + 1); for (size_t i = 0; i <= b.n; i++) r[i] = b.s[i];
    return r;
}
typedef struct { size_t ee; char *r, *fh, *de; bc_slist_t *h; } res;
static res run(char *doc) { res x = {0}; char *endl = NULL; x.r = blogc_content_parse(doc, &x.ee, &x.fh, &x.de, &endl, &x.h); return x; }
void v_main(void) {
    int N = v_param(0), scaff = v_param(1), p = scaff ? 1 + v_choose(10) : 0, q = scaff ? v_choose(3) : 0;
    v_buf d; v_buf_init(&d, 60);
    if (v_param(3)) {      // sequences of lines
        int K = 1 + v_choose(v_param(3)), end = v_choose(2);
        for (int i = 0; i < K; i++) { char m[1]; v_sym(m, 1); v_assume(((m[0] >= 'a') & (m[0] <= 'z')) | ((m[0] >= '0') & (m[0] <= '9'))); cl_line(&d, v_choose(v_param(4) ? NLK : NCORE), m, 1); if (i < K - 1 || end) v_buf_c(&d, '\n'); }
    } else {
    v_buf_s(&d, PRE[p]);
    size_t n = v_choose(N + 1);
    for (size_t i = 0; i < n; i++) { char c; v_sym(&c, 1); if (v_param(2)) v_assume(c != 0 && c != '\r'); else v_assume(v_in_set(c, "zw \t\n*_`[]()!-\\<>.#1&")); if (c == '\n') c = '\n'; v_buf_c(&d, c); }
    v_buf_s(&d, SUF[q]);
    }
    int any = 0; for (size_t i = 0; i < d.n; i++) if (d.s[i] == '\n') { any = 1; d.s[i] = '\n'; }
    if (!any) v_end();
    int m = 0, style = 1 + v_choose(3); char *doc2 = enc(d.s, style, &m);
    if (style == 3 && m != 3) v_end();
    m = 0;
    char *doc1 = enc(d.s, 0, &m);
    res a = run(doc1), b = run(doc2);
    v_log_s(a.r); v_log_s(b.r);
    int cr = style == 2;
    V_CHECK(v_eqs(a.r, norm(b.r, cr)), "content depends on the line endings");
    V_CHECK(v_eqs(a.fh, norm(b.fh, cr)), "first header depends on the line endings");
    V_CHECK(v_eqs(a.de, norm(b.de, cr)), "description depends on the line endings");
    char *e1 = bc_strndup(a.r, a.ee), *e2 = bc_strndup(b.r, b.ee);
    V_CHECK(v_eqs(e1, norm(e2, cr)), "excerpt depends on the line endings");
    V_CHECK(bc_slist_length(a.h) == bc_slist_length(b.h), "headers depend on the line endings");
    for (bc_slist_t *l = a.h, *k = b.h; l; l = l->next, k = k->next) {
        blogc_toctree_header_t *x = l->data, *y = k->data;
        V_CHECK(x->level == y->level && v_eqs(x->slug, y->slug) && v_eqs(x->text, y->text), "headers depend on the line endings");
    }
    v_reach(style == 1 ? "crlf" : style == 2 ? "cr" : "mixed");
}
