// Content parser against an independent reading of the documentation: arbitrary inline text, arbitrary short documents, arbitrary sequences of lines.
#include "cref.h"
#include "blogc/content-parser.h"
#include "blogc/toctree.h"
#include "common/utils.h"
static const char *ALPHA[] = {"az \n*_`[]()!-\\<&", "az \t\n*+-#.<>1"};
void v_main(void) {
    int mode = v_param(0), N = v_param(1);
    v_buf o; v_buf_init(&o, 400);
    if (mode == 0) {
        size_t n = v_choose(N + 1); char *s = malloc(n + 1); s[n] = 0;
        if (n) v_sym(s, n);
        for (size_t i = 0; i < n; i++) v_assume(v_in_set(s[i], ALPHA[0]));
        char *r = blogc_content_parse_inline(s);
        v_log_s(r);
        r_inline(&o, s, n);
        V_CHECK(v_eqs(r, o.s), "inline elements differ from the documented rendering");
        v_reach("inline"); return;
    }
    static const char *NLS[] = {"\n", "\r\n", "\r"};
    int st = mode == 1 ? 0 : v_choose(N > 3 ? 2 : 3); const char *nl = NLS[st];
    v_buf d; v_buf_init(&d, 200);
    static r_line l[16]; int n = 0, cut = v_choose(2);
    if (mode == 1) {
        size_t k = 1 + v_choose(N);
        for (size_t i = 0; i < k; i++) { char c; v_sym(&c, 1); v_assume(v_in_set(c, ALPHA[1])); v_buf_c(&d, c == '\n' ? '\n' : c); }
        if (d.s[d.n - 1] == '\n') cut = 0;      // (terminated already)
        else if (!cut) v_buf_c(&d, '\n');
        size_t b = 0; for (size_t i = 0; i < d.n; i++) if (d.s[i] == '\n') { l[n++] = (r_line) {d.s + b, i - b}; b = i + 1; }
        if (b < d.n) l[n++] = (r_line) {d.s + b, d.n - b};
    } else {
        int kinds = v_param(2) ? NLK : NCORE, K = 1 + v_choose(N); static size_t off[16]; int two = v_choose(2);
        for (int i = 0; i < K; i++) {
            off[n++] = d.n;
            for (const char *p = LK[v_choose(kinds)]; *p; p++) if (*p == 'M') { char c; v_sym(&c, 1); v_assume(v_in_set(c, i == K - 1 ? "<A1" : "A")); v_buf_c(&d, c); if (two) v_buf_c(&d, 'a' + i); } else v_buf_c(&d, *p);
            if (i < K - 1 || !cut) v_buf_s(&d, nl);
        }
        for (int i = 0; i < n; i++) l[i] = (r_line) {d.s + off[i], (i + 1 < n ? off[i + 1] - v_len(nl) : d.n - (cut ? 0 : v_len(nl))) - off[i]};
    }
    char *doc = malloc(d.n + 1); for (size_t i = 0; i < d.n; i++) doc[i] = d.s[i]; doc[d.n] = 0;
    if (cut && n > 1 && !l[n - 1].n) n--, cut = 0;       // what follows the last line ending is not a line
    r_doc x = {0}; v_buf_init(&x.first, 40); v_buf_init(&x.desc, 100); x.excerpt = 0;
    int one = cut && n == 1;       // without any line ending in the document LF is used
    r_blocks(&o, &x, l, n, one ? "\n" : nl);
    size_t ee = 0; char *fh = NULL, *de = NULL, *endl = NULL; bc_slist_t *h = NULL;
    char *r = blogc_content_parse(doc, &ee, &fh, &de, &endl, &h);
    v_log_s(r);
    if ((!one || st == 0) && !v_param(3)) V_CHECK(v_eqs(r, o.s), "content differs from the documented rendering");
    V_CHECK(v_eqs(fh, x.have_first ? x.first.s : NULL), "first header");
    V_CHECK(v_eqs(de, x.have_desc ? x.desc.s : NULL), "description is the first paragraph");
    if (!v_param(3)) V_CHECK((long) ee == x.excerpt, "excerpt ends at the separator");
    int i = 0;
    for (bc_slist_t *q = h; q; q = q->next, i++) { blogc_toctree_header_t *t = q->data; V_CHECK(i < x.nh && t->level == (size_t) x.h[i].level && v_eqs(t->slug, x.h[i].slug) && v_eqs(t->text, x.h[i].text), "headers of the table of contents"); }
    V_CHECK(i == x.nh, "number of headers");
    v_reach("blocks");
}
