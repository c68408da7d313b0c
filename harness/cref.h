// Independent, line-based reading of blogc-source(7): documents to HTML.
#pragma once
#include "v.h"
#include "clines.h"
static const char *r_ent(char c) {
    switch (c) { case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&#x27;"; case '/': return "&#x2F;"; }
    return NULL;
}
static void r_pe(v_buf *o, char c) { const char *e = r_ent(c); if (e) v_buf_s(o, e); else v_buf_c(o, c); }
static void r_pen(v_buf *o, const char *s, size_t n) { for (size_t i = 0; i < n; i++) r_pe(o, s[i]); }
static void r_unesc(v_buf *o, const char *s, size_t n) { int e = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '\\' && !e) { e = 1; continue; } e = 0; v_buf_c(o, s[i]); } }
// position of the first c (twice: cc) not escaped in [i, n), n if none
static size_t r_find(const char *s, size_t i, size_t n, char c, int twice) {
    while (i < n) {
        if (s[i] == '\\') { i += 2; continue; }
        if (s[i] == c && (!twice || (i + 1 < n && s[i + 1] == c))) return i;
        i++;
    }
    return n;
}
static int r_blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void r_inline(v_buf *o, const char *s, size_t n) {
    size_t i = 0;
    while (i < n) {
        char c = s[i];
        if (i == n - 1) { r_pe(o, c); break; }
        if (c == '\\') { r_pe(o, s[i + 1]); i += 2; continue; }
        if (c == '*' || c == '_' || c == '`') {
            int two = s[i + 1] == c; size_t b = i + 1 + two, e = r_find(s, b, n, c, two);
            if (e >= n) { v_buf_c(o, c); if (two) v_buf_c(o, c); i = b; continue; }
            v_buf_s(o, c == '`' ? "<code>" : two ? "<strong>" : "<em>");
            if (c == '`') r_pen(o, s + b, e - b); else r_inline(o, s + b, e - b);
            v_buf_s(o, c == '`' ? "</code>" : two ? "</strong>" : "</em>");
            i = e + 1 + two; continue;
        }
        if (c == '[' && s[i + 1] == '[') {
            size_t b = i + 2, e = r_find(s, b, n, ']', 1);
            if (e >= n) { v_buf_s(o, "[["); i = b; continue; }
            v_buf_s(o, "<a href=\""); r_unesc(o, s + b, e - b); v_buf_s(o, "\">"); r_unesc(o, s + b, e - b); v_buf_s(o, "</a>");
            i = e + 2; continue;
        }
        int img = c == '!' && s[i + 1] == '[';
        if (c == '[' || img) {
            size_t b = i + 1 + img, j = img ? b : b + 1, e, u;   // the text of a link has at least one character
            int depth = 1, ok = 0;
            for (; j < n; j++) { if (s[j] == '\\') j++; else if (s[j] == '[' && !img) depth++; else if (s[j] == ']' && --depth == 0) break; else if (s[j] == ']' && img) break; }
            e = j;
            if (e < n) { for (j++; j < n && r_blank(s[j]); j++); if (j < n && s[j] == '(') { u = ++j; for (; j < n && s[j] != ')'; j++) if (s[j] == '\\') j++; ok = j < n; } }
            if (!ok) { if (img) v_buf_c(o, '!'); v_buf_c(o, '['); i = b; continue; }
            if (img) { v_buf_s(o, "<img src=\""); r_unesc(o, s + u, j - u); v_buf_s(o, "\" alt=\""); r_unesc(o, s + b, e - b); v_buf_s(o, "\">"); }
            else { v_buf_s(o, "<a href=\""); r_unesc(o, s + u, j - u); v_buf_s(o, "\">"); r_inline(o, s + b, e - b); v_buf_s(o, "</a>"); }
            i = j + 1; continue;
        }
        if (c == '-' && s[i + 1] == '-') { int three = i + 2 < n && s[i + 2] == '-'; v_buf_s(o, three ? "&mdash;" : "&ndash;"); i += 2 + three; continue; }
        if (c == ' ' && s[i + 1] == ' ') {
            size_t j = i; while (j < n && s[j] == ' ') j++;
            if (j == n) { v_buf_s(o, "<br />"); break; }
            if (s[j] == '\n' || s[j] == '\r') { v_buf_s(o, "<br />"); v_buf_c(o, s[j]); i = j + 1; continue; }
            for (; i < j; i++) v_buf_c(o, ' ');
            continue;
        }
        r_pe(o, c); i++;
    }
}
// what a document gives besides its HTML
typedef struct { v_buf first, desc; int have_first, have_desc, nh; long excerpt; struct { int level; char *slug, *text; } h[12]; } r_doc;
typedef struct { const char *s; size_t n; } r_line;
static int r_ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static void r_desc(v_buf *o, const char *s, size_t n) {
    v_buf x; v_buf_init(&x, n + 8);
    size_t i = 0; int first = 1;
    while (i <= n) {
        size_t b = i; while (i < n && s[i] != '\n' && s[i] != '\r') i++;
        size_t e = i; while (b < e && r_ws(s[b])) b++; while (e > b && r_ws(s[e - 1])) e--;
        if (!first) v_buf_c(&x, ' ');
        v_buf_n(&x, s + b, e - b); first = 0;
        if (i >= n) break;
        while (i < n && (s[i] == '\n' || s[i] == '\r')) i++;
        if (i >= n) break;
    }
    size_t b = 0, e = x.n; while (b < e && r_ws(x.s[b])) b++; while (e > b && r_ws(x.s[e - 1])) e--;
    r_pen(o, x.s + b, e - b);
}
static int r_starts(r_line l, const char *p, size_t n) { if (l.n < n) return 0; for (size_t i = 0; i < n; i++) if (l.s[i] != p[i]) return 0; return 1; }
static int r_pad(r_line l, size_t n) { if (l.n < n) return 0; for (size_t i = 0; i < n; i++) if (l.s[i] != ' ') return 0; return 1; }
static int r_olitem(r_line l, size_t w) { size_t i = 0; while (i < l.n && l.s[i] >= '0' && l.s[i] <= '9') i++; if (!i || i >= l.n || l.s[i] != '.') return 0; for (i++; i < w && i < l.n && (l.s[i] == ' ' || l.s[i] == '\t'); i++); return i == w && i < l.n; }
// lines [a, b) joined with nl, without the first `skip` bytes of each
static char *r_join(const r_line *l, int a, int b, size_t skip, const char *nl, size_t *n) {
    v_buf x; v_buf_init(&x, 64);
    for (int i = a; i < b; i++) { if (i > a) v_buf_s(&x, nl); v_buf_n(&x, l[i].s + skip, l[i].n - skip); }
    *n = x.n; return x.s;
}
static void r_para(v_buf *o, r_doc *d, const char *t, size_t n, const char *nl) {
    if (d && !d->have_desc) { d->have_desc = 1; r_desc(&d->desc, t, n); }
    v_buf_s(o, "<p>"); r_inline(o, t, n); v_buf_s(o, "</p>"); v_buf_s(o, nl);
}
static void r_blocks(v_buf *o, r_doc *d, const r_line *l, int n, const char *nl) {
    int i = 0;
    while (i < n) {
        size_t k = 0; while (k < l[i].n && (l[i].s[k] == ' ' || l[i].s[k] == '\t')) k++;
        if (k == l[i].n) { i++; continue; }
        const char *s = l[i].s; size_t m = l[i].n;
        int e = i; while (e < n && l[e].n) e++;         // the block ends before the next empty line
        size_t tn; char *t;
        if (d && s[0] == '.') {      // excerpt separator
            size_t j = 0; while (j < m && s[j] == '.') j++;
            if (j == m && m > 1 && e == i + 1) { if (e < n) d->excerpt = o->n; i = e; continue; }
        }
        if (s[0] == '#') {
            size_t j = 0; while (j < m && s[j] == '#') j++;
            if (j < m && (s[j] == ' ' || s[j] == '\t')) {
                int lv = j; while (j < m && (s[j] == ' ' || s[j] == '\t')) j++;
                v_buf tx, sl; v_buf_init(&tx, 60); v_buf_init(&sl, 20); r_inline(&tx, s + j, m - j);
                for (size_t q = j; q < m; q++) { char c = s[q]; v_buf_c(&sl, (c >= 'A' && c <= 'Z') ? c + 32 : ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) ? c : '-'); }
                char L[3] = {'h', '0' + lv, 0};
                v_buf_c(o, '<'); v_buf_s(o, L); v_buf_s(o, " id=\""); v_buf_n(o, sl.s, sl.n); v_buf_s(o, "\">"); v_buf_n(o, tx.s, tx.n); v_buf_s(o, "</"); v_buf_s(o, L); v_buf_c(o, '>'); v_buf_s(o, nl);
                if (d) { if (!d->have_first) { d->have_first = 1; r_pen(&d->first, s + j, m - j); } d->h[d->nh].level = lv; d->h[d->nh].slug = sl.s; d->h[d->nh].text = tx.s; d->nh++; }
                i++; continue;
            }
            if (j == m && e == i + 1 && e < n) for (e++; e < n && l[e].n; e++);     // the line after a line of nothing but '#' never ends the paragraph
        }
        if (s[0] == '<') { t = r_join(l, i, e, 0, nl, &tn); v_buf_n(o, t, tn); v_buf_s(o, nl); i = e; continue; }
        if ((s[0] == '*' || s[0] == '+' || s[0] == '-') && m >= 3) { size_t j = 0; while (j < m && s[j] == s[0]) j++; if (j == m) { v_buf_s(o, "<hr />"); v_buf_s(o, nl); i++; continue; } }
        if (s[0] == '>' || k) {
            size_t p = s[0] == '>' ? 1 : k; if (s[0] == '>') while (p < m && (s[p] == ' ' || s[p] == '\t')) p++;
            int j = i; while (j < e && r_starts(l[j], s, p)) j++;
            if (j == e) {
                if (s[0] == '>') {
                    r_line in[12]; for (j = i; j < e; j++) in[j - i] = (r_line) {l[j].s + p, l[j].n - p};
                    v_buf_s(o, "<blockquote>"); r_blocks(o, NULL, in, e - i, nl); v_buf_s(o, "</blockquote>"); v_buf_s(o, nl);
                } else {
                    v_buf_s(o, "<pre><code>"); for (j = i; j < e; j++) { if (j > i) v_buf_s(o, nl); r_pen(o, l[j].s + p, l[j].n - p); } v_buf_s(o, "</code></pre>"); v_buf_s(o, nl);
                }
                i = e; continue;
            }
        }
        size_t w = 0; int ol = 0;
        if (s[0] == '+' || s[0] == '-' || (s[0] == '*' && m > 1 && (s[1] == ' ' || s[1] == '\t'))) { w = 1; while (w < m && (s[w] == ' ' || s[w] == '\t')) w++; if (m > 1 && s[1] == s[0]) w = 0; }
        else if (s[0] >= '0' && s[0] <= '9') { while (w < m && s[w] >= '0' && s[w] <= '9') w++; if (w < m && s[w] == '.') { w++; while (w < m && (s[w] == ' ' || s[w] == '\t')) w++; ol = 1; } else w = 0; }
        if (w) {
            int j = i; while (j < e && ((ol ? r_olitem(l[j], w) : r_starts(l[j], s, w)) || r_pad(l[j], w))) j++;
            if (ol && !r_olitem(l[i], w)) j = i;
            if (j == e) {
                v_buf_s(o, ol ? "<ol>" : "<ul>"); v_buf_s(o, nl);
                for (int a = i; a < e;) {
                    int b = a + 1; while (b < e && !(ol ? r_olitem(l[b], w) : r_starts(l[b], s, w))) b++;
                    t = r_join(l, a, b, w, nl, &tn);
                    v_buf_s(o, "<li>"); r_inline(o, t, tn); v_buf_s(o, "</li>"); v_buf_s(o, nl);
                    a = b;
                }
                v_buf_s(o, ol ? "</ol>" : "</ul>"); v_buf_s(o, nl); i = e; continue;
            }
        }
        t = r_join(l, i, e, 0, nl, &tn);
        r_para(o, d, t, tn, nl);
        i = e;
    }
}
