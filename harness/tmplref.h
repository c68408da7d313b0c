// Independent reading of the template language of blogc-template(7): acceptance and rendering.
#pragma once
#include "v.h"
#include "common/utils.h"
enum { TX, TV, TIFDEF, TIFNDEF, TIF, TELSE, TENDIF, TFE, TENDFE, TBL, TENDBL };
typedef struct { int t; char *a, *b; int op; int end, els; } tnode;     // end: index of the closing statement; els: of its else or -1
static tnode tn[64]; static int ntn;
static int t_ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\f') | (c == '\v'); }
static int t_up(char c) { return (c >= 'A') & (c <= 'Z'); }
static int t_vc(char c) { return t_up(c) | ((c >= '0') & (c <= '9')) | (c == '_'); }
static char *t_dup(const char *s, size_t n) { char *r = malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
static int t_is(const char *s, size_t n, const char *w) { return v_len(w) == n && v_eqn(s, w, n); }
static int t_name(const char *s, size_t n, size_t *i, char **out) {
    size_t b = *i;
    if (b >= n || !t_up(s[b])) return 0;
    while (*i < n && t_vc(s[*i])) ++*i;
    *out = t_dup(s + b, *i - b);
    return 1;
}
#define SKIP() while (i < n && t_ws(s[i])) i++
// 1 accepted
static int t_parse(const char *s, size_t n) {
    size_t i = 0; int lstrip = 0; ntn = 0;
    int st[16], sp = 0, inb = 0, inf = 0;
    for (;;) {
        size_t b = i;
        while (i < n && !(s[i] == '{' && i + 1 < n && (s[i + 1] == '{' || s[i + 1] == '%'))) i++;
        int open = i < n, rs = open && s[i + 1] == '%' && i + 2 < n && s[i + 2] == '-';
        size_t x = b, y = i;
        if (lstrip) while (x < y && t_ws(s[x])) x++;
        if (rs) while (y > x && t_ws(s[y - 1])) y--;
        if (y > x) tn[ntn++] = (tnode) {TX, t_dup(s + x, y - x), NULL, 0, 0, -1};
        lstrip = 0;
        if (!open) break;
        tnode *k = &tn[ntn]; *k = (tnode) {TV, NULL, NULL, 0, 0, -1};
        if (s[i + 1] == '{') {
            i += 2; SKIP();
            if (!t_name(s, n, &i, &k->a)) return 0;
            SKIP();
            if (i + 1 >= n || s[i] != '}' || s[i + 1] != '}') return 0;
            i += 2; ntn++;
            continue;
        }
        i += 2; if (rs) i++;
        SKIP();
        b = i; while (i < n && s[i] >= 'a' && s[i] <= 'z') i++;
        if (i == b || i >= n || !t_ws(s[i])) return 0;
        const char *w = s + b; size_t m = i - b;
        int need = 0;
        if (t_is(w, m, "block")) {
            if (inb) return 0;
            SKIP(); b = i;
            if (i >= n || !(s[i] >= 'a' && s[i] <= 'z')) return 0;
            while (i < n && ((s[i] >= 'a' && s[i] <= 'z') || s[i] == '_')) i++;
            if (i >= n || !t_ws(s[i])) return 0;
            k->t = TBL; k->a = t_dup(s + b, i - b);
            if (!t_is(k->a, i - b, "entry") && !t_is(k->a, i - b, "listing") && !t_is(k->a, i - b, "listing_once") && !t_is(k->a, i - b, "listing_empty") && !t_is(k->a, i - b, "listing_entry")) return 0;
            inb = 1; st[sp++] = ntn;
        } else if (t_is(w, m, "endblock")) {
            if (!sp || tn[st[sp - 1]].t != TBL) return 0;
            tn[st[--sp]].end = ntn; inb = 0; k->t = TENDBL;
        } else if (t_is(w, m, "ifdef") || t_is(w, m, "ifndef") || t_is(w, m, "if") || t_is(w, m, "foreach")) {
            k->t = m == 5 ? TIFDEF : m == 6 ? TIFNDEF : m == 2 ? TIF : TFE;
            SKIP();
            if (!t_name(s, n, &i, &k->a)) return 0;
            if (i >= n || !t_ws(s[i])) return 0;
            if (k->t == TFE) { if (inf) return 0; inf = 1; }
            st[sp++] = ntn;
            if (k->t == TIF) {
                SKIP(); b = i;
                while (i < n && !t_ws(s[i])) i++;
                if (i >= n) return 0;
                m = i - b; w = s + b;
                k->op = t_is(w, m, "==") ? 1 : t_is(w, m, "!=") ? 2 : t_is(w, m, "<") ? 3 : t_is(w, m, ">") ? 4 : t_is(w, m, "<=") ? 5 : t_is(w, m, ">=") ? 6 : 0;
                if (!k->op) return 0;
                SKIP(); b = i;
                if (i >= n) return 0;
                if (s[i] == '"') {
                    i++; while (i < n && !(s[i] == '"' && s[i - 1] != '\\')) i++;
                    if (i >= n) return 0;
                    i++; k->b = t_dup(s + b, i - 1 - b);
                } else if (!t_name(s, n, &i, &k->b)) return 0;
            }
        } else if (t_is(w, m, "else")) {
            if (!sp || tn[st[sp - 1]].t < TIFDEF || tn[st[sp - 1]].t > TIF || tn[st[sp - 1]].els >= 0) return 0;
            tn[st[sp - 1]].els = ntn; k->t = TELSE;
        } else if (t_is(w, m, "endif")) {
            if (!sp || tn[st[sp - 1]].t < TIFDEF || tn[st[sp - 1]].t > TIF) return 0;
            tn[st[--sp]].end = ntn; k->t = TENDIF;
        } else if (t_is(w, m, "endforeach")) {
            if (!sp || tn[st[sp - 1]].t != TFE) return 0;
            tn[st[--sp]].end = ntn; inf = 0; k->t = TENDFE;
        } else return 0;
        SKIP();
        if (i < n && s[i] == '-') { lstrip = 1; i++; }
        if (i + 1 >= n || s[i] != '%' || s[i + 1] != '}') return 0;
        i += 2; ntn++; (void) need;
        if (ntn > 60) v_fail("oracle: too many nodes");
    }
    return sp == 0;
}

// what the environment of a rendering is; values NULL = undefined
typedef struct { const char *k, *v; } t_kv;
static const t_kv *t_global; static int t_listing; static const t_kv *const *t_sources; static int t_nsources;
static const t_kv *const *t_entries; static int t_nentries;     // NULL entry: -e ""
static v_buf t_out;
static int t_ecur, t_leak, t_leaked; static const t_kv *t_stale;
static int t_skipped;
static const char *t_find(const t_kv *m, const char *k) { if (m) for (; m->k; m++) if (v_eqs(m->k, k)) return m->v; return NULL; }
static const char *t_plain(const char *k, const t_kv *loc) { const char *r = loc ? t_find(loc, k) : NULL; return r ? r : t_find(t_global, k); }
static const char *t_fn, *t_fi;     // iterator variable and item
static const char *t_foreach(const char *name, const t_kv *loc) {
    if (v_eqs(name, "FOREACH_ITEM")) return t_fi;
    if (v_eqs(name, "FOREACH_VALUE")) {
        if (!t_fi) return NULL;
        size_t n = v_len(t_fn), m = v_len(t_fi); char *k = malloc(n + m + 3);
        for (size_t i = 0; i < n; i++) k[i] = t_fn[i];
        k[n] = k[n + 1] = '_';
        for (size_t i = 0; i < m; i++) { char c = t_fi[i]; k[n + 2 + i] = (c >= 'a' && c <= 'z') ? c - 32 : (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') ? c : '_'; }
        k[n + m + 2] = 0;
        return t_plain(k, loc);
    }
    return NULL;
}
// value of a variable as a template sees it
static const char *t_date_formatted(const char *v);       // provided by the harness
static const char *t_var(const char *name, const t_kv *loc) {
    const char *r = t_plain(name, loc);
    if (!r) r = t_foreach(name, loc);
    if (r) return r;
    size_t n = v_len(name), m = n; long lim = -1;
    while (m > 0 && name[m - 1] >= '0' && name[m - 1] <= '9') m--;
    if (m < n && m > 0 && name[m - 1] == '_') { lim = 0; for (size_t i = m; i < n; i++) { lim = lim * 10 + (name[i] - '0'); if (lim > 1000000) lim = 1000000; } n = m - 1; }
    int fmt = n >= 10 && v_eqn(name + n - 10, "_FORMATTED", 10);
    if (lim < 0 && !fmt) return NULL;
    char *base = t_dup(name, fmt ? n - 10 : n);
    r = t_plain(base, loc);
    if (!r || v_eqs(base, "FOREACH_ITEM") || v_eqs(base, "FOREACH_VALUE")) { const char *f = t_foreach(base, loc); if (f) r = f; }
    if (!r) return NULL;
    if (fmt && n >= 5 && v_eqn(name, "DATE_", 5)) r = t_date_formatted(r);
    if (lim > 0 && (size_t) lim < v_len(r)) r = t_dup(r, lim);
    return r;
}
static int t_cmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : (unsigned char) a[i] > (unsigned char) b[i]; }
static const t_kv *t_loc(const t_kv *loc, int inb) {
    // outside of blocks no source variable is visible; t_leak reproduces the recorded deviation
    if (inb) return loc;
    if (t_skipped && t_stale) { t_leaked = 1; if (t_leak) return t_stale; }
    return NULL;
}
static void t_run(int i, int end, const t_kv *loc, int inb);
static void t_each(int i, const t_kv *loc, int inb) {
    const char *v = t_plain(tn[i].a, t_loc(loc, inb));
    if (!v) return;
    size_t k = 0;
    while (v[k]) {
        while (v[k] == ' ') k++;
        size_t b = k; while (v[k] && v[k] != ' ') k++;
        if (k == b) break;
        t_fn = tn[i].a; t_fi = t_dup(v + b, k - b);
        t_run(i + 1, tn[i].end, loc, inb);
        t_fi = NULL;
    }
}
static void t_enter(int i, const t_kv *src) { t_stale = src; t_skipped = 0; t_run(i + 1, tn[i].end, src, 1); t_skipped = 0; }
static void t_run(int i, int end, const t_kv *loc, int inb) {
    while (i < end) {
        tnode *k = &tn[i];
        switch (k->t) {
        case TX: v_buf_s(&t_out, k->a); i++; break;
        case TV: { const char *v = t_var(k->a, t_loc(loc, inb)); if (v) v_buf_s(&t_out, v); i++; break; }
        case TIF: case TIFDEF: case TIFNDEF: {
            const char *v = t_var(k->a, t_loc(loc, inb)), *o = NULL; int ok;
            if (k->t == TIFDEF) ok = v != NULL;
            else if (k->t == TIFNDEF) ok = v == NULL;
            else {
                o = k->b[0] == '"' ? k->b + 1 : t_var(k->b, t_loc(loc, inb));
                ok = 0;
                if (v && o) { int c = t_cmp(v, o); ok = k->op == 1 ? c == 0 : k->op == 2 ? c != 0 : k->op == 3 ? c < 0 : k->op == 4 ? c > 0 : k->op == 5 ? c <= 0 : c >= 0; }
            }
            if (ok) t_run(i + 1, k->els >= 0 ? k->els : k->end, loc, inb);
            else if (k->els >= 0) t_run(k->els + 1, k->end, loc, inb);
            i = k->end + 1; break; }
        case TFE: t_each(i, loc, inb); i = k->end + 1; break;
        case TBL: {
            int in = 0;
            if (v_eq(k->a, "entry")) { if (!t_listing) { t_enter(i, t_nsources ? t_sources[0] : NULL); in = 1; } }
            else if (v_eq(k->a, "listing_entry")) { if (t_listing) { const t_kv *e = NULL; if (t_ecur < t_nentries) e = t_entries[t_ecur++]; if (e) { t_enter(i, e); in = 1; } } else if (t_ecur < t_nentries) t_ecur++; }
            else if (v_eq(k->a, "listing_once")) { if (t_listing) { t_enter(i, NULL); in = 1; } }
            else if (v_eq(k->a, "listing_empty")) { if (t_listing && !t_nsources) { t_enter(i, NULL); in = 1; } }
            else if (t_listing) for (int j = 0; j < t_nsources; j++) { t_enter(i, t_sources[j]); in = 1; }
            if (!in) t_skipped = 1;
            i = k->end + 1; break; }
        default: v_fail("oracle: unexpected node"); return;
        }
    }
}
static char *t_render(int leak) { t_leak = leak; t_leaked = 0; t_skipped = 0; t_stale = NULL; t_ecur = 0; t_fi = NULL; v_buf_init(&t_out, 400); t_run(0, ntn, NULL, 0); return t_out.s; }
static bc_trie_t *t_trie(const t_kv *m) { bc_trie_t *t = bc_trie_new(free); if (m) for (; m->k; m++) if (m->v) bc_trie_insert(t, m->k, t_dup(m->v, v_len(m->v))); return t; }
