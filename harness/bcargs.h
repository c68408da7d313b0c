// Oracle: the words a shell makes of a blogc command line, sorted by option.
#pragma once
#include "v.h"
#include "shellwords.h"
typedef struct { char *locale, *prog, *p, *e, *t, *o, *d[16]; int l, i, nd, other; } args_t;
static void words(const char *cmd, args_t *a) {
    sw_t w; sw_parse(cmd, &w);
    for (size_t i = 0; i < sizeof *a; i++) ((char *) a)[i] = 0;
    V_CHECK(!w.bad, "quoting is unterminated"); V_CHECK(!w.active, "a character the shell acts on is left unquoted");
    int k = 0;
    if (k < w.n && v_len(w.w[k]) >= 7 && v_eqn(w.w[k], "LC_ALL=", 7)) a->locale = w.w[k++] + 7;
    if (k < w.n) a->prog = w.w[k++];
    for (; k < w.n; k++) {
        char *s = w.w[k];
        if (s[0] != '-') { a->other++; continue; }
        if (s[1] == 'l') { a->l++; continue; }
        if (s[1] == 'i') { a->i++; continue; }
        char *v = s[2] ? s + 2 : k + 1 < w.n ? w.w[++k] : NULL;
        if (s[1] == 'p') a->p = v; else if (s[1] == 'e') a->e = v; else if (s[1] == 't') a->t = v; else if (s[1] == 'o') a->o = v;
        else if (s[1] == 'D' && a->nd < 16) a->d[a->nd++] = v; else a->other++;
    }
}
// value given to a variable, NULL if none; *n: how often
static char *define_of(args_t *a, const char *k, int *n) {
    char *r = NULL; size_t kl = v_len(k); *n = 0;
    for (int i = 0; i < a->nd; i++) if (a->d[i] && v_len(a->d[i]) > kl && v_eqn(a->d[i], k, kl) && a->d[i][kl] == '=') { r = a->d[i] + kl + 1; ++*n; }
    return r;
}
static int defined(args_t *a, const char *k, const char *v) { int n; char *r = define_of(a, k, &n); return n == 1 && v_eqs(r, v); }
