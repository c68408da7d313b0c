// Harness API.  Implemented by the symbolic engine (engine/symx.cpp) and, for replay, by v_native.c.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

void v_sym(void *p, size_t n);            // n fresh arbitrary bytes
int v_choose(int n);                      // arbitrary value in [0,n), one path per value
void v_assume(int c);                     // restrict to inputs with c
void v_assert_(int c, const char *msg);   // property
int v_co_new(void (*fn)(void *), void *arg);   // a second call stack; fn must not return
void v_co_switch(int k);                         // go on on stack k (0: the one of v_main)
void v_fail(const char *msg);             // property violated on this path
void v_reach(const char *label);          // reachability witness
void v_log(const void *p, size_t n);      // observable, compared between engine and native replay
void v_end(void);                         // end this path here
long v_param(int i);                      // bound given by the driver
long v_conc(long v);                      // one path per value of v
int v_may(int c);                         // engine only: is c feasible (native: c)
int v_is_sym(long v);
long v_scan(const char *s);               // engine: number of bytes at s that are certainly not zero (native: 0)
extern int v_opaque_ints;                 // printf: arbitrary integers in messages that are not judged print as 0 (symbolically)
void v_trace(const char *s);
void v_main(void);

#define V_ASSERT(c) v_assert_(!!(c), #c)
#define V_CHECK(c, msg) v_assert_(!!(c), msg)

static inline void v_log_i(long x) { v_log(&x, sizeof x); }
static inline void v_log_s(const char *s) {
    if (s == NULL) { v_log_i(-1); return; }
    size_t n = 0; while (s[n]) n++;
    v_log(s, n + 1);
}

void *malloc(size_t);
void free(void *);

// heap string of exactly len arbitrary non-NUL bytes
static inline char *v_strn(size_t len) {
    char *s = malloc(len + 1);
    if (len) v_sym(s, len);
    s[len] = 0;
    for (size_t i = 0; i < len; i++) v_assume(s[i] != 0);
    return s;
}
// arbitrary string of length min..max (one path per length)
static inline char *v_str(size_t min, size_t max) { return v_strn(min + v_choose(max - min + 1)); }

static inline int v_in_set(char c, const char *set) {
    int ok = 0;
    for (size_t i = 0; set[i]; i++) ok |= (c == set[i]);
    return ok;
}
// heap string of exactly len bytes, each out of `set`
static inline char *v_strn_of(size_t len, const char *set) {
    char *s = malloc(len + 1);
    if (len) v_sym(s, len);
    s[len] = 0;
    for (size_t i = 0; i < len; i++) v_assume(v_in_set(s[i], set));
    return s;
}
static inline char *v_str_of(size_t min, size_t max, const char *set) { return v_strn_of(min + v_choose(max - min + 1), set); }

// small helpers for oracles, independent of the code under test
static inline size_t v_len(const char *s) { size_t n = v_scan(s); while (s[n]) { n++; n += v_scan(s + n); } return n; }
static inline int v_eq(const char *a, const char *b) {
    if (a == NULL || b == NULL) return a == b;
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return a[i] == b[i];
}
// equality without forking: same length required concretely
static inline int v_eqn(const char *a, const char *b, size_t n) {
    int d = 0;
    for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i];
    return d == 0;
}
static inline int v_eqs(const char *a, const char *b) {
    if (a == NULL || b == NULL) return a == b;
    size_t n = v_len(a), m = v_len(b);
    return n == m && v_eqn(a, b, n);
}
// growable oracle buffer with fixed capacity
typedef struct { char *s; size_t n, cap; } v_buf;
static inline void v_buf_init(v_buf *b, size_t cap) { b->s = malloc(cap + 1); b->n = 0; b->cap = cap; b->s[0] = 0; }
static inline void v_buf_c(v_buf *b, char c) { if (b->n >= b->cap) v_fail("oracle buffer full"); b->s[b->n++] = c; b->s[b->n] = 0; }
static inline void v_buf_s(v_buf *b, const char *s) { for (; *s; s++) v_buf_c(b, *s); }
static inline void v_buf_n(v_buf *b, const char *s, size_t n) { for (size_t i = 0; i < n; i++) v_buf_c(b, s[i]); }
