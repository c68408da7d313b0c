// Minimal C library for the symbolic engine only (the native replay uses the real one).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
#include <time.h>
#include "v.h"

void *malloc(size_t); void free(void *); void *realloc(void *, size_t);
void *memcpy(void *, const void *, size_t);
void abort(void);
int v_fmt_double(char *buf, size_t n, int prec, double d);

int v_opaque_ints;   // numbers the harness does not look at are printed as 0 instead of one path per value
static int g_errno;
int *__errno_location(void) { return &g_errno; }

long v_scan(const char *s);
size_t strlen(const char *s) { size_t n = v_scan(s); while (s[n]) { n++; n += v_scan(s + n); } return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (int) (unsigned char) a[i] - (int) (unsigned char) b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
    size_t i = 0;
    if (n == 0) return 0;
    while (i + 1 < n && a[i] && a[i] == b[i]) i++;
    return (int) (unsigned char) a[i] - (int) (unsigned char) b[i];
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isgraph(int c) { return c > 32 && c < 127; }
int strcasecmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && tolower((unsigned char) a[i]) == tolower((unsigned char) b[i])) i++;
    return tolower((unsigned char) a[i]) - tolower((unsigned char) b[i]);
}
int strncasecmp(const char *a, const char *b, size_t n) {
    size_t i = 0;
    if (n == 0) return 0;
    while (i + 1 < n && a[i] && tolower((unsigned char) a[i]) == tolower((unsigned char) b[i])) i++;
    return tolower((unsigned char) a[i]) - tolower((unsigned char) b[i]);
}
char *strchr(const char *s, int c) {
    for (size_t i = 0;; i++) { if (s[i] == (char) c) return (char *) s + i; if (!s[i]) return NULL; }
}
char *strchrnul(const char *s, int c) { size_t i = 0; while (s[i] && s[i] != (char) c) i++; return (char *) s + i; }
char *strrchr(const char *s, int c) {
    char *r = NULL;
    for (size_t i = 0;; i++) { if (s[i] == (char) c) r = (char *) s + i; if (!s[i]) return r; }
}
void *memchr(const void *p, int c, size_t n) {
    const unsigned char *s = p;
    for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char) c) return (void *) (s + i);
    return NULL;
}
int memcmp(const void *p, const void *q, size_t n) {
    const unsigned char *a = p, *b = q;
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (int) a[i] - (int) b[i];
    return 0;
}
char *strstr(const char *h, const char *n) {
    for (size_t i = 0;; i++) {
        size_t j = 0;
        while (n[j] && h[i + j] == n[j]) j++;
        if (!n[j]) return (char *) h + i;
        if (!h[i]) return NULL;
    }
}
void *memmem(const void *h_, size_t hn, const void *n_, size_t nn) {
    const char *h = h_, *n = n_;
    for (size_t i = 0; i + nn <= hn; i++) { size_t j = 0; while (j < nn && h[i + j] == n[j]) j++; if (j == nn) return (void *) (h + i); }
    return NULL;
}
char *strcasestr(const char *h, const char *n) {
    for (size_t i = 0;; i++) {
        size_t j = 0;
        while (n[j] && tolower(h[i + j]) == tolower(n[j])) j++;
        if (!n[j]) return (char *) h + i;
        if (!h[i]) return NULL;
    }
}
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && strchr(set, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !strchr(set, s[i])) i++; return i; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *) s : NULL; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
void *memrchr(const void *s, int c, size_t n) { const char *p = s; while (n--) if (p[n] == (char) c) return (void *) (p + n); return NULL; }
void *rawmemchr(const void *s, int c) { const char *p = s; while (*p != (char) c) p++; return (void *) p; }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0; while (i < n && (d[i] = s[i])) i++; for (size_t j = i; j < n; j++) d[j] = 0; return d + i; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t i = 0; for (; n && i + 1 < n && s[i]; i++) d[i] = s[i]; if (n) d[i] = 0; while (s[i]) i++; return i; }
size_t strlcat(char *d, const char *s, size_t n) { size_t k = 0; while (k < n && d[k]) k++; return k + strlcpy(d + k, s, n - k); }
void *memccpy(void *d, const void *s, int c, size_t n) { char *a = d; const char *b = s; for (size_t i = 0; i < n; i++) { a[i] = b[i]; if (b[i] == (char) c) return a + i + 1; } return NULL; }
void *reallocarray(void *p, size_t n, size_t m) { if (m && n > (size_t) -1 / m) { g_errno = 12; return NULL; } return realloc(p, n * m); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
void *mempcpy(void *d, const void *s, size_t n) { return (char *) memcpy(d, s, n) + n; }
void bzero(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((char *) p)[i] = 0; }
char *strdup(const char *s) { size_t n = strlen(s); char *r = malloc(n + 1); if (r) memcpy(r, s, n + 1); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *strtok_r(char *s, const char *d, char **sv) {
    if (!s) s = *sv;
    s += strspn(s, d);
    if (!*s) { *sv = s; return NULL; }
    char *e = s + strcspn(s, d);
    if (*e) *e++ = 0;
    *sv = e;
    return s;
}
static char *g_tok;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &g_tok); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return NULL; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }

static unsigned long long parse_num(const char *s, char **end, int base, bool *neg, bool *ovf, bool *any) {
    const char *p = s;
    *neg = *ovf = *any = false;
    while (isspace((unsigned char) *p)) p++;
    if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char) p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long r = 0;
    for (;; p++) {
        int c = (unsigned char) *p, d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        *any = true;
        if (r > (~0ull - d) / base) *ovf = true;
        r = r * base + d;
    }
    if (end) *end = (char *) (*any ? p : s);
    return r;
}
unsigned long strtoul(const char *s, char **end, int base) {
    bool n, o, a; unsigned long long r = parse_num(s, end, base, &n, &o, &a);
    if (o) { g_errno = 34; return ULONG_MAX; }
    return n ? -r : r;
}
long strtol(const char *s, char **end, int base) {
    bool n, o, a; unsigned long long r = parse_num(s, end, base, &n, &o, &a);
    if (n) { if (o || r > 1ull << 63) { g_errno = 34; return LONG_MIN; } return (long) -r; }
    if (o || r > LONG_MAX) { g_errno = 34; return LONG_MAX; }
    return (long) r;
}
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int) strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long atoll(const char *s) { return strtol(s, NULL, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

// the conversions of scanf on a string
static unsigned char in_set(const char *set, size_t n, char c) {
    bool neg = n && set[0] == '^', hit = false; size_t i = neg;
    for (; i < n; i++) {
        if (i + 2 < n && set[i + 1] == '-') { if ((unsigned char) c >= (unsigned char) set[i] && (unsigned char) c <= (unsigned char) set[i + 2]) hit = true; i += 2; }
        else if (set[i] == c) hit = true;
    }
    return hit != neg;
}
int vsscanf(const char *s, const char *f, va_list ap) {
    const char *p = s; int done = 0;
    for (; *f; f++) {
        if (isspace((unsigned char) *f)) { while (isspace((unsigned char) *p)) p++; continue; }
        if (*f != '%') { if (!*p) return done ? done : -1; if (*p != *f) return done; p++; continue; }
        f++;
        if (*f == '%') { while (isspace((unsigned char) *p)) p++; if (!*p) return done ? done : -1; if (*p != '%') return done; p++; continue; }
        bool skip = false, alloc = false; if (*f == '*') { skip = true; f++; }
        size_t w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        if (*f == 'm') { alloc = true; f++; }
        int len = 0;
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') len = 8; else if (*f == 'h') len = len == 2 ? 1 : 2; else break; }
        if (!len) len = 4;
        if (*f == 'n') { *va_arg(ap, int *) = (int) (p - s); continue; }
        if (*f == 'c') {
            if (!w) w = 1;
            char *o = skip ? NULL : va_arg(ap, char *);
            for (size_t i = 0; i < w; i++) { if (!*p) return done ? done : i ? done : -1; if (o) o[i] = *p; p++; }
            if (!skip) done++;
        } else if (*f == 's' || *f == '[') {
            const char *set = NULL; size_t sn = 0;
            if (*f == '[') { set = ++f; size_t i = 0; if (set[i] == '^') i++; if (set[i] == ']') i++; while (set[i] && set[i] != ']') i++; sn = i; f += i; }
            else while (isspace((unsigned char) *p)) p++;
            if (!*p) return done ? done : -1;
            const char *b = p;
            while (*p && (!w || (size_t) (p - b) < w) && (set ? in_set(set, sn, *p) : !isspace((unsigned char) *p))) p++;
            if (p == b) return done;
            if (!skip) {
                char *o;
                if (alloc) *va_arg(ap, char **) = o = malloc(p - b + 1); else o = va_arg(ap, char *);
                memcpy(o, b, p - b); o[p - b] = 0; done++;
            }
        } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o') {
            while (isspace((unsigned char) *p)) p++;
            if (!*p) return done ? done : -1;
            char tmp[64]; size_t n = 0; if (!w || w > 60) w = 60;
            while (n < w && p[n]) { tmp[n] = p[n]; n++; }
            tmp[n] = 0;
            char *e; bool ng, ov, any; int base = *f == 'i' ? 0 : *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
            unsigned long long r = parse_num(tmp, &e, base, &ng, &ov, &any);
            if (!any) return done;
            p += e - tmp;
            if (ng) r = -r;
            if (!skip) {
                void *o = va_arg(ap, void *);
                if (len == 8) *(unsigned long long *) o = r; else if (len == 4) *(unsigned *) o = (unsigned) r; else if (len == 2) *(unsigned short *) o = (unsigned short) r; else *(unsigned char *) o = (unsigned char) r;
                done++;
            }
        } else v_fail("model: this scanf conversion is not modelled");
    }
    return done;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {  // insertion sort (stable)
    char *a = b, *t = malloc(sz);
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) {
            memcpy(t, a + j * sz, sz); memcpy(a + j * sz, a + (j - 1) * sz, sz); memcpy(a + (j - 1) * sz, t, sz);
        }
    free(t);
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *) b + m * sz; int c = cmp(k, p); if (c == 0) return (void *) p; if (c < 0) hi = m; else lo = m + 1; }
    return NULL;
}

// ------------------------------------------------------------------ formatting
typedef struct { char *b; size_t n, p; } outb;
static void oc(outb *o, char c) { if (o->b && o->p + 1 < o->n) o->b[o->p] = c; o->p++; }
int vsnprintf(char *buf, size_t size, const char *f, va_list ap) {
    outb o = {size ? buf : NULL, size, 0};
    for (; *f; f++) {
        if (*f != '%') { oc(&o, *f); continue; }
        f++;
        bool left = false, zero = false, plus = false, alt = false, space = false;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
        int width = 0, prec = -1;
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        int l = 0;
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l++; else l--; f++; }
        char tmp[128]; const char *s = tmp; size_t n = 0; const char *pre = "";
        switch (*f) {
        case '%': oc(&o, '%'); continue;
        case 'c': tmp[0] = (char) va_arg(ap, int); n = 1; zero = false; break;
        case 's':
            s = va_arg(ap, const char *);
            if (!s) s = "(null)";
            while ((prec < 0 || n < (size_t) prec) && s[n]) n++;
            zero = false;
            break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
            unsigned long u; bool neg = false;
            if (*f == 'd' || *f == 'i') {
                long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int);
                if (l == -1) v = (short) v; else if (l == -2) v = (signed char) v;
                v = v_opaque_ints && v_is_sym(v) ? 0 : v_conc(v);
                neg = v < 0; u = neg ? -(unsigned long) v : (unsigned long) v;
                pre = neg ? "-" : plus ? "+" : space ? " " : "";
            } else {
                u = (l > 0 || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
                if (l == -1) u = (unsigned short) u; else if (l == -2) u = (unsigned char) u;
                u = v_opaque_ints && v_is_sym(u) ? 0 : v_conc(u);
                if (*f == 'p' || (alt && (*f == 'x'))) pre = "0x";
            }
            unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
            char r[32]; int k = 0;
            do { int d = u % base; r[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; u /= base; } while (u);
            while (k < prec && k < 30) r[k++] = '0';
            while (k) tmp[n++] = r[--k];
            if (prec >= 0) zero = false;
            break;
        }
        case 'f': case 'F': case 'g': case 'e': {
            double d = va_arg(ap, double);
            n = v_fmt_double(tmp, sizeof tmp, prec < 0 ? 6 : prec, d);
            break;
        }
        default: v_fail("libc model: unsupported printf conversion");
        }
        size_t pl = strlen(pre), tot = n + pl;
        if (!left && !zero) for (size_t i = tot; i < (size_t) width; i++) oc(&o, ' ');
        for (size_t i = 0; i < pl; i++) oc(&o, pre[i]);
        if (!left && zero) for (size_t i = tot; i < (size_t) width; i++) oc(&o, '0');
        for (size_t i = 0; i < n; i++) oc(&o, s[i]);
        if (left) for (size_t i = tot; i < (size_t) width; i++) oc(&o, ' ');
    }
    if (o.b) o.b[o.p < size ? o.p : size - 1] = 0;
    return (int) o.p;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int vasprintf(char **out, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(NULL, 0, f, a2); va_end(a2); *out = malloc(n + 1); return vsnprintf(*out, n + 1, f, ap); }
int asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(out, f, ap); va_end(ap); return r; }

// ------------------------------------------------------------------ time
static const char *const DN[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char *const MN[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static long days_civil(long y, long m, long d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
struct tm *gmtime_r(const time_t *t, struct tm *r) {
    long d = *t / 86400, s = *t % 86400; if (s < 0) { s += 86400; d--; }
    r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = (int) (((d + 4) % 7 + 7) % 7);
    long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
    long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    long dd = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++;
    r->tm_mday = dd; r->tm_mon = m - 1; r->tm_year = y - 1900; r->tm_yday = d - days_civil(y, 1, 1); r->tm_isdst = 0;
    return r;
}
static struct tm g_tm;
struct tm *gmtime(const time_t *t) { return gmtime_r(t, &g_tm); }
// local time is nine hours ahead
struct tm *localtime_r(const time_t *t, struct tm *r) { time_t l = *t + 32400; return gmtime_r(&l, r); }
struct tm *localtime(const time_t *t) { return localtime_r(t, &g_tm); }
time_t timegm(struct tm *t) {
    long mon = t->tm_mon, y = t->tm_year + 1900L + mon / 12; mon %= 12; if (mon < 0) { mon += 12; y--; }
    time_t r = (days_civil(y, mon + 1, 1) + t->tm_mday - 1) * 86400L + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec;
    gmtime_r(&r, t);
    return r;
}
time_t mktime(struct tm *t) { return timegm(t) - 32400; }
static void os(outb *o, const char *s) { for (; *s; s++) oc(o, *s); }
static void od(outb *o, long v, int w, char pad) { char r[24]; int k = 0; bool neg = v < 0; unsigned long u = neg ? -v : v; do { r[k++] = '0' + u % 10; u /= 10; } while (u); while (k < w) r[k++] = pad; if (neg) oc(o, '-'); while (k) oc(o, r[--k]); }
static void sft(outb *o, const char *f, const struct tm *t) {
    for (; *f; f++) {
        if (*f != '%') { oc(o, *f); continue; }
        f++;
        switch (*f) {
        case 0: oc(o, '%'); return;
        case 'a': if (t->tm_wday < 0 || t->tm_wday > 6) oc(o, '?'); else { oc(o, DN[t->tm_wday][0]); oc(o, DN[t->tm_wday][1]); oc(o, DN[t->tm_wday][2]); } break;
        case 'A': if (t->tm_wday < 0 || t->tm_wday > 6) oc(o, '?'); else os(o, DN[t->tm_wday]); break;
        case 'b': case 'h': if (t->tm_mon < 0 || t->tm_mon > 11) oc(o, '?'); else { oc(o, MN[t->tm_mon][0]); oc(o, MN[t->tm_mon][1]); oc(o, MN[t->tm_mon][2]); } break;
        case 'B': if (t->tm_mon < 0 || t->tm_mon > 11) oc(o, '?'); else os(o, MN[t->tm_mon]); break;
        case 'c': sft(o, "%a %b %e %H:%M:%S %Y", t); break;
        case 'C': od(o, (t->tm_year + 1900L) / 100, 2, '0'); break;
        case 'd': od(o, t->tm_mday, 2, '0'); break;
        case 'D': sft(o, "%m/%d/%y", t); break;
        case 'e': od(o, t->tm_mday, 2, ' '); break;
        case 'F': sft(o, "%Y-%m-%d", t); break;
        case 'H': od(o, t->tm_hour, 2, '0'); break;
        case 'I': { int h = t->tm_hour % 12; od(o, h ? h : 12, 2, '0'); break; }
        case 'j': od(o, t->tm_yday + 1, 3, '0'); break;
        case 'm': od(o, t->tm_mon + 1, 2, '0'); break;
        case 'M': od(o, t->tm_min, 2, '0'); break;
        case 'n': oc(o, '\n'); break;
        case 'p': os(o, t->tm_hour >= 12 ? "PM" : "AM"); break;
        case 'R': sft(o, "%H:%M", t); break;
        case 'S': od(o, t->tm_sec, 2, '0'); break;
        case 's': { long y = t->tm_year + 1900L - (t->tm_mon < 2), m = (t->tm_mon + 10) % 12; od(o, ((y * 365 + y / 4 - y / 100 + y / 400 + (m * 153 + 2) / 5 + t->tm_mday - 1 - 719468) * 24L + t->tm_hour) * 3600L + t->tm_min * 60L + t->tm_sec, 1, '0'); break; }
        case 't': oc(o, '\t'); break;
        case 'T': case 'X': sft(o, "%H:%M:%S", t); break;
        case 'u': od(o, t->tm_wday ? t->tm_wday : 7, 1, '0'); break;
        case 'w': od(o, t->tm_wday, 1, '0'); break;
        case 'x': sft(o, "%m/%d/%y", t); break;
        case 'y': od(o, (t->tm_year % 100 + 100) % 100, 2, '0'); break;
        case 'Y': od(o, t->tm_year + 1900L, 1, '0'); break;
        case 'z': os(o, "+0000"); break;
        case 'Z': os(o, "GMT"); break;
        case '%': oc(o, '%'); break;
        default: oc(o, '%'); oc(o, *f); break;
        }
    }
}
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) {
    outb o = {n ? b : NULL, n, 0};
    sft(&o, f, t);
    if (o.p + 1 > n) return 0;
    o.b[o.p] = 0;
    return o.p;
}
char *__xpg_basename(char *p) {
    if (!p || !*p) return (char *) ".";
    size_t n = strlen(p);
    while (n > 1 && p[n - 1] == '/') p[--n] = 0;
    if (n == 1 && p[0] == '/') return p;
    char *r = strrchr(p, '/');
    return r ? r + 1 : p;
}
char *basename(const char *p) { char *r = strrchr(p, '/'); return r ? r + 1 : (char *) p; }
char *dirname(char *p) {
    if (!p || !*p) return (char *) ".";
    size_t n = strlen(p);
    while (n > 1 && p[n - 1] == '/') n--;
    while (n > 0 && p[n - 1] != '/') n--;
    if (n == 0) return (char *) ".";
    while (n > 1 && p[n - 1] == '/') n--;
    p[n] = 0;
    return p;
}
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { v_fail("assert() failed"); }
char *strerror(int e) { (void) e; return (char *) "Some error"; }
char *setlocale(int c, const char *l) { return NULL; }

unsigned short ntohs(unsigned short x) { return (unsigned short) (x << 8 | x >> 8); }
unsigned ntohl(unsigned x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
unsigned htonl(unsigned x) { return ntohl(x); }
