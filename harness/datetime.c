// Dates: exactly the documented formats are accepted, and the broken-down time handed to the formatter is the written one.
#include "v.h"
#include <time.h>
#include "blogc/datetime-parser.h"
#include "common/error.h"
static int normalised, formatted, fmt_ok; static struct tm seen; static const char *FMT = "%Y:%j";
static int nlen = 2;
time_t v_timegm(struct tm *t) { normalised = 1; t->tm_wday = 5; t->tm_yday = 123; t->tm_isdst = 0; return 1; }
time_t v_mktime(struct tm *t) {     // with or without daylight saving time on that day
    int summer = v_choose(2), was = t->tm_isdst; v_timegm(t); t->tm_isdst = summer;
    if (was == 0 && summer) t->tm_hour++;
    if (was > 0 && !summer) t->tm_hour--;
    v_reach(summer ? "summer" : "winter");
    return 1;
}
size_t v_strftime(char *s, size_t n, const char *f, const struct tm *t) {
    formatted++; seen = *t; fmt_ok = v_eq(f, FMT);
    if ((size_t) nlen >= n) return 0;
    s[0] = 'o'; s[1] = 'k'; s[2] = 0; return nlen;
}
static int dg(char c) { return (c >= '0') & (c <= '9'); }
static int two(const char *p) { return (p[0] - '0') * 10 + p[1] - '0'; }
void v_main(void) {
    static const int lens[] = {10, 13, 16, 19};
    v_opaque_ints = 1;
    int mode = v_choose(3);
    size_t n;
    if (mode != 1) n = lens[v_choose(4)];
    else n = v_choose(22);
    char *s = malloc(n + 1); s[n] = 0;
    if (mode == 0) { v_sym(s, n); static const char *pat = "dddd-dd-dd dd:dd:dd"; for (size_t i = 0; i < n; i++) v_assume(s[i] != 0 && (!v_param(0) || (pat[i] == 'd' ? dg(s[i]) : s[i] == pat[i]))); }
    if (mode == 1 && v_choose(2)) nlen = 5000; // the result does not fit the formatter's buffer
    if (mode == 1) { // a valid date cut short at any point
        static const char *full = "2024-02-29 23:59:58xx";
        v_assume(n < 20);   // text after the seconds is not judged
        for (size_t i = 0; i < n; i++) s[i] = full[i];
    }
    if (mode == 2) { // one arbitrary byte inside a valid date
        static const char *full = "2024-02-29 23:59:58";
        size_t k = v_choose(n);
        for (size_t i = 0; i < n; i++) s[i] = full[i];
        v_sym(s + k, 1); v_assume(s[k] != 0);
    }
    int ok = 0, y = 1900, mo = 1, d = 1, h = 0, mi = 0, se = 0;
    if (n == 10 || n == 13 || n == 16 || n == 19) {
        ok = dg(s[0]) & dg(s[1]) & dg(s[2]) & dg(s[3]) & (s[4] == '-') & dg(s[5]) & dg(s[6]) & (s[7] == '-') & dg(s[8]) & dg(s[9]);
        y = two(s) * 100 + two(s + 2); mo = two(s + 5); d = two(s + 8);
        ok &= (y >= 1900) & (mo >= 1) & (mo <= 12) & (d >= 1) & (d <= 31);
        if (n > 10) { h = two(s + 11); ok &= (s[10] == ' ') & dg(s[11]) & dg(s[12]) & (h <= 23); }
        if (n > 13) { mi = two(s + 14); ok &= (s[13] == ':') & dg(s[14]) & dg(s[15]) & (mi <= 59); }
        if (n > 16) { se = two(s + 17); ok &= (s[16] == ':') & dg(s[17]) & dg(s[18]) & (se <= 60); }
    }
    bc_error_t *err = NULL;
    char *r = blogc_convert_datetime(s, FMT, &err);
    v_log_i(r != NULL);
    V_CHECK((r == NULL) == (err != NULL), "either a text or an error");
    if (nlen == 5000) { if (ok) { V_CHECK(err != NULL, "a result that does not fit is an error"); v_reach("too long"); } }
    else V_CHECK((r != NULL) == ok, "accepted dates are exactly the documented formats");
    if (r) {
        v_reach(n == 10 ? "day" : n == 13 ? "hour" : n == 16 ? "minute" : "second");
        V_CHECK(formatted == 1 && fmt_ok && normalised && seen.tm_wday == 5, "formatted once, with the given format, after week day and year day are known");
        V_CHECK((seen.tm_year == y - 1900) & (seen.tm_mon == mo - 1) & (seen.tm_mday == d) & (seen.tm_hour == h) & (seen.tm_min == mi) & (seen.tm_sec == se), "broken-down time is the written one");
        V_CHECK(v_eq(r, "ok"), "result is the formatter's");
    } else { v_reach("refused"); V_CHECK(err->type == BLOGC_WARNING_DATETIME_PARSER, "error type"); bc_error_free(err); }
}
