// Listings: filter by tag, order, page; the variables exported about the listing.
#include "env.h"
#include "blogc/loader.h"
#include "common/error.h"
#include "common/utils.h"
#include <time.h>
static const char *DATES[] = {"1901-02-03", "1969-12-31", "1970-01-02", "2004-02-29", "2038-02-01", "2150-01-01", "2004-02-29 01:00"};
static int symbolic;
static char *SY[6];
static long days(int y, int m, int d) { y -= m <= 2; long e = y / 400, yoe = y - e * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return e * 146097 + doe - 719468; }
static long stamp(const struct tm *t) { return days(t->tm_year + 1900, t->tm_mon + 1, t->tm_mday) * 86400 + t->tm_hour * 3600 + t->tm_min * 60 + t->tm_sec; }
static const long STAMP[] = {-2174688000L, -86400, 86400, 1078012800L, 2148595200L, 5680281600L, 1078016400L};
time_t v_mktime(struct tm *t) { return stamp(t); }
time_t v_timegm(struct tm *t) { return stamp(t); }
size_t v_strftime(char *s, size_t n, const char *f, const struct tm *t) {
    V_CHECK(v_eq(f, "%s"), "format");
    if (symbolic) {      // seconds since 1970 replaced by another number that orders dates the same way and has the same sign
        unsigned char y = t->tm_year; int neg = y < 70, k = 0;
        if (neg) s[k++] = '-';
        y = neg ? 70 - y : y - 70;
        s[k++] = '0' + y / 100; s[k++] = '0' + (unsigned char) (y / 10) % 10; s[k++] = '0' + y % 10;
        s[k] = 0; return k;
    }
    long v = stamp(t); char b[24]; int k = 0, i = 0; unsigned long u = v < 0 ? -v : v;
    do b[k++] = '0' + u % 10; while (u /= 10);
    if (v < 0) s[i++] = '-';
    while (k) s[i++] = b[--k];
    s[i] = 0; return i;
}
static const char *TAGS[] = {NULL, "t", " u  t", "tt", "", "T t2"};
static const int HAS[] = {0, 1, 1, 0, 0, 0};
static long num(const char *s) {        // strtol of the texts used here
    if (v_eq(s, "9223372036854775807")) return 9223372036854775807L;
    if (v_eq(s, "4611686018427387905")) return 4611686018427387905L;
    if (v_eq(s, "4611686018427387904")) return 4611686018427387904L;
    if (v_eq(s, "-1")) return -1;
    long r = 0; for (; *s >= '0' && *s <= '9'; s++) r = r * 10 + (*s - '0'); return r;
}
static void put(bc_trie_t *c, const char *k, const char *v) { char *d = malloc(v_len(v) + 1); for (size_t i = 0; i <= v_len(v); i++) d[i] = v[i]; bc_trie_insert(c, k, d); }
static int is_num(const char *s, unsigned long v) { if (!s) return 0; char b[24]; int k = 0; do b[k++] = '0' + v % 10; while (v /= 10); if (v_len(s) != (size_t) k) return 0; for (int i = 0; i < k; i++) if (s[i] != b[k - 1 - i]) return 0; return 1; }
void v_main(void) {
    int K = v_param(0), mode = v_param(1), n = v_choose(K + 1);
    int date[6], tag[6], dated = 0, sdate = mode == 3; long st[6];
    if (sdate) { mode = 1; symbolic = 1; }
    bc_trie_t *c = bc_trie_new(free);
    int sort = mode == 1 ? 1 : mode == 2 ? v_choose(2) : 0, rev = v_choose(2), ftag = mode == 1 ? v_choose(2) : mode == 0 ? v_choose(3) : 0;
    static const char *TRUE_[] = {"1", "true", "on"}; static const char *FALSE_[] = {NULL, "0", "never"};
    if (sort) put(c, "FILTER_SORT", TRUE_[rev]); else if (mode == 2) put(c, "FILTER_SORT", "no");
    if (rev) put(c, "FILTER_REVERSE", TRUE_[2]); else if (mode == 0) { int k = v_choose(2) * 2; if (FALSE_[k]) put(c, "FILTER_REVERSE", FALSE_[k]); }
    if (ftag) put(c, "FILTER_TAG", ftag == 1 ? "t" : "");
    const char *page = NULL, *per = NULL;
    if (mode == 0) {
        static const char *PG[] = {NULL, "x", "9223372036854775807", "4611686018427387905", "2x", "-1"}, *PP[] = {NULL, "x", "-1", "4611686018427387904", "", "9223372036854775807"};
        page = PG[v_choose(6)]; per = page ? PP[v_choose(6)] : PP[v_choose(2) * 2];
        if (page && page[0] == 'x') { static const char *D[] = {"0", "1", "2", "3", "4"}; int k = v_choose(6); if (k < 5) page = D[k]; else { page = v_strn(1); v_assume(!v_in_set(page[0], " \t\n\r\f\v0123456789")); } }
        if (per && per[0] == 'x') { static const char *D[] = {"0", "1", "2", "3", "4"}; int k = v_choose(6); if (k < 5) per = D[k]; else { per = v_strn(1); v_assume(!v_in_set(per[0], " \t\n\r\f\v0123456789")); } }
    } else if (mode == 1) { page = v_choose(2) ? "2" : NULL; per = "1"; }
    if (page) put(c, "FILTER_PAGE", page);
    if (per) put(c, "FILTER_PER_PAGE", per);
    bc_slist_t *l = NULL; static char *names[] = {"/vfs/a.txt", "/vfs/d/b.c.txt", "c", "/vfs/d.d/e", "/vfs/f.txt"}; static const char *FN[] = {"a", "b.c", "c", "e", "f"};
    int bad = -1;
    ve_mkdir("/vfs/cwd"); ve_chdir("/vfs/cwd");
    for (int i = 0; i < n; i++) {
        date[i] = -1; tag[i] = 0;
        if (sdate) {
            char *d = malloc(11);
            for (int j = 0; j < 10; j++) d[j] = "0000-06-15"[j]; d[10] = 0;
            int c20 = v_choose(2); d[0] = c20 ? '2' : '1'; d[1] = c20 ? '0' : '9';
            v_sym(d + 2, 2); for (int j = 2; j < 4; j++) v_assume((d[j] >= '0') & (d[j] <= '9'));
            st[i] = ((d[0] * 10 + d[1]) * 10 + d[2]) * 10 + d[3]; SY[i] = d; date[i] = 0;
        } else if (mode == 1) date[i] = v_choose(7);
        else if (mode == 2) { date[i] = v_choose(4) - 1; if (date[i] == 2) { date[i] = -2; } else if (date[i] == 1) date[i] = 3; }
        else if (i == 0 || dated) date[i] = v_param(2) ? -1 : 3;
        if (mode == 1 ? ftag : mode == 0) tag[i] = mode == 1 ? v_choose(2) : ftag == 1 ? v_choose(n > 2 ? 3 : 6) : ftag ? v_choose(2) : 0;
        if (date[i] != -1) dated++;
        v_buf b; v_buf_init(&b, 100);
        if (date[i] != -1) { v_buf_s(&b, "DATE: "); if (sdate) v_buf_n(&b, SY[i], 10); else v_buf_s(&b, date[i] == -2 ? "someday" : DATES[date[i]]); if (!sdate && date[i] >= 0) st[i] = STAMP[date[i]]; v_buf_s(&b, "\n"); }
        if (TAGS[tag[i]]) { v_buf_s(&b, "TAGS: "); v_buf_s(&b, TAGS[tag[i]]); v_buf_s(&b, "\n"); }
        v_buf_s(&b, "X: y\n-----\nt\n");
        if (mode == 2 && bad < 0 && v_choose(4) == 3) bad = i;       // this one does not exist
        else ve_file(i == 2 ? "/vfs/cwd/c" : names[i], b.s, b.n);
        char *p = malloc(20); size_t k = 0; for (; names[i][k]; k++) p[k] = names[i][k]; p[k] = 0;
        l = bc_slist_append(l, p);
    }
    int err_want = bad >= 0 || (dated && dated < n);
    if (sort) for (int i = 0; i < n; i++) if (date[i] < 0) err_want = 1;
    bc_error_t *err = NULL;
    bc_slist_t *r = blogc_source_parse_from_files(c, l, &err);
    V_CHECK((err != NULL) == err_want, err_want ? "an unusable set of sources is accepted" : "a usable set of sources is refused");
    if (err) { V_CHECK(!r, "error and a result"); v_reach("error"); return; }
    // expected
    int ord[6], m = 0, sel[6], ns = 0, seen[6] = {0};
    for (int i = 0; i < n; i++) ord[i] = rev && !sort ? n - 1 - i : i;
    long pg = 1, pp = 10;
    if (page) { pg = num(page); if (pg <= 0) pg = 1; }
    if (per) { pp = num(per); if (pp < 0) pp = 0; }
    if (!sort) {
        for (int i = 0; i < n; i++) { int x = ord[i]; if (ftag && !(ftag == 1 && HAS[tag[x]])) continue; if (page && !(pp > 0 && (unsigned long) (m / pp) == (unsigned long) (pg - 1))) { m++; continue; } m++; sel[ns++] = x; }
        int k = 0;
        for (bc_slist_t *t = r; t; t = t->next, k++) { V_CHECK(k < ns, "too many entries listed"); V_CHECK(v_eq(bc_trie_lookup(t->data, "FILENAME"), FN[sel[k]]), "wrong entry listed"); V_CHECK(v_eq(bc_trie_lookup(t->data, "X"), "y"), "entry data"); v_log_s(bc_trie_lookup(t->data, "FILENAME")); }
        V_CHECK(k == ns, "an entry is missing from the listing");
    } else {
        for (int i = 0; i < n; i++) if (!ftag || HAS[tag[i]]) m++;
        long prev = 0; int k = 0, want = page ? (m > 1) : m;
        for (bc_slist_t *t = r; t; t = t->next, k++) {
            int x = -1; for (int i = 0; i < n; i++) if (v_eq(bc_trie_lookup(t->data, "FILENAME"), FN[i])) x = i;
            V_CHECK(x >= 0 && !seen[x]++, "listed once");
            V_CHECK(!ftag || HAS[tag[x]], "entry without the tag is listed");
            if (k) V_CHECK(rev ? prev <= st[x] : prev >= st[x], "entries are not in the order of their dates");
            if (page) { int before = 0, same = 0; for (int i = 0; i < n; i++) if (!ftag || HAS[tag[i]]) { before += rev ? st[i] < st[x] : st[i] > st[x]; same += st[i] == st[x]; } V_CHECK(before <= 1 && before + same >= 2, "wrong page of the sorted listing"); }
            prev = st[x]; sel[ns++] = x; v_log_i(x);
        }
        V_CHECK(k == want, "number of entries in the sorted listing");
    }
    const char *f;
    f = bc_trie_lookup(c, "FILENAME_FIRST"); V_CHECK(ns ? v_eq(f, FN[sel[0]]) : !f, "FILENAME_FIRST");
    f = bc_trie_lookup(c, "FILENAME_LAST"); V_CHECK(ns ? v_eq(f, FN[sel[ns - 1]]) : !f, "FILENAME_LAST");
    f = bc_trie_lookup(c, "DATE_FIRST"); V_CHECK(ns && date[sel[0]] >= 0 ? v_eqs(f, sdate ? SY[sel[0]] : DATES[date[sel[0]]]) : ns && date[sel[0]] == -2 ? v_eq(f, "someday") : !f, "DATE_FIRST");
    f = bc_trie_lookup(c, "DATE_LAST"); V_CHECK(ns && date[sel[ns - 1]] >= 0 ? v_eqs(f, sdate ? SY[sel[ns - 1]] : DATES[date[sel[ns - 1]]]) : ns && date[sel[ns - 1]] == -2 ? v_eq(f, "someday") : !f, "DATE_LAST");
    unsigned long last = pp > 0 ? m / pp + (m % pp != 0) : 0;
    if (page) {
        V_CHECK(is_num(bc_trie_lookup(c, "CURRENT_PAGE"), pg), "CURRENT_PAGE");
        f = bc_trie_lookup(c, "PREVIOUS_PAGE"); V_CHECK(pg > 1 ? is_num(f, pg - 1) : !f, "PREVIOUS_PAGE");
        f = bc_trie_lookup(c, "NEXT_PAGE"); V_CHECK((unsigned long) pg < last ? is_num(f, pg + 1) : !f, "NEXT_PAGE");
        f = bc_trie_lookup(c, "FIRST_PAGE"); V_CHECK(ns ? is_num(f, 1) : !f, "FIRST_PAGE");
        f = bc_trie_lookup(c, "LAST_PAGE"); V_CHECK(last ? is_num(f, last) : !f, "LAST_PAGE");
        v_reach("paged"); if ((unsigned long) pg < last) v_reach("next"); if (!ns && n) v_reach("beyond");
    } else V_CHECK(!bc_trie_lookup(c, "CURRENT_PAGE") && !bc_trie_lookup(c, "LAST_PAGE"), "page variables without a page");
    v_reach("listed");
    if (sort) v_reach("sorted");
    V_CHECK(ve_open_fds() == 0, "files left open");
}
