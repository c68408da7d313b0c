// Variables as templates see them: local before global, _FORMATTED, _<length>, FOREACH_*; existing variables win.
#include "tmplref.h"
#include <time.h>
#include "blogc/renderer.h"
static int dfmt, date_ok, warned;
time_t v_mktime(struct tm *t) { return 1; }
time_t v_timegm(struct tm *t) { return 1; }
size_t v_strftime(char *s, size_t n, const char *f, const struct tm *t) { V_CHECK(v_eq(f, "%Y"), "date format"); V_CHECK(t->tm_year == 120 && t->tm_mon == 0 && t->tm_mday == 2, "date"); s[0] = '2'; s[1] = 'O'; s[2] = '2'; s[3] = 'O'; s[4] = 0; return 4; }
static const char *t_date_formatted(const char *v) { return dfmt && v_eq(v, "2020-01-02") ? "2O2O" : v; }
static const char *BASE[] = {"A", "DATE", "DATE_X", "FOREACH_ITEM", "FOREACH_VALUE", "A_B", "FORMATTED", "A_FORMATTED", "DATE_FORMATTED", "DATES"};
static char *cat(const char *a, const char *b) { v_buf w; v_buf_init(&w, 60); v_buf_s(&w, a); v_buf_s(&w, b); return w.s; }
static char *val(int date) { if (date) return v_choose(2) ? "2020-01-02" : "never"; return v_str(0, 3); }
void v_main(void) {
    int N = v_param(0), b = v_choose(10);
    char *suf = v_str(0, N); for (size_t i = 0; suf[i]; i++) v_assume(t_vc(suf[i]));
    const char *base = BASE[b], *mid = cat(base, v_choose(2) ? "_FORMATTED" : "");
    char *name = v_choose(2) ? cat(mid, cat("_", suf)) : cat(mid, suf);
    int date = b == 1 || b == 2 || b >= 8;
    t_kv glob[5] = {0}, loc[4] = {0}; int g = 0, l = 0;
    dfmt = date ? v_choose(2) : 0;
    int ex = v_choose(6);
    if ((b == 3 || b == 4) && ex && ex != 5) v_end();      // a user's own variable called FOREACH_ITEM is not judged
    switch (ex) {        // which variables exist
    case 0: break;
    case 1: glob[g++] = (t_kv) {base, val(date)}; break;
    case 2: loc[l++] = (t_kv) {base, val(date)}; break;
    case 3: glob[g++] = (t_kv) {base, "g"}; loc[l++] = (t_kv) {base, date ? val(1) : v_str(0, 1)}; break;
    case 4: glob[g++] = (t_kv) {base, "2020-01-02"}; if (!v_eqs(base, mid)) loc[l++] = (t_kv) {mid, "mmm"}; break;
    case 5: if (b != 3 && b != 4 && !v_eqs(base, mid)) loc[l++] = (t_kv) {base, "base"}; if (!v_eqs(name, base)) glob[g++] = (t_kv) {name, val(0)}; break;
    }
    if (dfmt) glob[g++] = (t_kv) {"DATE_FORMAT", "%Y"};
    int fe = b == 3 || b == 4 ? v_choose(3) : 0;
    char *item = "";
    if (fe) { item = v_strn(2); v_assume(item[0] != ' ' && item[1] != ' '); t_fn = "T"; t_fi = item; }
    if (fe == 2) { char *k = cat("T__", item); for (int i = 3; i < 5; i++) k[i] = k[i] >= 'a' && k[i] <= 'z' ? k[i] - 32 : t_up(k[i]) || (k[i] >= '0' && k[i] <= '9') ? k[i] : '_'; if (v_choose(2)) loc[l++] = (t_kv) {k, "mapped"}; else glob[g++] = (t_kv) {k, "globally"}; }
    t_global = glob;
    const char *want = t_var(name, loc);
    // a length of zero is not judged
    size_t n = v_len(name); while (n && name[n - 1] == '0') n--;
    int zero = n && name[n - 1] == '_' && name[n];
    bc_slist_t node = {NULL, item};
    char *r = blogc_format_variable(name, t_trie(glob), v_choose(2) || l ? t_trie(loc) : NULL, fe ? "T" : NULL, fe ? &node : NULL);
    v_log_s(r);
    if (zero) { v_reach("zero"); return; }
    V_CHECK((r != NULL) == (want != NULL), want ? "a defined variable is missing" : "an undefined variable has a value");
    if (r) { V_CHECK(v_eqs(r, want), "value of the variable"); v_reach("value"); if (fe) v_reach("item"); } else v_reach("undefined");
}
