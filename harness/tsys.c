// Variables about the system and the build: what each says, that the user's own win, and that the first answer is kept.
#include "env.h"
#include <netdb.h>
#include <sys/resource.h>
#include "blogc/renderer.h"
#include "blogc/template-parser.h"
#include "blogc/sysinfo.h"
#include "common/error.h"
#include "common/utils.h"
static char *hn, *cn; static int hfail, tfail, rfail, calls; static long cpu, mem, user, sys;
int v_gethostname(char *b, size_t n) { calls++; if (hfail) return -1; size_t l = v_len(hn); for (size_t i = 0; i <= l && i < n; i++) b[i] = hn[i]; return 0; }
struct hostent *v_gethostbyname(const char *h) { static struct hostent e; V_CHECK(v_eq(h, hn), "the name that is looked up"); e.h_name = cn; return cn ? &e : NULL; }
time_t v_time(time_t *t) { calls++; if (tfail) return -1; if (t) *t = ve_time; return ve_time; }
int v_getrusage(int w, struct rusage *r) { calls++; if (rfail) return -1; char *p = (char *) r; for (size_t i = 0; i < sizeof *r; i++) p[i] = 0; V_CHECK(w == RUSAGE_SELF, "whose usage"); r->ru_utime.tv_usec = user; r->ru_stime.tv_usec = sys; r->ru_maxrss = mem; return 0; }
static struct tm tm0; static int tmfail; struct tm *v_gmtime(const time_t *t) { V_CHECK(*t == ve_time, "the time that is shown"); return tmfail ? NULL : &tm0; }
struct tm *v_gmtime_r(const time_t *t, struct tm *r) { if (!v_gmtime(t)) return NULL; *r = tm0; return r; }
static void two(char *p, int v) { p[0] = '0' + v / 10; p[1] = '0' + v % 10; }
static char *dup(const char *v) { size_t n = v_len(v); char *d = malloc(n + 1); for (size_t i = 0; i <= n; i++) d[i] = v[i]; return d; }
static char *num(long v, const char *unit) { char *r = malloc(24); int n = 0; if (v >= 100) r[n++] = '0' + v / 100; if (v >= 10) r[n++] = '0' + v / 10 % 10; r[n++] = '0' + v % 10; r[n++] = unit[0]; r[n++] = unit[1]; r[n] = 0; return r; }
static const char *N[] = {"BLOGC_SYSINFO_HOSTNAME", "BLOGC_SYSINFO_USERNAME", "BLOGC_SYSINFO_DATETIME", "BLOGC_SYSINFO_INSIDE_DOCKER", "BLOGC_RUSAGE_CPU_TIME", "BLOGC_RUSAGE_MEMORY", "BLOGC_SYSINFO_X", "BLOGC_SYSINFO_USERNAM", "BLOGC_SYSINFO_USERNAME_"};
static char *render(bc_trie_t *g, const char *name, int size, int cond) {
    v_buf b; v_buf_init(&b, 200); bc_error_t *err = NULL;
    if (cond) { v_buf_s(&b, "{% ifdef "); v_buf_s(&b, name); v_buf_s(&b, " %}"); }
    v_buf_s(&b, "<{{ "); v_buf_s(&b, name); if (size) v_buf_s(&b, "_2"); v_buf_s(&b, " }}>"); if (cond) v_buf_s(&b, "{% endif %}");
    bc_slist_t *t = blogc_template_parse(b.s, b.n, &err); V_CHECK(t && !err, "template");
    char *r = blogc_render(t, NULL, NULL, g, false); V_CHECK(r != NULL, "rendered"); return r;
}
static void is(const char *got, const char *want, int size, int cond) {
    v_log_s(got); if (!want && cond) { V_CHECK(got[0] == 0, "a variable that is not defined is taken for one that is"); return; }
    size_t n = want ? v_len(want) : 0; if (size && n > 2) n = 2;
    V_CHECK(v_len(got) == n + 2 && got[0] == '<' && v_eqn(got + 1, want, n) && got[n + 1] == '>', want ? "what the variable says" : "a variable that should not be defined");
}
void v_main(void) {
    int L = v_param(0), k = v_choose(9), own = v_choose(2) * v_choose(2), size = v_choose(2), cond = v_choose(2); char *want = NULL;
    if (k == 0) {
        hfail = v_choose(2) * v_choose(2); hn = v_choose(4) ? v_str(1, L) : NULL;
        if (!hn) { hn = malloc(1023); for (int i = 0; i < 1022; i++) hn[i] = 'a' + i % 26; hn[1022] = 0; }
        int c = v_choose(3); if (c == 1) cn = hn; if (c == 2) { cn = malloc(v_len(hn) + 3); size_t n = v_len(hn); for (size_t i = 0; i < n; i++) cn[i] = hn[i]; cn[n] = '.'; cn[n + 1] = 'd'; cn[n + 2] = 0; }
        if (!hfail) want = hn;
    }
    if (k == 1) { if (v_choose(4)) { want = v_str(0, L); ve_setenv("LOGNAME", want); } ve_setenv("USER", "other"); }
    if (k == 2) {
        tfail = v_choose(3); if (tfail && v_choose(2)) v_end(); if (tfail == 0) tmfail = 0; if (tfail == 2) { tfail = 0; tmfail = 1; }
        unsigned char f[6]; v_sym(f, 6); v_assume((f[0] < 200) & (f[1] < 12) & (f[2] > 0) & (f[2] < 32) & (f[3] < 24) & (f[4] < 60) & (f[5] < 61)); ve_time = 4242;
        tm0.tm_year = f[0]; tm0.tm_mon = f[1]; tm0.tm_mday = f[2]; tm0.tm_hour = f[3]; tm0.tm_min = f[4]; tm0.tm_sec = f[5];
        if (!tfail && !tmfail) { want = dup("0000-00-00 00:00:00"); want[0] = f[0] < 100 ? '1' : '2'; want[1] = f[0] < 100 ? '9' : '0'; int y = f[0] % 100; two(want + 2, y); two(want + 5, f[1] + 1); two(want + 8, f[2]); two(want + 11, f[3]); two(want + 14, f[4]); two(want + 17, f[5]); }
    }
    if (k == 3) {
        int c = v_choose(5); if (c == 0) ; else if (c == 1) ve_mkdir("/proc/1/cgroup"); else {
            v_buf b; v_buf_init(&b, 100); if (c == 4) v_buf_s(&b, "0::/a\n"); char *x = dup("-/docker/-"), *p = v_strn(2); x[0] = p[0]; x[9] = p[1]; if (c == 2) { char *y = v_strn(1); x[1 + v_choose(8)] = y[0]; } v_buf_s(&b, x); v_buf_s(&b, "\nz\n"); vnode *f = ve_file("/proc/1/cgroup", b.s, b.n);
            if (v_choose(2) * v_choose(2)) f->noread = 1; else for (size_t i = 0; i + 8 <= b.n; i++) if (v_eqn(b.s + i, "/docker/", 8)) want = "1";
        }
    }
    if (k == 4 || k == 5) {
        static const short B[] = {0, 95, 985}; unsigned char b[2]; v_sym(b, 2); v_assume((b[0] < 8) & (b[1] < 8)); if (k == 4) { user = b[0]; sys = B[v_choose(3)]; } else mem = B[v_choose(3)] + b[1]; rfail = v_choose(2) * v_choose(2);
        cpu = user + sys; if (!rfail) want = num(k == 4 ? cpu : mem, k == 4 ? "us" : "KB");
    }
    bc_trie_t *g = bc_trie_new(free); bc_trie_insert(g, "OTHER", dup("o"));
    if (own) { want = v_str(0, 2); bc_trie_insert(g, N[k], dup(want)); }
    char *a = render(g, N[k], size, cond);
    if (k == 0 && !own && want && cn) { size_t n = v_len(cn); if (size && n > 2) n = 2; if (v_len(a) == n + 2 && v_eqn(a + 1, cn, n)) want = cn; }      // with its domain, or without
    is(a, want, size, cond); if (own) V_CHECK(calls == 0, "the user's own variable is used");
    if (k == 2) { ve_time += 61; tm0.tm_sec = 7; } if (k == 1) ve_setenv("LOGNAME", "changed");
    if (want || k != 1) is(render(g, N[k], size, cond), want, size, cond);          // what was said once stays
    if (k == 3 && !own) { is(render(bc_trie_new(free), N[k], size, cond), want, size, cond); V_CHECK(ve_open_fds() == 0, "files left open"); }
    v_reach(own ? "own" : k >= 6 ? "unknown" : want ? N[k] + 6 : "not available");
}
