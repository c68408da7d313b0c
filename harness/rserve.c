// blogc-runserver: the real server loop and request handler over a virtual docroot and virtual sockets.
#include "env.h"
#include <errno.h>
int br_httpd_run(const char *host, const char *port, const char *docroot, size_t max_threads);
static char *dup_(const char *s) { v_buf b; v_buf_init(&b, 400); v_buf_s(&b, s); return b.s; }
static v_buf B(const char *s) { v_buf b; v_buf_init(&b, 400); v_buf_s(&b, s); return b; }

// ---- the site
static vnode *docroot, *outside;
static const char *rootarg = "/vfs/w/r";
static void any(const char *p, size_t n) { char x[8]; v_sym(x, n); ve_file(p, x, n); }
static void site(void) {
    docroot = ve_mkdir("/vfs/w/r"); ve_mkdir("/vfs/w/r/d"); ve_mkdir("/vfs/w/r/e"); ve_mkdir("/vfs/w/r/k"); ve_mkdir("/vfs/w/rs"); ve_mkdir("/vfs/w/s");
    any("/vfs/w/r/index.html", 4); any("/vfs/w/r/i", 1); any("/vfs/w/r/f.js", 3); any("/vfs/w/r/f.html", 4); any("/vfs/w/r/d.css", 3); ve_mkdir("/vfs/w/r/s/index.html");  ve_file("/vfs/w/r/d/x.txt", "a\0b\xff", 4); any("/vfs/w/r/d/index.htm", 3); ve_text("/vfs/w/r/d/index.txt", "no"); ve_file("/vfs/w/r/e/2", "", 0);
    ve_text("/vfs/w/r/f f", "space"); ve_text("/vfs/w/r/f%2e", "percent"); ve_text("/vfs/w/r/f+f", "plus"); ve_text("/vfs/w/r/.f", "hidden");
    ve_link("/vfs/w/r/k/index.html", "../../s/f"); ve_link("/vfs/w/r/l", "../s"); ve_link("/vfs/w/r/m", "d"); ve_link("/vfs/w/r/n", "/vfs/w/r"); ve_link("/vfs/w/r/g", "nowhere"); ve_link("/vfs/w/r/p", "/vfs/w/s/f"); ve_link("/vfs/w/r/q", "../rs/f"); ve_link("/vfs/w/r/h", "d/x.txt");
    ve_text("/vfs/w/rs/f", "sibling"); ve_text("/vfs/w/s/f", "secret"); ve_text("/vfs/w/f", "above"); ve_text("/f", "root");
    outside = ve_mkdir("/vfs/w");
}
static void opened(vnode *n, const char *p) { (void) p; V_CHECK(ve_inside(n, docroot), "a file outside of the document root was opened"); }

// ---- responses
typedef struct { int n, code, head; const char *type, *loc; long clen; const char *body; size_t blen; int bad; } resp;
static int starts(const char *s, const char *p) { while (*p) if (*s++ != *p++) return 0; return 1; }
static void parse(const char *s, size_t n, resp *r) {   // s is NUL terminated
    for (size_t i = 0; i < sizeof *r; i++) ((char *) r)[i] = 0;
    r->clen = -1; r->n = n; if (n == 0) return;
    r->bad = 1;
    if (n < 13 || !starts(s, "HTTP/1.") || s[8] != ' ') return;
    for (int i = 9; i < 12; i++) { if (s[i] < '0' || s[i] > '9') return; r->code = r->code * 10 + s[i] - '0'; }
    size_t i = 0;
    for (;;) {
        size_t j = i; while (j < n && s[j] != '\r' && s[j] != '\n') j++;
        if (j + 1 >= n || s[j] != '\r' || s[j + 1] != '\n') return;
        if (j == i) { i = j + 2; break; }
        v_buf v; v_buf_init(&v, j - i + 1); size_t k = i; while (k < j && s[k] != ':') k++;
        if (i && k == j) return;
        for (size_t q = k < j ? k + 2 : j; q < j; q++) v_buf_c(&v, s[q]);
        if (starts(s + i, "Content-Type: ")) r->type = v.s;
        if (starts(s + i, "Location: ")) { if (r->loc) return; r->loc = v.s; }
        if (starts(s + i, "Content-Length: ")) { if (r->clen >= 0) return; r->clen = 0; for (char *c = v.s; *c; c++) { if (*c < '0' || *c > '9') return; r->clen = r->clen * 10 + *c - '0'; } }
        i = j + 2;
    }
    r->bad = 0; r->body = s + i; r->blen = n - i; r->head = i;
}

// ---- the loop
#define MAXC 6
static int conn[MAXC], nconn, next_, closed[MAXC]; static ve_out got[MAXC];
static int accept_(void) { if (next_ < nconn) return conn[next_++]; errno = EMFILE; return -1; }
static void close_(int fd) { for (int i = 0; i < nconn; i++) if (conn[i] == fd && !closed[i]) { closed[i] = 1; got[i] = *ve_fd_out(fd); } }
static int now(void *(*fn)(void *), void *arg) { fn(arg); return 0; }
static void add(const char *s, size_t n) { conn[nconn++] = ve_fd_sock(s, n); }
static void run(int threads) { ve_accept_hook = accept_; if (!ve_thread_hook) ve_thread_hook = now; ve_close_hook = close_; v_opaque_ints = 0; V_CHECK(br_httpd_run("127.0.0.1", "8080", rootarg, threads) == 1, "server loop"); }
static void out1(int i, resp *r) { V_CHECK(closed[i], "the connection was not closed"); parse(got[i].n ? got[i].s : "", got[i].n, r); }

// ---- what should be served for a target
typedef struct { int code; vnode *file; const char *loc, *type; } want;
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static const char *type_of(const char *name) {
    const char *dot = NULL; for (const char *p = name; *p; p++) if (*p == '.') dot = p + 1;
    if (!dot) return "application/octet-stream";
    return v_eq(dot, "html") || v_eq(dot, "htm") ? "text/html" : v_eq(dot, "txt") ? "text/plain" : v_eq(dot, "js") ? "application/javascript" : v_eq(dot, "xml") ? "text/xml" : v_eq(dot, "css") ? "text/css" : "application/octet-stream";
}
static want expect(const char *t) {
    want w = {0}; v_buf d = B(""), raw = B(""); w.code = 400;
    size_t i = 0; int nul = 0; for (; t[i] && t[i] != '?'; i++) v_buf_c(&raw, t[i]);
    t = raw.s;
    for (i = 0; t[i]; i++) {
        if (t[i] == '%' && t[i + 1] && t[i + 2] && hexv(t[i + 1]) >= 0 && hexv(t[i + 2]) >= 0) { char c = hexv(t[i + 1]) * 16 + hexv(t[i + 2]); if (!c) nul = 1; v_buf_c(&d, c); i += 2; }
        else v_buf_c(&d, t[i] == '+' ? ' ' : t[i]);
    }
    if (nul) return w;
    v_buf full = B(rootarg); v_buf_c(&full, '/'); v_buf_s(&full, d.s);
    vnode *n = ve_get(full.s, 1);
    w.code = 404;
    if (!n) return w;
    if (!ve_inside(n, docroot)) return w;
    if (n->type == 'd') {
        static const char *IDX[] = {"index.html", "index.htm", "index.shtml", "index.xml", "index.txt", "index.xhtml"}; vnode *x = NULL;
        for (int k = 0; k < 6 && !x; k++) { v_buf p; v_buf_init(&p, 400); char *b = ve_path(n); v_buf_s(&p, b); v_buf_c(&p, '/'); v_buf_s(&p, IDX[k]); x = ve_get(p.s, 1); }
        if (!x) { w.code = 403; return w; }
        if (!ve_inside(x, docroot)) return w;
        if (d.n && d.s[d.n - 1] != '/') { w.code = 302; while (raw.s[0] == '/' && raw.s[1] == '/') raw.s++; raw = B(raw.s); v_buf_c(&raw, '/'); w.loc = raw.s; return w; }
        n = x;
        if (n->type == 'd') { w.code = 500; return w; }
    }
    w.code = 200; w.file = n; w.type = type_of(n->name); return w;
}
static int loops(const char *t) { for (; *t; t++) if (*t == 'o') return 1; return 0; }
static void judge(resp *r, want *w) {
    V_CHECK(r->n && !r->bad, "the response is not well formed");
    v_log_i(r->code);
    V_CHECK(r->code == w->code, w->code == 404 ? "not found" : w->code == 400 ? "bad request" : w->code == 403 ? "forbidden" : w->code == 302 ? "redirected" : w->code == 405 ? "method" : w->code == 500 ? "a directory in place of an index" : "the resource is served");
    V_CHECK(r->clen == (long) r->blen, "Content-Length is the length of the body");
    if (w->code == 200) { V_CHECK(r->blen == w->file->len && v_eqn(r->body, w->file->data, r->blen), "the body is the content of the file"); V_CHECK(v_eq(r->type, w->type), "content type"); v_reach("200"); }
    else if (w->code == 302) { V_CHECK(v_eqs(r->loc, w->loc), "location"); v_reach("302"); }
    else v_reach(w->code == 404 ? "404" : w->code == 403 ? "403" : w->code == 405 ? "405" : w->code == 500 ? "500" : "400");
    if (w->code != 302) V_CHECK(!r->loc, "an unexpected location");
}
static void cleanend(void) { V_CHECK(ve_open_fds() == 0, "descriptors stay open"); }
static const char *ROOTS[] = {"/vfs/w/r", "r", ".", "/vfs/w/r/", "n", "../w/r/d/..", "/"};
static void setroot(int k) { rootarg = ROOTS[k]; ve_chdir(k == 1 ? "/vfs/w" : k == 6 ? "/" : "/vfs/w/r"); if (k == 6) docroot = ve_mkdir("/"); if (k == 5) { ve_chdir("/vfs/w"); } }

// the log: one line for each answered request, with the address of the client, the request line and the status of the response
static struct { v_buf line; int code, seen; } logs[MAXC];
static void logged(int i, const char *l, size_t n, int code) { v_buf_init(&logs[i].line, n + 10); v_buf_n(&logs[i].line, l, n); logs[i].code = code; }
static int entry(const char *s, size_t n, int i, int th) {
    v_buf e; v_buf_init(&e, logs[i].line.n + 60); static const char H[] = "[Thread-"; size_t h = v_len(H); if (n < h + 2 || !v_eqn(s, H, h) || s[h] < '1' || s[h] > '0' + th || s[h + 1] != ']') return 0;
    v_buf_s(&e, " 10.0.0."); v_buf_c(&e, '1' + i); v_buf_s(&e, " - - \""); v_buf_n(&e, logs[i].line.s, logs[i].line.n); v_buf_s(&e, "\" "); for (int k = 100; k; k /= 10) v_buf_c(&e, (char) (48 + logs[i].code / k % 10));
    return n - h - 2 == e.n && v_eqn(s + h + 2, e.s, e.n);
}
static void logcheck(int n, int th) {
    int want_ = 0, have = 0; for (int i = 0; i < n; i++) want_ += logs[i].code != 0;
    for (size_t a = 0, b; a < ve_stderr.n; a = b + 1) { for (b = a; b < ve_stderr.n && ve_stderr.s[b] != '\n'; b++); if (ve_stderr.s[a] != '[') continue; have++; int ok = 0; for (int i = 0; i < n && !ok; i++) if (logs[i].code && !logs[i].seen && entry(ve_stderr.s + a, b - a, i, th)) { logs[i].seen = 1; ok = 1; } V_CHECK(ok, "a line of the log is about an answered request, with its client and its status"); }
    V_CHECK(have == want_, "each answered request has its line in the log"); v_reach(have ? "logged" : "nothing to log");
}

// an arbitrary target behind each prefix, over the characters that matter for paths
static void targets(size_t max) {
    static const char *PRE[] = {"", "/", "/../", "/d/../../", "/%2", "/f", "/k", "//", "/e/%"};
    site(); setroot(v_choose(7)); ve_open_hook = opened;
    int p = v_choose(9); v_buf q = B("GET "), t = B(PRE[p]);
    char *x = v_str_of(0, max, v_param(2) ? "/.%2eflk" : "/.%?+25eErsdfiklmnpqgh01\x80"); v_buf_s(&t, x); v_buf_s(&q, t.s);
    v_buf_s(&q, v_choose(2) ? " HTTP/1.0\r\nHost: x\r\n\r\n" : " HTTP/1.1\n\n");
    want w = {400}; if (t.n) w = expect(t.s); add(q.s, q.n); run(1);
    resp r; out1(0, &r); if (v_param(3)) { size_t l = 0; while (q.s[l] != '\r' && q.s[l] != '\n') l++; logged(0, q.s, l, r.code); logcheck(1, 1); return; } judge(&r, &w); cleanend();
}
// an arbitrary request
static void lines(size_t max) {
    static const char *PRE[] = {"", "GET ", "GET /", "GET / ", "HEAD /i HTTP/1.0", "GET /i HTTP", "GET", "G"};
    site(); ve_chdir("/"); ve_open_hook = opened;
    int p = v_choose(8); v_buf q = B(PRE[p]); size_t n = v_choose(max + 1); char x[16]; if (n) v_sym(x, n); v_buf_n(&q, x, n); if (p >= 6) v_buf_s(&q, p == 6 ? " /i HTTP/1.0" : "T /i HTTP/1.0"); if (v_choose(2)) v_buf_s(&q, "\r\n\r\n");
    add(q.s, q.n); run(1);
    resp r; out1(0, &r); cleanend();
    size_t l = 0; while (l < q.n && q.s[l] && q.s[l] != '\r' && q.s[l] != '\n') l++;
    if (l == 0) { V_CHECK(r.n == 0, "an empty request is not answered"); v_reach("empty"); if (v_param(3)) logcheck(1, 1); return; }
    if (v_param(3)) { logged(0, q.s, l, r.code); logcheck(1, 1); return; }
    size_t a = 0; while (a < l && q.s[a] != ' ') a++;
    size_t b = a + 1; while (b < l && q.s[b] != ' ') b++;
    want w = {0};
    if (a >= l || b >= l || b == a + 1) w.code = 400;
    else if (a != 3 || q.s[0] != 'G' || q.s[1] != 'E' || q.s[2] != 'T') w.code = 405;
    else { v_buf t = B(""); v_buf_n(&t, q.s + 4, b - 4); w = expect(t.s); }
    judge(&r, &w);
}
// failing system calls
static void writes_only(const char *what) { ve_fault_mask = v_eq(what, "write") ? VF_WRITE | VF_SHORT : 0; }
static void faults(int k) {
    static const char *T[] = {"/", "/d", "/d/x.txt", "/h", "/none", "/e/", "/s/", "/f%00", "P"};
    site(); ve_chdir("/"); ve_open_hook = opened;
    char *t = dup_(T[v_choose(9)]); int put = t[0] == 'P'; v_buf q = B(put ? "PUT " : "GET "); v_buf_s(&q, t); v_buf_s(&q, " HTTP/1.0\r\n\r\n");
    want w = expect(t); if (put) w.code = 405; ve_faults = k; int sock = v_choose(2); ve_fault_mask = sock ? 0 : VF_OPEN | VF_READ | VF_STAT | VF_ACCESS | VF_REALPATH | VF_CLOSE;
    add(q.s, q.n);
    if (sock) ve_yield_hook = writes_only;
    run(1); ve_yield_hook = NULL; ve_fault_mask = 0;
    resp r; out1(0, &r); cleanend(); v_log_i(ve_faulted);
    if (!ve_faulted) { judge(&r, &w); v_reach("no fault"); return; }
    if (sock) {                 // a failed write may cut the response; a short one may not
        int lost = 0; for (size_t i = 0; i + 6 < ve_stderr.n; i++) if (starts(ve_stderr.s + i, "warning")) lost = 1;
        if (!lost) { judge(&r, &w); v_reach("short"); return; }
        if (!r.bad && r.n) V_CHECK(r.code == w.code && (long) r.blen <= r.clen, "what was sent of the response"); v_reach("cut"); return;
    }
    if (r.n == 0) { V_CHECK(v_eq(ve_fault_last, "read"), "no response"); v_reach("unread"); return; }
    V_CHECK(!r.bad && r.clen == (long) r.blen, "the response is complete");
    if (r.code == 200) { V_CHECK(w.file, "content of nothing"); if (!(t[1] == 0 || (t[1] == 'd' && t[2] == 0))) V_CHECK(r.blen == w.file->len && v_eqn(r.body, w.file->data, r.blen), "the body is the content of the file"); }
    V_CHECK(r.code == w.code || r.code >= 400 || (r.code == 200 && t[1] == 0) || (t[1] == 'd' && t[2] == 0 && r.code == 302), "status after a failure"); v_reach("fault");
}
// requests around the size of the read buffer
static void longs(int d) {
    site(); ve_chdir("/"); ve_sock_blocks = 1; int inline_ = v_choose(3), nl = v_choose(2); size_t n = 2048 * (inline_ ? 1 : 1 + v_choose(2)) - d + v_choose(2 * d + 1);
    const char *end = nl ? " HTTP/1.0\n\n" : " HTTP/1.0\r\n\r\n"; v_buf q; v_buf_init(&q, n + 60); char *t;
    v_buf tb; v_buf_init(&tb, n + 50); if (inline_ == 2) n += v_choose(3) * 20; else v_buf_s(&tb, "/i");
    if (inline_ == 2) { while (tb.n + 6 + v_len(end) < n) v_buf_c(&tb, '/'); v_buf_s(&tb, "/i"); v_buf_s(&q, "GET "); v_buf_s(&q, tb.s); v_buf_s(&q, end); }      // nothing in the line can be dropped
    else if (inline_) { v_buf_c(&tb, '?'); while (tb.n + 4 + v_len(end) < n) v_buf_c(&tb, 'a'); v_buf_s(&q, "GET "); v_buf_s(&q, tb.s); v_buf_s(&q, end); }
    else { v_buf_s(&q, "GET /i HTTP/1.0\r\nX: "); while (q.n + (nl ? 2 : 4) < n) v_buf_c(&q, 'a'); v_buf_s(&q, nl ? "\n\n" : "\r\n\r\n"); }
    char k; v_sym(&k, 1); v_assume((k != 0) & (k != '\n') & (k != '\r') & (k != ' ')); if (inline_ != 2) q.s[q.n - 20] = k;
    t = tb.s; (void) t; want w = expect("/i"); add(q.s, q.n); run(1); resp r; out1(0, &r); judge(&r, &w); cleanend(); v_reach(inline_ == 2 ? "long path" : inline_ ? "long line" : "long header");
}
// the request line arrives in two parts
static void split(void) {
    site(); ve_chdir("/"); const char *s = "GET /d/x.txt HTTP/1.0\r\n\r\n"; size_t at = 1 + v_choose(v_len(s) - 1); want w = expect("/d/x.txt");
    add(s, v_len(s)); ve_sock_split(conn[0], at); run(1); resp r; out1(0, &r);
    if (at >= 21) { judge(&r, &w); v_reach("whole line first"); return; }
    v_reach("split"); V_CHECK(r.code == 200, "a request line that arrives in two parts is served");
}
// a client that goes away harms nobody else: the program, with the signals it arranged
int blogc_runserver_main(int argc, char **argv);
static void gone_killed(int s) { (void) s; V_CHECK(0, "the server is killed when a client goes away"); }
static void gone(int n) {
    static const char *T[] = {"/i", "/d", "/none", "/e/2"}; want w[MAXC]; site(); ve_chdir("/"); ve_open_hook = opened;
    for (int i = 0; i < n; i++) { int k = v_choose(4); v_buf q = B("GET "); v_buf_s(&q, T[k]); v_buf_s(&q, " HTTP/1.0\r\n\r\n"); w[i] = expect(T[k]); add(q.s, q.n); }
    ve_signals = 1; ve_killed_hook = gone_killed; ve_accept_hook = accept_; ve_thread_hook = now; ve_close_hook = close_; v_opaque_ints = 0; ve_faults = 1; ve_yield_hook = writes_only;
    char *av[] = {"blogc-runserver", "/vfs/w/r", NULL}; V_CHECK(blogc_runserver_main(2, av) == 1, "server loop"); ve_yield_hook = NULL; ve_fault_mask = 0;
    int bad = 0; for (int i = 0; i < n; i++) { resp r; out1(i, &r); if (ve_faulted && !bad && (!r.n || r.bad || r.clen != (long) r.blen)) { bad = 1; continue; } judge(&r, &w[i]); }
    cleanend(); v_log_i(bad); v_reach(bad ? "gone" : "stayed");
}
// several connections, any number of threads, any order of execution
typedef struct { void *(*fn)(void *); void *arg; int st; } task;
static task tasks[MAXC + 1]; static int ntasks, depth, order;
static void exec_(int i) { tasks[i].st = 1; depth++; tasks[i].fn(tasks[i].arg); depth--; tasks[i].st = 2; }
static void yield(const char *what) { if (!ntasks || depth > 1) return; if (depth == 1 && !v_eq(what, order == 0 ? "read" : order == 1 ? "write" : "realpath")) return; for (int i = 0; i < ntasks; i++) if (tasks[i].st == 0 && v_choose(2)) exec_(i); }
static int create(void *(*fn)(void *), void *arg) { tasks[ntasks].fn = fn; tasks[ntasks].arg = arg; tasks[ntasks++].st = 0; yield("create"); return 0; }
static int join(unsigned long t) { V_CHECK(t >= 1 && t <= (unsigned long) ntasks, "joins a thread that exists"); if (tasks[t - 1].st == 0) exec_(t - 1); V_CHECK(tasks[t - 1].st == 2, "model: deadlock"); return 0; }
static int live_;
static int last_accept(void) { if (next_ < nconn) return conn[next_++]; for (int i = 0; i < ntasks; i++) live_ += tasks[i].st == 0; for (int i = 0; i < ntasks; i++) if (!tasks[i].st) exec_(i); errno = EMFILE; return -1; }
static void many(int n) {
    static const char *T[] = {"/i", "/d/x.txt", "/none", "/d", "/l/f"}; want w[MAXC]; site(); ve_chdir("/"); ve_open_hook = opened; order = v_choose(3);
    int th = 1 + v_choose(n);
    v_buf q[MAXC]; for (int i = 0; i < n; i++) { int k = v_choose(5); q[i] = B("GET "); v_buf_s(&q[i], T[k]); v_buf_s(&q[i], " HTTP/1.0\r\n\r\n"); w[i] = expect(T[k]); add(q[i].s, q[i].n); }
    ve_thread_hook = create; ve_join_hook = join; ve_yield_hook = yield; ve_accept_hook = last_accept; ve_close_hook = close_; v_opaque_ints = 0; V_CHECK(br_httpd_run("127.0.0.1", "8080", rootarg, th) == 1, "server loop"); ve_yield_hook = NULL;
    V_CHECK(live_ <= th, "no more than the allowed number of threads at once"); V_CHECK(ntasks == n, "one thread for each connection");
    for (int i = 0; i < n; i++) { resp r; out1(i, &r); if (v_param(3)) logged(i, q[i].s, q[i].n - 4, r.code); else judge(&r, &w[i]); }
    if (v_param(3)) logcheck(n, th); else { cleanend(); v_reach("many"); }
}
// the same with threads that are left and gone on with anywhere
static int next_t(void) { ve_thread_yield(); if (next_ < nconn) return conn[next_++]; while (ve_thread_live()) ve_thread_block(); errno = EMFILE; return -1; }
static void yield_t(const char *what) { (void) what; ve_thread_yield(); }
static void threads(int n) {
    static const char *T[] = {"/i", "/d/x.txt", "/none", "/d", "/l/f", "/f.html", "/f%20f"}; want w[MAXC]; site(); ve_chdir("/"); ve_open_hook = opened;
    int th = 1 + v_choose(n); v_buf q[MAXC];
    for (int i = 0; i < n; i++) { int k = i ? v_choose(7) : 5 + v_choose(2); q[i] = B("GET "); v_buf_s(&q[i], T[k]); v_buf_s(&q[i], " HTTP/1.0\r\n\r\n"); w[i] = expect(T[k]); add(q[i].s, q[i].n); }
    ve_threads = 1; ve_preempt = v_param(2); ve_accept_hook = next_t; ve_close_hook = close_; v_opaque_ints = 0; ve_yield_hook = yield_t;
    V_CHECK(br_httpd_run("127.0.0.1", "8080", rootarg, th) == 1, "server loop"); ve_yield_hook = NULL;
    for (int i = 0; i < n; i++) { resp r; out1(i, &r); judge(&r, &w[i]); logged(i, q[i].s, q[i].n - 4, r.code); }
    logcheck(n, th); cleanend(); v_reach("threads");
}
// the addresses of the host: the first one that works is used
static void listen_(int max) {
    site(); ve_chdir("/"); ve_gai_n = 1 + v_choose(max); ve_gai_six = v_choose(2) ? 0 : 5; int use = -1; ve_gai_fail = v_choose(2) ? 0 : !v_choose(2);
    for (int i = 0; i < ve_gai_n; i++) { int k = v_choose(4); if (k == 1) ve_sock_bad |= 1 << i; if (k == 2) ve_sock_bad |= 1 << (8 + i); if (k == 3) ve_sock_bad |= 1 << (16 + i); if (!k && use < 0) use = i; }
    int nolisten = v_choose(2); if (nolisten) ve_sock_bad |= 1 << 24;
    static const struct { int p; const char *s; } P[] = {{8080, ":8080"}, {80, ""}, {1, ":1"}, {65535, ":65535"}}; int pk = v_choose(4); ve_gai_port = P[pk].p;
    want w = expect("/i"); ve_accept_hook = accept_; ve_thread_hook = now; ve_close_hook = close_; add("GET /i HTTP/1.0\r\n\r\n", 19);
    int rv = br_httpd_run("h", "80", rootarg, 2);
    V_CHECK(rv == 1, "status"); V_CHECK(ve_stderr.n > 0, "a message");
    if (ve_gai_fail || use < 0 || nolisten) { V_CHECK(next_ == 0, "nothing to listen on"); V_CHECK(ve_open_fds() == 1, "the server socket stays open"); v_reach("no address"); return; }
    V_CHECK(ve_bound == use && ve_listening, "the first address that works is used");
    { v_buf b; v_buf_init(&b, 60); int six = ve_gai_six >> use & 1; v_buf_s(&b, "http://"); v_buf_s(&b, six ? "[fe80::a" : "10.0.0."); v_buf_c(&b, '1' + use); if (six) v_buf_c(&b, ']'); v_buf_s(&b, P[pk].s); v_buf_c(&b, '/'); int f = 0; for (size_t i = 0; i + b.n <= ve_stderr.n; i++) f |= v_eqn(ve_stderr.s + i, b.s, b.n); V_CHECK(f, "the address it listens on is shown"); }
    resp r; out1(0, &r); judge(&r, &w); cleanend(); v_reach("address");
}
void v_main(void) {
    switch (v_param(0)) { case 0: targets(v_param(1)); break; case 1: lines(v_param(1)); break; case 2: faults(v_param(1)); break; case 3: longs(v_param(1)); break; case 4: split(); break; case 5: many(v_param(1)); break; case 6: listen_(v_param(1)); break; case 7: threads(v_param(1)); break; case 8: gone(v_param(1)); }
    (void) loops; (void) outside;
}
