// The whole of it: blogc-make builds a site, its commands are run by blogc itself, and the files say what the sources say.
#include "env.h"
#include <errno.h>
#include "shellwords.h"
#include "mname.h"
extern int blogc_make_main(int, char **), blogc_main(int, char **);
static char *cat(const char *a, const char *b) { v_buf r; v_buf_init(&r, v_len(a) + v_len(b) + 1); v_buf_s(&r, a); v_buf_s(&r, b); return r.s; }
static char *digit(int n) { char *r = malloc(3); int i = 0; if (n > 9) r[i++] = '0' + n / 10; r[i++] = '0' + n % 10; r[i] = 0; return r; }
static int runs, errors;
// a shell that runs blogc
static int shell(int base) {
    size_t e = ve_stdout.n - 1, s = e; V_CHECK(ve_stdout.n > 0 && ve_stdout.s[e] == '\n', "command is not announced");
    while (s > 0 && ve_stdout.s[s - 1] != '\n') s--;
    char *line = malloc(e - s + 1); for (size_t i = s; i < e; i++) line[i - s] = ve_stdout.s[i]; line[e - s] = 0;
    sw_t w; sw_parse(line, &w); V_CHECK(!w.bad && !w.active, "a command the shell does not pass on as it is");
    int k = 0; if (k < w.n && v_len(w.w[k]) >= 7 && v_eqn(w.w[k], "LC_ALL=", 7)) k++;
    V_CHECK(k < w.n && v_eq(w.w[k], "blogc"), "unexpected program");
    ve_out o = ve_stdout, m = ve_stderr; for (size_t i = 0; i < sizeof o; i++) ((char *) &ve_stdout)[i] = ((char *) &ve_stderr)[i] = 0;
    ve_out *in = ve_pipe_written(base); ve_stdin_new(in->s, in->n); size_t fl = ve_stdout_flushed; ve_stdout_flushed = 0; ve_stdout_sure = 0;
    w.w[w.n] = NULL; runs++;
    int rv = blogc_main(w.n - k, w.w + k);
    if (ve_stdout.n) ve_pipe_feed(base + 1, ve_stdout.s, ve_stdout.n); if (ve_stderr.n) { ve_pipe_feed(base + 2, ve_stderr.s, ve_stderr.n); errors += rv != 78; }
    ve_stdout = o; ve_stderr = m; ve_stdin_new(NULL, 0); ve_stdout_flushed = fl; ve_stdout_sure = 1;
    return rv << 8;
}
// ---- the site
#define NP 14
static struct { char *name, *title, *text, *tags; int day; } P[NP], PG; static int nposts, order[NP] /* of the [posts] section */, npages;
static int ncopy; static char *data = "some data"; static int ppp, appp, sort, asc, aasc, html, prefix, entry; static char mark = 'm';
static const char *TAG[] = {"t", "u"}; static int ntags;
static int symbolic_pp; static char *num(int n) { if (symbolic_pp) { char *r = cat("0", ""); r[0] += n; return r; } return n < 0 ? cat("-", digit(-n)) : digit(n); }
static char *file(const char *pre, const char *f) { return expect("/vfs/s/_build", prefix ? "b" : NULL, pre, f, html ? ".html" : "/index.html"); }
static char *feed(const char *tag) { return expect("/vfs/s/_build", prefix ? "b" : NULL, "atom", tag, ".xml"); }
static char *source(int i) { return cat(cat(prefix ? "/vfs/s/content/b/post/" : "/vfs/s/content/post/", P[i].name), ".txt"); }
static void stamp(const char *p) { vnode *f = ve_get(p, 1); f->sec = ve_time; f->nsec = ve_time_nsec; }
static void post(int i) {
    v_buf b; v_buf_init(&b, 200); v_buf_s(&b, "TITLE: "); v_buf_s(&b, P[i].title); v_buf_s(&b, "\nDATE: 2016-01-"); v_buf_c(&b, '0' + (P[i].day + 1) / 10); v_buf_c(&b, '0' + (P[i].day + 1) % 10); v_buf_s(&b, "\n");
    if (P[i].tags) { v_buf_s(&b, "TAGS: "); v_buf_s(&b, P[i].tags); v_buf_c(&b, '\n'); }
    v_buf_s(&b, "----\n"); v_buf_s(&b, P[i].text); v_buf_c(&b, '\n'); vnode *f = ve_get(source(i), 1); if (f) ve_remove(f); ve_file(source(i), b.s, b.n); stamp(source(i));
}
static void page(void) { v_buf b; v_buf_init(&b, 100); v_buf_s(&b, "TITLE: "); v_buf_s(&b, PG.title); v_buf_s(&b, "\n----\n"); v_buf_s(&b, PG.text); v_buf_s(&b, "\n"); if (ve_get("/vfs/s/content/a.txt", 1)) ve_remove(ve_get("/vfs/s/content/a.txt", 1)); ve_file("/vfs/s/content/a.txt", b.s, b.n); stamp("/vfs/s/content/a.txt"); }
static void template(void) {
    char *t = cat("{% block entry %}E({{ FILENAME }}:{{ TITLE }}|{{ CONTENT }}){% endblock %}"
        "{% block listing_once %}{% ifdef FILTER_TAG %}#{{ FILTER_TAG }}{% endif %}{% ifdef CURRENT_PAGE %}[{% ifdef PREVIOUS_PAGE %}{{ PREVIOUS_PAGE }}<{% endif %}{{ CURRENT_PAGE }}{% ifdef NEXT_PAGE %}>{{ NEXT_PAGE }}{% endif %}{% ifdef LAST_PAGE %}/{{ LAST_PAGE }}{% endif %}]{% endif %}{% endblock %}"
        "{% block listing_entry %}@{{ TITLE }}{% endblock %}{% block listing %}({{ FILENAME }}:{{ TITLE }}){% endblock %}{% block listing_empty %}nothing{% endblock %}{{ MAKE_TYPE }}", "?"); t[v_len(t) - 1] = mark;
    if (ve_get("/vfs/s/templates/main.tmpl", 1)) ve_remove(ve_get("/vfs/s/templates/main.tmpl", 1)); ve_text("/vfs/s/templates/main.tmpl", t); stamp("/vfs/s/templates/main.tmpl");
}
static void settings(void) {
    v_buf b; v_buf_init(&b, 3000);
    v_buf_s(&b, "[global]\nAUTHOR_NAME = A N\nAUTHOR_EMAIL = e@x\nSITE_TITLE = T\nSITE_TAGLINE = L\nBASE_DOMAIN = http://x\n[settings]\nposts_per_page = ");
    v_buf_s(&b, num(ppp)); v_buf_s(&b, "\natom_posts_per_page = "); v_buf_s(&b, num(appp)); v_buf_s(&b, "\n");
    if (sort) v_buf_s(&b, "posts_sort = true\n"); if (asc) v_buf_s(&b, "html_order = ASC\n"); if (aasc) v_buf_s(&b, "atom_order = ASC\n");
    if (html) v_buf_s(&b, "html_ext = .html\n"); if (prefix) v_buf_s(&b, "blog_prefix = b\n"); if (entry) v_buf_s(&b, "listing_entry = ent\n");
    if (ntags) v_buf_s(&b, "[tags]\n"); for (int i = 0; i < ntags; i++) { v_buf_s(&b, TAG[i]); v_buf_c(&b, '\n'); }
    if (nposts) v_buf_s(&b, "[posts]\n"); for (int i = 0; i < nposts; i++) { v_buf_s(&b, P[order[i]].name); v_buf_c(&b, '\n'); }
    if (npages) v_buf_s(&b, "[pages]\na\n"); if (ncopy) v_buf_s(&b, "[copy]\nd/c\n");
    if (ve_get("/vfs/s/blogcfile", 1)) ve_remove(ve_get("/vfs/s/blogcfile", 1)); ve_file("/vfs/s/blogcfile", b.s, b.n); stamp("/vfs/s/blogcfile");
}
// ---- what the files say
static int files, collect; static struct { const char *path; v_buf w; } W[80];
static void same(const char *path, v_buf *w) {
    if (collect) { W[files].path = path; W[files++].w = *w; return; }
    vnode *f = ve_get(path, 1); V_CHECK(f && f->type == 'f', "a file is missing"); files++;
    v_log_s(path); v_log(f->data, f->len); v_log(w->s, w->n);
    V_CHECK(f->len == w->n && v_eqn(f->data, w->s, w->n), "a file says something else than the sources");
}
static int tagged(int i, const char *tag) {
    const char *s = P[i].tags; if (!tag) return 1; if (!s) return 0;
    for (size_t k = 0; s[k]; k++) if (s[k] == tag[0] && (!k || s[k - 1] == ' ') && (!s[k + 1] || s[k + 1] == ' ')) return 1;
    return 0;
}
static int listed(const char *tag, int up, int *out) {      // the posts of a listing, in its order
    int n = 0;
    for (int i = 0; i < nposts; i++) { int p = order[sort || up ? i : nposts - 1 - i]; if (tagged(p, tag)) out[n++] = p; }
    if (sort) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (up ? P[out[j]].day < P[out[i]].day : P[out[j]].day > P[out[i]].day) { int x = out[i]; out[i] = out[j]; out[j] = x; }
    return n;
}
static int pages_of(int n, int per) { return (n + per - 1) / per; }
static void listing(const char *tag, int no, const char *path) {        // no: page, from 1
    int l[NP], n = listed(tag, asc, l), from = 0, to = n; v_buf w; v_buf_init(&w, 3000);
    if (tag) { v_buf_c(&w, '#'); v_buf_s(&w, tag); }
    if (ppp > 0) {
        int last = pages_of(n, ppp); from = (no - 1) * ppp; to = from + ppp < n ? from + ppp : n;
        v_buf_c(&w, '['); if (no > 1) { v_buf_s(&w, digit(no - 1)); v_buf_c(&w, '<'); } v_buf_s(&w, digit(no)); if (no < last) { v_buf_c(&w, '>'); v_buf_s(&w, digit(no + 1)); } if (last) { v_buf_c(&w, '/'); v_buf_s(&w, digit(last)); } v_buf_c(&w, ']');
    }
    if (entry) v_buf_s(&w, "@Ent");
    if (from >= to) v_buf_s(&w, "nothing");
    for (int i = from; i < to; i++) { v_buf_c(&w, '('); v_buf_s(&w, P[l[i]].name); v_buf_c(&w, ':'); v_buf_s(&w, P[l[i]].title); v_buf_c(&w, ')'); }
    v_buf_s(&w, "post"); v_buf_c(&w, mark); same(path, &w);
}
static void one(const char *name, const char *title, const char *text, const char *type, const char *path) {
    v_buf w; v_buf_init(&w, 400); v_buf_s(&w, "E("); v_buf_s(&w, name); v_buf_c(&w, ':'); v_buf_s(&w, title); v_buf_s(&w, "|<p>"); v_buf_s(&w, text); v_buf_s(&w, "</p>\n)"); v_buf_s(&w, type); v_buf_c(&w, mark); same(path, &w);
}
static void atom(const char *tag, const char *path) {
    int l[NP], n = listed(tag, aasc, l); if (appp > 0 && n > appp) n = appp;
    v_buf w; v_buf_init(&w, 20000); const char *self = path + 13; char *day = cat("2016-01-??T00:00:00Z", "");
    v_buf_s(&w, "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<feed xmlns=\"http://www.w3.org/2005/Atom\">\n  <title type=\"text\">T"); if (tag) { v_buf_s(&w, " - "); v_buf_s(&w, tag); }
    v_buf_s(&w, "</title>\n  <id>http://x"); v_buf_s(&w, self); v_buf_s(&w, "</id>\n  <updated>"); if (n) { day[8] = '0' + (P[l[0]].day + 1) / 10; day[9] = '0' + (P[l[0]].day + 1) % 10; v_buf_s(&w, day); }
    v_buf_s(&w, "</updated>\n  <link href=\"http://x/\" />\n  <link href=\"http://x"); v_buf_s(&w, self); v_buf_s(&w, "\" rel=\"self\" />\n  <author>\n    <name>A N</name>\n    <email>e@x</email>\n  </author>\n  <subtitle type=\"text\">L</subtitle>");
    for (int i = 0; i < n; i++) {
        char *u = file("post", P[l[i]].name) + 13; day[8] = '0' + (P[l[i]].day + 1) / 10; day[9] = '0' + (P[l[i]].day + 1) % 10;
        v_buf_s(&w, "\n  <entry>\n    <title type=\"text\">"); v_buf_s(&w, P[l[i]].title); v_buf_s(&w, "</title>\n    <id>http://x"); v_buf_s(&w, u); v_buf_s(&w, "</id>\n    <updated>"); v_buf_s(&w, day); v_buf_s(&w, "</updated>\n    <published>"); v_buf_s(&w, day);
        v_buf_s(&w, "</published>\n    <link href=\"http://x"); v_buf_s(&w, u); v_buf_s(&w, "\" />\n    <author>\n      <name>A N</name>\n      <email>e@x</email>\n    </author>\n    <content type=\"html\"><![CDATA[<p>"); v_buf_s(&w, P[l[i]].text); v_buf_s(&w, "</p>\n]]></content>\n  </entry>");
    }
    v_buf_s(&w, "\n</feed>\n"); same(path, &w);
}
static int count(vnode *d) { int n = 0; if (d) for (vnode *c = d->child; c; c = c->next) n += c->type == 'd' ? count(c) : 1; return n; }
static void site(int exact) {
    files = 0;
    if (nposts) for (int t = -1; t < ntags; t++) {
        const char *tag = t < 0 ? NULL : TAG[t]; int l[NP], n = listed(tag, asc, l);
        if (ppp) listing(tag, 1, t < 0 ? file("", NULL) : file("tag", tag));
        if (appp) atom(tag, feed(tag));
        if (ppp > 0) for (int p = 1; p <= pages_of(n, ppp); p++) listing(tag, p, file(t < 0 ? "page" : cat(cat("tag/", tag), "/page"), digit(p)));
    }
    for (int i = 0; i < nposts; i++) one(P[order[i]].name, P[order[i]].title, P[order[i]].text, "post", file("post", P[order[i]].name));
    if (npages) one("a", PG.title, PG.text, "page", html ? "/vfs/s/_build/a.html" : "/vfs/s/_build/a/index.html");
    if (ncopy) { v_buf w; v_buf_init(&w, 20); v_buf_s(&w, data); same("/vfs/s/_build/d/c", &w); }
    if (exact) V_CHECK(count(ve_get("/vfs/s/_build", 1)) == files, "a file that nothing asks for");
}
static int run(void) {
    ve_stdout_sure = 1; char *argv[] = {"blogc-make", "-V", NULL}; int rv = blogc_make_main(2, argv); V_CHECK(ve_open_fds() == 0, "files left open"); return rv;
}
static char *text(int sym, const char *s, int word) {
    char *r = cat(s, ""); if (!sym) return r; size_t n = v_len(r); v_sym(r, n);
    for (size_t i = 0; i < n; i++) v_assume(word ? (r[i] >= 'a') & (r[i] <= 'z') : (r[i] > ' ') & (r[i] < 127)); return r;
}
#define LONG "a-name-that-is-long-enough-for-a-dozen-of-them-to-be-more-than-a-buffer-holds-0123456789-0123456789-"
static char *TAGS[] = {NULL, "t", "t u", "u t", "tt", "u  t", "ut"};
static void config(int full) {
    static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    nposts = 3; npages = ncopy = 1; ntags = 2; ppp = 2; appp = 2; PG.title = "Pg"; PG.text = "page";
    int dim = full ? 99 : v_choose(9), day = 0; static char *N[NP] = {"p", "q", "r", "n"}, *TI[NP] = {"One", "Two", "Six", "New"}; for (int i = 4; i < NP; i++) { N[i] = cat(LONG, digit(i)); TI[i] = cat("Title ", digit(i)); }
    for (int i = 0; i < NP; i++) { P[i].name = N[i]; order[i] = i; P[i].title = text(i < 2 && (dim == 0), TI[i], 0); P[i].text = text(dim == 0 && i < 2, i ? "text" : "words", 1); P[i].tags = TAGS[i == 1 ? 2 : i ? 4 : 1]; P[i].day = i; }
    if (dim == 0) { PG.title = text(1, "Pg", 0); PG.text = text(1, "page", 1); }
    if (dim == 1) nposts = v_choose(4); if (dim == 2) { if (v_choose(2)) ppp = v_choose(2) ? -1 : 10; else { unsigned char c; v_sym(&c, 1); v_assume(c < 10); ppp = c; symbolic_pp = 1; } } if (dim == 3) { if (v_choose(2)) appp = v_choose(2) ? -1 : 10; else { unsigned char c; v_sym(&c, 1); v_assume(c < 10); appp = c; symbolic_pp = 1; } }
    if (dim == 4) { sort = v_choose(2); asc = v_choose(2); aasc = v_choose(2); day = v_choose(6); } if (dim == 5) { for (int i = 0; i < 2; i++) { char *t = P[i].tags = cat("xxx", ""); v_sym(t, 3); for (int k = 0; k < 3; k++) v_assume(v_in_set(t[k], "tu ")); v_assume(t[0] != ' '); v_assume(t[2] != ' '); } ntags = v_choose(3); }
    if (dim == 6) { html = v_choose(2); prefix = v_choose(2); npages = v_choose(2); } if (dim == 7) { entry = 1; ppp = v_choose(2) ? 1 : -1; }
    if (dim == 8) { nposts = 11 + v_choose(3); ppp = (const int[]) {10, 11, 5, -1}[v_choose(4)]; appp = 10; sort = v_choose(2); P[12].title = text(1, "Late", 0); }
    if (full) { nposts = 1 + v_choose(3); ppp = (const int[]) {1, 2, -1}[v_choose(3)]; appp = (const int[]) {1, 2, 0}[v_choose(3)]; sort = v_choose(2); asc = v_choose(2); aasc = !asc; if (sort) day = v_choose(6); for (int i = 0; i < nposts; i++) P[i].tags = TAGS[v_choose(3)]; html = v_choose(2); }
    for (int i = 0; i < 3; i++) P[i].day = PERM[day][i];
}
static void start(void) {
    ve_child = 1; ve_child_cap = 1 << 20; ve_run_hook = shell; ve_time = 1700000000; ve_mkdir("/tmp"); ve_mkdir("/vfs/s"); ve_chdir("/vfs/s");
    for (int i = 0; i < NP; i++) post(i); page(); template(); settings(); ve_text("/vfs/s/d/c", data); stamp("/vfs/s/d/c"); if (entry) ve_text(prefix ? "/vfs/s/content/b/ent.txt" : "/vfs/s/content/ent.txt", "TITLE: Ent\n----\nx\n");
    ve_time += 100;
}
static void fresh(void) {
    config(v_param(1)); start(); int rv = run();
    V_CHECK(rv == 0 && !errors, "a good site is not built"); site(1);
    v_log_i(files); v_reach(nposts ? "site" : "no posts");
}
// ---- edits between builds: what is built in the end is what a fresh build gives
static int failed, serve_;
static void edit(void) {
    ve_time_nsec++; int i = order[0];
    switch (v_choose(13)) {
        case 0: P[i].title = text(1, "Xx", 0); post(i); break;
        case 1: P[i].tags = TAGS[v_choose(4)]; post(i); break;
        case 2: { int a = order[0]; order[0] = order[1]; order[1] = a; settings(); break; }
        case 3: if (nposts == 4) v_end(); nposts++; settings(); break;
        case 4: if (nposts < 2) v_end(); nposts--; settings(); break;
        case 5: mark = 'n'; template(); break;
        case 6: ppp = ppp == 1 ? 3 : 1; settings(); break;
        case 7: PG.text = text(1, "new", 1); page(); break;
        case 8: sort = !sort; asc = !asc; settings(); break;
        case 9: P[i].day = 7; post(i); break;
        case 10: if (serve_) v_end(); { char *t = P[i].title; P[i].title = "x\n=no"; post(i); P[i].title = t; ve_time_nsec++; int rv = run(); V_CHECK(rv != 0, "a source that is wrong is built"); failed = 1; ve_time_nsec++; post(i); break; }
        case 11: html = !html; settings(); break;
        case 12: ve_remove(ve_get("/vfs/s/d/c", 1)); data = text(1, "other", 1); ve_text("/vfs/s/d/c", data); stamp("/vfs/s/d/c"); break;
    }
    ve_time_nsec++;
}
static void edits(void) {
    nposts = 2; npages = ncopy = 1; ntags = 1; ppp = 2; appp = 2; PG.title = "Pg"; PG.text = "page"; static char *N[NP] = {"p", "q", "r", "n"}, *TI[NP] = {"One", "Two", "Six", "New"}; for (int i = 4; i < NP; i++) { N[i] = cat(LONG, digit(i)); TI[i] = cat("Title ", digit(i)); }
    for (int i = 0; i < NP; i++) { P[i].name = N[i]; order[i] = i; P[i].title = TI[i]; P[i].text = "text"; P[i].tags = TAGS[i == 1 ? 2 : i ? 4 : 1]; P[i].day = (i + 1) % 3; }
    start(); V_CHECK(run() == 0 && !errors, "a good site is not built"); site(1);
    for (int k = v_param(1); k > 0; k--) { edit(); if (k > 1 && v_choose(2)) { V_CHECK(run() == 0, "a good site is not built"); site(0); } }
    int rv = run(); V_CHECK(rv == 0, "a good site is not built"); site(0);
       v_log_i(files); v_reach(failed ? "repaired" : "edited");
}
// ---- a build in which something fails, and another one after it
static void faults(void) {
    nposts = 2; npages = ncopy = 1; ntags = 1; ppp = 1; appp = 2; PG.title = "Pg"; PG.text = "page"; static char *N[NP] = {"p", "q", "r", "n"}, *TI[NP] = {"One", "Two", "Six", "New"}; for (int i = 4; i < NP; i++) { N[i] = cat(LONG, digit(i)); TI[i] = cat("Title ", digit(i)); }
    for (int i = 0; i < NP; i++) { P[i].name = N[i]; order[i] = i; P[i].title = TI[i]; P[i].text = "text"; P[i].tags = TAGS[i == 1 ? 2 : i ? 4 : 1]; P[i].day = (i + 1) % 3; }
    start(); ve_faults = v_param(1); ve_fault_mask = VF_OPEN | VF_READ | VF_WRITE | VF_CLOSE | VF_MKDIR | VF_PIPE | VF_FORK | VF_TMP | VF_SHORT | VF_FLUSH;
    int rv = run(); ve_fault_mask = 0; int f = ve_faulted; if (rv == 0) { site(1); }
    ve_time++; V_CHECK(run() == 0, "a good site is not built"); site(1); v_reach(!f ? "no fault" : rv ? "failed" : "built in spite of it");
}
// ---- serving: blogc-make runserver, its server and blogc in one: what is edited is what is given out
extern int blogc_runserver_main(int, char **); extern void bm_reloader_stop(int);
static int conn = -1, given, asked = -1, rounds; static ve_out reply;
static void on_close(int fd) { if (fd == conn) { given = 1; reply = *ve_fd_out(fd); conn = -1; } }
static int now(void *(*fn)(void *), void *arg) { fn(arg); return 0; }
static int client(void) {
    ve_threads = 1; ve_thread_hook = NULL;
    if (asked >= 0) {
        V_CHECK(given, "the connection was not closed"); size_t i = 0; while (i + 4 <= reply.n && !v_eqn(reply.s + i, "\r\n\r\n", 4)) i++;
        V_CHECK(reply.n > 12 && v_eqn(reply.s + 8, " 200", 4), "a page of the site is not served"); v_log(reply.s, reply.n);
        V_CHECK(reply.n == i + 4 + W[asked].w.n && v_eqn(reply.s + i + 4, W[asked].w.s, W[asked].w.n), "what is given out is not what the sources say");
        if (rounds == v_param(1)) { errno = EMFILE; return -1; }
        edit();
    }
    ve_time++; for (int i = 0; i < 3; i++) ve_thread_switch(0);         // the site is watched meanwhile
    files = 0; collect = 1; site(0); collect = 0; rounds++; asked = v_param(2) && rounds < v_param(1) ? 0 : v_choose(files);
    const char *u = W[asked].path + 13; size_t n = v_len(u); if (n > 11 && v_eq(u + n - 11, "/index.html") && v_choose(2)) n -= 10;
    v_buf q; v_buf_init(&q, 100); v_buf_s(&q, "GET "); v_buf_n(&q, u, n); v_buf_s(&q, " HTTP/1.1\r\n\r\n"); given = 0; ve_threads = 0; ve_thread_hook = now; return conn = ve_fd_sock(q.s, q.n);
}
static int server(const char *cmd) { sw_t w; sw_parse(cmd, &w); V_CHECK(!w.bad && !w.active && v_eq(w.w[0], "blogc-runserver"), "server command"); w.w[w.n] = NULL; int rv = blogc_runserver_main(w.n, w.w); V_CHECK(rounds == v_param(1), "the server does not go on"); return rv << 8; }
static int idle; static void on_sleep(void) { ve_time++; V_CHECK(idle++ < 60, "it goes on without a server"); }
static void serving(void) {
    serve_ = 1; nposts = 2; npages = ncopy = 1; ntags = 1; ppp = 1; appp = 2; PG.title = "Pg"; PG.text = "page"; static char *N[NP] = {"p", "q", "r", "n"}, *TI[NP] = {"One", "Two", "Six", "New"}; for (int i = 4; i < NP; i++) { N[i] = cat(LONG, digit(i)); TI[i] = cat("Title ", digit(i)); }
    for (int i = 0; i < NP; i++) { P[i].name = N[i]; order[i] = i; P[i].title = TI[i]; P[i].text = "text"; P[i].tags = TAGS[i == 1 ? 2 : i ? 4 : 1]; P[i].day = (i + 1) % 3; }
    start(); ve_threads = ve_signals = 1; v_opaque_ints = 0; ve_system_hook = server; ve_accept_hook = client; ve_close_hook = on_close; ve_sleep_hook = on_sleep; ve_signal_default(2, 0); ve_stdout_sure = 1;
    char *argv[] = {"blogc-make", "-V", "runserver", NULL}; int rv = blogc_make_main(3, argv); V_CHECK(rounds == v_param(1), "the server is not run"); v_log_i(rv); v_reach("served");
}
void v_main(void) { if (v_param(0) == 3) serving(); else if (v_param(0) == 2) faults(); else if (v_param(0)) edits(); else fresh(); }
