// blogc(1): exit status, output and diagnostics for every combination of arguments, inputs and faults.
#include "env.h"
#include "common/utils.h"
int blogc_main(int argc, char **argv);
static char *args[40]; static int na;
static char *S(const char *s) { char *r = malloc(v_len(s) + 1); for (size_t i = 0; i <= v_len(s); i++) r[i] = s[i]; return r; }
static char *cat(const char *a, const char *b) { v_buf w; v_buf_init(&w, 80); v_buf_s(&w, a); v_buf_s(&w, b); return w.s; }
static char *T[2];
static int glued, ended; static const char *outp; static v_buf want;
static void opt(const char *o, const char *v) { if (glued && v[0]) args[na++] = cat(o, v); else { args[na++] = S(o); args[na++] = S(v); } }
static int utf8ok(const unsigned char *s) {     // well-formed sequences (short texts)
    while (*s) {
        int a = *s;
        if (a < 0x80) { s++; continue; }
        int n = a >= 0xc2 && a <= 0xdf ? 1 : a >= 0xe0 && a <= 0xef ? 2 : a >= 0xf0 && a <= 0xf4 ? 3 : 0;
        if (!n) return 0;
        int lo = a == 0xe0 ? 0xa0 : a == 0xf0 ? 0x90 : 0x80, hi = a == 0xed ? 0x9f : a == 0xf4 ? 0x8f : 0xbf;
        for (int i = 1; i <= n; i++) { if (s[i] < lo || s[i] > hi) return 0; lo = 0x80; hi = 0xbf; }
        s += n + 1;
    }
    return 1;
}
static const char *old; static int maywrite;
static void finish(int rv) {
    v_log_i(rv); v_log(ve_stdout.s, ve_stdout.n);
    vnode *f = outp ? ve_get(outp, 1) : NULL;
    if (rv != 0) {
        V_CHECK(ve_stderr.n > 0, "failure without a message");
        if (!maywrite && outp) V_CHECK(old ? f && f->len == v_len(old) && v_eqn(f->data, old, f->len) : !f, "the output was touched although nothing was rendered");
        if (outp && ve_faulted == 1) { f = ve_get(outp, 1); V_CHECK(!f || f->type != 'f' || (old && f->len == v_len(old) && v_eqn(f->data, old, f->len)) || (f->len == want.n && v_eqn(f->data, want.s, want.n)), "an incomplete file is left behind"); }
        v_reach("failed");
    }
    ended = 1;
}
static void on_exit_(int st) { V_CHECK(st != 0, "exits successfully without finishing"); finish(st); }
static const char *TMPL = "{% block entry %}E {{ TITLE }} {{ A }}{% endblock %}{% block listing_once %}[{% endblock %}{% block listing %}L {{ TITLE }};{% endblock %}{% block listing_entry %}({{ TITLE }}){% endblock %}{% block listing_entry %}<{{ TITLE }}>{% endblock %}"
    "{% ifdef A %}+{% else %}-{% endif %}{% if A == \"q\" %}{% endif %}{% ifndef A %}{% endif %}{% foreach A -%} {%- endforeach %}";
void v_main(void) {
    int mode = v_param(0), K = v_param(1);
    ve_exit_hook = on_exit_;
    ve_mkdir("/vfs/w"); ve_chdir("/vfs/w");
    for (int i = 0; i < 2; i++) {
        char *t = T[i] = v_strn(2); for (int j = 0; j < 2; j++) v_assume(!v_in_set(t[j], " \t\n\r\f\v") & (t[j] > 0 && t[j] < 127));
        v_buf b; v_buf_init(&b, 60); v_buf_s(&b, "TITLE: "); v_buf_n(&b, t, 2); v_buf_s(&b, "\n----\nc1\n"); ve_file(i ? "/vfs/w/b" : "/vfs/a.txt", b.s, b.n);
    } ve_text("/vfs/bad.txt", "title: x\n----\nc\n");
    ve_text("/vfs/t.tmpl", TMPL); ve_text("/vfs/bad.tmpl", "{% if %}"); ve_text("/vfs/e.tmpl", ""); ve_text("/vfs/f", "plain");
    args[na++] = S("blogc");
    v_buf_init(&want, 200);
    if (mode == 0) {        // -D
        char *d = v_str(0, K);
        int plen = 0;
        if (v_param(2)) { static const char *P[] = {"ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", "AA=0123456789012345678901234567890123456789=", "A=\xf0\x90\x80\x80\xf4\x8f\xbf\xbf\xed\x9f\xbf\xee\x80\x80"}; const char *p = P[v_choose(3)]; plen = v_len(p); d = cat(p, d); } (void) plen;
        glued = v_choose(2); if (glued && !d[0]) v_end();
        int z = v_choose(2); if (z) args[na++] = S("-DA=z");
        if (glued) args[na++] = cat("-D", d); else { args[na++] = S("-D"); args[na++] = d; }
        args[na++] = S("-pA"); args[na++] = S("/vfs/a.txt");
        int rv = blogc_main(na, args);
        size_t e = 0; while (d[e] && d[e] != '=') e++;
        int ok = utf8ok((unsigned char *) d) && d[e] == '=' && e > 0 && d[0] >= 'A' && d[0] <= 'Z';
        for (size_t i = 1; ok && i < e; i++) ok = (d[i] >= 'A' && d[i] <= 'Z') || (d[i] >= '0' && d[i] <= '9') || d[i] == '_';
        if (!ok) { V_CHECK(rv != 0, "an invalid definition is accepted"); V_CHECK(ve_stdout.n == 0, "output for an invalid definition"); V_CHECK(ve_stderr.n > 0, "failure without a message"); v_reach("refused"); }
        else if (e == 1 && d[0] == 'A') { V_CHECK(rv == 0 && ve_stdout.n == v_len(d + 2) + 1 && v_eqn(ve_stdout.s, d + 2, v_len(d + 2)) && ve_stdout.s[ve_stdout.n - 1] == '\n', "value of the variable"); v_reach("printed"); }
        else if (z) V_CHECK(rv == 0 && ve_stdout.n == 2 && ve_stdout.s[0] == 'z', "value of another variable");
        else { V_CHECK(rv != 0 && ve_stdout.n == 0, "an undefined variable is printed"); v_reach("undefined"); }
        v_log_i(rv);
        return;
    }
    if (mode == 5) {        // the output file may lie in directories that do not exist
        char *p = v_str(1, K); for (size_t i = 0; p[i]; i++) v_assume(v_in_set(p[i], i ? "/.ax" : ".ax"));
        size_t e = v_len(p), b; for (b = e; b && p[b - 1] != '/'; b--);
        int ok = e > b && !v_eq(p + b, ".") && !v_eq(p + b, "..");
        for (size_t i = 1; p[i] && p[i + 1]; i++) if (p[i - 1] == '/' && p[i] == '.' && p[i + 1] == '.') v_end();      // a directory on the way may be the file itself
        args[na++] = S("-t"); args[na++] = S("/vfs/t.tmpl"); args[na++] = S("-o"); args[na++] = p; args[na++] = S("/vfs/a.txt");
        outp = NULL;
        int rv = blogc_main(na, args);
        finish(rv);
        V_CHECK((rv == 0) == ok, ok ? "fails although everything is in order" : "succeeds although the output is no file");
        if (ok) { vnode *f = ve_get(p, 1); V_CHECK(f && f->type == 'f' && f->len == 6 && f->data[0] == 'E' && f->data[2] == T[0][0] && f->data[5] == '-', "output file"); for (vnode *k = f; k != k->parent; k = k->parent) V_CHECK((k->mode & (k == f ? 0644 : 0755)) == (k == f ? 0644 : 0755), "the output can be read"); v_reach("rendered"); }
        return;
    }
    static const char *SRC[] = {"/vfs/a.txt", "b", "/vfs/bad.txt", "/vfs/none.txt"};
    int listing = v_choose(2), ns = v_choose(3), bad = 0, has_a = 0;
    glued = v_choose(2);
    int gt = 0, list[4], ent = -1, prn = -1, tm, o;
    if (listing) args[na++] = S("-l");
    if (mode >= 3) { if (ns) v_end(); }
    for (int i = 0; i < ns; i++) { list[i] = v_choose(mode == 1 ? 4 : 2); bad |= list[i] > 1; args[na++] = S(SRC[list[i]]); }
    int easy = bad || (!listing && ns != 1);
    if (mode == 1) { if (!easy && v_choose(2)) { has_a = 1; int x = v_choose(3); if (x == 1) opt("-D", "A=first"); if (x == 2) { opt("-D", "TITLE=global"); gt = 1; } opt("-D", "A=v=w"); } ent = listing && !easy ? v_choose(4) - 1 : -1; prn = v_choose(4) - 1; if (prn >= 0) { tm = v_choose(2) - 1; o = v_choose(2) * 2; } else { tm = v_choose(5) - 1; o = tm < 1 || bad ? v_choose(5) : tm == 3 ? 2 : 2 + v_choose(2); } }
    else { tm = mode >= 3 ? 0 : v_choose(2) * 3; o = 1 + v_choose(4); if (o == 4) o = 2; }
    static const char *ENT[] = {"b", "/vfs/bad.txt", ""}, *PRN[] = {"A", "TITLE", "NOPE"}, *TM[] = {"/vfs/t.tmpl", "/vfs/bad.tmpl", "/vfs/none.tmpl", "/vfs/e.tmpl"};
    static const char *OUT[] = {NULL, "-", "/vfs/o/p/x.html", "/vfs/w/x", "/vfs/f/x"};
    int ent2 = ent >= 0 && ent != 1 && prn < 0 && tm == 0 ? v_choose(3) - 1 : -1;
    if (ent >= 0) opt("-e", ENT[ent]);
    if (ent2 >= 0) opt("-e", ent2 ? "" : "/vfs/a.txt");
    if (mode == 1 && prn < 0 && tm == 0 && v_choose(2)) args[na++] = S("-d");
    if (prn >= 0) opt("-p", PRN[prn]);
    if (tm >= 0) opt("-t", TM[tm]);
    if (OUT[o]) opt("-o", OUT[o]);
    if (o >= 2) outp = OUT[o];
    if (o == 3) { old = "old content, longer than what is rendered: 012345678901234567890123456789"; ve_text("/vfs/w/x", old); }
    char *in = NULL; int from[2], nin = 0;
    if (mode >= 3) {        // sources from standard input
        args[na++] = S("-i");
        v_buf b; v_buf_init(&b, 100);
        int n = v_choose(3);
        for (int i = 0; i < n; i++) { int k = v_choose(4); if (k < 2) { from[nin++] = k; v_buf_s(&b, SRC[k]); } else if (k == 2) v_buf_s(&b, "# /vfs/a.txt"); v_buf_s(&b, i == n - 1 && v_choose(2) ? "" : "\n"); }
        in = b.s; ve_stdin = in; ve_stdin_len = b.n;
        if (v_choose(2)) { args[na++] = S(SRC[0]); ns = 1; list[0] = 0; }
        for (int i = 0; i < nin; i++) list[ns++] = from[i];
    }
    if (mode == 2) { ve_faults = K; ve_fault_mask = ~0u; }
    if (mode == 4) { ve_faults = 1; ve_fault_mask = VF_READ; }
    // expected
    int ok = 1;
    if (!listing && ns != 1) ok = 0;
    if (bad) ok = 0;
    if (listing && ent == 1) ok = 0;
    int prints = 0;
    if (ok && prn >= 0) { prints = 1; if (prn == 0 && has_a) v_buf_s(&want, "v=w\n"); else if (prn == 1 && !listing) { v_buf_n(&want, T[list[0]], 2); v_buf_c(&want, '\n'); } else if (prn == 1 && gt) v_buf_s(&want, "global\n"); else ok = 0; }
    if (ok && !prints) {
        if (tm < 0 || tm == 1 || tm == 2) ok = 0;
        else { maywrite = 1; if (o == 4) ok = 0; }
        if (ok && tm == 0) {
            if (!listing) { v_buf_s(&want, "E "); v_buf_n(&want, T[list[0]], 2); v_buf_c(&want, ' '); if (has_a) v_buf_s(&want, "v=w"); }
            else { v_buf_c(&want, '['); for (int i = 0; i < ns; i++) { v_buf_s(&want, "L "); v_buf_n(&want, T[list[i]], 2); v_buf_c(&want, ';'); } if (ent == 0) { v_buf_c(&want, '('); v_buf_n(&want, T[1], 2); v_buf_c(&want, ')'); } if (ent2 == 0) { v_buf_c(&want, '<'); v_buf_n(&want, T[0], 2); v_buf_c(&want, '>'); } }
            v_buf_s(&want, has_a ? "+" : "-");
        }
    }
    int rv = blogc_main(na, args);
    finish(rv);
    if (!ve_faulted) V_CHECK((rv == 0) == ok, ok ? "fails although everything is in order" : "succeeds although something is wrong");
    if (rv == 0) {
        V_CHECK(ok, "succeeds although something is wrong");
        V_CHECK(!ve_stdout.fail, "output was not written, exit status is 0");
        if (prints || o < 2) { V_CHECK(ve_stdout.n == want.n && v_eqn(ve_stdout.s, want.s, want.n), "output"); if (outp) V_CHECK(!prints || (old ? 1 : ve_get(outp, 1) == NULL), "file written by -p"); }
        else {
            vnode *f = ve_get(outp, 1);
            V_CHECK(f && f->type == 'f' && f->len == want.n && v_eqn(f->data, want.s, want.n), "output file"); V_CHECK((f->mode & 0644) == 0644, "the output can be read");
            V_CHECK(ve_stdout.n == 0, "nothing on standard output");
        }
        v_reach("rendered"); if (prints) v_reach("printed");
    }
    if (ve_faulted) v_reach("fault");
    V_CHECK(ve_open_fds() == 0, "files left open");
}
