// TOCTREE_MAXDEPTH: the value of the source counts, else the global one, else no limit; only numbers are taken.
#include "env.h"
#include "blogc/loader.h"
#include "blogc/source-parser.h"
#include "common/error.h"
#include "common/utils.h"
static char *dup(const char *v) { size_t n = v_len(v); char *d = malloc(n + 1); for (size_t i = 0; i <= n; i++) d[i] = v[i]; return d; }
// any text of up to two characters; 0 invalid
static int number(const char *s, long *v) { int neg = 0; size_t i = 0; if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; i = 1; } long r = 0; size_t b = i; while (s[i] >= '0' && s[i] <= '9') { r = r * 10 + (s[i] - '0'); i++; } *v = neg ? -r : r; return i > b && !s[i]; }
static int has(const char *t, const char *w) { size_t n = v_len(t), m = v_len(w); for (size_t i = 0; i + m <= n; i++) if (v_eqn(t + i, w, m)) return 1; return 0; }
void v_main(void) {
    int gl = v_choose(3), lo = v_choose(3), nl = v_choose(2), own = v_choose(2) * v_choose(2);
    char *g = NULL, *l = NULL; long gv = -1, lv = 0; int lok = 1;
    if (gl) { g = v_str(1, gl == 1 ? 1 : 2); if (!number(g, &gv)) v_end(); }
    if (lo) { l = v_str(1, lo == 1 ? 1 : 2); for (size_t i = 0; l[i]; i++) v_assume(!(l[i] & 0x80) && l[i] != '\n' && l[i] != '\r' && l[i] != ' ' && l[i] != '\t' && l[i] != '\f' && l[i] != '\v'); lok = number(l, &lv); }
    long want = l ? lv : gv;
    v_buf d; v_buf_init(&d, 200);
    const char *e = nl ? "\r\n" : "\n";
    v_buf_s(&d, "TITLE: x"); v_buf_s(&d, e);
    if (own) { v_buf_s(&d, "TOCTREE: mine"); v_buf_s(&d, e); }
    if (l) { v_buf_s(&d, "TOCTREE_MAXDEPTH: "); v_buf_s(&d, l); v_buf_s(&d, e); }
    v_buf_s(&d, "---"); v_buf_s(&d, e); v_buf_s(&d, "## a"); v_buf_s(&d, e); v_buf_s(&d, e); v_buf_s(&d, "### b"); v_buf_s(&d, e); v_buf_s(&d, e); v_buf_s(&d, "##### c"); v_buf_s(&d, e);
    ve_file("/vfs/s.txt", d.s, d.n);
    bc_trie_t *conf = bc_trie_new(free); if (g) bc_trie_insert(conf, "TOCTREE_MAXDEPTH", dup(g));
    bc_error_t *err = NULL;
    bc_trie_t *t = blogc_source_parse_from_file(conf, dup("/vfs/s.txt"), &err);
    V_CHECK((t == NULL) == (err != NULL), "either a source or an error");
    if (own) { V_CHECK(t && v_eqs(bc_trie_lookup(t, "TOCTREE"), "mine"), "the author's own table of contents"); v_reach("own"); return; }
    if (l && !lok) { V_CHECK(err != NULL, "a depth that is not a number is refused"); v_reach("refused"); return; }
    V_CHECK(t != NULL, "a source with a valid depth is refused");
    const char *toc = bc_trie_lookup(t, "TOCTREE");
    v_log_s(toc);
    V_CHECK((toc != NULL) == (want != 0), "depth 0 disables the table of contents, nothing else does");
    if (toc) {
        V_CHECK(has(toc, "#a"), "first level");
        V_CHECK(has(toc, "#b") == (want < 0 || want >= 2), "second level within the depth");
        V_CHECK(has(toc, "#c") == (want < 0 || want >= 4), "fourth level within the depth");
        v_reach(l ? "local" : g ? "global" : "default");
    } else v_reach("off");
    V_CHECK(v_eqs(bc_trie_lookup(t, "FIRST_HEADER"), "a"), "first header");
}
