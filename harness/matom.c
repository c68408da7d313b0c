// The built-in feed template: parsed and rendered by blogc it gives the feed, with the addresses the files are built to.
#include "env.h"
#include "mname.h"
#include "blogc-make/atom.h"
#include "blogc-make/rules.h"
#include "blogc/template-parser.h"
#include "blogc/renderer.h"
#include "common/error.h"
#include "common/utils.h"
static char *dup_(const char *s) { v_buf b; v_buf_init(&b, 100); v_buf_s(&b, s); return b.s; }
static const char SET[] = "ab/%$'\"\\&.";
static size_t max;
static char *opt(const char *deflt, int where) { if (v_choose(2)) return deflt ? dup_(deflt) : NULL; char *s = v_str_of(0, max, SET); if (!where && s[0]) v_assume(s[0] != '/'); return s; }
static v_buf W;
#define P(s) v_buf_s(&W, s)
static void put(bm_settings_t *s, const char *k, char *v) { if (v) bc_trie_insert(s->settings, k, v); }
static bm_settings_t S;
static void render(void) {
    char *bp = opt(NULL, 0), *ap = opt("atom", 0), *ae = opt(".xml", 1), *pp = opt("post", 0), *he = opt("/index.html", 1);
    put(&S, "blog_prefix", bp); put(&S, "atom_prefix", ap); put(&S, "atom_ext", ae); put(&S, "post_prefix", pp); put(&S, "html_ext", he);
    char *tag = v_choose(2) ? dup_("t g") : NULL, *base = v_choose(2) ? dup_("/u") : NULL; int n = v_choose(3);
    char *t = bm_atom_generate(&S);
    V_CHECK(t != NULL, "no template");
    bc_error_t *err = NULL; bc_slist_t *ast = blogc_template_parse(t, v_len(t), &err);
    V_CHECK(ast && !err, "the feed template is not accepted by blogc");
    bc_trie_t *c = bc_trie_new(free); bc_slist_t *src = NULL;
    bc_trie_insert(c, "SITE_TITLE", dup_("T")); bc_trie_insert(c, "SITE_TAGLINE", dup_("L")); bc_trie_insert(c, "BASE_DOMAIN", dup_("http://d")); bc_trie_insert(c, "AUTHOR_NAME", dup_("N")); bc_trie_insert(c, "AUTHOR_EMAIL", dup_("E"));
    bc_trie_insert(c, "DATE_FIRST_FORMATTED", dup_("D0"));
    if (tag) bc_trie_insert(c, "FILTER_TAG", dup_(tag));
    if (base) bc_trie_insert(c, "BASE_URL", dup_(base));
    static const char *F[] = {"one", "two"};
    for (int i = 0; i < n; i++) { bc_trie_t *l = bc_trie_new(free); bc_trie_insert(l, "FILENAME", dup_(F[i])); bc_trie_insert(l, "TITLE", dup_(i ? "B" : "A")); bc_trie_insert(l, "DATE", dup_("x")); bc_trie_insert(l, "DATE_FORMATTED", dup_(i ? "D2" : "D1")); bc_trie_insert(l, "CONTENT", dup_(i ? "<p>2" : "<p>1")); src = bc_slist_append(src, l); }
    char *r = blogc_render(ast, src, NULL, c, true);
    v_buf_init(&W, 4000); char *b = base ? base : "", *self = expect("", bp, ap, tag, ae);
    if (!self) v_end();         // neither prefix nor extension: nothing is built
    P("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<feed xmlns=\"http://www.w3.org/2005/Atom\">\n  <title type=\"text\">T"); if (tag) { P(" - "); P(tag); } P("</title>\n  <id>http://d"); P(b); P(self);
    P("</id>\n  <updated>D0</updated>\n  <link href=\"http://d"); P(b); P("/\" />\n  <link href=\"http://d"); P(b); P(self); P("\" rel=\"self\" />\n  <author>\n    <name>N</name>\n    <email>E</email>\n  </author>\n  <subtitle type=\"text\">L</subtitle>");
    for (int i = 0; i < n; i++) {
        const char *d = i ? "D2" : "D1", *u = expect("", bp, pp, F[i], he);
        P("\n  <entry>\n    <title type=\"text\">"); P(i ? "B" : "A"); P("</title>\n    <id>http://d"); P(b); P(u); P("</id>\n    <updated>"); P(d); P("</updated>\n    <published>"); P(d); P("</published>\n    <link href=\"http://d"); P(b); P(u);
        P("\" />\n    <author>\n      <name>N</name>\n      <email>E</email>\n    </author>\n    <content type=\"html\"><![CDATA["); P(i ? "<p>2" : "<p>1"); P("]]></content>\n  </entry>");
    }
    P("\n</feed>\n");
    v_log_s(r); v_log_s(W.s);
    V_CHECK(v_eqs(r, W.s), "the feed differs from what it should be");
    v_reach(n ? "entries" : "no entries");
}
static void deploy(void) {
    int legacy = v_choose(2); if (legacy) put(&S, "atom_legacy_entry_id", dup_("1"));
    put(&S, "atom_prefix", dup_("atom")); put(&S, "atom_ext", dup_(".xml")); put(&S, "post_prefix", dup_("post")); put(&S, "html_ext", dup_("/index.html"));
    ve_mkdir("/tmp"); int there = v_choose(2); if (!there) ve_remove(ve_get("/tmp", 1));
    ve_faults = v_param(1); ve_fault_mask = VF_TMP | VF_WRITE | VF_CLOSE | VF_SHORT;
    bc_error_t *err = NULL; char *f = bm_atom_deploy(&S, &err);
    ve_fault_mask = 0; V_CHECK(ve_open_fds() == 0, "files left open");
    vnode *tmp = ve_get("/tmp", 1);
    if (!f) { V_CHECK(err != NULL, "failure without an error"); V_CHECK(legacy || !there || ve_faulted, "failure without a reason"); V_CHECK(!tmp || ve_count(tmp) == 0, "a temporary file is left behind"); v_reach("failed"); return; }
    V_CHECK(!err && !legacy, "an error and a result");
    char *want = bm_atom_generate(&S); vnode *n = ve_get(f, 0);
    V_CHECK(n && n->type == 'f' && n->len == v_len(want) && v_eqn(n->data, want, n->len), "the temporary template is not complete");
    bm_atom_destroy(f); V_CHECK(ve_count(tmp) == 0, "a temporary file is left behind"); v_reach(ve_faulted ? "fault" : "deployed");
}
static void dump(void) {        // the rule that prints the template
    put(&S, "atom_prefix", opt("atom", 0)); put(&S, "atom_ext", opt(".xml", 1)); put(&S, "post_prefix", dup_("post")); put(&S, "html_ext", dup_("/index.html"));
    bm_ctx_t c; for (size_t i = 0; i < sizeof c; i++) ((char *) &c)[i] = 0; c.settings = &S;
    char *want = bm_atom_generate(&S);
    ve_faults = 1; ve_fault_mask = VF_WRITE | VF_FLUSH | VF_SHORT;
    int rv = bm_rule_executor(&c, bc_slist_append(NULL, dup_("atom_dump")));
    ve_fault_mask = 0; v_log_i(rv);
    if (rv) { V_CHECK(ve_faulted, "failure without a reason"); V_CHECK(rv == 1, "status"); V_CHECK(ve_stderr.n > 0, "failure without a message"); v_reach("failed"); return; }
    V_CHECK(want && ve_stdout.n == v_len(want) && v_eqn(ve_stdout.s, want, ve_stdout.n), "the printed template is not complete");
    V_CHECK(!ve_stdout.fail && ve_stdout_flushed == ve_stdout.n, "the printed template may be lost, and succeeds");
    v_reach("printed");
}
void v_main(void) { max = v_param(1); S.settings = bc_trie_new(free); S.global = bc_trie_new(free); if (v_param(0) == 2) dump(); else if (v_param(0)) deploy(); else render(); }
