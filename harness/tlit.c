// Templates, any characters in any position: accepted or refused as documented, literal text kept, white space cleaners exact.
#include "tmplref.h"
#include "blogc/template-parser.h"
#include "blogc/renderer.h"
#include "common/error.h"
static const char *t_date_formatted(const char *v) { return v; }
static const char *PRE[] = {"", "{%", "{% ifdef A", "{% if A ", "{% if A == ", "{% if A <=B", "{% block ", "{% block entry", "{% foreach L", "{{", "{% ifdef A %}c", "c ", "{{ A }}", "{% ifdef A -%}", "{% ifdef A %}c{%", "{% ifndef A %}c{% else", "{% block listing_once"};
static const char *SUF[] = {"", "%}", "}}", " %}c{% endif %}", " -%} c {%- endif %}", " %}{% endblock %}", " %}c {% endforeach -%}\n", "{% endif %}", " d{{ A }}", "{%- endif %}\n d", " \"b\" %}c{% endif %}", "{%- endif -%}"};
void v_main(void) {
    int N = v_param(0), all = v_param(1), scaff = v_param(2), p = 0, q = 0;
    if (scaff) { p = v_choose(17); q = v_choose(12); v_assume(p || q); }
    v_buf d; v_buf_init(&d, 120);
    v_buf_s(&d, PRE[p]);
    char *s = all ? v_str(0, N) : v_str_of(0, N, "{%}- \n\r\tABab9_\"\\=<>!\xc3");
    v_buf_s(&d, s); v_buf_s(&d, SUF[q]);
    char *src = malloc(d.n ? d.n : 1); for (size_t i = 0; i < d.n; i++) src[i] = d.s[i];      // not terminated: the length counts
    bc_error_t *err = NULL;
    bc_slist_t *ast = blogc_template_parse(src, d.n, &err);
    V_CHECK(!err || !ast, "error and a result");
    int ok = t_parse(src, d.n);
    V_CHECK((err == NULL) == ok, ok ? "valid template is refused" : "invalid template is accepted");
    if (!ok) { v_reach("refused"); bc_error_free(err); return; }
    t_kv glob[3] = {{"A", "b"}, {"L", "x y"}, {0}};
    t_global = glob;
    t_listing = scaff ? v_choose(2) : 0; t_kv s1[2] = {{"A", "l"}, {0}}; const t_kv *srcs[1] = {s1}; t_sources = srcs; t_nsources = 1;
    // an escaped quote inside a string operand is not judged
    for (int i = 0; i < ntn; i++) if (tn[i].b) for (size_t j = 0; tn[i].b[j]; j++) if (tn[i].b[j] == '\\') { v_reach("escape"); return; }
    char *want = t_render(0);
    if (t_leaked) v_end();
    char *out = blogc_render(ast, bc_slist_append(NULL, t_trie(s1)), NULL, t_trie(glob), t_listing);
    v_log_s(out);
    if (!ast) { V_CHECK(d.n == 0, "template lost"); return; }
    V_CHECK(out && v_eqs(out, want), "rendered text");
    blogc_template_free_ast(ast);
    v_reach("rendered");
    for (int i = 0; i < ntn; i++) if (tn[i].t == TX) v_reach("text");
}
