// Fixed templates rendered with arbitrary data: comparisons, iterators, listings and lookups depend on every byte of the values.
#include "tmplref.h"
#include "blogc/template-parser.h"
#include "blogc/renderer.h"
#include "common/error.h"
static const char *t_date_formatted(const char *v) { return v; }
static char *any(size_t n) { return v_str(0, n); }
static const char *OPS[] = {"==", "!=", "<", ">", "<=", ">="};
void v_main(void) {
    int N = v_param(0), k = v_choose(9), listing = 0, ns = 1;
    v_buf d; v_buf_init(&d, 400);
    t_kv glob[5] = {0}, s[3][4] = {{{0}}}; const t_kv *srcs[3] = {s[0], s[1], s[2]};
    const t_kv *ents[2] = {NULL, NULL}; t_kv en[2] = {0};
    switch (k) {
    case 0: case 1: case 8: {    // comparison with a text, with a variable, the other way round in a block
        const char *lit = NULL;
        v_buf_s(&d, k == 8 ? "{% block entry %}{% if A " : "{% if A "); v_buf_s(&d, OPS[v_choose(6)]); v_buf_c(&d, ' ');
        if (k == 0) { char *l = any(N); lit = l; for (size_t i = 0; l[i]; i++) v_assume(l[i] != '"' && l[i] != '\\'); v_buf_c(&d, '"'); v_buf_s(&d, lit); v_buf_c(&d, '"'); glob[0] = (t_kv) {"A", any(N)}; }
        else if (k == 1) { v_buf_s(&d, "B"); glob[0] = (t_kv) {"A", any(N)}; glob[1] = (t_kv) {"B", any(N)}; }
        else { v_buf_s(&d, "B_2"); s[0][0] = (t_kv) {"A", any(2)}; glob[0] = (t_kv) {"B", any(3)}; if (v_choose(2)) glob[1] = (t_kv) {"A", "g"}; }
        v_buf_s(&d, k == 8 ? " %}1{% else %}2{% endif %}{% endblock %}" : " %}1{% else %}2{% endif %}3");
        break; }
    case 2:         // an iterator over any text
        v_buf_s(&d, "{% foreach L %}[{{ FOREACH_ITEM }}]{% endforeach %}."); glob[0] = (t_kv) {"L", any(N + 1)}; break;
    case 3: {       // ... of each source of a listing
        listing = v_choose(2); ns = listing ? v_choose(3) : 1; int where = v_choose(3);
        v_buf_s(&d, listing ? "{% block listing %}{% foreach L %}{{ FOREACH_ITEM }},{% endforeach %};{% endblock %}{% foreach L %}!{% endforeach %}" : "{% foreach L %}!{% endforeach %}{% block entry %}{% foreach L %}{{ FOREACH_ITEM }},{% endforeach %};{% endblock %}");
        for (int i = 0; i < ns; i++) if (where != i) s[i][0] = (t_kv) {"L", ns == 1 ? any(N + 1) : any(2)};
        if (where == 2 && v_choose(2)) glob[0] = (t_kv) {"L", "g h"};
        break; }
    case 4: {       // local before global, also when empty
        listing = v_choose(2); ns = listing ? 2 : 1; int g = v_choose(2), l = v_choose(2);
        v_buf_s(&d, listing ? "{% block listing %}{% ifdef A %}[{{ A }}]{% endif %}{% endblock %}{{ A }}" : "{% block entry %}{% ifndef A %}-{% else %}{{ A }}{% endif %}{% endblock %}<{{ A }}>");
        if (g) glob[0] = (t_kv) {"A", any(2)};
        if (l) s[0][0] = (t_kv) {"A", any(2)};
        s[1][0] = (t_kv) {"A", any(1)};
        break; }
    case 5:         // items compared and mapped to values
        v_buf_s(&d, "{% foreach L %}{% if FOREACH_ITEM == A %}={% else %}{{ FOREACH_VALUE }};{% endif %}{% endforeach %}");
        glob[0] = (t_kv) {"L", any(N)}; glob[1] = (t_kv) {"A", any(1)}; glob[2] = (t_kv) {"L__X", "vx"}; break;
    case 6: {       // the same blocks again
        listing = v_choose(2); ns = v_choose(listing ? 4 : 2);
        v_buf_s(&d, "{% block listing %}{{ A }}{% endblock %}{% block entry %}({{ A }}){% endblock %}{% block listing_empty %}none{% endblock %}{% block listing_once %}/{% endblock %}{% block listing %}<{{ A }}>{% endblock %}{% block entry %}[{{ A }}]{% endblock %}");
        if (!listing && !ns) ns = 1;
        for (int i = 0; i < ns; i++) s[i][0] = (t_kv) {"A", any(1)};
        break; }
    case 7:         // a size on a value
        v_buf_s(&d, "{% block entry %}{{ A_2 }}|{{ A_1 }}|{{ A_10 }}|{{ A }}{% endblock %}"); s[0][0] = (t_kv) {"A", any(N)}; 
        for (size_t i = 0; s[0][0].v[i]; i++) v_assume(!(s[0][0].v[i] & 0x80));
        break;
    }
    if (!t_parse(d.s, d.n)) { v_end(); }
    char *src = t_dup(d.s, d.n);
    bc_error_t *err = NULL;
    bc_slist_t *ast = blogc_template_parse(src, d.n, &err);
    V_CHECK(ast && !err, "template");
    t_global = glob; t_sources = srcs; t_nsources = ns; t_listing = listing; t_entries = ents; t_nentries = 0; (void) en;
    char *want = t_render(0);
    bc_slist_t *sl = NULL;
    for (int i = 0; i < ns; i++) sl = bc_slist_append(sl, t_trie(srcs[i]));
    char *out = blogc_render(ast, sl, NULL, t_trie(glob), listing);
    v_log_s(out);
    V_CHECK(v_eqs(out, want), "rendered text");
    v_reach("rendered");
    if (k == 0) v_reach(v_eqs(out, "13") ? "holds" : "does not");
}
