// Templates made of any sequence of statements: exactly the well-nested ones are accepted, and they render as documented.
#include "tmplref.h"
#include "blogc/template-parser.h"
#include "blogc/renderer.h"
#include "common/error.h"
static const char *t_date_formatted(const char *v) { return v; }
static char val[8][2];
static const char *value(int i, int sym) { if (sym) { v_sym(val[i], 1); v_assume((val[i][0] >= 'x') & (val[i][0] <= 'z')); } else val[i][0] = 'x' + i % 3; val[i][1] = 0; return val[i]; }
static const char *FOCUS[] = {      // which statements may appear
    "\0\1\2\3\4\5", "\0\1\4\5\6\7\13", "\0\1\10\11\12\14\17\15\16", "\1\2\4\5\6\7\10\11\12\15", "\1\4\5\6\7\10\11\12", "\20\21\4\5" };
static const int NF[] = {6, 7, 9, 10, 8, 4};
void v_main(void) {
    int K = v_param(0), focus = v_param(1), render = v_param(2);
    static const char *OPS[] = {"==", "!=", "<", ">", "<=", ">="};
    int op = 0, operand = 0, seen_if = 0, used[4] = {0};
    v_buf d; v_buf_init(&d, 600);
    int stk[16], sp = 0, dead = 0, n = 0;
    for (;;) {
        int k = n == K ? NF[focus] : v_choose(NF[focus] + 1);
        if (k == NF[focus]) break;
        n++;
        char lit[2] = {'a' + n, 0};
        // nesting: 1 conditional, 4 conditional with else, 2 iterator, 3 block; anything else makes the template invalid
        int t = FOCUS[focus][k], top = sp ? stk[sp - 1] : 0, inf = 0, inb = 0;
        for (int i = 0; i < sp; i++) { inf |= stk[i] == 2; inb |= stk[i] == 3; }
        switch (t) {
        case 0: v_buf_s(&d, lit); break;
        case 1: v_buf_s(&d, "{% ifdef A %}"); used[0] = 1; break;
        case 2: v_buf_s(&d, "{% ifndef A %}"); used[0] = 1; break;
        case 3: if (!seen_if) { op = v_choose(6); operand = v_choose(2); seen_if = 1; } v_buf_s(&d, "{% if A "); v_buf_s(&d, OPS[op]); v_buf_s(&d, operand ? " \"y\" %}" : " B %}"); used[0] = used[1] = 1; break;
        case 4: v_buf_s(&d, "{% else %}"); if (top == 1) stk[sp - 1] = 4; else dead = 1; break;
        case 5: v_buf_s(&d, "{% endif %}"); if (top == 1 || top == 4) sp--; else dead = 1; break;
        case 6: v_buf_s(&d, "{% foreach L %}"); dead |= inf; used[2] = 1; stk[sp++] = 2; break;
        case 7: v_buf_s(&d, "{% endforeach %}"); if (top == 2) sp--; else dead = 1; break;
        case 8: v_buf_s(&d, "{% block entry %}"); break;
        case 9: v_buf_s(&d, "{% block listing %}"); break;
        case 10: v_buf_s(&d, "{% endblock %}"); if (top == 3) sp--; else dead = 1; break;
        case 11: v_buf_s(&d, "{{ FOREACH_ITEM }}"); break;
        case 12: v_buf_s(&d, "{% block listing_once %}"); break;
        case 13: v_buf_s(&d, "{% block listing_entry %}"); break;
        case 14: v_buf_s(&d, "{% block listing_empty %}"); break;
        case 15: v_buf_s(&d, "{{ A }}"); used[0] = 1; break;
        case 16: v_buf_s(&d, "{% if A == \"y\" %}"); break;
        case 17: v_buf_s(&d, "{% if A > \"x\" %}"); break;
        }
        if (focus == 5) v_buf_s(&d, lit);
        if ((t >= 1 && t <= 3) || t >= 16) stk[sp++] = 1;
        if (t == 8 || t == 9 || (t >= 12 && t <= 14)) { dead |= inb; stk[sp++] = 3; }
        if (dead) { if (render) v_end(); break; }
        // statements that open need statements that close
        if (render && sp > K - n) v_end();
    }
    if (dead && v_choose(2)) v_buf_s(&d, " tail");
    int ok = t_parse(d.s, d.n);
    if (!ok && render) v_end();
    char *src = t_dup(d.s, d.n);
    bc_error_t *err = NULL;
    bc_slist_t *ast = blogc_template_parse(src, d.n, &err);
    V_CHECK((err == NULL) == ok, ok ? "well-nested template is refused" : "badly nested template is accepted");
    V_CHECK(!err || !ast, "error and a result");
    if (!ok) { v_reach("refused"); return; }
    v_reach("accepted");
    if (!render) return;
    t_kv glob[5] = {0}, s1[3] = {0}, s2[3] = {0}, e1[3] = {0}; const t_kv *srcs[2] = {s1, s2}, *ents[2] = {e1, NULL};
    int blocks = focus >= 2, g = 0;
    if (used[0] && v_choose(2)) glob[g++] = (t_kv) {"A", value(0, focus == 0)};
    if (focus == 5) glob[g++] = (t_kv) {"A", value(0, 1)};
    if (used[1] && !operand && v_choose(2)) glob[g++] = (t_kv) {"B", value(1, focus == 0)};
    if (used[2]) { int l = v_choose(focus == 4 ? 3 : 5); static const char *LV[] = {NULL, "p", "p q", "", " p  q "}; if (l) glob[g++] = (t_kv) {"L", LV[l]}; }
    t_global = glob; t_sources = srcs; t_entries = ents;
    if (blocks) {
        t_listing = v_choose(2); t_nsources = t_listing ? v_choose(3) : 1;
        if (used[0]) { if (v_choose(2)) s1[0] = (t_kv) {"A", "s"}; s2[0] = (t_kv) {"A", "t"}; e1[0] = (t_kv) {"A", "e"}; }
        if (t_listing && (focus == 2 || focus == 3)) t_nentries = v_choose(2) * 2;
    }
    char *want = t_render(0); int leaky = t_leaked;
    bc_slist_t *sl = NULL, *el = NULL;
    for (int i = 0; i < t_nsources; i++) sl = bc_slist_append(sl, t_trie(srcs[i]));
    for (int i = 0; i < t_nentries; i++) el = bc_slist_append(el, ents[i] ? t_trie(ents[i]) : NULL);
    char *out = blogc_render(ast, sl, el, t_trie(glob), t_listing);
    v_log_s(out);
    if (!ast) { V_CHECK(d.n == 0, "template lost"); return; }
    V_CHECK(out != NULL, "no output");
    if (leaky && !v_eqs(out, want)) {
        char *lk = t_render(1);
        if (v_eqs(out, lk)) v_fail("a source variable is visible outside of blocks after a block that was not included");
    }
    V_CHECK(v_eqs(out, want), "rendered text");
    blogc_template_free_ast(ast);
    v_reach("rendered");
}
