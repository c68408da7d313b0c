// No text outside an HTML block reaches the output as markup: every '<' starts a tag the parser writes, every '&' an entity it writes,
// and quotes and slashes appear only inside those tags.
#include "v.h"
#include "blogc/content-parser.h"
#include "common/utils.h"
#include "clines.h"
static const char *TAGS[] = {"<p>", "</p>", "<em>", "</em>", "<strong>", "</strong>", "<code>", "</code>", "<br />", "<pre>", "</pre>", "<ul>", "</ul>", "<ol>", "</ol>", "<li>", "</li>", "<blockquote>", "</blockquote>", "<hr />", NULL};
static const char *ENTS[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&#x27;", "&#x2F;", "&ndash;", "&mdash;", NULL};
static size_t match(const char *s, const char **t) { for (; *t; t++) { size_t i = 0; while ((*t)[i] && s[i] == (*t)[i]) i++; if (!(*t)[i]) return i; } return 0; }
static size_t header(const char *s) {   // <h1 id="slug">, </h1>
    if (s[0] == '<' && s[1] == '/' && s[2] == 'h' && s[3] >= '1' && s[3] <= '9' && s[4] == '>') return 5;
    if (!(s[0] == '<' && s[1] == 'h' && s[2] >= '1' && s[2] <= '9' && s[3] == ' ' && s[4] == 'i' && s[5] == 'd' && s[6] == '=' && s[7] == '"')) return 0;
    size_t i = 8; while ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '-') i++;
    return s[i] == '"' && s[i + 1] == '>' ? i + 2 : 0;
}
// sequences of lines, one of which holds an arbitrary byte
static char *lines(int K, int kinds) {
    static const char *NLS[] = {"\n", "\r\n"};
    const char *nl = NLS[v_choose(2)];
    v_buf d; v_buf_init(&d, 200);
    int n = 1 + v_choose(K), at = v_choose(n), end = v_choose(2);
    char c; v_sym(&c, 1); v_assume(c != 0 && c != '[' && c != '\n' && c != '\r');
    for (int i = 0; i < n; i++) {
        int k = v_choose(kinds); if (LK[k][0] == '<' || (i == at && !cl_text(k))) v_end();
        cl_line(&d, k, i == at ? (char[]) {'t', c} : "tu", i == at ? 2 : 1);
        if (i < n - 1 || end) v_buf_s(&d, nl);
    }
    char *doc = malloc(d.n + 1); for (size_t i = 0; i < d.n; i++) doc[i] = d.s[i]; doc[d.n] = 0;
    return doc;
}
static char *line(int N, int *inline_) {
    static const char *PRE[] = {"t", "# ", "- ", "1. ", " ", "> t", "> # ", "- t\n  ", "t\n", "> - ", "*"};
    int inl = *inline_ = v_choose(2), p = inl ? 0 : v_choose(11);
    char *s = v_str(0, N);
    for (size_t i = 0; s[i]; i++) { v_assume(s[i] != '['); v_assume(s[i] != '\n' && s[i] != '\r'); }
    v_buf d; v_buf_init(&d, 40); v_buf_s(&d, PRE[p]); v_buf_s(&d, s); if (v_choose(2)) v_buf_s(&d, "\nu\n");
    char *doc = malloc(d.n + 1); for (size_t i = 0; i <= d.n; i++) doc[i] = d.s[i];
    return doc;
}
void v_main(void) {
    int inl = 0; char *doc = v_param(1) ? lines(v_param(1), v_param(2) ? NLK : NCORE) : line(v_param(0), &inl);
    char *fh = NULL, *de = NULL;
    char *r = inl ? blogc_content_parse_inline(doc) : blogc_content_parse(doc, NULL, &fh, &de, NULL, NULL);
    v_log_s(r);
    const char *o[3] = {r, fh, de};
    for (int k = 0; k < 3; k++) if (o[k]) for (size_t i = 0; o[k][i];) {
        char c = o[k][i];
        size_t n = 1;
        if (c == '<') { n = k ? 0 : match(o[k] + i, TAGS); if (!n && !k) n = header(o[k] + i); V_CHECK(n, "text of the author reaches the output as markup"); }
        else if (c == '&') { n = match(o[k] + i, ENTS); V_CHECK(n, "text of the author reaches the output as an entity"); }
        else V_CHECK(c != '>' && c != '"' && c != '\'' && c != '/', "character with a meaning in HTML is not encoded");
        i += n;
    }
    v_reach(v_param(1) ? "lines" : inl ? "inline" : "blocks");
    if (fh) v_reach("header"); if (de) v_reach("description");
}
