// blogcfile: what is accepted, which values and defaults result.
#include "v.h"
#include "blogc-make/settings.h"
#include "common/error.h"
#include "common/utils.h"
static const struct { const char *k, *d; } DEF[] = {      // blogcfile(5)
    {"content_dir", "content"}, {"template_dir", "templates"}, {"atom_template", NULL}, {"main_template", "main.tmpl"}, {"source_ext", ".txt"}, {"listing_entry", NULL}, {"posts_sort", NULL},
    {"pagination_prefix", "page"}, {"posts_per_page", "10"}, {"atom_posts_per_page", "10"}, {"html_ext", "/index.html"}, {"index_prefix", ""}, {"post_prefix", "post"}, {"tag_prefix", "tag"},
    {"html_order", "DESC"}, {"blog_prefix", NULL}, {"atom_prefix", "atom"}, {"atom_ext", ".xml"}, {"atom_order", "DESC"}, {"atom_legacy_entry_id", NULL},
    {"date_format", "%b %d, %Y, %I:%M %p GMT"}, {"locale", NULL}, {"run_from_make", NULL}};
enum { ND = sizeof DEF / sizeof *DEF };
static const char *REQ[] = {"AUTHOR_NAME", "AUTHOR_EMAIL", "SITE_TITLE", "SITE_TAGLINE", "BASE_DOMAIN"};
static const char *LST[] = {"posts", "pages", "tags", "copy", "copy_files"};
static int plain(const char *s, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok = ok & (s[i] > 32) & (s[i] < 127) & (s[i] != '\\') & (s[i] != '"'); return ok; }
static char **list_of(bm_settings_t *s, int i) { return i == 0 ? s->posts : i == 1 ? s->pages : i == 2 ? s->tags : s->copy; }
void v_main(void) {
    int mode = v_param(0); size_t max = v_param(1);
    v_buf b; v_buf_init(&b, 1200);
    const char *sec = "global"; int other = 0, sec2 = 0, miss = -1, how = 0, ks = -1, keyok = 1; char *key = NULL, *val = NULL, *item[5][2]; size_t kn = 0, vn = 0; int cnt[5] = {0};
    if (mode == 0) {            // a key of arbitrary text in the global section
        other = v_choose(2); if (other) sec = "environment";
        kn = 1 + v_choose(max); key = v_strn(kn); vn = v_choose(3); val = v_strn(vn);
        for (size_t i = 0; i < kn; i++) v_assume((key[i] > 32) & (key[i] < 127) & (key[i] != '='));
        v_assume((key[0] != '[') & (key[0] != '#') & (key[0] != ';')); v_assume(plain(val, vn));
        for (size_t i = 0; i < kn; i++) { int u = (key[i] >= 'A') & (key[i] <= 'Z'), d = ((key[i] >= '0') & (key[i] <= '9')) | (key[i] == '_'); keyok = keyok & (i ? u | d : u); }
    } else if (mode == 1) {     // required keys
        miss = v_choose(6) - 1; how = miss >= 0 ? v_choose(4) : 0; other = v_choose(3);
        if (other == 1) sec = "environment";
        sec2 = other == 2;      // both sections: [environment] is not looked at
    } else if (mode == 2) { ks = v_choose(ND + 1); if (ks < ND) { vn = v_choose(max + 1); val = v_strn(vn); v_assume(plain(val, vn)); } }
    int order = v_choose(2);    // [settings] first or last
    for (int pass = 0; pass < 2; pass++) {
        if (pass == order) {
            if (mode == 2) { v_buf_s(&b, "[settings]\n"); if (ks < ND) { v_buf_s(&b, DEF[ks].k); v_buf_s(&b, " = "); v_buf_n(&b, val, vn); v_buf_s(&b, "\n"); } v_buf_s(&b, "unrelated = 1\n"); }
            continue;
        }
        v_buf_s(&b, "["); v_buf_s(&b, sec); v_buf_s(&b, "]\n");
        if (kn && v_choose(2)) { v_buf_n(&b, key, kn); v_buf_s(&b, " = "); v_buf_n(&b, val, vn); v_buf_s(&b, "\n"); kn = kn | 64; }
        for (int i = 0; i < 5; i++) {
            if (i == miss && how == 0) continue;
            v_buf_s(&b, REQ[i]);
            if (i == miss) v_buf_s(&b, how == 1 ? " =\n" : how == 2 ? " = \"\"\n" : " = \" \"\n");
            else v_buf_s(&b, " = v\n");
        }
        if (kn && !(kn & 64)) { v_buf_n(&b, key, kn); v_buf_s(&b, " = "); v_buf_n(&b, val, vn); v_buf_s(&b, "\n"); }
        kn &= 63;
        if (sec2) v_buf_s(&b, "[environment]\nlower = x\nSITE_TITLE = other\n");
    }
    if (mode == 3) {            // lists
        for (int i = 0; i < 5; i++) {
            if (i < 3 ? i == 2 - v_param(2) : !v_choose(2)) continue;
            cnt[i] = 1 + v_choose(2);
            v_buf_s(&b, "["); v_buf_s(&b, LST[i]); v_buf_s(&b, "]\n");
            for (int j = 0; j < cnt[i]; j++) {
                size_t n = 1 + v_choose(max); item[i][j] = v_strn(n); v_assume(plain(item[i][j], n)); v_assume(!v_in_set(item[i][j][0], "[#;"));
                v_buf_n(&b, item[i][j], n); v_buf_s(&b, "\n");
            }
        }
    }
    bc_error_t *err = NULL;
    bm_settings_t *s = bm_settings_parse(b.s, b.n, &err);
    int bad = (miss >= 0 && how != 3) || !keyok;
    if (miss >= 0 && other == 2 && 0) bad = 0;
    V_CHECK((err != NULL) == (s == NULL), "exactly one of settings and an error");
    V_CHECK((s == NULL) == bad, bad ? "an unusable blogcfile is accepted" : "a usable blogcfile is refused");
    if (!s) { V_CHECK(v_len(err->msg) > 10, "message"); bc_error_free(err); v_reach("refused"); return; }
    for (int i = 0; i < 5; i++) if (mode != 0) V_CHECK(v_eqs(bc_trie_lookup(s->global, REQ[i]), i == miss && how == 3 ? " " : "v"), "global value");
    if (mode == 0) { V_CHECK(v_eqs(bc_trie_lookup(s->global, key), val), "value of a global key"); V_CHECK(bc_trie_size(s->global) == 6, "number of global keys"); v_reach("key"); }
    else V_CHECK(bc_trie_size(s->global) == 5, "number of global keys");
    for (int i = 0; i < ND; i++) V_CHECK(i == ks ? v_eqs(bc_trie_lookup(s->settings, DEF[i].k), val) : v_eq(bc_trie_lookup(s->settings, DEF[i].k), DEF[i].d), "value or default of a setting");
    V_CHECK(!bc_trie_lookup(s->settings, "unrelated"), "unknown setting");
    if (mode == 3) for (int i = 0; i < 4; i++) {
        int from = i == 3 && !cnt[3] ? 4 : i; char **l = list_of(s, i);
        V_CHECK((l != NULL) == (cnt[from] > 0), "a list exists exactly when its section does");
        for (int j = 0; l && j < cnt[from]; j++) V_CHECK(l[j] && v_eqs(l[j], item[from][j]), "list item");
        V_CHECK(!l || !l[cnt[from]], "number of list items");
        v_reach("lists");
    }
    for (int i = 0; i < 5; i++) v_log_s(bc_trie_lookup(s->global, REQ[i]));
    bm_settings_free(s); v_reach("accepted");
}
