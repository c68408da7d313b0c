// A listing for a tag contains exactly the sources that carry that tag as a whole word.
#include "env.h"
#include "blogc/loader.h"
#include "common/error.h"
#include "common/utils.h"
static void put(bc_trie_t *c, const char *k, const char *v) { char *d = malloc(v_len(v) + 1); for (size_t i = 0; i <= v_len(v); i++) d[i] = v[i]; bc_trie_insert(c, k, d); }
void v_main(void) {
    size_t max = v_param(0), nf = (size_t) v_choose(v_param(1) + 1), n[2], k = 1 + (size_t) v_choose(v_param(2)), hit = 0; char *t[2];
    char *f = v_strn(nf);
    for (size_t i = 0; i < nf; i++) v_assume(f[i] >= 32);
    bc_slist_t *l = NULL; bool want[2]; static const char *names[] = {"/vfs/a.txt", "/vfs/b.txt"}; static const char *FN[] = {"a", "b"};
    ve_mkdir("/vfs/cwd"); ve_chdir("/vfs/cwd");
    for (size_t s = 0; s < k; s++) {
        n[s] = (size_t) v_choose(max + 1); t[s] = v_strn(n[s]);
        for (size_t i = 0; i < n[s]; i++) v_assume(t[s][i] >= 32);
        v_buf b; v_buf_init(&b, 40); v_buf_s(&b, "TAGS: "); v_buf_n(&b, t[s], n[s]); v_buf_s(&b, "\n---\nt\n");
        ve_file(names[s], b.s, b.n);
        char *p = malloc(12); for (size_t i = 0; i < 11; i++) p[i] = names[s][i]; p[10] = 0;
        l = bc_slist_append(l, p);
        want[s] = false;
        for (size_t i = 0; i + nf <= n[s]; i++) {
            bool m = nf > 0 && (i == 0 || t[s][i - 1] == ' ') && (i + nf == n[s] || t[s][i + nf] == ' ');
            for (size_t j = 0; j < nf; j++) m = m & (t[s][i + j] == f[j]) & (f[j] != ' ');
            if (m) want[s] = true;
        }
        hit += want[s];
    }
    bc_trie_t *c = bc_trie_new(free);
    put(c, "FILTER_TAG", f);
    bc_error_t *err = NULL;
    bc_slist_t *r = blogc_source_parse_from_files(c, l, &err);
    V_CHECK(!err, "sources refused");
    bc_slist_t *e = r;
    for (size_t s = 0; s < k; s++) if (want[s]) {
        V_CHECK(e, "an entry with the tag is missing from the listing");
        V_CHECK(v_eq(bc_trie_lookup(e->data, "FILENAME"), FN[s]), "wrong entry listed for the tag");
        e = e->next;
    }
    V_CHECK(!e, "an entry without the tag is listed");
    v_log_i(hit); v_reach(hit ? "listed" : "none");
}
