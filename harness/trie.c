// Trie against an association list: insert/replace/lookup/size/foreach/free for arbitrary key sequences.
#include "v.h"
#include "common/utils.h"
#define MAXK 6
static int freed[MAXK];
static int vals[MAXK];
static void my_free(void *p) { freed[(int *) p - vals]++; }
static char *keys[MAXK]; static int nk; static int live[MAXK]; static int seen[MAXK];
static void visit(const char *k, void *data, void *user) {
    V_CHECK(user == keys, "foreach passes the caller's pointer");
    int idx = (int *) data - vals;
    V_CHECK(idx >= 0 && idx < nk && live[idx], "foreach visits a value that is not stored");
    V_CHECK(v_eqs(k, keys[idx]), "foreach visits a value under another key");
    seen[idx]++;
}
void v_main(void) {
    nk = v_param(0);
    bc_trie_t *t = bc_trie_new(my_free);
    for (int i = 0; i < nk; i++) {
        keys[i] = v_str(0, v_param(1));
        for (int j = 0; j < i; j++) if (live[j] && v_eqs(keys[i], keys[j])) { live[j] = 0; v_reach("replace"); }
        live[i] = 1;
        bc_trie_insert(t, keys[i], &vals[i]);
        for (int j = 0; j <= i; j++) V_CHECK(freed[j] == !live[j], "replaced values are freed once, others kept");
    }
    int count = 0;
    for (int i = 0; i < nk; i++) count += live[i];
    V_CHECK((int) bc_trie_size(t) == count, "size is the number of distinct keys");
    char *q = v_str(0, v_param(1));
    int *want = NULL;
    for (int i = 0; i < nk; i++) if (live[i] && v_eqs(keys[i], q)) want = &vals[i];
    int *got = bc_trie_lookup(t, q);
    v_log_i(got ? got - vals : -1);
    if (want) v_reach("hit"); else v_reach("miss");
    V_CHECK(got == want, "lookup returns the last value inserted under the key, or nothing");
    bc_trie_foreach(t, visit, keys);
    for (int i = 0; i < nk; i++) V_CHECK(seen[i] == live[i], "foreach visits every stored key once");
    bc_trie_free(t);
    for (int i = 0; i < nk; i++) V_CHECK(freed[i] == 1, "every value is freed exactly once");
}
