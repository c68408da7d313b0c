// Sorting: result is a permutation, ordered, and equal elements keep their order.
#include "v.h"
#include "common/utils.h"
#include "common/sort.h"
static signed char val[8]; static int id[8];
static int cmp(const void *a, const void *b) { int x = val[(int *) a - id], y = val[(int *) b - id]; return x < y ? -1 : x > y; }
void v_main(void) {
    int n = v_choose(v_param(0) + 1);
    bc_slist_t *l = NULL;
    if (n) v_sym(val, n);
    for (int i = 0; i < n; i++) l = bc_slist_append(l, &id[i]);
    l = bc_slist_sort(l, (bc_sort_func_t) cmp);
    int seen[8] = {0}, k = 0, prev = -1;
    for (bc_slist_t *t = l; t; t = t->next, k++) {
        V_CHECK(k < n, "sorted list has extra elements");
        int i = (int *) t->data - id;
        v_log_i(i);
        V_CHECK(i >= 0 && i < n && !seen[i]++, "sorted list is a permutation");
        if (prev >= 0) {
            V_CHECK(val[prev] <= val[i], "sorted list is ordered");
            if (val[prev] == val[i]) { v_reach("tie"); V_CHECK(prev < i, "equal elements keep their order"); }
        }
        prev = i;
    }
    V_CHECK(k == n, "sorted list lost elements");
    bc_slist_free(l);
}
