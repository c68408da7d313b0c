// UTF-8 validator against the table of well-formed byte sequences of RFC 3629 / Unicode 3.9, table 3-7.
#include "v.h"
#include "utf8seq.h"
#include "common/utf8.h"

void v_main(void) {
    size_t n = v_choose(v_param(0) + 1);
    unsigned char *s = malloc(n ? n : 1);
    if (n) v_sym(s, n);
    bool got = bc_utf8_validate(s, n);
    int want = 1;
    size_t i = 0;
    while (i < n) {
        int k = seq(s + i, n - i);
        if (k == 0) { want = 0; break; }
        i += k;
    }
    v_log_i(got);
    if (want) v_reach("valid"); else v_reach("invalid");
    V_CHECK(got == want, "UTF-8 validation differs from RFC 3629");
    size_t skip = bc_utf8_skip_bom(s, n);
    int bom = n >= 3 && s[0] == 0xef && s[1] == 0xbb && s[2] == 0xbf;
    if (bom) v_reach("bom");
    V_CHECK(skip == (bom ? 3 : 0), "BOM detection");
}
