// The FILENAME variable: last component of the path without its last extension.
#include "env.h"
#include "blogc/loader.h"
void v_main(void) {
    char *s = v_str(0, v_param(0)); size_t n = v_len(s);
    char *r = blogc_get_filename(s);
    v_log_s(r);
    if (!n) { V_CHECK(!r, "no name"); return; }
    size_t b = n; while (b > 0 && s[b - 1] != '/' && s[b - 1] != '\\') b--;
    size_t e = n; for (size_t i = b; i < n; i++) if (s[i] == '.') e = i;
    V_CHECK(r && v_len(r) == e - b && v_eqn(r, s + b, e - b), "file name without directory and extension");
    if (e < n) v_reach("extension");
    if (b) v_reach("directory");
}
