// Parser errors name the right line and column and quote that line, for every text and offset.
#include "v.h"
#include "common/error.h"
static char *num(int n) { char *b = malloc(8); int k = 0; if (n >= 10) b[k++] = '0' + n / 10; b[k++] = '0' + n % 10; b[k] = 0; return b; }
void v_main(void) {
    int N = v_param(0), style = v_choose(3);        // LF, CRLF, CR
    size_t n = 1 + v_choose(N);
    // text: n units, each a line break or an arbitrary other byte
    char *s = malloc(2 * n + 1); size_t len = 0, off[16];
    int nl[16];
    for (size_t i = 0; i < n; i++) {
        char c; v_sym(&c, 1); v_assume(c != 0 && c != '\r');
        off[i] = len;
        nl[i] = c == '\n';
        if (nl[i]) { if (style) s[len++] = '\r'; if (style < 2) s[len++] = '\n'; }
        else s[len++] = c;
    }
    s[len] = 0;
    size_t at = v_choose(n);
    size_t line = 1, col = 1, st = 0;
    for (size_t i = 0; i < at; i++) if (nl[i]) { line++; col = 1; st = i + 1; } else col++;
    bc_error_t *e = bc_error_parser(BC_ERROR_CONFIG_PARSER, s, len, off[at], "Broken %d.", 7);
    v_buf w; v_buf_init(&w, 200);
    v_buf_s(&w, "Broken 7.");
    size_t en = st; while (en < n && !nl[en]) en++;
    if (en > st) {
        v_buf_s(&w, "\nError occurred near line "); v_buf_s(&w, num(line)); v_buf_s(&w, ", position "); v_buf_s(&w, num(col)); v_buf_s(&w, ": ");
        for (size_t i = st; i < en; i++) v_buf_c(&w, s[off[i]]);
        v_reach("near");
    } else v_reach("empty line");
    v_log_s(e->msg);
    V_CHECK(e->type == BC_ERROR_CONFIG_PARSER, "error type");
    V_CHECK(v_eqs(e->msg, w.s), "error names the wrong line, position or text");
    bc_error_free(e);
}
