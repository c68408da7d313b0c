// Shell quoting: the shell reads the quoted form back as exactly one word equal to the argument.
#include "shellwords.h"
#include "common/utils.h"
void v_main(void) {
    char *s = v_str(0, v_param(0));
    char *q = bc_shell_quote(s);
    v_log_s(q);
    // the word must stay one word between other words
    size_t n = v_len(q);
    char *cmd = malloc(n + 5);
    cmd[0] = 'a'; cmd[1] = ' ';
    for (size_t i = 0; i < n; i++) cmd[2 + i] = q[i];
    cmd[n + 2] = ' '; cmd[n + 3] = 'b'; cmd[n + 4] = 0;
    sw_t w;
    sw_parse(cmd, &w);
    V_CHECK(!w.bad, "quoting is unterminated");
    V_CHECK(!w.active, "a character the shell acts on is left unquoted");
    V_CHECK(w.n == 3, "quoted string is not exactly one word");
    V_CHECK(v_eqs(w.w[1], s), "the shell reads back a different word");
    if (v_len(s) && s[0] == '\'') v_reach("quote"); else v_reach("plain");
    if (v_len(s) > 1 && s[1] == '!') v_reach("bang");
}
