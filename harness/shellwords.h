// Oracle: what a POSIX shell makes of a command line.  Words with their quoting removed; any character the shell
// would act on (expansion, operators, globbing) outside quotes is reported through sw_active.
#pragma once
#include "v.h"
typedef struct { char *w[40]; int n; int assigns; int bad; char active; } sw_t;
static int sw_meta(char c) {
    return c == '|' || c == '&' || c == ';' || c == '<' || c == '>' || c == '(' || c == ')' || c == '$' || c == '`' || c == '*' || c == '?' || c == '[' || c == '\n' || c == '#' || c == '~' || c == '!';
}
static void sw_parse(const char *s, sw_t *r) {
    r->n = 0; r->bad = 0; r->active = 0;
    size_t i = 0, len = v_len(s);
    for (;;) {
        while (s[i] == ' ' || s[i] == '\t') i++;
        if (!s[i]) break;
        char *w = malloc(len + 1); size_t k = 0;
        while (s[i] && s[i] != ' ' && s[i] != '\t') {
            char c = s[i];
            if (c == '\'') {
                i++;
                while (s[i] && s[i] != '\'') w[k++] = s[i++];
                if (!s[i]) { r->bad = 1; w[k] = 0; return; }
                i++;
            } else if (c == '"') {
                i++;
                while (s[i] && s[i] != '"') {
                    if (s[i] == '$' || s[i] == '`') r->active = s[i];
                    if (s[i] == '\\' && (s[i + 1] == '$' || s[i + 1] == '`' || s[i + 1] == '"' || s[i + 1] == '\\')) i++;
                    w[k++] = s[i++];
                }
                if (!s[i]) { r->bad = 1; return; }
                i++;
            } else if (c == '\\') {
                i++;
                if (!s[i]) { r->bad = 1; return; }
                if (s[i] != '\n') w[k++] = s[i];
                i++;
            } else {
                if (sw_meta(c)) r->active = c;
                w[k++] = c; i++;
            }
        }
        w[k] = 0;
        if (r->n < 40) r->w[r->n++] = w; else { r->bad = 1; return; }
    }
}
