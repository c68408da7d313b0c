// Reading a file: on success the whole content (without a BOM) is returned; every failure is reported; always ends; nothing leaks.
#include "env.h"
#include <string.h>
#include "utf8seq.h"
#include "common/file.h"
#include "common/error.h"
void v_main(void) {
    int utf8 = v_choose(2);
    size_t big = v_choose(2) ? 1020 + v_choose(10) : 0; int mark = v_choose(3);        // a byte order mark, or part of one, first
    size_t n = v_choose(v_param(0) + 1);
    char *s = malloc(big + n + 1);
    for (size_t i = 0; i < big; i++) s[i] = i < 3 && (mark == 1 || (mark == 2 && i < 2)) ? "\xef\xbb\xbf"[i] : 'a';
    if (n) v_sym(s + big, n);
    if (!big && mark) { char *t = malloc(n + 4); memcpy(t, "\xef\xbb\xbf", 4 - mark); memcpy(t + 4 - mark, s, n); s = t; n += 4 - mark; }
    s[big + n] = 0;
    size_t len = big + n;
    int kind = v_choose(3);
    if (kind == 0) ve_file("/vfs/f", s, len);
    else if (kind == 1) { if (big || n || mark) v_assume(0); ve_mkdir("/vfs/f"); }
    else { if (big || n || mark) v_assume(0); ve_mkdir("/vfs"); }
    ve_faults = v_param(1); ve_fault_mask = VF_OPEN | VF_READ;
    bc_error_t *err = NULL; size_t got = 12345;
    char *r = bc_file_get_contents("/vfs/f", utf8, &got, &err);
    size_t skip = utf8 && len >= 3 && (unsigned char) s[0] == 0xef && (unsigned char) s[1] == 0xbb && (unsigned char) s[2] == 0xbf ? 3 : 0;
    v_log_i(r != NULL);
    V_CHECK((r != NULL) != (err != NULL), "either a content or an error");
    if (r) {
        v_log(r, got);
        V_CHECK(kind == 0, "a directory or a missing file is not a content");
        if (utf8) V_CHECK(utf8_ok((unsigned char *) r, got), "a text that is not UTF-8 is refused");
        V_CHECK(!ve_faulted, "a read or open failure is reported");
        V_CHECK(got == len - skip, "whole file is returned");
        V_CHECK(v_eqn(r, s + skip, got) && r[got] == 0, "content is the file's");
        if (big) v_reach("long"); else v_reach("short");
        if (skip) v_reach("bom");
        free(r);
    } else {
        v_reach(kind == 0 ? ve_faulted ? "fault" : "invalid" : kind == 1 ? "directory" : "missing");
        V_CHECK(kind != 0 || ve_faulted || (utf8 && !utf8_ok((unsigned char *) s + skip, len - skip)), "a readable file is not refused");
        bc_error_free(err);
    }
    V_CHECK(ve_open_fds() == 0, "file is closed");
}
