From 8e8962f65475c70a8d977f15837a27f9e101e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:33 +0000
Subject: [PATCH 01/70] fix: bc_str_find: do not read past a trailing backslash

---
 src/common/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..8b45e60 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -315,6 +315,8 @@ bc_str_find(const char *str, char c)
         return (char*) str + strlen(str);
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
+            if (str[i + 1] == '\0')
+                break;
             i++;
             continue;
         }
-- 
2.43.0


From 2759b0a5833621eef23f3f78b5d9c7d82b8fec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 02/70] fix: parser errors: do not quote the rest of the file
 when the line is empty

---
 src/common/error.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/common/error.c b/src/common/error.c
index 3522a5c..5cde0dc 100644
--- a/src/common/error.c
+++ b/src/common/error.c
@@ -46,7 +46,7 @@ bc_error_parser(bc_error_type_t type, const char *src, size_t src_len,
 
     size_t lineno = 1;
     size_t linestart = 0;
-    size_t lineend = 0;
+    size_t lineend = src_len;
     size_t pos = 1;
 
     for (size_t i = 0; i < src_len; i++) {
@@ -79,9 +79,6 @@ bc_error_parser(bc_error_type_t type, const char *src, size_t src_len,
         }
     }
 
-    if (lineend <= linestart && src_len >= linestart)
-        lineend = src_len;
-
     char *line = bc_strndup(src + linestart, lineend - linestart);
 
     bc_error_t *rv = NULL;
-- 
2.43.0


From 23d633245ee0949c5c5b675f3fd42d47cb726e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 03/70] fix: bc_file_get_contents: report read errors instead
 of looping or truncating

---
 src/common/file.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..9bb79ed 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -32,7 +32,7 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
     char buffer[BC_FILE_CHUNK_SIZE];
     char *tmp;
 
-    while (!feof(fp)) {
+    while (!feof(fp) && !ferror(fp)) {
         size_t read_len = fread(buffer, sizeof(char), BC_FILE_CHUNK_SIZE, fp);
 
         tmp = buffer;
@@ -48,6 +48,16 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
         *len += read_len;
         bc_string_append_len(str, tmp, read_len);
     }
+
+    if (ferror(fp)) {
+        int tmp_errno = errno;
+        *err = bc_error_new_printf(BC_ERROR_FILE,
+            "Failed to read file (%s): %s", path, strerror(tmp_errno));
+        fclose(fp);
+        bc_string_free(str, true);
+        return NULL;
+    }
+
     fclose(fp);
 
     if (utf8 && !bc_utf8_validate_str(str)) {
-- 
2.43.0


From 2627de7dd99982280c2ef3f759c987e695ee315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 04/70] fix: config-parser: keep values and list items that end
 the file or start with an escape

---
 src/common/config-parser.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 511d4ea..8d2be73 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -82,6 +82,10 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         if (escaped) {
             bc_string_append_c(value, c);
             escaped = false;
+            if (state == CONFIG_SECTION_VALUE_START)
+                state = CONFIG_SECTION_VALUE;
+            else if (state == CONFIG_SECTION_LIST_START)
+                state = CONFIG_SECTION_LIST;
             current++;
             continue;
         }
@@ -223,7 +227,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_VALUE_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -274,7 +278,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_LIST_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -309,6 +313,23 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         current++;
     }
 
+    // the file ended before the end of an unquoted value or list item
+    if (rv != NULL && value != NULL) {
+        switch (state) {
+            case CONFIG_SECTION_VALUE_START:
+            case CONFIG_SECTION_VALUE:
+                bc_trie_insert(section->data, bc_str_strip(key),
+                    bc_strdup(bc_str_rstrip(value->str)));
+                break;
+            case CONFIG_SECTION_LIST:
+                section->data = bc_slist_append(section->data,
+                    bc_strdup(bc_str_strip(value->str)));
+                break;
+            default:
+                break;
+        }
+    }
+
     free(section_name);
     free(key);
     bc_string_free(value, true);
-- 
2.43.0


From 43bdde41561b12e96d9687cfe95dbc74d02f0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 05/70] fix: filelist-parser: free the line that was read, not
 the stripped pointer into it

---
 src/blogc/filelist-parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc/filelist-parser.c b/src/blogc/filelist-parser.c
index 1ffe0ad..0683a53 100644
--- a/src/blogc/filelist-parser.c
+++ b/src/blogc/filelist-parser.c
@@ -42,8 +42,8 @@ blogc_filelist_parse(const char *src, size_t src_len)
                 if (c == '\r' || c == '\n' || is_last) {
                     if (is_last && c != '\r' && c != '\n')
                         bc_string_append_c(line, c);
-                    rv = bc_slist_append(rv, bc_str_strip(line->str));
-                    bc_string_free(line, false);
+                    rv = bc_slist_append(rv, bc_strdup(bc_str_strip(line->str)));
+                    bc_string_free(line, true);
                     line = bc_string_new();
                     state = LINE_START;
                     break;
-- 
2.43.0


From 47951bb1562ec3b6761c152d0afa56744300f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 06/70] fix: source-parser: keep one-character content, reject
 a file that ends in an incomplete variable

---
 src/blogc/source-parser.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index b6154bc..8e860ab 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -142,7 +142,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                     break;
                 start = current;
                 state = SOURCE_CONTENT;
-                break;
+                continue;
 
             case SOURCE_CONTENT:
                 if (current == (src_len - 1)) {
@@ -215,11 +215,13 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
         current++;
     }
 
-    if (*err == NULL && bc_trie_size(rv) == 0) {
+    if (*err == NULL && (bc_trie_size(rv) == 0 || state == SOURCE_CONFIG_KEY ||
+        state == SOURCE_CONFIG_VALUE_START || state == SOURCE_CONFIG_VALUE))
+    {
 
-        // ok, nothing found in the config trie, but no error set either.
-        // let's try to be nice with the users and provide some reasonable
-        // output. :)
+        // ok, nothing found in the config trie, or the last configuration key
+        // is incomplete, but no error set either. let's try to be nice with
+        // the users and provide some reasonable output. :)
         switch (state) {
             case SOURCE_START:
                 *err = bc_error_parser(BLOGC_ERROR_SOURCE_PARSER, src, src_len,
-- 
2.43.0


From 95a79c227c27d3e99d71309d1ca3d62101dd0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 07/70] fix: content-parser: do not reuse list lines that were
 already released

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..3c143b7 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1100,6 +1100,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
@@ -1211,6 +1212,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
-- 
2.43.0


From 5354fbb389720841ececba8eb4416201cfe2112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 08/70] fix: content-parser: do not mix the positions of
 different line endings

---
 src/blogc/content-parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 3c143b7..7697dc8 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -730,6 +730,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         bool is_last = current == src_len - 1;
 
         if (c == '\n' || c == '\r') {
+            // forget the previous two-character line ending, unless this is
+            // its second character, being evaluated again.
+            if (current != real_end + 1)
+                real_end = 0;
             if ((current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
                     (c == '\r' && src[current + 1] == '\n'))
-- 
2.43.0


From 0b4c45072d386afe83113c1e0d2db4aad3ed2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 09/70] fix: content-parser: do not parse past the end of
 emphasized text with an unterminated link

---
 src/blogc/content-parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 7697dc8..9c24953 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -605,9 +605,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
+            tmp2 = blogc_content_parse_inline_internal(src + start_link,
+                src_len - start_link);
             bc_string_append_c(rv, '[');
-            bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
+            bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
         // add all the other states here explicitly, so the compiler helps us
-- 
2.43.0


From 58c94959c101fc7a20a1ef11d78662a9930c5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 10/70] fix: content-parser: keep a double marker that ends the
 text

---
 src/blogc/content-parser.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 9c24953..fe1be92 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -611,17 +611,30 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
             bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
+        // if the source ends right after a double marker, it opens nothing
+        case CONTENT_INLINE_ASTERISK_DOUBLE:
+            bc_string_append(rv, "**");
+            break;
+
+        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
+            bc_string_append(rv, "__");
+            break;
+
+        case CONTENT_INLINE_BACKTICKS_DOUBLE:
+            bc_string_append(rv, "``");
+            break;
+
+        case CONTENT_INLINE_LINK_AUTO:
+            bc_string_append(rv, "[[");
+            break;
+
         // add all the other states here explicitly, so the compiler helps us
         // not missing any new state that should be handled.
         case CONTENT_INLINE_START:
         case CONTENT_INLINE_ASTERISK:
-        case CONTENT_INLINE_ASTERISK_DOUBLE:
         case CONTENT_INLINE_UNDERSCORE:
-        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
         case CONTENT_INLINE_BACKTICKS:
-        case CONTENT_INLINE_BACKTICKS_DOUBLE:
         case CONTENT_INLINE_LINK_START:
-        case CONTENT_INLINE_LINK_AUTO:
         case CONTENT_INLINE_ENDASH:
         case CONTENT_INLINE_EMDASH:
         case CONTENT_INLINE_LINE_BREAK_START:
-- 
2.43.0


From 55791470452433511e5b98d4c1d33f229e0cef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 11/70] fix: content-parser: keep text that follows a line that
 looks like an excerpt delimiter

---
 src/blogc/content-parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe1be92..11fb0d3 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -838,7 +838,9 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     }
                 }
                 eend = 0;
-                state = CONTENT_PARAGRAPH_END;
+                state = CONTENT_PARAGRAPH;
+                if (is_last)
+                    continue;
                 break;
 
             case CONTENT_HEADER:
-- 
2.43.0


From 5eeebb8c4d4adb51e61c49fda50ccf6b2bacce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 12/70] fix: content-parser: keep a block that starts at the
 last character of the source

---
 src/blogc/content-parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 11fb0d3..b0ceef1 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -691,6 +691,17 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
     // src is always nul-terminated.
     size_t src_len = strlen(src);
 
+    // the last line does not need to be terminated by the user, but we want it
+    // to be, because blocks that are just starting can't be closed otherwise.
+    char *src_copy = NULL;
+    if (src_len > 0 && src[src_len - 1] != '\n' && src[src_len - 1] != '\r') {
+        src_copy = bc_malloc(src_len + 2);
+        memcpy(src_copy, src, src_len);
+        src_copy[src_len++] = '\n';
+        src_copy[src_len] = '\0';
+        src = src_copy;
+    }
+
     size_t current = 0;
     size_t start = 0;
     size_t start2 = 0;
@@ -1320,6 +1331,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
     if (endl == NULL) {
         free(line_ending);
     }
+    free(src_copy);
 
     return bc_string_free(rv, false);
 }
-- 
2.43.0


From 82d6183843bb5f475ad869d101448fb03df6fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 13/70] fix: content-parser: empty headers with two-character
 line endings do not copy what follows

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index b0ceef1..c6fd774 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -870,6 +870,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 if (c == ' ' || c == '\t')
                     break;
                 start = current;
+                if ((c == '\n' || c == '\r') && real_end != 0)
+                    start = real_end;
                 if (c != '\n' && c != '\r') {
                     state = CONTENT_HEADER_TITLE;
                     break;
-- 
2.43.0


From 547c5b8e96f0817ddae20ea4a1afec8daa26f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 14/70] fix: content-parser: evaluate the line ending that
 follows a block marker or indentation

---
 src/blogc/content-parser.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index c6fd774..379f0e9 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -754,12 +754,13 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         char c = src[current];
         bool is_last = current == src_len - 1;
 
+        // forget the previous two-character line ending, unless this is its
+        // second character, being evaluated again.
+        if (current != real_end + 1)
+            real_end = 0;
+
         if (c == '\n' || c == '\r') {
-            // forget the previous two-character line ending, unless this is
-            // its second character, being evaluated again.
-            if (current != real_end + 1)
-                real_end = 0;
-            if ((current + 1) < src_len) {
+            if (real_end == 0 && (current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
                     (c == '\r' && src[current + 1] == '\n'))
                 {
@@ -930,9 +931,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_BLOCKQUOTE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                end = real_end != 0 ? real_end : current;
+                prefix = bc_strndup(src + start, end - start);
                 state = CONTENT_BLOCKQUOTE_START;
-                break;
+                continue;
 
             case CONTENT_BLOCKQUOTE_START:
                 if (c == '\n' || c == '\r' || is_last) {
@@ -993,6 +995,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_CODE:
                 if (c == ' ' || c == '\t')
                     break;
+                if (c == '\n' || c == '\r') {  // just an empty line
+                    state = CONTENT_START_LINE;
+                    break;
+                }
                 prefix = bc_strndup(src + start, current - start);
                 state = CONTENT_CODE_START;
                 break;
@@ -1051,21 +1057,22 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_UNORDERED_LIST_OR_HORIZONTAL_RULE_OR_EMPHASIS:
-                if (current == start+1) {
+                end = real_end != 0 ? real_end : current;
+                if (end == start+1) {
                     if (c == d) { // horizontal rule or '**' emphasis
                         state = CONTENT_HORIZONTAL_RULE_OR_EMPHASIS;
                         break;
                     }
                     else if (c != ' ' && c != '\t' && d == '*') { // is '*' emphasis
                         state = CONTENT_PARAGRAPH;
-                        break;
+                        continue;
                     }
                 }
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                prefix = bc_strndup(src + start, end - start);
                 state = CONTENT_UNORDERED_LIST_START;
-                break;
+                continue;
 
             case CONTENT_HORIZONTAL_RULE_OR_EMPHASIS:
                 // 3rd '-' or '*' required for a horizontal rule
@@ -1077,7 +1084,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 }
                 // is '**' emphasis
                 state = CONTENT_PARAGRAPH;
-                break;
+                continue;
 
             case CONTENT_HORIZONTAL_RULE:
                 if (c == d && !is_last) {
@@ -1193,9 +1200,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 state = CONTENT_PARAGRAPH;
-                if (is_last)
-                    continue;
-                break;
+                continue;
 
             case CONTENT_ORDERED_LIST_SPACE:
                 if (c == ' ' || c == '\t')
-- 
2.43.0


From 3667bd0a5b8033cb9759197501dea08eaf261866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 15/70] fix: template-parser: keep content that ends right
 after an open bracket

---
 src/blogc/template-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..92fc648 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -140,8 +140,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     }
                     break;
                 }
+                // not a statement, evaluate the character as content
                 state = TEMPLATE_START;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From f34c6566e36316ee03779fc9af33e8271566e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 16/70] fix: template-parser: whitespace cleaners only change
 the content next to their statement

---
 src/blogc/template-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 92fc648..a1fa934 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -138,6 +138,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         previous = node;
                         node = NULL;
                     }
+                    // a whitespace cleaner does not reach past the next statement
+                    lstrip_next = false;
                     break;
                 }
                 // not a statement, evaluate the character as content
-- 
2.43.0


From bb52c7398a2e5c6ba0a8b8f511abfc326bf1b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 17/70] fix: template-parser: do not ignore the character after
 a variable operand

---
 src/blogc/template-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index a1fa934..3803e03 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -479,6 +479,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                 end2 = current;
+                if (!bc_isspace(c))
+                    continue;
                 break;
 
             case TEMPLATE_BLOCK_FOREACH_START:
-- 
2.43.0


From 91020592e02a3851170cd19dfee10259c93dfa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 18/70] fix: template-parser: reject templates that end inside
 of a statement

---
 src/blogc/template-parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 3803e03..6631ba4 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -664,6 +664,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         else if (foreach_open)
             *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
                 "An open 'foreach' statement was not closed!");
+        else if (state != TEMPLATE_START && state != TEMPLATE_OPEN_BRACKET)
+            *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
+                "An open statement or variable was not closed!");
     }
 
     if (*err != NULL) {
-- 
2.43.0


From f11009c5dd9a62d765382551050f4a9123cb8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:35 +0000
Subject: [PATCH 19/70] fix: template-parser: detect a second 'else' after
 nested conditionals

---
 src/blogc/template-parser.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 6631ba4..f7a47b2 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,7 +54,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
-    bool else_open = false;
+    char *else_open = NULL;  // for each open 'if', if its 'else' was found
     bool foreach_open = false;
     bool block_foreach_open = false;
 
@@ -230,8 +230,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         state = TEMPLATE_BLOCK_IF_START;
                         type = BLOGC_TEMPLATE_NODE_IFDEF;
                         start = current;
-                        if_count++;
-                        else_open = false;
+                        else_open = bc_realloc(else_open, if_count + 1);
+                        else_open[if_count++] = 0;
                         break;
                     }
                     else if ((current - start == 6) &&
@@ -240,8 +240,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         state = TEMPLATE_BLOCK_IF_START;
                         type = BLOGC_TEMPLATE_NODE_IFNDEF;
                         start = current;
-                        if_count++;
-                        else_open = false;
+                        else_open = bc_realloc(else_open, if_count + 1);
+                        else_open[if_count++] = 0;
                         break;
                     }
                     else if ((current - start == 2) &&
@@ -250,8 +250,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         state = TEMPLATE_BLOCK_IF_START;
                         type = BLOGC_TEMPLATE_NODE_IF;
                         start = current;
-                        if_count++;
-                        else_open = false;
+                        else_open = bc_realloc(else_open, if_count + 1);
+                        else_open[if_count++] = 0;
                         break;
                     }
                     else if ((current - start == 4) &&
@@ -260,10 +260,10 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && if_count > block_if_count) ||
                             (!block_open && if_count > 0))
                         {
-                            if (!else_open) {
+                            if (!else_open[if_count - 1]) {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                                 type = BLOGC_TEMPLATE_NODE_ELSE;
-                                else_open = true;
+                                else_open[if_count - 1] = 1;
                                 break;
                             }
                             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -287,7 +287,6 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
                             if_count--;
-                            else_open = false;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -650,6 +649,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         current++;
     }
 
+    free(else_open);
+
     if (*err == NULL) {
         if (state == TEMPLATE_BLOCK_IF_STRING_OPERAND)
             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
-- 
2.43.0


From e004e41d0321300731753c84e41375fa9929e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:35 +0000
Subject: [PATCH 20/70] fix: template-parser: reject conditionals and iterators
 that are not properly nested

---
 src/blogc/template-parser.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index f7a47b2..6e4d7cc 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,6 +54,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
+    size_t foreach_if_count = 0;
     char *else_open = NULL;  // for each open 'if', if its 'else' was found
     bool foreach_open = false;
     bool block_foreach_open = false;
@@ -257,8 +258,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     else if ((current - start == 4) &&
                         (0 == strncmp("else", src + start, 4)))
                     {
-                        if ((block_open && if_count > block_if_count) ||
-                            (!block_open && if_count > 0))
+                        if (((block_open && if_count > block_if_count) ||
+                             (!block_open && if_count > 0)) &&
+                            (!foreach_open || if_count > foreach_if_count))
                         {
                             if (!else_open[if_count - 1]) {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
@@ -281,8 +283,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     else if ((current - start == 5) &&
                         (0 == strncmp("endif", src + start, 5)))
                     {
-                        if ((block_open && if_count > block_if_count) ||
-                            (!block_open && if_count > 0))
+                        if (((block_open && if_count > block_if_count) ||
+                             (!block_open && if_count > 0)) &&
+                            (!foreach_open || if_count > foreach_if_count))
                         {
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
@@ -303,6 +306,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             type = BLOGC_TEMPLATE_NODE_FOREACH;
                             start = current;
                             foreach_open = true;
+                            foreach_if_count = if_count;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -316,6 +320,13 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && !block_foreach_open && foreach_open) ||
                             (!block_open && foreach_open))
                         {
+                            if (if_count != foreach_if_count) {
+                                *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
+                                    "%d open 'if', 'ifdef' and/or 'ifndef' statements "
+                                    "were not closed inside a 'foreach' iterator!",
+                                    if_count - foreach_if_count);
+                                break;
+                            }
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDFOREACH;
                             foreach_open = false;
-- 
2.43.0


From 269a1bb10f22faafc7d8caaea546317c32513ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 21/70] fix: renderer: listing_once and listing_empty blocks do
 not see variables of an earlier block

---
 src/blogc/renderer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..b691b48 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -306,6 +306,12 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
                         break;
                     }
                 }
+                if ((0 == strcmp("listing_empty", node->data[0])) ||
+                    (0 == strcmp("listing_once", node->data[0])))
+                {
+                    // these blocks do not have access to source variables
+                    tmp_source = NULL;
+                }
                 if (0 == strcmp("listing", node->data[0])) {
                     if (sources == NULL) {
 
-- 
2.43.0


From e047fe201eb68107f82d6e5bee204a04c73a1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 22/70] fix: renderer: do not read before an empty variable
 name

---
 src/blogc/renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index b691b48..bbc4e6f 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -109,7 +109,7 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
     long int len = -1;
 
     // just walk till the last '_'
-    for (i = last - 1; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
+    for (i = last > 0 ? last - 1 : 0; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
 
     if (var[i] == '_' && (i + 1) < last) {  // var ends with '_[0-9]+'
         char *endptr;
-- 
2.43.0


From 91d1829d90571d57ad67a5b4d5ba202c8559a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 23/70] fix: loader: sort dates that are more than 68 years
 apart or before 1970

---
 src/blogc/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..c073d60 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -116,10 +116,10 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return (la < lb) - (la > lb);
 }
 
 
-- 
2.43.0


From 94111104aca0bf157b783157c66a2a36ba7100b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 24/70] fix: loader: evaluate pages without overflow or
 division by zero

---
 src/blogc/loader.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index c073d60..43c0abc 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -1,9 +1,9 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
-#include <math.h>
 #include <stdbool.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -233,8 +233,9 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         per_page = 0;
 
     // poor man's pagination
-    size_t start = (page - 1) * per_page;
-    size_t end = start + per_page;
+    size_t start = SIZE_MAX;
+    if (per_page == 0 || (size_t) (page - 1) <= SIZE_MAX / per_page)
+        start = (size_t) (page - 1) * per_page;
     size_t counter = 0;
 
     bc_slist_t *rv = NULL;
@@ -262,7 +263,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
             }
         }
         if (filter_page != NULL) {
-            if (counter < start || counter >= end) {
+            if (counter < start || counter - start >= per_page) {
                 counter++;
                 bc_trie_free(s);
                 continue;
@@ -297,7 +298,9 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
     }
 
     if (filter_page != NULL) {
-        size_t last_page = ceilf(((float) counter) / per_page);
+        size_t last_page = 0;
+        if (per_page > 0)
+            last_page = counter / per_page + (counter % per_page != 0);
         bc_trie_insert(conf, "CURRENT_PAGE", bc_strdup_printf("%ld", page));
         if (page > 1)
             bc_trie_insert(conf, "PREVIOUS_PAGE", bc_strdup_printf("%ld", page - 1));
@@ -306,7 +309,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         if (bc_slist_length(rv) > 0)
             bc_trie_insert(conf, "FIRST_PAGE", bc_strdup("1"));
         if (last_page > 0)
-            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%d", last_page));
+            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%zu", last_page));
     }
 
     return rv;
-- 
2.43.0


From 8583f52c47cd62f333ef1afc1f68338c2f445cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 25/70] fix: blogc: fail if the value of -D is not valid UTF-8

---
 src/blogc/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..88d3d44 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -200,6 +200,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
-- 
2.43.0


From 61f073e64867730b904db9507e504d8922f8582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 26/70] fix: blogc: reject empty keys in -D

---
 src/blogc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 88d3d44..8aacce5 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -211,7 +211,7 @@ main(int argc, char **argv)
                             rv = 1;
                             goto cleanup;
                         }
-                        for (size_t j = 0; pieces[0][j] != '\0'; j++) {
+                        for (size_t j = 0; j == 0 || pieces[0][j] != '\0'; j++) {
                             char c = pieces[0][j];
                             if (j == 0) {
                                 if (!(c >= 'A' && c <= 'Z')) {
-- 
2.43.0


From cb614898257cbc75f9baa99e31caae5d745e1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 27/70] fix: blogc: fail if the output can't be written

---
 src/blogc/main.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 8aacce5..b0a4657 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -364,11 +364,20 @@ main(int argc, char **argv)
         }
     }
 
-    if (out != NULL)
-        fprintf(fp, "%s", out);
-
-    if (!write_to_stdout)
-        fclose(fp);
+    bool failed = false;
+    if (out != NULL && *out != '\0')
+        failed = EOF == fputs(out, fp);
+
+    if (write_to_stdout)
+        failed = (0 != fflush(fp)) || failed;
+    else
+        failed = (0 != fclose(fp)) || failed;
+
+    if (failed) {
+        fprintf(stderr, "blogc: error: failed to write output file (%s): %s\n",
+            write_to_stdout ? "-" : output, strerror(errno));
+        rv = 1;
+    }
 
 cleanup4:
     free(out);
-- 
2.43.0


From 470275eb0daecf9e2c6aac8ead63181b59427494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 28/70] fix: blogc: fail if the value of a variable can't be
 printed

---
 src/blogc/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index b0a4657..d84c5cd 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -324,8 +324,10 @@ main(int argc, char **argv)
                 print);
             rv = EX_CONFIG;
         }
-        else {
-            printf("%s\n", val);
+        else if (printf("%s\n", val) < 0 || 0 != fflush(stdout)) {
+            fprintf(stderr, "blogc: error: failed to write variable (%s): %s\n",
+                print, strerror(errno));
+            rv = 1;
         }
         free(val);
         goto cleanup2;
-- 
2.43.0


From 3001be60069589ea964ecad77ad35288c8880cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 29/70] fix: blogc-make: quote the tags given to blogc

---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..9479b62 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -240,7 +240,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 8695e5b571c3707bac93e1e3c11bc218610f490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 30/70] fix: blogc-make: send the whole input to the command
 after a short write

---
 src/blogc-make/exec.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 9479b62..8e9e578 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -147,8 +147,10 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     close(fd_out[1]);
     close(fd_err[1]);
 
-    if (input != NULL) {
-        if (-1 == write(fd_in[1], input, strlen(input))) {
+    size_t input_len = input != NULL ? strlen(input) : 0;
+    while (input_len > 0) {
+        ssize_t w = write(fd_in[1], input, input_len);
+        if (w == -1) {
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
                 "Failed to write to stdin pipe: %s", strerror(errno));
             close(fd_in[1]);
@@ -156,6 +158,8 @@ bm_exec_command(const char *cmd, const char *input, char **output,
             close(fd_err[0]);
             return 1;
         }
+        input += w;
+        input_len -= w;
     }
 
     close(fd_in[1]);
-- 
2.43.0


From d1c4a3fd55f28b2e3c3e10535e7d13f43fd11f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 31/70] fix: blogc-make: do not use an unknown command status
 or a missing message

---
 src/blogc-make/exec.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 8e9e578..56733a0 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -206,7 +206,11 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     close(fd_err[0]);
 
     int status;
-    waitpid(pid, &status, 0);
+    if (-1 == waitpid(pid, &status, 0)) {
+        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+            "Failed to wait for command: %s", strerror(errno));
+        return 1;
+    }
 
     return bc_compat_status_code(status);
 }
@@ -416,7 +420,8 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
 
     if (rv != 0) {
         if (rv != EX_CONFIG)
-            fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+            fprintf(stderr, "blogc-make: error: %s\n",
+                err != NULL ? bc_str_strip(err) : "Failed to execute command.");
         bc_string_free(input, true);
         free(cmd);
         free(out);
-- 
2.43.0


From 490107833a6a01b71dc5c9dc2b81549cb18b9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 32/70] fix: blogc-make: blog_prefix is not a format string,
 and may be empty

---
 src/blogc-make/atom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index f9e6294..00e4c4e 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -56,9 +56,9 @@ bm_atom_generate(bm_settings_t *settings)
 
     bc_string_t *atom_url = bc_string_new();
 
-    if (blog_prefix != NULL) {
+    if (blog_prefix != NULL && blog_prefix[0] != '\0') {
         bc_string_append_c(atom_url, '/');
-        bc_string_append_printf(atom_url, blog_prefix);
+        bc_string_append(atom_url, blog_prefix);
     }
 
     if (atom_prefix[0] != '\0')
-- 
2.43.0


From 0ab514313973676652581f2f144f80fee50fd2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 33/70] fix: blogc-make: write the whole temporary atom
 template or fail

---
 src/blogc-make/atom.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 00e4c4e..dded6c2 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -115,18 +115,29 @@ bm_atom_deploy(bm_settings_t *settings, bc_error_t **err)
         return NULL;
     }
 
-    if (-1 == write(fd, content, strlen(content))) {
+    size_t len = strlen(content);
+    for (size_t done = 0; done < len; ) {
+        ssize_t w = write(fd, content + done, len - done);
+        if (w == -1) {
+            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
+                "Failed to write to temporary atom template: %s", strerror(errno));
+            free(content);
+            close(fd);
+            unlink(fname);
+            return NULL;
+        }
+        done += w;
+    }
+
+    free(content);
+
+    if (0 != close(fd)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
             "Failed to write to temporary atom template: %s", strerror(errno));
-        free(content);
-        close(fd);
         unlink(fname);
         return NULL;
     }
 
-    free(content);
-    close(fd);
-
     return bc_strdup(fname);
 }
 
-- 
2.43.0


From 3d09c00771da1b76f4612031f302e24737bf34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 34/70] fix: blogc-make: recover from a broken blogcfile when
 watching for changes

---
 src/blogc-make/ctx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..3f0c85d 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -312,13 +312,15 @@ bm_ctx_reload(bm_ctx_t **ctx)
         // needs to dup path, because it may be freed when reloading.
         char *tmp = bc_strdup((*ctx)->settings_fctx->path);
         bc_error_t *err = NULL;
-        *ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
+        bm_ctx_t *new_ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
         free(tmp);
         if (err != NULL) {
+            // keep the current context, to be able to try again
             bc_error_print(err, "blogc-make");
             bc_error_free(err);
             return false;
         }
+        *ctx = new_ctx;
         return true;
     }
 
-- 
2.43.0


From b2894ff01861c26ebb1076970e172b574c6fc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 35/70] fix: blogc-make: do not truncate a file by copying it
 over itself

---
 src/blogc-make/exec-native.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..50bfd81 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -53,6 +53,16 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         return 1;
     }
 
+    struct stat st_from, st_to;
+    if ((0 == fstat(fd_from, &st_from)) && (0 == stat(dest->path, &st_to)) &&
+        (st_from.st_dev == st_to.st_dev) && (st_from.st_ino == st_to.st_ino))
+    {
+        fprintf(stderr, "blogc-make: error: source and destination are the "
+            "same file (%s)\n", dest->path);
+        close(fd_from);
+        return 1;
+    }
+
     int fd_to = open(dest->path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
     if (fd_to < 0) {
         fprintf(stderr, "blogc-make: error: failed to open destination file to "
-- 
2.43.0


From 4b3ea243bdaace39408c360dceaa0d72f5b0c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 36/70] fix: blogc-make: report read and close errors when
 copying

---
 src/blogc-make/exec-native.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index 50bfd81..64b97b0 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -89,8 +89,21 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         } while (nread > 0);
     }
 
+    if (nread == -1) {
+        fprintf(stderr, "blogc-make: error: failed to read source file (%s): "
+            "%s\n", source->path, strerror(errno));
+        close(fd_from);
+        close(fd_to);
+        return 1;
+    }
+
     close(fd_from);
-    close(fd_to);
+
+    if (0 != close(fd_to)) {
+        fprintf(stderr, "blogc-make: error: failed to write to destination "
+            "file (%s): %s\n", dest->path, strerror(errno));
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 298ca6b59b0c91e2d22d1330f0b619928c3421b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 37/70] fix: blogc-make: accept an empty OUTPUT_DIR, or one
 with trailing slashes

---
 src/blogc-make/ctx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 3f0c85d..9f8357f 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -229,7 +229,13 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     free(abs_filename);
 
     const char *output_dir = getenv("OUTPUT_DIR");
-    rv->short_output_dir = bc_strdup(output_dir != NULL ? output_dir : "_build");
+    rv->short_output_dir = bc_strdup(output_dir != NULL && output_dir[0] != '\0' ?
+        output_dir : "_build");
+
+    // trailing slashes would prevent us from recognizing the directory
+    for (size_t len = strlen(rv->short_output_dir); len > 1 &&
+            rv->short_output_dir[len - 1] == '/'; len--)
+        rv->short_output_dir[len - 1] = '\0';
 
     if (rv->short_output_dir[0] == '/') {
         rv->output_dir = bc_strdup(rv->short_output_dir);
-- 
2.43.0


From 4025ba55b7eb6ea42663a9482b4ebe3e0abd6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 38/70] fix: blogc-make: fail if any of the rules was not found

---
 src/blogc-make/rules.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..619087b 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -930,6 +930,7 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
 
     const bm_rule_t *rule = NULL;
     int rv = 0;
+    bool not_found = false;
 
     for (bc_slist_t *l = rule_list; l != NULL; l = l->next) {
 
@@ -963,11 +964,11 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
         if (rule == NULL) {
             fprintf(stderr, "blogc-make: error: rule not found: %.*s\n",
                 (int) (sep - rule_str), rule_str);
-            rv = 1;
+            not_found = true;
         }
     }
 
-    return rv;
+    return not_found ? 1 : rv;
 }
 
 
-- 
2.43.0


From b1f61fbc2d31897b8239621cd9d7374c8225b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:30 +0000
Subject: [PATCH 39/70] fix: blogc-make: do not use a file status out of its
 scope

---
 src/blogc-make/ctx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 9f8357f..43c9160 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -37,9 +37,8 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
     rv->short_path = bc_strdup(filename);
     rv->slug = bc_strdup(slug);
 
+    struct stat buf;
     if (st == NULL) {
-        struct stat buf;
-
         if (0 != stat(f, &buf)) {
             rv->tv_sec = 0;
             rv->tv_nsec = 0;
-- 
2.43.0


From 1d8810cc132b91f3db35618081b9babd6be2b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:12 +0000
Subject: [PATCH 40/70] fix: blogc-make: fail if the pages to build can't be
 listed

---
 src/blogc-make/ctx.c   | 1 +
 src/blogc-make/ctx.h   | 1 +
 src/blogc-make/exec.c  | 5 ++++-
 src/blogc-make/rules.c | 6 ++++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 43c9160..959a6cb 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -216,6 +216,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
             "BLOGC_RUNSERVER");
         rv->dev = false;
         rv->verbose = false;
+        rv->query_failed = false;
     }
     else {
         bm_ctx_free_internal(base);
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 774601f..68e6d67 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -44,6 +44,7 @@ typedef struct {
     bool dev;
     bool verbose;
     bool atom_template_tmp;
+    bool query_failed;
 
     bm_settings_t *settings;
 
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 56733a0..2c22f5b 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -411,6 +411,7 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     if (error != NULL) {
         bc_error_print(error, "blogc-make");
         bc_error_free(error);
+        ctx->query_failed = true;
         bc_string_free(input, true);
         free(cmd);
         free(out);
@@ -419,9 +420,11 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     }
 
     if (rv != 0) {
-        if (rv != EX_CONFIG)
+        if (rv != EX_CONFIG) {
             fprintf(stderr, "blogc-make: error: %s\n",
                 err != NULL ? bc_str_strip(err) : "Failed to execute command.");
+            ctx->query_failed = true;
+        }
         bc_string_free(input, true);
         free(cmd);
         free(out);
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 619087b..414a353 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -980,7 +980,13 @@ bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args)
 
     bc_slist_t *outputs = NULL;
     if (rule->outputlist_func != NULL) {
+        ctx->query_failed = false;
         outputs = rule->outputlist_func(ctx);
+        if (ctx->query_failed) {
+            // we don't know what should be built
+            bc_slist_free_full(outputs, (bc_free_func_t) bm_filectx_free);
+            return 1;
+        }
     }
 
     int rv = rule->exec_func(ctx, outputs, args);
-- 
2.43.0


From 0d5e4e4d552fe3de1081b61e9ce6b3bac6a1d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 41/70] fix: blogc-make: no index in the feed address without
 an extension

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index dded6c2..9e00cfd 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -67,7 +67,7 @@ bm_atom_generate(bm_settings_t *settings)
     bc_string_append(atom_url, atom_prefix);
     bc_string_append(atom_url, "{% ifdef FILTER_TAG %}/{{ FILTER_TAG }}");
 
-    if (atom_prefix[0] == '\0' && atom_ext[0] != '/')
+    if (atom_prefix[0] == '\0' && atom_ext[0] != '\0' && atom_ext[0] != '/')
         bc_string_append(atom_url, "{% else %}/index");
 
     bc_string_append(atom_url, "{% endif %}");
-- 
2.43.0


From 7c6d63b9e2f896d3478d30a39d32d15b24eac4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 42/70] fix: blogc-runserver: do not serve siblings of the
 document root

---
 src/blogc-runserver/httpd.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..62c231a 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -35,6 +35,17 @@ typedef struct {
 } request_data_t;
 
 
+static bool
+is_inside(const char *root, const char *path)
+{
+    size_t len = strlen(root);
+    if (0 != strncmp(root, path, len))
+        return false;
+    // directories that just share the prefix aren't inside
+    return root[len - 1] == '/' || path[len] == '/' || path[len] == '\0';
+}
+
+
 static void
 error(int socket, int status_code, const char *error)
 {
@@ -115,7 +126,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
-- 
2.43.0


From 0fd81ece2c3ca19b09820ec1b5c59931c24dc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 43/70] fix: blogc-runserver: do not serve an index that links
 outside of the document root

---
 src/blogc-runserver/httpd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 62c231a..5780870 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -154,8 +154,15 @@ handle_request(void *arg)
         if (path_len > 0 && path[path_len - 1] != '/')
             add_slash = true;
 
+        // the index may be a link
         free(real_path);
-        real_path = found;
+        real_path = realpath(found, NULL);
+        free(found);
+        if (real_path == NULL || !is_inside(real_root, real_path)) {
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From b46409ea884871637959da3303e3e5bf154bb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 44/70] fix: blogc-runserver: paths below a file are not found

---
 src/blogc-runserver/httpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 5780870..d7e80bd 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -108,7 +108,7 @@ handle_request(void *arg)
     free(abs_path);
 
     if (real_path == NULL) {
-        if (errno == ENOENT) {
+        if (errno == ENOENT || errno == ENOTDIR) {
             status_code = 404;
             error(client_socket, 404, "Not Found");
         }
-- 
2.43.0


From d0add358ab924e9bf478b7951da7f01a93249929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 45/70] fix: blogc-runserver: refuse encoded null characters

---
 src/blogc-runserver/httpd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index d7e80bd..355f96f 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -94,7 +94,9 @@ handle_request(void *arg)
     }
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    char *path = br_urldecode(pieces2[0]);
+    // a null character would hide the rest of the path
+    char *path = strstr(pieces2[0], "%00") == NULL ?
+        br_urldecode(pieces2[0]) : NULL;
     bc_strv_free(pieces2);
 
     if (path == NULL) {
-- 
2.43.0


From 8aae7f548a113f2342ae6f499cea603a810460dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 46/70] fix: blogc-runserver: keep the path of redirects
 encoded and local

---
 src/blogc-runserver/httpd.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 355f96f..cc6e62a 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -97,6 +97,7 @@ handle_request(void *arg)
     // a null character would hide the rest of the path
     char *path = strstr(pieces2[0], "%00") == NULL ?
         br_urldecode(pieces2[0]) : NULL;
+    char *raw_path = bc_strdup(pieces2[0]);
     bc_strv_free(pieces2);
 
     if (path == NULL) {
@@ -176,12 +177,16 @@ handle_request(void *arg)
     if (add_slash) {
         // production webservers usually returns 301 in such cases, but 302 is
         // better for development/testing.
+        // the path must stay encoded, and must not look like a host name.
+        const char *location = raw_path;
+        while (location[0] == '/' && location[1] == '/')
+            location++;
         char *tmp = bc_strdup_printf(
             "HTTP/1.0 302 Found\r\n"
             "Location: %s/\r\n"
             "Content-Length: 0\r\n"
             "Connection: close\r\n"
-            "\r\n", path);
+            "\r\n", location);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
         if (tmp_len != write(client_socket, tmp, tmp_len)) {
@@ -223,6 +228,7 @@ point4:
 point3:
     free(real_path);
 point2:
+    free(raw_path);
     free(path);
 point1:
     fprintf(stderr, "[Thread-%zu] %s - - \"%s\" %d\n", thread_id + 1,
-- 
2.43.0


From 69a5e390c59e9ffc3dd02d556be057d28acce677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 47/70] fix: blogc-runserver: send the whole response after a
 short write

---
 src/blogc-runserver/httpd.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index cc6e62a..7f76491 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -46,6 +46,20 @@ is_inside(const char *root, const char *path)
 }
 
 
+static bool
+write_all(int socket, const char *str, size_t len)
+{
+    while (len > 0) {
+        ssize_t w = write(socket, str, len);
+        if (w <= 0)
+            return false;
+        str += w;
+        len -= w;
+    }
+    return true;
+}
+
+
 static void
 error(int socket, int status_code, const char *error)
 {
@@ -57,7 +71,7 @@ error(int socket, int status_code, const char *error)
         "\r\n"
         "<h1>%s</h1>\n", status_code, error, strlen(error) + 10, error);
     size_t str_len = strlen(str);
-    if (str_len != write(socket, str, str_len)) {
+    if (!write_all(socket, str, str_len)) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(str);
@@ -189,7 +203,7 @@ handle_request(void *arg)
             "\r\n", location);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
-        if (tmp_len != write(client_socket, tmp, tmp_len)) {
+        if (!write_all(client_socket, tmp, tmp_len)) {
             fprintf(stderr, "warning: Failed to write full response header!\n");
         }
         free(tmp);
@@ -213,12 +227,12 @@ handle_request(void *arg)
         "Connection: close\r\n"
         "\r\n", br_mime_guess_content_type(real_path), len);
     size_t out_len = strlen(out);
-    if (out_len != write(client_socket, out, out_len)) {
+    if (!write_all(client_socket, out, out_len)) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(out);
 
-    if (len != write(client_socket, contents, len)) {
+    if (!write_all(client_socket, contents, len)) {
         fprintf(stderr, "warning: Failed to write full response body!\n");
     }
     free(contents);
-- 
2.43.0


From 28056cfb8fe33e2857c56f26a01d081ccb0c5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 48/70] fix: blogc-runserver: -m without a value

---
 src/blogc-runserver/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-runserver/main.c b/src/blogc-runserver/main.c
index 8abd83a..44acd55 100644
--- a/src/blogc-runserver/main.c
+++ b/src/blogc-runserver/main.c
@@ -93,7 +93,7 @@ main(int argc, char **argv)
                     if (argv[i][2] != '\0')
                         ptr = argv[i] + 2;
                     else
-                        ptr = argv[++i];
+                        ptr = i + 1 < argc ? argv[++i] : "";
                     max_threads = strtoul(ptr, &endptr, 10);
                     if (*ptr != '\0' && *endptr != '\0')
                         fprintf(stderr, "blogc-runserver: warning: invalid value "
-- 
2.43.0


From d60975658b8878117892850dc175226f4c25ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 49/70] fix: blogc-runserver: do not wait for more after a
 request that fills the buffer

---
 src/blogc-runserver/httpd-utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index aa0be27..53fe84b 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -31,6 +31,12 @@ br_readline(int socket)
         if (len < READLINE_BUFFER_SIZE) {
             break;
         }
+        // the request may end exactly at the end of the buffer
+        if (buffer[len - 1] == '\n' && (buffer[len - 2] == '\n' ||
+            (buffer[len - 2] == '\r' && buffer[len - 3] == '\n')))
+        {
+            break;
+        }
     }
 
     return bc_string_free(rv, false);
-- 
2.43.0


From 3d0f8514e51e93771d23f001023704ba4aecbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 50/70] fix: blogc-runserver: do not crash on requests without
 a path

---
 src/blogc-runserver/httpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 7f76491..ae3c7b2 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -95,7 +95,7 @@ handle_request(void *arg)
     unsigned short status_code = 200;
 
     char **pieces = bc_str_split(conn_line, ' ', 3);
-    if (bc_strv_length(pieces) != 3) {
+    if (bc_strv_length(pieces) != 3 || pieces[1][0] == '\0') {
         status_code = 400;
         error(client_socket, 400, "Bad Request");
         goto point1;
-- 
2.43.0


From ebc6a1cf500d4bf11af63cb6f9efc354b9855a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 51/70] fix: blogc-git-receiver: refuse commands with
 unterminated quotes

---
 src/blogc-git-receiver/shell-command-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..7e8a810 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -87,7 +87,8 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    // all the quotes must be closed
+    if (state == START_REPO && rv->len > 0)
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From 82026930c255c07f51476faaab304faf653409dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 52/70] fix: blogc-git-receiver: refuse repositories outside of
 the base directory

---
 src/blogc-git-receiver/shell.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/blogc-git-receiver/shell.c b/src/blogc-git-receiver/shell.c
index 0872a56..6fdb803 100644
--- a/src/blogc-git-receiver/shell.c
+++ b/src/blogc-git-receiver/shell.c
@@ -25,6 +25,19 @@ lexists(const char *pathname)
 }
 
 
+static bool
+has_parent_directory(const char *path)
+{
+    char **pieces = bc_str_split(path, '/', 0);
+    bool rv = false;
+    for (size_t i = 0; pieces[i] != NULL; i++)
+        if (0 == strcmp(pieces[i], ".."))
+            rv = true;
+    bc_strv_free(pieces);
+    return rv;
+}
+
+
 int
 bgr_shell(int argc, char *argv[])
 {
@@ -57,6 +70,14 @@ bgr_shell(int argc, char *argv[])
         goto cleanup;
     }
 
+    // repositories must be inside of the base directory
+    if (has_parent_directory(tmp_repo)) {
+        fprintf(stderr, "error: invalid git repository: %s\n", tmp_repo);
+        free(tmp_repo);
+        rv = 1;
+        goto cleanup;
+    }
+
     repo = bc_strdup_printf("%s/repos/%s", bd, tmp_repo);
     quoted_repo = bc_shell_quote(repo);
     free(tmp_repo);
-- 
2.43.0


From 3381a7e95081f07a8f0f24e3ec16523ec5b497a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 53/70] fix: blogc-git-receiver: do not follow links when
 removing directories

---
 src/blogc-git-receiver/pre-receive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..de98aed 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -54,7 +54,7 @@ rmdir_recursive(const char *dir)
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
+        if (0 != lstat(f, &buf)) {
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
             free(f);
-- 
2.43.0


From 997976db0eb898ca5753ac9c4472cdadd4b2ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 54/70] fix: blogc-git-receiver: never build over a previous
 build

---
 src/blogc-git-receiver/pre-receive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index de98aed..cad6c45 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -222,7 +222,7 @@ default_sym:
     output_dir = bc_strdup_printf("%s/%s-%lu", buildsd, ref, epoch);
     free(buildsd);
 
-    if (0 == access(output_dir, F_OK)) {
+    while (0 == access(output_dir, F_OK)) {
         char *tmp = output_dir;
         output_dir = bc_strdup_printf("%s-", tmp);
         free(tmp);
-- 
2.43.0


From c1c5cf2326696bb4d762df2652bebc09abecb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 55/70] fix: blogc-git-receiver: replace the symlink atomically

---
 src/blogc-git-receiver/pre-receive.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index cad6c45..5ce61aa 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -281,21 +281,20 @@ default_sym:
     free(build_cmd);
 
     char *htdocs_sym = realpath(sym, NULL);
-    if ((htdocs_sym != NULL) && (0 != unlink(sym))) {
-        fprintf(stderr, "error: failed to remove symlink (%s): %s\n", sym,
-            strerror(errno));
-        rmdir_recursive(output_dir);
-        rv = 1;
-        goto cleanup2;
-    }
 
-    if (0 != symlink(output_dir, sym)) {
+    // the symlink is replaced at once, there is always a build available
+    char *tmp_sym = bc_strdup_printf("%s.tmp", sym);
+    unlink(tmp_sym);
+    if ((0 != symlink(output_dir, tmp_sym)) || (0 != rename(tmp_sym, sym))) {
         fprintf(stderr, "error: failed to create symlink (%s): %s\n", sym,
             strerror(errno));
+        unlink(tmp_sym);
+        free(tmp_sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
+    free(tmp_sym);
 
     if (htdocs_sym != NULL)
         rmdir_recursive(htdocs_sym);
-- 
2.43.0


From 1bc669f219981c23380c46843e69648935e5262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 56/70] fix: blogc-git-receiver: quote paths in shell commands

---
 src/blogc-git-receiver/pre-receive.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 5ce61aa..df15af3 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -193,8 +193,10 @@ default_sym:
     }
     tmpdir = dir;
 
+    char *quoted_ref = bc_shell_quote(ref);
     char *git_archive_cmd = bc_strdup_printf(
-        "git archive \"%s\" | tar -x -C \"%s\" -f -", ref, tmpdir);
+        "git archive %s | tar -x -C \"%s\" -f -", quoted_ref, tmpdir);
+    free(quoted_ref);
     if (0 != system(git_archive_cmd)) {
         fprintf(stderr, "error: failed to extract git content to temporary "
             "directory: %s\n", tmpdir);
@@ -231,15 +233,17 @@ default_sym:
     // detect if we will run blogc-make, make or nothing, and generate the
     // command.
     char *build_cmd = NULL;
+    char *quoted_output_dir = bc_shell_quote(output_dir);
     if (0 == access("blogcfile", F_OK)) {
         int status_bmake = system("blogc-make -v 2> /dev/null > /dev/null");
         if (127 == bc_compat_status_code(status_bmake)) {
             fprintf(stderr, "error: failed to find blogc-make binary\n");
+            free(quoted_output_dir);
             rv = 1;
             goto cleanup;
         }
-        build_cmd = bc_strdup_printf("OUTPUT_DIR=\"%s\" blogc-make -V all",
-            output_dir);
+        build_cmd = bc_strdup_printf("OUTPUT_DIR=%s blogc-make -V all",
+            quoted_output_dir);
     }
     else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUMakefile", F_OK))) {
         const char *make_impl = NULL;
@@ -257,17 +261,20 @@ default_sym:
 
         if (make_impl == NULL) {
             fprintf(stderr, "error: no 'make' implementation found\n");
+            free(quoted_output_dir);
             rv = 1;
             goto cleanup;
         }
         build_cmd = bc_strdup_printf(
-            "%s -j%d OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
-            cpu_count(), output_dir);
+            "%s -j%d OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
+            cpu_count(), quoted_output_dir);
     }
     else {
         fprintf(stderr, "warning: no blogcfile or Makefile found. skipping ...\n");
+        free(quoted_output_dir);
         goto cleanup;
     }
+    free(quoted_output_dir);
 
     fprintf(stdout, "running command: %s\n\n", build_cmd);
     fflush(stdout);
-- 
2.43.0


From e7c988a6088d365a08cc7a9dd3c1830919d8b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 57/70] fix: blogc-git-receiver: quote the mirror address

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..99b4509 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -71,7 +71,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *quoted_mirror = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror %s", quoted_mirror);
+        free(quoted_mirror);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From 613fa75241f28b5a636a04c04cf66cc29349b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:42 +0000
Subject: [PATCH 58/70] fix: content-parser: malformed blockquotes and code
 blocks end like any paragraph

---
 src/blogc/content-parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 379f0e9..5a11b7a 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -946,7 +946,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         state = CONTENT_BLOCKQUOTE_END;
                     }
                     else {
-                        state = CONTENT_PARAGRAPH;
+                        state = CONTENT_PARAGRAPH_END;
                         free(prefix);
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
@@ -1013,7 +1013,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         state = CONTENT_CODE_END;
                     }
                     else {
-                        state = CONTENT_PARAGRAPH;
+                        state = CONTENT_PARAGRAPH_END;
                         free(prefix);
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
-- 
2.43.0


From 94e0618f4cb3cf277da27d35cc98d5227c8b5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 59/70] fix: content-parser: do not lose '#' characters at the
 end of the content

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 5a11b7a..23a5153 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -865,6 +865,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 state = CONTENT_PARAGRAPH;
+                if (is_last)
+                    continue;
                 break;
 
             case CONTENT_HEADER_TITLE_START:
-- 
2.43.0


From 90c1fdcffe6a5e8e7d0c35249afc0e6cffcaf549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 60/70] fix: report read errors on standard input

a failing read on standard input was handled as end of file: 'blogc -i'
rendered a truncated list of source files and succeeded, and the
pre-receive hook deployed nothing and accepted the push.
---
 src/blogc-git-receiver/pre-receive.c | 6 ++++++
 src/blogc/main.c                     | 6 ++++++
 src/common/stdin.c                   | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index df15af3..f461f64 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -167,6 +167,12 @@ default_sym:
     else {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (input == NULL) {
+            fprintf(stderr, "error: failed to read references from standard "
+                "input\n");
+            rv = 1;
+            goto cleanup;
+        }
         bc_trie_t *branches = bgr_pre_receive_parse(input, input_len);
 
         // try 'master' by default to avoid breaking existing setups
diff --git a/src/blogc/main.c b/src/blogc/main.c
index d84c5cd..37c685c 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -268,6 +268,12 @@ main(int argc, char **argv)
     if (input_stdin) {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (input == NULL) {
+            fprintf(stderr, "blogc: error: failed to read source file list from "
+                "standard input\n");
+            rv = 1;
+            goto cleanup;
+        }
         bc_slist_t *input_list = blogc_filelist_parse(input, input_len);
         free(input);
         sources = bc_slist_append_list(sources, input_list);
diff --git a/src/common/stdin.c b/src/common/stdin.c
index 3bd9abc..04ccae3 100644
--- a/src/common/stdin.c
+++ b/src/common/stdin.c
@@ -18,6 +18,10 @@ bc_stdin_read(size_t *len)
     bc_string_t *rv = bc_string_new();
     while (EOF != (c = fgetc(stdin)))
         bc_string_append_c(rv, c);
+    if (ferror(stdin)) {
+        bc_string_free(rv, true);
+        return NULL;
+    }
     *len = rv->len;
     return bc_string_free(rv, false);
 }
-- 
2.43.0


From 515a53afc02a1f2259e0f7ffd9fab5baf084fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:48 +0000
Subject: [PATCH 61/70] fix: remember that blogc runs inside docker

The result was stored in a local variable that hid the cached one, so only
the first evaluation in a process could see it.
---
 src/blogc/sysinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/sysinfo.c b/src/blogc/sysinfo.c
index 3eee530..b7e2de3 100644
--- a/src/blogc/sysinfo.c
+++ b/src/blogc/sysinfo.c
@@ -134,7 +134,7 @@ blogc_sysinfo_get_inside_docker(void)
         return inside_docker;
     }
 
-    bool inside_docker = NULL != strstr(contents, "/docker/");
+    inside_docker = NULL != strstr(contents, "/docker/");
     free(contents);
     return inside_docker;
 }
-- 
2.43.0


From 9d949195e7b2819c7af955fc5679e400efe70f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:48 +0000
Subject: [PATCH 62/70] fix: a paragraph with a single '.' is not an excerpt
 separator

The documentation asks for two or more. The text was lost.
---
 src/blogc/content-parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 23a5153..e529900 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -832,13 +832,15 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 if (end_excerpt != NULL) {
                     if (c == '.')
                         break;
-                    if (c == '\n' || c == '\r') {
+                    if ((c == '\n' || c == '\r') && src[start + 1] == '.') {
                         state = CONTENT_EXCERPT_END;
                         break;
                     }
                 }
                 eend = 0;
                 state = CONTENT_PARAGRAPH;
+                if (c == '\n' || c == '\r')
+                    continue;
                 break;
 
             case CONTENT_EXCERPT_END:
-- 
2.43.0


From 0f2c42c2c8a50866070a46fe9c60769c1bd1dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:59 +0000
Subject: [PATCH 63/70] fix: refuse settings files that end inside quotes or a
 section name

The value was silently dropped, as if it had not been written.
---
 src/common/config-parser.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 8d2be73..d9de8e7 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -313,6 +313,28 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         current++;
     }
 
+    // the file ended inside a section name, or a quoted value or list item
+    if (rv != NULL) {
+        switch (state) {
+            case CONFIG_SECTION_START:
+            case CONFIG_SECTION:
+                *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                    src_len - 1, "Section name was not closed.");
+                break;
+            case CONFIG_SECTION_VALUE_QUOTE:
+            case CONFIG_SECTION_LIST_QUOTE:
+                *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                    src_len - 1, "Quoted value was not closed.");
+                break;
+            default:
+                break;
+        }
+        if (*err != NULL) {
+            bc_config_free(rv);
+            rv = NULL;
+        }
+    }
+
     // the file ended before the end of an unquoted value or list item
     if (rv != NULL && value != NULL) {
         switch (state) {
-- 
2.43.0


From 27220c80e2c229667553c0aebe9c5ff990a3cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:59 +0000
Subject: [PATCH 64/70] fix: section names of settings files can not start with
 a new line either

---
 src/common/config-parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index d9de8e7..1eb6056 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -134,6 +134,10 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_START:
                 start = current;
                 state = CONFIG_SECTION;
+                if (c != '\r' && c != '\n')
+                    break;
+                *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                    current, "Section names can't have new lines.");
                 break;
 
             case CONFIG_SECTION:
-- 
2.43.0


From 31150a561e378914920bce943e50282519a39bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:13 +0000
Subject: [PATCH 65/70] fix: do not hang or be killed when a command uses its
 pipes in another order

the whole input was written before anything was read, and the whole output
was read before the messages, so a command that wrote more than the pipes
hold was waited for while it waited for blogc-make; and a command that did
not read its input killed blogc-make with SIGPIPE.
---
 src/blogc-make/exec.c | 130 +++++++++++++++++++++++++++---------------
 1 file changed, 83 insertions(+), 47 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 2c22f5b..8095012 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -11,12 +11,15 @@
 #define EX_CONFIG 78
 #endif /* HAVE_SYSEXITS_H */
 
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
 #include <unistd.h>
 #include <sys/wait.h>
+#include <poll.h>
+#include <signal.h>
 #include <errno.h>
 #include <libgen.h>
 #include "../common/compat.h"
@@ -147,63 +150,96 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     close(fd_out[1]);
     close(fd_err[1]);
 
+    // a command that exits before reading its whole input must not kill us
+    struct sigaction ignore_action;
+    struct sigaction old_action;
+    ignore_action.sa_handler = SIG_IGN;
+    sigemptyset(&ignore_action.sa_mask);
+    ignore_action.sa_flags = 0;
+    sigaction(SIGPIPE, &ignore_action, &old_action);
+
+    // the command may use its pipes in any order, and it would block if we
+    // wait for one of them while it waits for us to handle another
+    struct pollfd fds[3] = {
+        {.fd = fd_out[0], .events = POLLIN},
+        {.fd = fd_err[0], .events = POLLIN},
+        {.fd = fd_in[1], .events = POLLOUT},
+    };
+    bc_string_t *str[2] = {NULL, NULL};
     size_t input_len = input != NULL ? strlen(input) : 0;
-    while (input_len > 0) {
-        ssize_t w = write(fd_in[1], input, input_len);
-        if (w == -1) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to write to stdin pipe: %s", strerror(errno));
-            close(fd_in[1]);
-            close(fd_out[0]);
-            close(fd_err[0]);
-            return 1;
-        }
-        input += w;
-        input_len -= w;
-    }
-
-    close(fd_in[1]);
-
     char buffer[BC_FILE_CHUNK_SIZE];
-    ssize_t s;
 
-    bc_string_t *out = NULL;
-    while(0 != (s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+    if (input_len == 0) {
+        close(fds[2].fd);
+        fds[2].fd = -1;
+    }
+
+    while (*err == NULL && (fds[0].fd != -1 || fds[1].fd != -1 || fds[2].fd != -1)) {
+        if (-1 == poll(fds, 3, -1)) {
+            if (errno == EINTR)
+                continue;
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stdout pipe: %s", strerror(errno));
-            close(fd_out[0]);
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+                "Failed to wait for pipes: %s", strerror(errno));
+            break;
+        }
+
+        for (size_t i = 0; i < 2; i++) {
+            if (fds[i].fd == -1 || fds[i].revents == 0)
+                continue;
+            ssize_t s = read(fds[i].fd, buffer, BC_FILE_CHUNK_SIZE);
+            if (s == -1) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to read from %s pipe: %s",
+                    i == 0 ? "stdout" : "stderr", strerror(errno));
+                break;
+            }
+            if (s == 0) {
+                close(fds[i].fd);
+                fds[i].fd = -1;
+                continue;
+            }
+            if (str[i] == NULL)
+                str[i] = bc_string_new();
+            bc_string_append_len(str[i], buffer, s);
         }
-        if (out == NULL) {
-            out = bc_string_new();
+
+        if (*err == NULL && fds[2].fd != -1 && fds[2].revents != 0) {
+            // larger writes may block
+            ssize_t w = write(fds[2].fd, input,
+                input_len < PIPE_BUF ? input_len : PIPE_BUF);
+            if (w == -1 && errno != EPIPE) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to write to stdin pipe: %s", strerror(errno));
+                break;
+            }
+            if (w != -1) {
+                input += w;
+                input_len -= w;
+            }
+            if (w == -1 || input_len == 0) {
+                close(fds[2].fd);
+                fds[2].fd = -1;
+            }
         }
-        bc_string_append_len(out, buffer, s);
-    }
-    if (out != NULL) {
-        *output = bc_string_free(out, false);
     }
-    close(fd_out[0]);
 
-    out = NULL;
-    while(0 != (s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stderr pipe: %s", strerror(errno));
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
-        }
-        if (out == NULL)
-            out = bc_string_new();
-        bc_string_append_len(out, buffer, s);
+    sigaction(SIGPIPE, &old_action, NULL);
+
+    for (size_t i = 0; i < 3; i++) {
+        if (fds[i].fd != -1)
+            close(fds[i].fd);
     }
-    if (out != NULL) {
-        *error = bc_string_free(out, false);
+
+    if (*err != NULL) {
+        bc_string_free(str[0], true);
+        bc_string_free(str[1], true);
+        return 1;
     }
-    close(fd_err[0]);
+
+    if (str[0] != NULL)
+        *output = bc_string_free(str[0], false);
+    if (str[1] != NULL)
+        *error = bc_string_free(str[1], false);
 
     int status;
     if (-1 == waitpid(pid, &status, 0)) {
-- 
2.43.0


From ef37c80f3b323a448b6f607b1e53cd7ee0853ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:47 +0000
Subject: [PATCH 66/70] fix: report a failure to print the feed template

---
 src/blogc-make/rules.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 414a353..0d2158b 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <time.h>
 #include "../common/utils.h"
 #include "atom.h"
@@ -774,9 +775,14 @@ atom_dump_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
     char *content = bm_atom_generate(ctx->settings);
     if (content == NULL)
         return 1;
-    printf("%s", content);
+    int rv = 0;
+    if (printf("%s", content) < 0 || 0 != fflush(stdout)) {
+        fprintf(stderr, "blogc-make: error: failed to write template: %s\n",
+            strerror(errno));
+        rv = 1;
+    }
     free(content);
-    return 0;
+    return rv;
 }
 
 
-- 
2.43.0


From 56ea867efa857a58a1925fb5a4dd37afaa811e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:26 +0000
Subject: [PATCH 67/70] fix: end at once when the server ends while it is
 started

---
 src/blogc-make/httpd.c    |  7 +++++--
 src/blogc-make/reloader.c | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index 1491095..105074b 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -23,6 +23,7 @@ typedef struct {
 
 static pthread_mutex_t mutex_httpd_starting = PTHREAD_MUTEX_INITIALIZER;
 static bool httpd_starting = false;
+static bool httpd_started = false;  // kept after the server is gone
 
 
 static void*
@@ -32,6 +33,7 @@ httpd_thread(void *arg)
 
     pthread_mutex_lock(&mutex_httpd_starting);
     httpd_starting = true;
+    httpd_started = true;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
     int rv = bm_exec_blogc_runserver(httpd->ctx, bc_trie_lookup(httpd->args, "host"),
@@ -56,6 +58,7 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
 {
     pthread_mutex_lock(&mutex_httpd_starting);
     bool starting = httpd_starting;
+    httpd_started = false;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
     if (starting) {
@@ -97,10 +100,10 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
     size_t count = 0;
     while (true) {
         pthread_mutex_lock(&mutex_httpd_starting);
-        starting = httpd_starting;
+        bool started = httpd_started;
         pthread_mutex_unlock(&mutex_httpd_starting);
 
-        if (starting)
+        if (started)
             break;
 
         if (++count > 100) {
diff --git a/src/blogc-make/reloader.c b/src/blogc-make/reloader.c
index e025998..cba3238 100644
--- a/src/blogc-make/reloader.c
+++ b/src/blogc-make/reloader.c
@@ -18,7 +18,7 @@
 // directly is not a big issue
 
 static pthread_mutex_t mutex_running = PTHREAD_MUTEX_INITIALIZER;
-static bool running = false;
+static bool running = true;  // it may be stopped before it runs
 static int reloader_status_code = 0;
 static void (*handler_func)(int) = NULL;
 
@@ -57,10 +57,6 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         }
     }
 
-    pthread_mutex_lock(&mutex_running);
-    running = true;
-    pthread_mutex_unlock(&mutex_running);
-
     while (running) {
         if (!bm_ctx_reload(ctx)) {
             fprintf(stderr, "blogc-make: warning: failed to reload context. "
@@ -77,7 +73,13 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         sleep(1);
     }
 
-    return reloader_status_code;
+    // be ready to run again
+    pthread_mutex_lock(&mutex_running);
+    running = true;
+    int rv = reloader_status_code;
+    pthread_mutex_unlock(&mutex_running);
+
+    return rv;
 }
 
 
-- 
2.43.0


From 9346190ecbc5611da47b574c2d5de7197655c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:29 +0000
Subject: [PATCH 68/70] fix: do not let the server thread use a context that is
 being reloaded

---
 src/blogc-make/httpd.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index 105074b..e58aaae 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -17,7 +17,7 @@
 
 
 typedef struct {
-    bm_ctx_t *ctx;
+    bm_ctx_t ctx;
     bc_trie_t *args;
 } bm_httpd_t;
 
@@ -36,13 +36,14 @@ httpd_thread(void *arg)
     httpd_started = true;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
-    int rv = bm_exec_blogc_runserver(httpd->ctx, bc_trie_lookup(httpd->args, "host"),
+    int rv = bm_exec_blogc_runserver(&httpd->ctx, bc_trie_lookup(httpd->args, "host"),
         bc_trie_lookup(httpd->args, "port"), bc_trie_lookup(httpd->args, "threads"));
 
     pthread_mutex_lock(&mutex_httpd_starting);
     httpd_starting = false;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
+    free(httpd->ctx.output_dir);
     free(httpd);
 
     // stop the reloader
@@ -84,13 +85,16 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
     }
 
     bm_httpd_t *rv = bc_malloc(sizeof(bm_httpd_t));
-    rv->ctx = *ctx;
+    // the reloader may change the context while the thread starts
+    rv->ctx = **ctx;
+    rv->ctx.output_dir = bc_strdup((*ctx)->output_dir);
     rv->args = args;
 
     pthread_t thread;
     if (0 != (err = pthread_create(&thread, &attr, httpd_thread, rv))) {
         fprintf(stderr, "blogc-make: error: failed to create httpd "
             "thread: %s\n", strerror(err));
+        free(rv->ctx.output_dir);
         free(rv);
         return 1;
     }
-- 
2.43.0


From c85750ca16a64187e6e3cdfe8dbf78a07f8111b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:16 +0000
Subject: [PATCH 69/70] fix: do not leave an incomplete output file behind

---
 src/blogc/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 37c685c..de9fcee 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -385,6 +385,13 @@ main(int argc, char **argv)
         fprintf(stderr, "blogc: error: failed to write output file (%s): %s\n",
             write_to_stdout ? "-" : output, strerror(errno));
         rv = 1;
+
+#ifdef HAVE_SYS_STAT_H
+        // an incomplete file must not be taken for an up to date one
+        struct stat st;
+        if (!write_to_stdout && (0 == stat(output, &st)) && S_ISREG(st.st_mode))
+            remove(output);
+#endif /* HAVE_SYS_STAT_H */
     }
 
 cleanup4:
-- 
2.43.0


From 77114342bcd77241efc533531527547af376c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:16 +0000
Subject: [PATCH 70/70] fix: do not leave an incomplete copy behind

---
 src/blogc-make/exec-native.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index 64b97b0..d2e2d99 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -18,6 +18,16 @@
 #include "ctx.h"
 
 
+// an incomplete file must not be taken for an up to date one
+static void
+remove_incomplete(const char *path)
+{
+    struct stat st;
+    if ((0 == stat(path, &st)) && S_ISREG(st.st_mode))
+        unlink(path);
+}
+
+
 int
 bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
 {
@@ -82,6 +92,7 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
                     "destination file (%s): %s\n", dest->path, strerror(errno));
                 close(fd_from);
                 close(fd_to);
+                remove_incomplete(dest->path);
                 return 1;
             }
             nread -= nwritten;
@@ -94,6 +105,7 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
             "%s\n", source->path, strerror(errno));
         close(fd_from);
         close(fd_to);
+        remove_incomplete(dest->path);
         return 1;
     }
 
@@ -102,6 +114,7 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
     if (0 != close(fd_to)) {
         fprintf(stderr, "blogc-make: error: failed to write to destination "
             "file (%s): %s\n", dest->path, strerror(errno));
+        remove_incomplete(dest->path);
         return 1;
     }
 
-- 
2.43.0

