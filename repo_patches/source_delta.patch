From 4e0bd014d53afe1627b55a6c03bf3fcc32086adf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 001/128] fix: terminate an exactly fitting wide formatted
 string before asserting it is terminated

---
 clink/core/include/core/str.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/core/include/core/str.h b/clink/core/include/core/str.h
index d177c7f..46c2615 100644
--- a/clink/core/include/core/str.h
+++ b/clink/core/include/core/str.h
@@ -485,6 +485,7 @@ inline bool str_impl<wchar_t>::vformat_append(const wchar_t* format, va_list arg
         if (len >= 0 && reserve(orig_len + len))
         {
             len = vsnprint(m_data + orig_len, m_size - 1 - orig_len, format, args);
+            m_data[m_size - 1] = '\0'; // _vsnwprintf doesn't terminate on exact fit.
             assert(orig_len + len < m_size);
             assert(!m_data[orig_len + len]);
         }
-- 
2.43.0


From b9d7c78c8f8f7b08518421846538e39db2537ffd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 002/128] fix: path::normalise resolves '..' after a component
 that starts with a dot

---
 clink/core/src/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 8161318..b4ef695 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -219,6 +219,8 @@ void normalise(char* in_out, int32 sep)
                     continue;
                 }
             }
+            else
+                ++piece_count;
         }
         else
             ++piece_count;
-- 
2.43.0


From fdb63e0945b37ea141e5a4c42dc134e6bac142a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 003/128] fix: path::normalise keeps the rest of the path
 intact when collapsing separators in a UNC prefix

---
 clink/core/src/path.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index b4ef695..30be093 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -164,6 +164,12 @@ void normalise(char* in_out, int32 sep)
                 ++in_out;
             ++write;
         }
+        if (write < in_out)
+        {
+            // Close the gap left by collapsing separators in the prefix.
+            memmove(write, in_out, strlen(in_out) + 1);
+            in_out = write;
+        }
     }
 #endif
 
-- 
2.43.0


From cb19abbdb5f619a1efa7f74f425aedb9e104df65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 004/128] fix: path::normalise preserves both leading
 separators of a device namespace path

---
 clink/core/src/path.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 30be093..239a77c 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -146,7 +146,10 @@ void normalise(char* in_out, int32 sep)
 
 #if defined(PLATFORM_WINDOWS)
     if (is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '.' && is_separator(in_out[3]))
+    {
         dots = false; // Device namespace does not normalize . or .. in paths.
+        in_out += 2; // Preserve the 2 leading separators.
+    }
     else
     {
         const char* past = past_drive(in_out);
-- 
2.43.0


From 2b35e70829382efca97784bbba6f9ec1e849b81b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 005/128] fix: wildmatch does not read past the end of the
 string for a trailing backslash

---
 wildmatch/wildmatch/wildmatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 0e73411..6a96ed1 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -245,7 +245,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                 if ((c = *pattern++) == EOS) {
                     c = '\\';
                     --pattern;
-                    if (*(string+1) == EOS) {
+                    if (*string == EOS || *(string+1) == EOS) {
                         return WM_NOMATCH;
                     }
                 }
-- 
2.43.0


From eabb9aef8f76566078a0d562b5757ec760ab2dc5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 006/128] fix: wildmatch '**/' only matches directories after
 the point it was reached at

---
 wildmatch/wildmatch/wildmatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 6a96ed1..f4851c5 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -172,7 +172,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                 if (wild) {
 /* begin_clink_change */
                     //slash = strchr(stringstart, '/');
-                    slash = find_slash(stringstart, flags);
+                    slash = find_slash(string, flags);
 /* end_clink_change */
                     if (!slash) {
                         return WM_NOMATCH;
-- 
2.43.0


From 2b203d3a79d7815979ba0a8ecefa5469ba21cb0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 007/128] fix: wildmatch does not read before the start of the
 pattern for a leading '**'

---
 wildmatch/wildmatch/wildmatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index f4851c5..2f74353 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -78,6 +78,7 @@ static char const *find_slash(const char *s, int flags)
 int wildmatch(const char *pattern, const char *string, int flags)
 {
     const char *stringstart;
+    const char *patternstart = pattern;
     const char *newp;
     const char *slash;
     char c, test;
@@ -119,7 +120,8 @@ int wildmatch(const char *pattern, const char *string, int flags)
             c = *pattern;
             wild = check_flag(flags, WM_WILDSTAR) && c == '*';
             if (wild) {
-                prev = pattern[-2];
+                /* The start of the pattern counts as following a slash. */
+                prev = (pattern - 1 == patternstart) ? '/' : pattern[-2];
                 /* Collapse multiple stars and slash-** patterns,
                  * e.g. "** / *** / **** / **" (without spaces)
                  * is treated as a single ** wildstar.
-- 
2.43.0


From 3e6dba46f79c819b8dc3e9d99bf64d7d5f07b668 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 008/128] fix: wildmatch unterminated bracket expression
 matches nothing instead of skipping a character

---
 wildmatch/wildmatch/wildmatch.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 2f74353..956a295 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -231,9 +231,8 @@ int wildmatch(const char *pattern, const char *string, int flags)
 
             switch (rangematch(pattern, *string, flags, &newp)) {
             case RANGE_ERROR:
-                /* not a good range, treat as normal text */
-                ++string;
-                goto normal;
+                /* not a good range, matches nothing */
+                return WM_NOMATCH;
             case RANGE_MATCH:
                 pattern = newp;
                 break;
@@ -254,7 +253,6 @@ int wildmatch(const char *pattern, const char *string, int flags)
             }
             /* FALLTHROUGH */
         default:
-        normal:
             if (c != *string && !(check_flag(flags, WM_CASEFOLD) &&
                  (tolower((unsigned char)c) ==
                  tolower((unsigned char)*string))))
-- 
2.43.0


From 471ea952115b5c1294979ea0b329547c160ea761 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 009/128] fix: wildmatch compares single characters in brackets
 without case when folding case

---
 wildmatch/wildmatch/wildmatch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 956a295..b29b19d 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -364,6 +364,8 @@ rangematch(const char *pattern, char test, int flags, const char **newp)
             check_pattern("upper", isupper, c2);
             /* fallthrough means match like a normal character */
         }
+        if (check_flag(flags, WM_CASEFOLD))
+            c = tolower((unsigned char)c);
         if (c == test) {
             ok = 1;
         }
-- 
2.43.0


From 9b307277d76281c74965c1d6b3a6ff1bf0351414 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 010/128] fix: wildmatch keeps requiring an explicit leading
 period after a '*'

---
 wildmatch/wildmatch/wildmatch.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index b29b19d..5c7d9f8 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -75,9 +75,9 @@ static char const *find_slash(const char *s, int flags)
 }
 /* end_clink_change */
 
-int wildmatch(const char *pattern, const char *string, int flags)
+/* stringstart is the start of the whole string; a leading period is judged from there. */
+static int wildmatch_impl(const char *pattern, const char *string, const char *stringstart, int flags)
 {
-    const char *stringstart;
     const char *patternstart = pattern;
     const char *newp;
     const char *slash;
@@ -90,7 +90,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
         flags |= WM_PATHNAME;
     }
 
-    for (stringstart = string;;) {
+    for (;;) {
         switch (c = *pattern++) {
         case EOS:
 /* begin_clink_change */
@@ -138,7 +138,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                     }
                 }
                 if (c == '/' &&
-                        wildmatch(pattern+1, string, flags) == WM_MATCH) {
+                        wildmatch_impl(pattern+1, string, stringstart, flags) == WM_MATCH) {
                     return WM_MATCH;
                 }
             } else {
@@ -180,7 +180,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                         return WM_NOMATCH;
                     }
                     while (slash) {
-                        if (wildmatch(pattern+1, slash+1, flags) == 0) {
+                        if (wildmatch_impl(pattern+1, slash+1, stringstart, flags) == 0) {
                             return WM_MATCH;
                         }
 /* begin_clink_change */
@@ -203,7 +203,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
             }
             /* General case, use recursion. */
             while ((test = *string) != EOS) {
-                if (!wildmatch(pattern, string, flags & ~WM_PERIOD))
+                if (!wildmatch_impl(pattern, string, stringstart, flags))
                     return WM_MATCH;
 /* begin_clink_change */
                 //if (test == '/' && check_flag(flags, WM_PATHNAME))
@@ -267,6 +267,11 @@ int wildmatch(const char *pattern, const char *string, int flags)
     }
 }
 
+int wildmatch(const char *pattern, const char *string, int flags)
+{
+    return wildmatch_impl(pattern, string, string, flags);
+}
+
 static int
 rangematch(const char *pattern, char test, int flags, const char **newp)
 {
-- 
2.43.0


From 9cd4b22e46559056895c7d4ca955711f89f77e4a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 011/128] fix: parse_color ignores 'bright' before 'on' when no
 foreground color is given

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..e13dda3 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -914,7 +914,7 @@ bool parse_color(const char* value, str_base& out)
         if (strcmpi(token.c_str(), "on") == 0)
         {
             if (pcolor == &bg) return false; // can't use "on" more than once
-            if (!*phex && bright > 0)
+            if (*pcolor >= 0 && !*phex && bright > 0)
                 fg += 8;
             pcolor = &bg;
             phex = &bg_hex;
-- 
2.43.0


From 17c5fe0338df99bd51736a23b9bd37bf5e62bb29 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 012/128] fix: loading custom default settings does not close
 the file twice

---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index e13dda3..4e10192 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -319,8 +319,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From 045e24c2497d983f32df25ae09ea148b743260b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 013/128] fix: settings files larger than a string buffer can
 hold are read without overflowing it

---
 clink/core/src/settings.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 4e10192..a9aa156 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -101,8 +101,8 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
+    // Files can be larger than the maximum length of a str_base.
+    std::vector<char> buffer(size + 1);
 
     char* data = buffer.data();
     fread(data, size, 1, in);
@@ -114,7 +114,7 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
     str<256> line;
     bool maybe_clink_set = true;
     {
-        str_tokeniser lines(buffer.c_str(), "\n\r");
+        str_tokeniser lines(data, "\n\r");
         while (lines.next(line))
         {
             const char* p = line.c_str();
@@ -129,7 +129,7 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
     // Split at new lines.
     bool was_comment = false;
     str<> comment;
-    str_tokeniser lines(buffer.c_str(), "\n\r");
+    str_tokeniser lines(data, "\n\r");
     while (lines.next(line))
     {
         char* line_data = line.data();
@@ -215,8 +215,8 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
+    // Files can be larger than the maximum length of a str_base.
+    std::vector<char> buffer(size + 1);
 
     char* data = buffer.data();
     fread(data, size, 1, in);
@@ -229,7 +229,7 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
     // Split at new lines.
     str<256> line;
     str<32> key;
-    str_tokeniser lines(buffer.c_str(), "\n\r");
+    str_tokeniser lines(data, "\n\r");
     while (lines.next(line))
     {
         char* line_data = line.data();
-- 
2.43.0


From 2d4685331222a3bf7b1815a898410d62ae5fe4a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 014/128] fix: saving settings resets the saved flag of the
 loaded settings themselves, not of copies

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index a9aa156..49fb14e 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -610,7 +610,7 @@ static bool save_internal(const char* file, bool migrating)
         return false;
 
     // Clear the saved flag so we can track which ones have been saved so far.
-    for (auto iter : get_loaded_map())
+    for (auto& iter : get_loaded_map())
         iter.second.saved = false;
 
     // Iterate over each setting and write it out to the file.
-- 
2.43.0


From 31552582a029111bfa4185694386739fa11afc80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 015/128] fix: setting a value for a not yet declared setting
 replaces the previously loaded value

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 49fb14e..ee61a5e 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -372,7 +372,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From 7772bf2f9b9a3acfeb4c56fa66a0c6f7df5b47f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 016/128] fix: sandboxed_set_setting clears the setting when
 the value is null

---
 clink/core/src/settings.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index ee61a5e..a2615f0 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -771,9 +771,15 @@ bool sandboxed_set_setting(const char* name, const char* value)
     rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);
 
     // Load settings.
-    return (load(file, default_file) &&
-            set_setting(name, value) &&
-            save(file));
+    if (!load(file, default_file))
+        return false;
+
+    if (!value)
+        clear_setting(name);
+    else if (!set_setting(name, value))
+        return false;
+
+    return save(file);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ad7cecadf9fe650fce9d255cb5ebdfe62c42a3e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 017/128] fix: rolling back sandboxed settings restores color
 values and settings at their default

---
 clink/core/src/settings.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index a2615f0..2b0ffec 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -739,8 +739,11 @@ public:
         for (auto& i : get_map())
         {
             setting* iter = i.second;
-            iter->get(value);
-            m_restore.emplace(iter->get_name(), std::move(value));
+            // A setting at its default restores to its default, without making it
+            // become an explicitly set setting.
+            if (iter->is_saveable())
+                iter->get_descriptive(value);
+            m_restore.emplace(iter->get_name(), restore_value { std::move(value), iter->is_saveable() });
         }
     }
     ~rollback_settings_values()
@@ -749,12 +752,21 @@ public:
         {
             setting* iter = settings::find(r.first.c_str());
             assert(iter); // (It was there a moment ago!)
-            if (iter)
-                iter->set(r.second.c_str());
+            if (!iter)
+                continue;
+            if (r.second.explicitly_set)
+                iter->set(r.second.value.c_str());
+            else
+                iter->set();
         }
     }
 private:
-    std::map<std::string, str_moveable> m_restore;
+    struct restore_value
+    {
+        str_moveable value;
+        bool explicitly_set;
+    };
+    std::map<std::string, restore_value> m_restore;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 342e547fc593cea5fd725d2fbec4ff56da528268 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 018/128] fix: an enum setting declared after custom defaults
 are loaded uses its custom default

---
 clink/core/src/settings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 2b0ffec..ef6259b 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -1477,6 +1477,7 @@ setting_enum::setting_enum(
 , m_options(options)
 {
     m_type = type_enum;
+    set();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ff6b57e0d0862bc183ac4de0d8c4380bf3c95d40 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 019/128] fix: nested command strings are recognized when split
 across chunks of terminal output

---
 clink/terminal/include/terminal/ecma48_iter.h |  4 +-
 clink/terminal/src/ecma48_iter.cpp            | 41 +++++++++++--------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index 9f18de3..06cab35 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -22,6 +22,7 @@ enum ecma48_state_enum
     ecma48_state_csi_p,
     ecma48_state_csi_f,
     ecma48_state_cmd_str,
+    ecma48_state_cmd_str_esc,
     ecma48_state_char_str,
 };
 
@@ -138,6 +139,7 @@ private:
     ecma48_code         code;
     ecma48_state_enum   state;
     str<64>             buffer;
+    int32               nested_cmd_str;
     bool                clear_buffer;
 };
 
@@ -156,6 +158,7 @@ private:
     bool                next_char(int32 c);
     bool                next_char_str(int32 c);
     bool                next_cmd_str(int32 c);
+    bool                next_cmd_str_esc(int32 c);
     bool                next_csi_f(int32 c);
     bool                next_csi_p(int32 c);
     bool                next_esc(int32 c);
@@ -164,5 +167,4 @@ private:
     str_iter            m_iter;
     ecma48_code&        m_code;
     ecma48_state&       m_state;
-    int32               m_nested_cmd_str;
 };
diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 7773444..c8fab06 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -89,6 +89,7 @@ static void strip_code_quotes(const char*& ptr, int32& len)
 void ecma48_state::reset()
 {
     state = ecma48_state_unknown;
+    nested_cmd_str = 0;
     clear_buffer = true;
 }
 
@@ -276,7 +277,6 @@ ecma48_iter::ecma48_iter(const char* s, ecma48_state& state, int32 len)
 : m_iter(s, len)
 , m_code(state.code)
 , m_state(state)
-, m_nested_cmd_str(0)
 {
 }
 
@@ -301,13 +301,12 @@ const ecma48_code& ecma48_iter::next()
             break;
         }
 
-        assert(m_nested_cmd_str == 0 || m_state.state == ecma48_state_cmd_str);
-
         switch (m_state.state)
         {
         case ecma48_state_char:     done = next_char(c);     break;
         case ecma48_state_char_str: done = next_char_str(c); break;
         case ecma48_state_cmd_str:  done = next_cmd_str(c);  break;
+        case ecma48_state_cmd_str_esc: done = next_cmd_str_esc(c); break;
         case ecma48_state_csi_f:    done = next_csi_f(c);    break;
         case ecma48_state_csi_p:    done = next_csi_p(c);    break;
         case ecma48_state_esc:      done = next_esc(c);      break;
@@ -341,9 +340,6 @@ const ecma48_code& ecma48_iter::next()
 
     m_state.reset();
 
-    assert(m_nested_cmd_str == 0);
-    m_nested_cmd_str = 0;
-
     return m_code;
 }
 
@@ -407,21 +403,15 @@ bool ecma48_iter::next_cmd_str(int32 c)
     if (c == 0x1b)
     {
         m_iter.next();
-        int32 d = m_iter.peek();
-        if (d == 0x5d)
-            m_nested_cmd_str++;
-        else if (d == 0x5c && m_nested_cmd_str > 0)
-            m_nested_cmd_str--;
-        else
-            m_state.state = ecma48_state_esc_st;
+        m_state.state = ecma48_state_cmd_str_esc;
         return false;
     }
     else if (c == 0x9c || c == 0x07) // Xterm supports OSC terminated by BEL.
     {
         m_iter.next();
-        if (c == 0x07 && m_nested_cmd_str > 0)
+        if (c == 0x07 && m_state.nested_cmd_str > 0)
         {
-            m_nested_cmd_str--;
+            m_state.nested_cmd_str--;
             return false;
         }
         return true;
@@ -439,6 +429,25 @@ bool ecma48_iter::next_cmd_str(int32 c)
     return false;
 }
 
+//------------------------------------------------------------------------------
+bool ecma48_iter::next_cmd_str_esc(int32 c)
+{
+    // The character after an ESC can be in a separate chunk of input, so this
+    // can't peek ahead from next_cmd_str.
+    if (c == 0x5d)
+        m_state.nested_cmd_str++;
+    else if (c == 0x5c && m_state.nested_cmd_str > 0)
+        m_state.nested_cmd_str--;
+    else
+    {
+        m_state.state = ecma48_state_esc_st;
+        return next_esc_st(c);
+    }
+
+    m_state.state = ecma48_state_cmd_str;
+    return next_cmd_str(c);
+}
+
 //------------------------------------------------------------------------------
 bool ecma48_iter::next_csi_f(int32 c)
 {
@@ -501,14 +510,12 @@ bool ecma48_iter::next_esc_st(int32 c)
     if (c == 0x5c)
     {
         m_iter.next();
-        assert(m_nested_cmd_str == 0);
         return true;
     }
 
     m_code.m_str = m_iter.get_pointer();
     m_code.m_length = 0;
     m_state.reset();
-    m_nested_cmd_str = 0;
     return false;
 }
 
-- 
2.43.0


From 5414f946610bb013d15008469b9c23965eab3934 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 020/128] fix: text after an unrecognized escape is reported as
 text instead of whatever type came before

---
 clink/terminal/src/ecma48_iter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index c8fab06..956c2b8 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -500,6 +500,7 @@ bool ecma48_iter::next_esc(int32 c)
         return true;
     }
 
+    m_code.m_type = ecma48_code::type_chars;
     m_state.state = ecma48_state_char;
     return false;
 }
-- 
2.43.0


From 0e3e77aa496fc0c3f6657f564b451ad7bee3a047 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 021/128] fix: terminal text longer than 65535 bytes is not
 truncated or dropped

---
 clink/terminal/include/terminal/ecma48_iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index 06cab35..ae6d010 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -104,7 +104,7 @@ private:
     void                    operator = (ecma48_code&) = delete;
     bool                    decode_csi(csi_base& base, int32* params, uint32 max_params) const;
     const char*             m_str;
-    unsigned short          m_length;
+    uint32                  m_length;
     type                    m_type;
     uint8                   m_code;
 };
-- 
2.43.0


From 897dba7ae44336a9291c2b0751f0e395b82845d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 022/128] fix: ellipsify does not add an ellipsis when there is
 no room for it

---
 clink/lib/src/ellipsify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/ellipsify.cpp b/clink/lib/src/ellipsify.cpp
index 430cbb1..7583927 100644
--- a/clink/lib/src/ellipsify.cpp
+++ b/clink/lib/src/ellipsify.cpp
@@ -81,6 +81,8 @@ int32 ellipsify(const char* in, int32 limit, str_base& out, bool expand_ctrl)
 #else
                     static_assert(ellipsis_cells == 1, "Ellipsis must be exactly 1 cell.");
                     assert(cell_count(ellipsis) == 1);
+                    if (truncate_visible + ellipsis_cells > limit)
+                        return visible_len;
                     out.concat(ellipsis, ellipsis_len);
 #endif
                     visible_len += cell_count(ellipsis);
-- 
2.43.0


From 05dbd426a423a08e6c1e041c089df4cd9a5b1b17 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 023/128] fix: ellipsify_ex counts control characters as two
 cells in PATH mode too when asked to

---
 clink/lib/src/ellipsify.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/ellipsify.cpp b/clink/lib/src/ellipsify.cpp
index 7583927..798d1ce 100644
--- a/clink/lib/src/ellipsify.cpp
+++ b/clink/lib/src/ellipsify.cpp
@@ -371,7 +371,7 @@ break_break_yes:
             if (limit >= drive_cells)
             {
                 str_moveable rest;
-                const int32 rest_cells = ellipsify_ex(in, limit - drive_cells, LEFT, rest, _ellipsis, false, truncated);
+                const int32 rest_cells = ellipsify_ex(in, limit - drive_cells, LEFT, rest, _ellipsis, expand_ctrl, truncated);
                 if (rest_cells >= e_cells && limit >= drive_cells + rest_cells)
                 {
                     out.concat(drive.c_str(), drive.length());
@@ -381,7 +381,7 @@ break_break_yes:
             }
 
             // Couldn't get something to fit?  Fall back to RIGHT truncation.
-            return ellipsify_ex(_in, limit, RIGHT, out, _ellipsis, false, truncated);
+            return ellipsify_ex(_in, limit, RIGHT, out, _ellipsis, expand_ctrl, truncated);
         }
     }
 }
-- 
2.43.0


From bd70e3e686b92a91ce82fd88c0be99b827124f32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 024/128] fix: ellipsify_ex does not assert the unexpanded
 width when control characters are expanded

---
 clink/lib/src/ellipsify.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/ellipsify.cpp b/clink/lib/src/ellipsify.cpp
index 798d1ce..3bd9c34 100644
--- a/clink/lib/src/ellipsify.cpp
+++ b/clink/lib/src/ellipsify.cpp
@@ -186,7 +186,7 @@ no_truncate:
                         }
                         if (truncated)
                             *truncated = true;
-                        assert(cell_count(out.c_str()) == visible_len);
+                        assert(expand_ctrl || cell_count(out.c_str()) == visible_len);
                         return visible_len;
                     }
                     visible_len += clen;
@@ -296,7 +296,7 @@ no_truncate:
                             out.concat(in + truncate_bytes);
                         if (truncated)
                             *truncated = true;
-                        assert(cell_count(out.c_str()) == visible_len);
+                        assert(expand_ctrl || cell_count(out.c_str()) == visible_len);
                         return visible_len;
                     }
                     visible_len += clen;
-- 
2.43.0


From 363d6eaac9960ca60944bb01bc8048c3e6a7bcf4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 025/128] fix: history: read the last line even if it has no
 line ending

---
 clink/lib/src/history_db.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..b975371 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -692,7 +692,8 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
                 break;
             }
 
-        if (end == last && start != m_file_iter.get_buffer())
+        if (end == last && start != m_file_iter.get_buffer() &&
+            (start == last || m_file_iter.get_remaining()))
         {
             provision();
             continue;
-- 
2.43.0


From f65f8212b86114693ed40a7a365a17536410ef0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 026/128] fix: history: compact --unique with a limit larger
 than the unique lines lost the whole history

---
 clink/lib/src/history_db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index b975371..73c7ad8 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1054,8 +1054,8 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     size_t start = 0;
     if (0 < limit && limit < lines_to_keep.size())
     {
-        for (start = lines_to_keep.size(); limit && start--;)
-            if (lines_to_keep[start].get())
+        for (start = lines_to_keep.size(); limit && start;)
+            if (lines_to_keep[--start].get())
                 --limit;
     }
 
-- 
2.43.0


From 8729ad2c5f3b3385f25f814646709ed81a936b28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 027/128] fix: history: reload after pruning, so history
 positions keep referring to the same lines

---
 clink/lib/src/history_db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 73c7ad8..33d1592 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1548,7 +1548,9 @@ void history_db::load_rl_history(bool can_clean)
     // history file.
     if (can_clean && m_use_master_bank)
     {
-        if (compact())
+        // Pruning updates m_index_map, so Readline's list must be updated too.
+        const size_t len = m_index_map.size();
+        if (compact() || m_index_map.size() != len)
             load_internal();
     }
 
-- 
2.43.0


From e0a86e505030732929b6732301c051771958c8c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 028/128] fix: history: the timestamp of a removed line does
 not carry over to the next line

---
 clink/lib/src/history_db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 33d1592..ce4284f 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -738,6 +738,11 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
         // also test for deferred removals here.
         if (*start == '|' || eating_ctag || (!too_big && m_removals.find(offset) != m_removals.end()))
         {
+            // A timestamp belongs only to the line that immediately follows it.
+            if (timestamp)
+                timestamp->clear();
+            if (timestamp_id)
+                *timestamp_id = 0;
             if (!eating_ctag)
                 ++m_deleted;
             continue;
-- 
2.43.0


From c20ae2e05e06b3a8b82d98dff5c00d4d9c2181e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 029/128] fix: history: removals work after the history was
 cleared, and stale removals never hit other lines

---
 clink/lib/src/history_db.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index ce4284f..f1bb5b1 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -156,17 +156,33 @@ static void* open_file(const char* path, DWORD& err, bool if_exists=false)
     return handle;
 }
 
+//------------------------------------------------------------------------------
+static void write_removals_ctag(void* handle, const char* ctag)
+{
+    str<64> tag;
+    tag << ctag << "\n";
+
+    // Existing removals are only meaningful for the master bank they were
+    // written for.
+    char existing[64];
+    DWORD read = 0;
+    SetFilePointer(handle, 0, nullptr, FILE_BEGIN);
+    ReadFile(handle, existing, tag.length(), &read, nullptr);
+    if (read == tag.length() && memcmp(existing, tag.c_str(), read) == 0)
+        return;
+
+    DWORD written;
+    SetFilePointer(handle, 0, nullptr, FILE_BEGIN);
+    SetEndOfFile(handle);
+    WriteFile(handle, tag.c_str(), tag.length(), &written, nullptr);
+}
+
 //------------------------------------------------------------------------------
 static void* make_removals_file(const char* path, const char* ctag)
 {
     void* handle = open_file(path);
     if (handle)
-    {
-        DWORD written;
-        DWORD len = DWORD(strlen(ctag));
-        WriteFile(handle, ctag, len, &written, nullptr);
-        WriteFile(handle, "\n", 1, &written, nullptr);
-    }
+        write_removals_ctag(handle, ctag);
     return handle;
 }
 
@@ -812,6 +828,12 @@ bool write_lock::remove(line_id_impl id)
         str<> s;
         s.format("%d\n", id.offset);
 
+        // The master bank may have been cleared since the removals file was
+        // created.
+        concurrency_tag ctag;
+        if (extract_ctag(*this, ctag))
+            write_removals_ctag(m_handle_removals, ctag.get());
+
         DWORD written;
         SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
         WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr);
-- 
2.43.0


From d9d198890bf633217c000a7246d63140e9cad0ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 030/128] fix: history: write a line with its timestamp and
 line ending at once, so a killed session can't leave part of it

---
 clink/lib/src/history_db.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index f1bb5b1..50ad07b 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -806,8 +806,10 @@ line_id_impl write_lock::add(const char* line)
     const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
-    WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
-    WriteFile(m_handle_lines, "\n", 1, &written, nullptr);
+    // Use a single write, so that nothing can be interrupted in between.
+    str_moveable tmp;
+    tmp << line << "\n";
+    WriteFile(m_handle_lines, tmp.c_str(), tmp.length(), &written, nullptr);
     if (offset >= c_max_line_id.offset)
         return c_max_line_id;
     return line_id_impl(offset);
@@ -1830,11 +1832,16 @@ bool history_db::add(const char* line, time_t* out_timestamp)
         const time_t now = time(0);
         if (out_timestamp)
             *out_timestamp = now;
-        timestamp.format("|\ttime=%u", now);
-        lock.add(timestamp.c_str());
-    }
+        timestamp.format("|\ttime=%u\n", now);
 
-    lock.add(line);
+        str_moveable tmp;
+        tmp << timestamp.c_str() << line;
+        lock.add(tmp.c_str());
+    }
+    else
+    {
+        lock.add(line);
+    }
     return true;
 }
 
-- 
2.43.0


From e7f505c47cbb4e63ae7e93c9738711125abdf7be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 031/128] fix: sandboxed changes restore color values exactly

---
 clink/core/src/settings.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index ef6259b..7b58287 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -742,7 +742,15 @@ public:
             // A setting at its default restores to its default, without making it
             // become an explicitly set setting.
             if (iter->is_saveable())
-                iter->get_descriptive(value);
+            {
+                iter->get(value);
+                if (iter->get_type() == setting::type_color)
+                {
+                    str_moveable sgr("sgr ");
+                    sgr << value;
+                    value = std::move(sgr);
+                }
+            }
             m_restore.emplace(iter->get_name(), restore_value { std::move(value), iter->is_saveable() });
         }
     }
-- 
2.43.0


From 1e3e843abc0e8b6cbbbe6d547abc263e7ec23e0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 032/128] fix: history: sessions that end or start at the same
 time don't both collect an ended session's history

---
 clink/lib/src/history_db.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 50ad07b..6841414 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1301,11 +1301,15 @@ void history_db::reap()
                 bank_handles master_handles = get_bank(bank_master);
                 master_handles.m_handle_removals = nullptr; // Don't redirect removals.
                 write_lock dest(master_handles);
-                read_lock src(reap_handles);
+                write_lock src(reap_handles);
                 if (src && dest)
                 {
                     dest.append(src);
                     src.apply_removals(dest);
+
+                    // Another instance may be about to reap the same files, and
+                    // is waiting for the lock.  Leave nothing for it to reap.
+                    src.clear();
                 }
             }
 
-- 
2.43.0


From 7412ceccffe9ecdeca52ab341ce8ad159055aa98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 033/128] fix: history: sessions that start at the same time
 don't lose the migration of an old history file

---
 clink/lib/src/history_db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 6841414..6e195ca 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1335,7 +1335,10 @@ void history_db::initialise(str_base* error_message)
         DIAG("... master file '%s'\n", path.c_str());
 
         // Migrate existing history.
-        if (os::get_path_type(path.c_str()) == os::path_type_invalid)
+        // Empty means another instance is just about to migrate; the actual
+        // decision happens under a lock.
+        if (os::get_path_type(path.c_str()) == os::path_type_invalid ||
+            os::get_file_size(path.c_str()) == 0)
             migrate_history(path.c_str(), m_diagnostic);
 
         // Open the master bank file.
-- 
2.43.0


From 0a9cf884dd84dea6785ca05a4afef6a3385f70a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 034/128] fix: history expansion: ':G' substitutes once per
 word, and does not loop forever when the replacement contains the pattern

---
 readline/readline/histexpand.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 5395d8c..6866e7f 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -892,7 +892,7 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 		/* First skip whitespace and find word boundaries if
 		   we're past the end of the word boundary we found
 		   the last time. */
-		if (subst_bywords && si > we)
+		if (subst_bywords && si >= we)
 		  {
 		    for (; temp[si] && fielddelim (temp[si]); si++)
 		      ;
@@ -926,7 +926,11 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 		      }
 		    else if (subst_bywords)
 		      {
-			si = we;
+			/* Continue with the next word, whose start shifted. */
+			if (we < si + subst_lhs_len)
+			  we = si + subst_lhs_len;
+			we += subst_rhs_len - subst_lhs_len;
+			si = we - 1;
 			l_temp = strlen (temp);
 			continue;
 		      }
-- 
2.43.0


From cb6061e71d179937df56d1bce414ba97499f6300 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 035/128] fix: history expansion: do not read past the end of a
 substitution without a delimiter that ends in a backslash

---
 readline/readline/histexpand.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 6866e7f..78e7963 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -575,12 +575,12 @@ get_subst_pattern (const char *str, int *iptr, int delimiter, int is_rhs, int *l
 	int v;
 	if ((v = _rl_get_char_len (str + si, &ps)) > 1)
 	  si += v - 1;
-	else if (str[si] == '\\' && str[si + 1] == delimiter)
+	else if (str[si] == '\\' && delimiter && str[si + 1] == delimiter)
 	  si++;
       }
     else
 #endif /* HANDLE_MULTIBYTE */
-      if (str[si] == '\\' && str[si + 1] == delimiter)
+      if (str[si] == '\\' && delimiter && str[si + 1] == delimiter)
 	si++;
 
   if (si > i || is_rhs)
@@ -589,7 +589,7 @@ get_subst_pattern (const char *str, int *iptr, int delimiter, int is_rhs, int *l
       for (j = 0, k = i; k < si; j++, k++)
 	{
 	  /* Remove a backslash quoting the search string delimiter. */
-	  if (str[k] == '\\' && str[k + 1] == delimiter)
+	  if (str[k] == '\\' && delimiter && str[k + 1] == delimiter)
 	    k++;
 	  s[j] = str[k];
 	}
-- 
2.43.0


From a78ec45966341bb3677371425db47c24a1b4b463 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 036/128] fix: binding the same chord to the same handler twice
 invoked it twice, and duplicating a catch-all binding read outside the chord

---
 clink/lib/src/binder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 2a0232c..13c9d84 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -234,7 +234,7 @@ bool binder::bind(
         if (!(head = insert_child(head, *chord, has_params && *chord == '*')))
             return false;
 
-    --chord;
+    const uint8 key = depth ? chord[-1] : 0;
 
     // If the insert point is already bound we'll duplicate the node at the end
     // of the list. Also check if this is a duplicate of the existing bind.
@@ -242,16 +242,17 @@ bool binder::bind(
     if (bindee->bound)
     {
         int32 check = head;
-        while (check > head)
+        do
         {
-            if (bindee->key == *chord && bindee->module == module_index && bindee->id == id)
+            bindee = m_nodes + check;
+            if (bindee->bound && bindee->key == key && bindee->module == module_index && bindee->id == id)
                 return true;
 
             check = bindee->next;
-            bindee = m_nodes + check;
         }
+        while (check > head);
 
-        head = append(head, *chord);
+        head = append(head, key);
     }
 
     if (!head)
-- 
2.43.0


From 0071c483eba19e307d4106004cd39731ed5e6ec5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 037/128] fix: key bindings: a binding only claims the number
 parameters that are part of its own chord

---
 clink/lib/src/bind_resolver.cpp | 69 +++++++++++++++++++--------------
 clink/lib/src/bind_resolver.h   |  5 +--
 2 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 9f6cf59..8cc7bd9 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -97,11 +97,6 @@ void bind_resolver::set_group(int32 group)
     m_group = group;
     m_node_index = group;
     m_pending_input = true;
-
-    m_params.clear();
-    m_param_accumulator = 0;
-    m_param_len = 0;
-    m_pending_param = false;
 }
 
 //------------------------------------------------------------------------------
@@ -119,13 +114,6 @@ void bind_resolver::reset()
 
     m_group = group;
     m_node_index = m_group;
-
-    // The placement new operator should have reset these.
-    assert(m_params.count() == 0);
-    assert(m_params.length() == 0);
-    assert(m_param_accumulator == 0);
-    assert(m_param_len == 0);
-    assert(m_pending_param == false);
 }
 
 //------------------------------------------------------------------------------
@@ -156,25 +144,45 @@ bool bind_resolver::step_impl(uint8 key)
     if (!next)
         return true;
 
-    auto node = m_binder.get_node(next);
-    if (node.has_params)
-    {
-        assert(key >= '0' && key <= '9');
-        m_param_accumulator *= 10;
-        m_param_accumulator += key - '0';
-        m_param_len++;
-        m_pending_param = true;
-    }
-    else if (m_pending_param)
+    m_node_index = next;
+    return (m_binder.get_node(next).child == 0);
+}
+
+//------------------------------------------------------------------------------
+// Collects the params in the pending keys, up to the specified depth.  Shorter
+// bindings for the same keys only have the params that are part of their chord.
+bind_resolver::bind_params bind_resolver::collect_params(int32 depth) const
+{
+    bind_params params;
+    unsigned short accumulator = 0;
+    uint8 len = 0;
+
+    int32 index = m_group;
+    for (int32 i = m_tail, n = m_key_count; i < n; ++i)
     {
-        m_params.add(m_param_accumulator, m_param_len);
-        m_param_accumulator = 0;
-        m_param_len = 0;
-        m_pending_param = false;
+        const uint8 key = m_keys[i];
+        const int32 next = m_binder.find_child(index, key);
+        if (!next || (next != index && depth-- <= 0))
+            break;
+
+        if (m_binder.get_node(next).has_params)
+        {
+            assert(key >= '0' && key <= '9');
+            accumulator *= 10;
+            accumulator += key - '0';
+            len++;
+        }
+        else if (len)
+        {
+            params.add(accumulator, len);
+            accumulator = 0;
+            len = 0;
+        }
+
+        index = next;
     }
 
-    m_node_index = next;
-    return (node.child == 0);
+    return params;
 }
 
 //------------------------------------------------------------------------------
@@ -210,11 +218,12 @@ bind_resolver::binding bind_resolver::next()
         // a valid bind (at the point of call).
         if (node.bound)
         {
-            const int32 key_index = m_tail + node.depth + m_params.length() - 1;
+            const bind_params params = collect_params(node.depth);
+            const int32 key_index = m_tail + node.depth + params.length() - 1;
             assertimplies(node.key, 0 <= key_index);
             assertimplies(node.key, key_index < m_key_count);
             if (!node.key || (key_index >= 0 && node.key == m_keys[key_index]))
-                return binding(this, node_index, m_params);
+                return binding(this, node_index, params);
         }
     }
 
diff --git a/clink/lib/src/bind_resolver.h b/clink/lib/src/bind_resolver.h
index 1bc7896..7d1bfba 100644
--- a/clink/lib/src/bind_resolver.h
+++ b/clink/lib/src/bind_resolver.h
@@ -61,15 +61,12 @@ public:
 private:
     void                claim(binding& binding);
     bool                step_impl(uint8 key);
+    bind_params         collect_params(int32 depth) const;
     const binder&       m_binder;
     unsigned short      m_node_index = 1;
     unsigned short      m_group = 1;
     bool                m_pending_input = false;
     uint8               m_tail = 0;
-    bind_params         m_params;
-    unsigned short      m_param_accumulator = 0;
-    uint8               m_param_len = 0;
-    bool                m_pending_param = false;
     uint8               m_key_count = 0;
     char                m_keys[16];
 };
-- 
2.43.0


From 4d30d3ef027f9847501505dcb5fe3eae58cec2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 038/128] fix: duplicate key bindings take up nodes as before,
 so the limit on the number of bindings is unchanged

---
 clink/lib/src/binder.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 13c9d84..86e8b1c 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -242,15 +242,14 @@ bool binder::bind(
     if (bindee->bound)
     {
         int32 check = head;
-        do
+        while (check > head)
         {
-            bindee = m_nodes + check;
-            if (bindee->bound && bindee->key == key && bindee->module == module_index && bindee->id == id)
+            if (bindee->key == key && bindee->module == module_index && bindee->id == id)
                 return true;
 
             check = bindee->next;
+            bindee = m_nodes + check;
         }
-        while (check > head);
 
         head = append(head, key);
     }
-- 
2.43.0


From bad509ec0a70da9ef397a571d62ca8947c6a6952 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 039/128] fix: matches: removing a duplicate after identifying
 files also updates the match count

---
 clink/lib/src/matches_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4291886..9f47fd3 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1305,7 +1305,10 @@ void matches_impl::done_building()
 
                 // Check if it has become a duplicate.
                 if (m_dedup->find(lookup) != m_dedup->end())
+                {
                     m_infos.erase(m_infos.begin() + i);
+                    --m_count;
+                }
                 else
                     m_dedup->emplace(std::move(lookup));
             }
-- 
2.43.0


From 232969a00d9fd0db03ae97638f11d4d7c80d9715 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 040/128] fix: matches: more than 65535 matches are not lost

---
 clink/lib/src/matches_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.h b/clink/lib/src/matches_impl.h
index 671ba1b..760f91b 100644
--- a/clink/lib/src/matches_impl.h
+++ b/clink/lib/src/matches_impl.h
@@ -152,7 +152,7 @@ private:
     store_impl              m_store;
     infos                   m_infos;
     int32                   m_generation_id = -1;
-    unsigned short          m_count = 0;
+    uint32                  m_count = 0;
     bool                    m_any_none_type = false;
     bool                    m_deprecated_mode = false;
     bool                    m_coalesced = false;
-- 
2.43.0


From 90817cbded1ad7e72a695ba7a2c8331af7c6331a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 041/128] fix: matches: directories identified later get a
 trailing separator also when the word has no slash

---
 clink/lib/src/matches_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 9f47fd3..0386de4 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1273,7 +1273,7 @@ void matches_impl::done_building()
         {
         case slash_translation::slash:      sep = '/'; break;
         case slash_translation::backslash:  sep = '\\'; break;
-        case slash_translation::automatic:  sep = m_sep; break;
+        case slash_translation::automatic:  if (m_sep) sep = m_sep; break;
         }
 
         for (uint32 i = m_count; i--;)
-- 
2.43.0


From 1789846b0c4915f61d0cfe36566c978ce3548616 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 042/128] fix: match coloring rules: 'mi', 'or', and 'so' by
 themselves were ignored

---
 clink/lib/src/match_colors.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index fdaa936..235d13b 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -475,6 +475,7 @@ static int32 get_token_and_value(str_iter& iter, str_base& token, str_base& valu
 static bool parse_rule(str_iter& iter, str<16>& value, color_rule& rule)
 {
     uint32 num_flags = 0;
+    bool not_flags = false;
     int32 rlind = -1;
     rule.m_cflags = 0;
     rule.m_not_cflags = 0;
@@ -508,7 +509,10 @@ static bool parse_rule(str_iter& iter, str<16>& value, color_rule& rule)
                     num_flags++;
                     rlind = ind.rlind;
                     if (not_operator)
+                    {
                         rule.m_not_cflags |= ind.cflag;
+                        not_flags = true;
+                    }
                     else
                         rule.m_cflags |= ind.cflag;
                     found = true;
@@ -521,6 +525,7 @@ static bool parse_rule(str_iter& iter, str<16>& value, color_rule& rule)
                 rule.m_cflags = 0;
                 rule.m_not_cflags = 0;
                 num_flags = 0;
+                not_flags = false;
                 ever_any = true;
                 found = true;
             }
@@ -553,7 +558,7 @@ static bool parse_rule(str_iter& iter, str<16>& value, color_rule& rule)
 // printf("cflags 0x%04.4x\n", rule.m_cflags);
 // printf("not_cflags 0x%04.4x\n", rule.m_not_cflags);
 
-    if (rule.m_cflags && num_flags == 1 && !rule.m_not_cflags && rule.m_patterns.empty())
+    if (num_flags == 1 && !not_flags && rule.m_patterns.empty())
     {
         assert(rlind >= 0);
         free(s_colors[rlind]);
-- 
2.43.0


From 30b98a4493e0f5629fbf41148641489a5768aa76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 043/128] fix: match colors: hidden and readonly files had no
 color when no hidden or readonly color is defined

---
 clink/lib/src/match_colors.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index 235d13b..e07a6d2 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -1079,13 +1079,15 @@ bool get_match_color(const char* f, match_type type, str_base& out)
             {
                 if (is_match_type_readonly(type))
                 {
-                    colored_filetype = (enum_indicator_no)(C_READONLY);
+                    if (s_colors[C_READONLY])
+                        colored_filetype = (enum_indicator_no)(C_READONLY);
                     cflags |= CFLAG_READONLY;
                 }
                 // Hidden takes precedence over Readonly, if no rules match.
                 if (is_match_type_hidden(type))
                 {
-                    colored_filetype = (enum_indicator_no)(C_HIDDEN);
+                    if (s_colors[C_HIDDEN])
+                        colored_filetype = (enum_indicator_no)(C_HIDDEN);
                     cflags |= CFLAG_HIDDEN;
                 }
             }
-- 
2.43.0


From 6a8fef25c616984019c691d9a8c92d68aa66de76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 044/128] fix: match coloring rules: a quoted "not" is a
 pattern

---
 clink/lib/src/match_colors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index e07a6d2..be7fc9f 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -493,7 +493,7 @@ static bool parse_rule(str_iter& iter, str<16>& value, color_rule& rule)
         if (!token.length())
             continue;
 
-        if (token.iequals("not"))
+        if (!quoted && token.iequals("not"))
         {
             not_operator = true;
             continue;
-- 
2.43.0


From 776203f983088f1e009e05654b9c082d573e9812 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 045/128] fix: match coloring rules: patterns did not match
 directory symlinks

---
 clink/lib/src/match_colors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index be7fc9f..9252546 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -1095,7 +1095,7 @@ bool get_match_color(const char* f, match_type type, str_base& out)
     }
 
     str<280> tmp;
-    if (cflags & CFLAG_DIR)
+    if ((cflags & CFLAG_DIR) || is_match_type(type, match_type::dir))
     {
         tmp = name;
         while (true)
@@ -1109,7 +1109,7 @@ bool get_match_color(const char* f, match_type type, str_base& out)
         }
         name = tmp.c_str();
         // Directory takes precedence over Readonly, if no rules match.
-        if (colored_filetype == (enum_indicator_no)(C_READONLY))
+        if ((cflags & CFLAG_DIR) && colored_filetype == (enum_indicator_no)(C_READONLY))
             colored_filetype = (enum_indicator_no)(C_DIR);
     }
 
-- 
2.43.0


From cfea58ff214f4bb5af1992d5a072bdb7c7b8c59e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 046/128] fix: match coloring rules: an escaped space at the
 end of a rule caused a syntax error

---
 clink/lib/src/match_colors.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index 9252546..d737b40 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -467,7 +467,11 @@ static int32 get_token_and_value(str_iter& iter, str_base& token, str_base& valu
     if (r < 0)
         return -1;
 
+    const uint32 len = token.length();
+    const bool trailing_space = (len && token.c_str()[len - 1] == ' ');
     token.trim();
+    if (trailing_space && token.length() && token.c_str()[token.length() - 1] == '\\')
+        token.concat(" ");              // Don't trim an escaped space.
     return !token.empty();
 }
 
-- 
2.43.0


From 224a3af487edaa8a37928b00be196fe013e28f81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 047/128] fix: displaying matches: several columns of matches
 with descriptions that can't be right justified did not fit the screen

---
 clink/lib/src/display_matches.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_matches.cpp b/clink/lib/src/display_matches.cpp
index 0db6b6e..5252528 100644
--- a/clink/lib/src/display_matches.cpp
+++ b/clink/lib/src/display_matches.cpp
@@ -929,7 +929,7 @@ static int32 display_match_list_internal(const match_adapter& adapter, const col
             if (l >= count)
                 break;
 
-            const int32 col_max = ((show_descriptions && !widths.m_right_justify) ?
+            const int32 col_max = ((show_descriptions && !widths.m_right_justify && limit == 1) ?
                                    cols - 1 :
                                    widths.column_width(j)); // Allow to wrap lines.
 
-- 
2.43.0


From 4fe4257a8abc399322f33cf65b6a07d3367776bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 048/128] fix: don't dereference column info that may not be
 allocated

---
 clink/lib/src/column_widths.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/lib/src/column_widths.cpp b/clink/lib/src/column_widths.cpp
index 64a2d34..cd308b6 100644
--- a/clink/lib/src/column_widths.cpp
+++ b/clink/lib/src/column_widths.cpp
@@ -401,10 +401,8 @@ column_widths calculate_columns(const match_adapter& adapter, int32 max_matches,
         widths.m_widths.clear();
         widths.m_desc_padding = c_large_padding;
         widths.m_max_match_len_in_column.clear();
-        const auto& columns_info = s_columns_info[limit - 1];
         for (size_t i = 0; i < limit; ++i)
         {
-            const auto& arr = columns_info.col_arr[i];
             widths.m_widths.push_back(max_match + delta_padding + max_desc);
             widths.m_max_match_len_in_column.push_back(max_match);
         }
-- 
2.43.0


From 589e9e5764be0b86500a0886675c6824081ebc8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 049/128] fix: displaying matches: aligned descriptions could
 be cut off in equal width columns

---
 clink/lib/src/column_widths.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/column_widths.cpp b/clink/lib/src/column_widths.cpp
index cd308b6..0383307 100644
--- a/clink/lib/src/column_widths.cpp
+++ b/clink/lib/src/column_widths.cpp
@@ -355,6 +355,10 @@ column_widths calculate_columns(const match_adapter& adapter, int32 max_matches,
             max_cols = max_valid + 1;
     }
 
+    // Descriptions are aligned after the longest match, unless right justified.
+    if (has_descriptions && no_right_justify)
+        max_len = max_match + max_desc;
+
     widths.m_col_padding = col_padding;
     widths.m_desc_padding = desc_padding;
     widths.m_sind = sind;
-- 
2.43.0


From 01e677ede86805f43a3205f787f3c1e0f0328ced Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 050/128] fix: keep the closing parens when a doskey alias in
 parens expands

---
 clink/lib/src/doskey.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 94aa04e..7ae4074 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -42,6 +42,7 @@ static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped,
 
     // Legacy doskey doesn't allow macros that begin with whitespace.
     const char* start = in.get_pointer();
+    const char* end = start;
     if (in.more() && *start == ' ')
     {
         in.reset_pointer(orig);
@@ -65,6 +66,7 @@ static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped,
             uint32 len = uint32(in.get_pointer() - start);
             len = trim_trailing_parens(start, 0, len, parens);
             alias.concat(start, len);
+            end = start + len;
             break;
         }
 
@@ -94,6 +96,7 @@ fallback:
     text = wtext.c_str();
 
     // Advance the iterator.
+    in.reset_pointer(end);
     while (in.peek() == ' ')
         in.next();
     return true;
@@ -415,6 +418,12 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         new (&s) str_iter(in.get_pointer() + in.length(), 0);
     }
 
+    // Closing parens for the skipped leading parens aren't part of the args.
+    if (parens > 0 && in.peek() == ')')
+        in.truncate(0);
+    const char* const args_end = in.get_pointer() + in.length();
+    const char* const command_end = s.get_pointer();
+
     // Don't do point processing if the point is outside the input.
     const bool point_in_command = (point && *point >= out_len && *point <= int32(out_len + command.length()));
     if (point && !point_in_command)
@@ -593,9 +602,8 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         // 'c' is now the arg index or -1 if it is all of them to be inserted.
         if (c < 0)
         {
-            const char* end = command.get_pointer() + command.length();
             const char* start = args.front()->ptr;
-            stream << str_stream::range(start, int32(end - start));
+            stream << str_stream::range(start, int32(args_end - start));
         }
         else if (c < arg_count)
         {
@@ -617,6 +625,9 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         *point = max<int32>(out_len, stream.trimmed_length());
     }
 
+    // Keep the closing parens.
+    stream << str_stream::range(args_end, int32(command_end - args_end));
+
     // If the point is still ahead, adjust it by the current command delta.
     if (_point && !point_in_command && *_point >= int32(out_len + command.length()))
     {
-- 
2.43.0


From 82ee461b18847494c3113d4017075d60cc6c77e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 051/128] fix: expand doskey aliases longer than 4095
 characters

---
 clink/lib/src/doskey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 7ae4074..f2b8211 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -92,7 +92,7 @@ fallback:
     // It does. Allocate space and fetch it.
     wstr_moveable wtext;
     wtext.reserve(8192, true/*exact*/);
-    GetConsoleAliasW(walias.data(), wtext.data(), wtext.size(), const_cast<wchar_t*>(shell_name));
+    GetConsoleAliasW(walias.data(), wtext.data(), wtext.size() * sizeof(wchar_t), const_cast<wchar_t*>(shell_name));
     text = wtext.c_str();
 
     // Advance the iterator.
-- 
2.43.0


From c7828270ddbabb1b2eee9c16fa9a5d327d4e62da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 052/128] fix: read doskey aliases longer than 4095 characters

---
 clink/core/src/os.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index aac8c6d..075efe6 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -988,7 +988,7 @@ bool get_alias(const char* name, str_base& out)
     // Get the alias (aka. doskey macro).
     wstr<32> buffer;
     buffer.reserve(8191);
-    if (GetConsoleAliasW(alias_name.data(), buffer.data(), buffer.size(), const_cast<wchar_t*>(s_shell_name)) == 0)
+    if (GetConsoleAliasW(alias_name.data(), buffer.data(), buffer.size() * sizeof(wchar_t), const_cast<wchar_t*>(s_shell_name)) == 0)
     {
         map_errno();
         return false;
-- 
2.43.0


From d3308438e72dbffceabc307730a8fac19b3cb07b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 053/128] fix: terminate the lines queued by a doskey expansion

---
 clink/lib/src/line_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/line_queue.cpp b/clink/lib/src/line_queue.cpp
index 482bf67..89ffed4 100644
--- a/clink/lib/src/line_queue.cpp
+++ b/clink/lib/src/line_queue.cpp
@@ -130,8 +130,12 @@ bool line_queue::dequeue_line(str_base& out, dequeue_flags& flags)
 
     m_queued_lines.pop_front();
 
+    // Lines at the front must always be terminated with a new line.
     for (auto& line : queue)
+    {
+        ensure_crlf(line);
         m_queued_lines.emplace_front(std::move(line), dequeue_flags::hide_prompt|dequeue_flags::no_doskey);
+    }
 
     ensure_crlf(out);
 
-- 
2.43.0


From 320f52b6f1ed857de83df90b7cefabbde168afdd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 054/128] fix: parse '>&2' and '<&3' (without a handle in
 front) as redirections

---
 clink/lib/src/cmd_tokenisers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 5a37b70..2422ca8 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -72,10 +72,10 @@ static const tokeniser_state c_transition[][input_type::iMAX] =
     /* sTxt */        { sTxt,   sSpc,   sTxt,   sIn,    sOut,   sBREAK, sBREAK, },
     /* sSpc */        { sTxt,   sSpc,   sDig,   sIn,    sOut,   sBREAK, sBREAK, },
     /* sDig */        { sTxt,   sSpc,   sTxt,   sDIn,   sDOut,  sBREAK, sBREAK, },
-    /* sIn */         { sARG,   sARG,   sARG,   sIn2,   sBAD,   sBAD,   sBAD,   },
-    /* sOut */        { sARG,   sARG,   sARG,   sBAD,   sOut2,  sBAD,   sBAD,   },
+    /* sIn */         { sARG,   sARG,   sARG,   sIn2,   sBAD,   sReAm,  sBAD,   },
+    /* sOut */        { sARG,   sARG,   sARG,   sBAD,   sOut2,  sReAm,  sBAD,   },
     /* sIn2 */        { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },
-    /* sOut2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },
+    /* sOut2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
     /* sDIn */        { sARG,   sARG,   sARG,   sDIn2,  sBAD,   sReAm,  sBAD,   },
     /* sDOut */       { sARG,   sARG,   sARG,   sBAD,   sDOut2, sReAm,  sBAD,   },
     /* sDIn2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
-- 
2.43.0


From 68a234f11ce447e7abd7f49f576aaad564202954 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 055/128] fix: trailing spaces after a command's last word
 aren't another (empty) word

---
 clink/lib/src/cmd_tokenisers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 2422ca8..d66267e 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -550,6 +550,10 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 
     start_new_word();
 
+    // Nothing but separators is left, so there is no word.
+    if (!m_iter.more() && !redir_arg)
+        return word_token(word_token::invalid_delim);
+
     int32 c = 0;
     bool first_char = true;
     bool first_slash = false;
-- 
2.43.0


From e0c39776bd9139874642548ce592e3aa1fa300a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 056/128] fix: an empty redirection argument directly after a
 word ('foo>') is a redirection argument

---
 clink/lib/src/cmd_tokenisers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index d66267e..e13c947 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -505,7 +505,7 @@ void cmd_word_tokeniser::start(const str_iter& iter, const char* quote_pair, boo
 //------------------------------------------------------------------------------
 word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 {
-    if (!m_iter.more())
+    if (!m_iter.more() && !m_next_redir_arg)
         return word_token(word_token::invalid_delim);
 
     const char oq = get_opening_quote();
-- 
2.43.0


From 0c7da154b526236da1933b5bdb42480d0f2aecdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 057/128] fix: a redirected handle at the end of a command
 ('foo 2>&1') isn't followed by an empty word

---
 clink/lib/src/cmd_tokenisers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index e13c947..384d80f 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -602,6 +602,8 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
                 // Else start a new word.
                 state = sSpc;
                 start_new_word();
+                if (!m_iter.more() && !redir_arg)
+                    return word_token(word_token::invalid_delim);
                 c = m_iter.peek();
                 input = get_input_type(c);
                 new_state = c_transition[state][input];
-- 
2.43.0


From 0e7bc59c2bbaeaed12d52328e170c43fc7adde8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 058/128] fix: break words after a built-in command that
 follows a redirection ('>nul cd..')

---
 clink/lib/src/cmd_tokenisers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 384d80f..5566deb 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -518,7 +518,9 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 
     auto start_new_word = [this, &start_word, &end_word, &offset, &redir_arg, &command_word]()
     {
-        m_cmd_state.next_word();
+        // Only the command word can be a built-in command.
+        if (!m_command_word)
+            m_cmd_state.cancel();
         // Pick up carried redir_arg.
         redir_arg = m_next_redir_arg;
         m_next_redir_arg = false;
@@ -635,7 +637,7 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
             }
 
             // Internal commands have special word break syntax.
-            if (new_state == sTxt && m_cmd_state.test(c, new_state))
+            if (new_state == sTxt && !redir_arg && m_cmd_state.test(c, new_state))
                 break;
 
             // Forward slash in a command word is a word break in CMD.
-- 
2.43.0


From b8cac30c88125d982d96380c39fa40ac01f828a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 059/128] fix: 'rem' after a redirected handle ('2>&1 rem a &
 b') comments out the rest of the line

---
 clink/lib/src/cmd_tokenisers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 5566deb..d4bc1d6 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -446,14 +446,15 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
 
             if (new_state == sARG || new_state == sVALID || new_state == sBAD)
             {
+                is_arg = (new_state != sVALID);
                 state = sSpc;
                 new_state = c_transition[state][input];
-                is_arg = true;
             }
             else if (new_state != sTxt)
                 is_arg = false;
 
-            if (new_state <= sDig && !is_arg && cmd_state.test(c, new_state))
+            const bool is_handle = (new_state == sDig && (m_iter.peek() == '<' || m_iter.peek() == '>'));
+            if (new_state <= sDig && !is_arg && !is_handle && cmd_state.test(c, new_state))
             {
                 // It's a 'rem' command, so consume the rest of the line.
                 while (m_iter.more())
-- 
2.43.0


From 5c5d73210646abfa04b55708dd4cf92528bb3da3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 060/128] fix: spaces or a digit after a redirection symbol
 don't end its argument ('>  nul rem a & b')

---
 clink/lib/src/cmd_tokenisers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index d4bc1d6..15c5ef9 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -450,7 +450,7 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
                 state = sSpc;
                 new_state = c_transition[state][input];
             }
-            else if (new_state != sTxt)
+            else if (new_state > sDig || (new_state == sSpc && state != sSpc))
                 is_arg = false;
 
             const bool is_handle = (new_state == sDig && (m_iter.peek() == '<' || m_iter.peek() == '>'));
-- 
2.43.0


From 1af17c1d3964726bb53086d1eb8da1df68da8b5a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 061/128] fix: a caret at the end of the text is part of the
 word, whatever follows the text

---
 clink/lib/src/cmd_tokenisers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 15c5ef9..39d4fcb 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -627,9 +627,11 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
             // arg, without needing quotes.
             if (c == '^' && !redir_arg)
             {
-                char c2 = *m_iter.get_next_pointer();
+                str_iter iter2(m_iter);
+                iter2.next();
+                int32 c2 = iter2.peek();
                 input_type input2 = get_input_type(c2);
-                if (input2 == iSpc)
+                if (input2 == iSpc && iter2.more())
                 {
                     c = c2;
                     input = input2;
-- 
2.43.0


From 1925bc32a1569a97d119f9146eafcbbbdba55bfb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 062/128] fix: a plus sign that is the end of a word isn't also
 the beginning of the next word

---
 clink/lib/src/word_collector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/word_collector.cpp b/clink/lib/src/word_collector.cpp
index 9894d1a..360d96c 100644
--- a/clink/lib/src/word_collector.cpp
+++ b/clink/lib/src/word_collector.cpp
@@ -272,7 +272,8 @@ uint32 word_collector::collect_words(const char* line_buffer, uint32 line_length
             // Plus sign is never a word break immediately after a space.
             if (word_offset >= 2 &&
                 line_buffer[word_offset - 1] == '+' &&
-                line_buffer[word_offset - 2] == ' ')
+                line_buffer[word_offset - 2] == ' ' &&
+                (words.empty() || words.back().offset + words.back().length < word_offset))
             {
                 word_offset--;
                 word_length++;
-- 
2.43.0


From 3c4722941ecb01f02ee83574d195a5996a6e9d50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 063/128] fix: the cursor after a closing paren ('()') read
 past the end of the list of commands

---
 clink/lib/src/word_collector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/word_collector.cpp b/clink/lib/src/word_collector.cpp
index 360d96c..a9f6946 100644
--- a/clink/lib/src/word_collector.cpp
+++ b/clink/lib/src/word_collector.cpp
@@ -489,11 +489,11 @@ void command_line_states::set(const char* line_buffer,
             // The !tmp.empty() check effectively discarded command ranges with
             // no words.  Now it's still required for backward compatibility.
             assert(command_iter != commands.end());
-            while (command_iter->offset + command_iter->length < command_char_offset)
-            {
+            // The last command is also the command for an empty word past its
+            // end, e.g. after a closing paren.
+            while (command_iter->offset + command_iter->length < command_char_offset &&
+                   command_iter + 1 != commands.end())
                 ++command_iter;
-                assert(command_iter != commands.end());
-            }
 
             const bool limit_cursor = (mode == collect_words_mode::stop_at_cursor);
             const uint32 words_limit = limit_cursor ? line_cursor : line_length;
-- 
2.43.0


From 1f303ccefeb13816c44cc97bd08d8b4358fe2431 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 064/128] fix: peek returned an uninitialized value for a
 pending resize event

---
 clink/terminal/src/win_terminal_in.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3e8b7b9..c5b467a 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -745,7 +745,7 @@ int32 win_terminal_in::peek()
 
     if (!m_pending_records.empty())
     {
-        int32 peeked;
+        int32 peeked = terminal_in::input_none;
         if (peek_record(m_pending_records.back(), &peeked))
             return peeked;
     }
-- 
2.43.0


From 20a38652db999176bded52029f4e506ec31664f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 065/128] fix: echo printed quotes and backslashes unescaped

---
 clink/app/src/loader/input_echo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/app/src/loader/input_echo.cpp b/clink/app/src/loader/input_echo.cpp
index 4989fe5..562a48a 100644
--- a/clink/app/src/loader/input_echo.cpp
+++ b/clink/app/src/loader/input_echo.cpp
@@ -104,7 +104,9 @@ int32 input_echo(int32 argc, char** argv)
             else if (c == 0x7f)
                 printf("\\C-?");    // "\C-?" or Rubout (without quotes).
             else if (c < 0x20)
-                printf("\\C-%c", c|0x40);
+                printf(c == 0x1c ? "\\C-\\%c" : "\\C-%c", c|0x40);
+            else if (c == '"' || c == '\\')
+                printf("\\%c", c);
             else
                 printf("%c", c);
 
-- 
2.43.0


From f5681e6267f08a025927678d6fc124a943de659f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 066/128] fix: key sequence text for Ctrl-Backslash didn't
 escape the backslash

---
 clink/lib/src/rl/rl_help.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/rl/rl_help.cpp b/clink/lib/src/rl/rl_help.cpp
index ae8b34d..0c07b77 100644
--- a/clink/lib/src/rl/rl_help.cpp
+++ b/clink/lib/src/rl/rl_help.cpp
@@ -604,6 +604,8 @@ bool translate_keyseq(const char* keyseq, uint32 len, char** key_name, bool frie
             if (key >= 0 && keyseq[i] < ' ')
             {
                 tmp << "\\C-";
+                if (ctrl_map[key] == '\\')
+                    tmp << "\\";
                 tmp.concat(&ctrl_map[key], 1);
                 if (first_key)
                     sort |= 2;
-- 
2.43.0


From 57e086eab0b64167469c35663f80554e3ef50a82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 067/128] fix: names of Alt-[ and Alt-Shift-O included other
 modifiers

---
 clink/terminal/src/win_terminal_in.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index c5b467a..57a2aca 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -425,6 +425,7 @@ static void ensure_keyseqs_to_names()
 
     if (!g_terminal_raw_esc.get())
     {
+        builder.clear();
         add_keyseq_to_name("\x1b[27;3;91~", "A-[", builder, 0);
         add_keyseq_to_name("\x1b[27;4;79~", "A-S-O", builder, 0);
     }
-- 
2.43.0


From 00da2c05e3ee5179547229954492586411edd834 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 068/128] fix: mouse clicks were lost when input was peeked
 before being read

---
 clink/terminal/src/win_terminal_in.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 57a2aca..2f0388b 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1042,6 +1042,7 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
     bool ret = false;
     const uint32 buffer_count = m_buffer_count;
     const wchar_t lead_surrogate = m_lead_surrogate;
+    const DWORD prev_mouse_button_state = m_prev_mouse_button_state;
 
     switch (record.EventType)
     {
@@ -1061,6 +1062,8 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
     case MOUSE_EVENT:
         process_input(record.Event.MouseEvent, true/*peek*/);
         ret = (m_buffer_count > buffer_count);
+        if (ret || peeked)
+            m_prev_mouse_button_state = prev_mouse_button_state; // Revert (the record stays pending).
         if (peeked)
         {
             const uint8 c = ret ? m_buffer[m_buffer_head] : input_none_byte;
-- 
2.43.0


From f8cc0221c76a168307e115bd70a425b4720f0515 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 069/128] fix: responses to non-CSI terminal requests weren't
 recognized

---
 clink/terminal/src/win_terminal_in.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 2f0388b..57056b6 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -754,12 +754,16 @@ int32 win_terminal_in::peek()
     return terminal_in::input_none;
 }
 
-static bool is_final_byte(const char* final, const char* candidate)
+static bool is_final_byte(const char* final, const char* begin, const char* candidate)
 {
     if (final)
         return (*candidate == *final);
-    else
-        return (!(*candidate == 0x07) && !(*candidate == '\\' && candidate[-1] == 27));
+    if (*candidate == 0x07)
+        return true;
+    if (candidate == begin)
+        return false;
+    return ((candidate[0] == '\\' && candidate[-1] == 27) ||
+            (candidate[0] == '\x9c' && candidate[-1] == '\xc2'));
 }
 
 static bool is_matching_response(const str_base& input, const char* prefix, const char* final, str_base& out, size_t& begin_offset, size_t& end_offset)
@@ -798,7 +802,7 @@ static bool is_matching_response(const str_base& input, const char* prefix, cons
         if (matched)
         {
             const char* last = code.get_pointer() + code.get_length() - 1;
-            if (!is_final_byte(final, last))
+            if (!is_final_byte(final, code.get_pointer(), last))
                 matched = nullptr;
         }
 
@@ -937,7 +941,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
 
             correlation.char_count = input.length() - correlation.stream_index;
 
-            if (input.length() && is_final_byte(final, input.c_str() + input.length() - 1))
+            if (input.length() && is_final_byte(final, input.c_str(), input.c_str() + input.length() - 1))
             {
                 size_t begin_offset;
                 size_t end_offset;
-- 
2.43.0


From 5f523070b84f28610ee71e94f481ed4bac5de625 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 070/128] fix: a terminal request lost the first half of a
 surrogate pair typed meanwhile

---
 clink/terminal/src/win_terminal_in.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 57056b6..fe4a0ac 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -963,7 +963,6 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
                     assert(begin_erasure < correlations.size());
                     if (begin_erasure < correlations.size())
                     {
-                        assert(correlations.size() == m_processed_records.size());
                         const size_t index_erase = correlations[begin_erasure].record_index;
                         for (size_t ii = begin_erasure; ii < correlations.size(); ++ii)
                         {
@@ -1296,6 +1295,7 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
 
         if (peek)
         {
+            const wchar_t lead_surrogate = m_lead_surrogate;
             if (peek_record(record))
             {
                 assert(m_pending_records.empty());
@@ -1303,6 +1303,9 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
                 m_pending_records.push_back(record);
                 return;
             }
+            // Peeking at a lead surrogate consumes it.
+            if (s_sending_terminal_request && m_lead_surrogate != lead_surrogate)
+                m_processed_records.push_back(record);
         }
         else
         {
-- 
2.43.0


From 25a8d86667af6b6a921c79a17da3848832174534 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 071/128] fix: a NUL key (Ctrl-2) typed during a terminal
 request hid the response

---
 clink/terminal/src/win_terminal_in.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index fe4a0ac..94e87cd 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -935,7 +935,9 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
 
             while (m_buffer_count)
             {
-                const uint8 c = pop();
+                uint8 c = pop();
+                if (!c)
+                    c = 0x01; // A NUL would terminate the inspection early.
                 input.concat_no_truncate(reinterpret_cast<const char*>(&c), 1);
             }
 
-- 
2.43.0


From 91981052d2844e8504b9dda2a0bcc76b99652fad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 072/128] fix: commands that read a character ignored non-ASCII
 characters

---
 readline/readline/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/readline/readline/input.c b/readline/readline/input.c
index 79c4760..bc8bfeb 100644
--- a/readline/readline/input.c
+++ b/readline/readline/input.c
@@ -860,7 +860,7 @@ rl_read_key (void)
   const char* src = NULL;
   if (_clink_input_len > 0)
     {
-      c = *(_clink_input++);
+      c = (unsigned char)*(_clink_input++);
       --_clink_input_len;
       goto out;
     }
@@ -881,6 +881,7 @@ rl_read_key (void)
 /* begin_clink_change */
 	//return ((unsigned char)c);
 	{
+	  c = (unsigned char)c;
 	  src = "macro";
 	  goto out;
 	}
-- 
2.43.0


From 355863c166457a60c381d72f914098e0c92f5d42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 073/128] fix: selecting by big words or a word lost its
 selection

---
 clink/lib/src/rl/rl_commands.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index 3cc02f8..845c639 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1396,6 +1396,9 @@ void cua_after_command(bool force_clear)
         s_map.emplace(cua_forward_char);
         s_map.emplace(cua_backward_word);
         s_map.emplace(cua_forward_word);
+        s_map.emplace(cua_backward_bigword);
+        s_map.emplace(cua_forward_bigword);
+        s_map.emplace(cua_select_word);
         s_map.emplace(cua_beg_of_line);
         s_map.emplace(cua_end_of_line);
         s_map.emplace(cua_select_all);
-- 
2.43.0


From eb836ccfdd0a56106f25361ec0ba2b2095f878a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 074/128] fix: kill commands bound to key sequences or given an
 argument didn't join the kill before them

---
 readline/readline/callback.c | 13 ++++++++++---
 readline/readline/readline.c |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/readline/readline/callback.c b/readline/readline/callback.c
index f2d51b3..847e5f2 100644
--- a/readline/readline/callback.c
+++ b/readline/readline/callback.c
@@ -134,7 +134,7 @@ void
 rl_callback_read_char (void)
 {
   char *line;
-  int eof, jcode;
+  int eof, jcode, lk;
   static procenv_t olevel;
 
   if (rl_linefunc == NULL)
@@ -234,22 +234,29 @@ rl_callback_read_char (void)
 #endif
       else if (RL_ISSTATE (RL_STATE_NUMERICARG))
 	{
+	  lk = _rl_last_command_was_kill;
 	  eof = _rl_arg_callback (_rl_argcxt);
 	  if (eof == 0 && (RL_ISSTATE (RL_STATE_NUMERICARG) == 0) && RL_ISSTATE (RL_STATE_INPUTPENDING))
 	    rl_callback_read_char ();
-	  /* XXX - this should handle _rl_last_command_was_kill better */
 	  else if (RL_ISSTATE (RL_STATE_NUMERICARG) == 0)
-	    _rl_internal_char_cleanup ();
+	    {
+	      if (RL_ISSTATE (RL_STATE_MULTIKEY) == 0 && lk == _rl_last_command_was_kill)
+		_rl_last_command_was_kill = 0;
+	      _rl_internal_char_cleanup ();
+	    }
 
 	  CALLBACK_READ_RETURN ();
 	}
       else if (RL_ISSTATE (RL_STATE_MULTIKEY))
 	{
+	  lk = _rl_last_command_was_kill;
 	  eof = _rl_dispatch_callback (_rl_kscxt);	/* For now */
 	  while ((eof == -1 || eof == -2) && RL_ISSTATE (RL_STATE_MULTIKEY) && _rl_kscxt && (_rl_kscxt->flags & KSEQ_DISPATCHED))
 	    eof = _rl_dispatch_callback (_rl_kscxt);
 	  if (RL_ISSTATE (RL_STATE_MULTIKEY) == 0)
 	    {
+	      if (RL_ISSTATE (RL_STATE_NUMERICARG) == 0 && lk == _rl_last_command_was_kill)
+		_rl_last_command_was_kill = 0;
 /* begin_clink_change - _rl_internal_char_cleanup can trigger redisplay, so
    set _rl_want_redisplay beforehand instead of forcing another redisplay by
    setting _rl_want_redisplay afterwards. */
diff --git a/readline/readline/readline.c b/readline/readline/readline.c
index 84e4bf7..5671dea 100644
--- a/readline/readline/readline.c
+++ b/readline/readline/readline.c
@@ -786,7 +786,8 @@ readline_internal_charloop (void)
       /* If there was no change in _rl_last_command_was_kill, then no kill
 	 has taken place.  Note that if input is pending we are reading
 	 a prefix command, so nothing has changed yet. */
-      if (rl_pending_input == 0 && lk == _rl_last_command_was_kill)
+      if (rl_pending_input == 0 && lk == _rl_last_command_was_kill &&
+	  RL_ISSTATE (RL_STATE_MULTIKEY|RL_STATE_NUMERICARG) == 0)
 	_rl_last_command_was_kill = 0;
 
       _rl_internal_char_cleanup ();
-- 
2.43.0


From 4c07efe5560490b1164805e2ca6a75870ca4b16b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 075/128] fix: copying from the previous command (F1, F2, F3)
 aligned it by bytes instead of characters

---
 clink/lib/src/rl/rl_commands.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index 845c639..e040986 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1827,7 +1827,19 @@ static int32 adjust_point_point(int32& point, int32 target, char* buffer)
 #endif
 
     point = tmp;
-    return true;
+    return count;
+}
+
+//------------------------------------------------------------------------------
+// Finds the character in the previous command that's aligned with the cursor.
+static int32 get_aligned_point(char* prev_buffer)
+{
+    int32 line_point = 0;
+    const int32 count = adjust_point_point(line_point, rl_point, rl_line_buffer);
+
+    int32 prev_point = 0;
+    adjust_point_delta(prev_point, count, prev_buffer);
+    return prev_point;
 }
 
 //------------------------------------------------------------------------------
@@ -1971,8 +1983,7 @@ ding:
         return 0;
     }
 
-    int32 old_point = 0;
-    adjust_point_point(old_point, rl_point, prev_buffer);
+    const int32 old_point = get_aligned_point(prev_buffer);
     if (!prev_buffer[old_point])
         goto ding;
 
@@ -2014,8 +2025,7 @@ static int32 finish_win_f2()
     if (s_win_fn_input_buffer.empty())
         return 0;
 
-    int32 old_point = 0;
-    adjust_point_point(old_point, rl_point, prev_buffer);
+    const int32 old_point = get_aligned_point(prev_buffer);
     if (prev_buffer[old_point])
     {
         int32 end_point = old_point;
-- 
2.43.0


From d9a74e039fea9d27fc797149e47a4057eebb1523 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 076/128] fix: a mark left inside a multibyte character put the
 cursor there or split the character

---
 readline/readline/kill.c      |  2 ++
 readline/readline/rlprivate.h |  1 +
 readline/readline/text.c      | 20 ++++++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/readline/readline/kill.c b/readline/readline/kill.c
index 62c13a2..505afa1 100644
--- a/readline/readline/kill.c
+++ b/readline/readline/kill.c
@@ -449,6 +449,7 @@ region_kill_internal (int delete)
 {
   char *text;
 
+  _rl_align_mark ();
   if (rl_mark != rl_point)
     {
       text = rl_copy_text (rl_point, rl_mark);
@@ -475,6 +476,7 @@ rl_kill_region (int count, int key)
 {
   int r, npoint;
 
+  _rl_align_mark ();
   npoint = (rl_point < rl_mark) ? rl_point : rl_mark;
   r = region_kill_internal (1);
   rl_point = npoint;
diff --git a/readline/readline/rlprivate.h b/readline/readline/rlprivate.h
index 43aeef0..74210e8 100644
--- a/readline/readline/rlprivate.h
+++ b/readline/readline/rlprivate.h
@@ -515,6 +515,7 @@ extern void _rl_region_color_off (void);
 /* text.c */
 extern void _rl_fix_point (int);
 extern void _rl_fix_mark (void);
+extern void _rl_align_mark (void);
 extern int _rl_replace_text (const char *, int, int);
 extern int _rl_forward_char_internal (int);
 extern int _rl_backward_char_internal (int);
diff --git a/readline/readline/text.c b/readline/readline/text.c
index 77709b8..cf0d527 100644
--- a/readline/readline/text.c
+++ b/readline/readline/text.c
@@ -205,6 +205,25 @@ _rl_fix_point (int fix_mark_too)
     _RL_FIX_POINT (rl_mark);
 }
 
+/* Edits don't move the mark, so it can end up inside of a multibyte
+   character.  Move it to the end of the character. */
+void
+_rl_align_mark (void)
+{
+#if defined (HANDLE_MULTIBYTE)
+  if (MB_CUR_MAX > 1 && rl_byte_oriented == 0)
+    {
+      mbstate_t ps;
+      int adj;
+
+      memset (&ps, 0, sizeof (mbstate_t));
+      adj = _rl_adjust_point (rl_line_buffer, rl_mark, &ps);
+      if (adj > 0)
+	rl_mark += adj;
+    }
+#endif
+}
+
 void
 _rl_fix_mark (void)
 {
@@ -2023,6 +2042,7 @@ rl_exchange_point_and_mark (int count, int key)
     }
   else
     {
+      _rl_align_mark ();
       SWAP (rl_point, rl_mark);
       rl_activate_mark ();
     }
-- 
2.43.0


From 87e66e3d2b5570d59361ed6b7d83b03cb6a255a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 077/128] fix: undoing a case change that changed the length of
 the text corrupted the line

---
 readline/readline/text.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/readline/readline/text.c b/readline/readline/text.c
index cf0d527..3cdbbad 100644
--- a/readline/readline/text.c
+++ b/readline/readline/text.c
@@ -1582,6 +1582,7 @@ static int
 rl_change_case (int count, int op)
 {
   int start, next, end;
+  int begin, oend;
   int inword, nc, nop;
   WCHAR_T c;
   unsigned char uc;
@@ -1611,6 +1612,8 @@ rl_change_case (int count, int op)
 
   /* We are going to modify some text, so let's prepare to undo it. */
   rl_modifying (start, end);
+  begin = start;
+  oend = end;
 
   inword = 0;
   while (start < end)
@@ -1711,6 +1714,13 @@ change_singlebyte:
       start = next;
     }
 
+  /* Undo needs to remove what's there now. */
+  if (end != oend)
+    {
+      _rl_fix_last_undo_of_type (UNDO_INSERT, begin, end);
+      _rl_fix_mark ();
+    }
+
   rl_point = end;
   return 0;
 }
-- 
2.43.0


From 6cc1e4669ad30013737e11dec9ab3e2383640326 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 078/128] fix: kill-region at the end of the line joined the
 kill before it in the wrong order

---
 readline/readline/kill.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readline/readline/kill.c b/readline/readline/kill.c
index 505afa1..b874ad7 100644
--- a/readline/readline/kill.c
+++ b/readline/readline/kill.c
@@ -448,14 +448,16 @@ static int
 region_kill_internal (int delete)
 {
   char *text;
+  int append;
 
   _rl_align_mark ();
   if (rl_mark != rl_point)
     {
+      append = rl_point < rl_mark;	/* deleting can move the mark */
       text = rl_copy_text (rl_point, rl_mark);
       if (delete)
 	rl_delete_text (rl_point, rl_mark);
-      _rl_copy_to_kill_ring (text, rl_point < rl_mark);
+      _rl_copy_to_kill_ring (text, append);
     }
 
   _rl_fix_point (1);
-- 
2.43.0


From 5f521d2d8647f8d84884984c667bd3fbe2d00b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 079/128] fix: the cursor was placed past the right edge for a
 newline at the end of a full row

---
 clink/lib/src/display_readline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..b1eb977 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -604,8 +604,9 @@ void display_lines::parse(uint32 prompt_botlin, uint32 col, const char* buffer,
 
             if (index == rl_point)
             {
+                // The LF might be past the right edge of the terminal.
                 m_vpos = m_count - 1;
-                m_cpos = col;
+                m_cpos = min<uint32>(col, _rl_screenwidth - 1);
             }
 
             ++index;
-- 
2.43.0


From f516289928419dc260199a21370427f0bfc0cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 080/128] fix: horizontal scrolling could hide the cursor,
 split a character, or keep a stale offset

---
 clink/lib/src/display_readline.cpp | 46 +++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index b1eb977..127d014 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -754,6 +754,18 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
     m_width = _rl_screenwidth;
     m_horz_start = ref.m_horz_start;
 
+    // The horizontal scroll offset must be at the beginning of a whole
+    // character; the line may have changed since the last time.
+    auto align_horz_start = [&]()
+    {
+        wcwidth_iter whole(buffer, m_horz_start ? len : 0);
+        uint32 start = 0;
+        while (whole.next() && uint32(whole.get_pointer() - buffer) <= m_horz_start)
+            start = uint32(whole.get_pointer() - buffer);
+        m_horz_start = start;
+    };
+    align_horz_start();
+
     m_prompt_botlin = prompt_botlin;
     while (prompt_botlin--)
         next_line(0);
@@ -761,21 +773,33 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
     const int32 scroll_stride = _rl_screenwidth / 3;
     const int32 limit = _rl_screenwidth - c_horz_scroll_indicator_chars - 1; // `>` marker(s) and -1 for space.
 
+    // The prompt can be so wide that there is no room for any text after it.
+    auto is_point_visible = [&]()
+    {
+        const int32 range = limit - int32(m_horz_start ? c_horz_scroll_indicator_chars : col);
+        uint32 end = m_horz_start;
+        if (range <= 0)
+            return point <= end;
+        return !adjust_columns(end, range, buffer, len) || point < end;
+    };
+
     // Adjust horizontal scroll offset to ensure point is visible.
-    if (point < m_horz_start)
+    if (point < m_horz_start || !is_point_visible())
     {
+        const int32 stride = scroll_stride * (point < m_horz_start ? 1 : 2);
         m_horz_start = point;
-        adjust_columns(m_horz_start, 0 - scroll_stride, buffer, len);
-    }
-    else
-    {
-        const int32 range = limit - (m_horz_start ? 1 : col);
-        uint32 end = m_horz_start;
-        if (adjust_columns(end, range, buffer, len) && point >= end)
+        adjust_columns(m_horz_start, 0 - stride, buffer, len);
+        align_horz_start();
+
+        // Scroll past more characters until point is visible.
+        while (!is_point_visible())
         {
-            m_horz_start = point;
-            if (!adjust_columns(m_horz_start, 0 - scroll_stride*2, buffer, len))
-                m_horz_start++;
+            wcwidth_iter skip(buffer + m_horz_start, len - m_horz_start);
+            skip.next();
+            const uint32 next = uint32(skip.get_pointer() - buffer);
+            if (next <= m_horz_start || next > point)
+                break;
+            m_horz_start = next;
         }
     }
 
-- 
2.43.0


From e32f359c4219019b1bf4679b0ed758ed11fadabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 081/128] fix: horizontal scrolling split control characters
 and lost track of the text

---
 clink/lib/src/display_readline.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 127d014..a1bd243 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -868,25 +868,27 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
             continue;
         }
 
+        if (col + tmp.length() > limit)
+        {
+            overflow = true;
+            break;
+        }
+
         const char face = rl_get_face_func(index, hl_begin, hl_end);
 
         if (index == rl_point)
             m_cpos = col;
 
-        for (const char* add = tmp.c_str(); *add; ++add, ++index)
+        for (const char* add = tmp.c_str(); *add; ++add)
         {
-            if (col >= limit)
-                break;
-
             assert(*add >= 0 && *add <= 0x7f); // Only ASCII characters are generated.
             d->append(*add, face);
             ++col;
         }
 
-        assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
+        ++index;
 
-        if (col >= limit)
-            break;
+        assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
     }
 
     assert(uint32(iter.character_pointer() - buffer) == index);
-- 
2.43.0


From e1ba621818d9000c8e4075d31101ce64309210ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 082/128] fix: the scroll marker in place of a wide character
 shifted the rest of the row

---
 clink/lib/src/display_readline.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index a1bd243..013e1b3 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -957,14 +957,20 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     i++;
                 }
                 d.m_scroll_mark = c_horz_scroll_indicator_chars;
+                // Fill the rest of a wide character with spaces.
+                while (--wc > 0)
+                {
+                    d.m_chars[i] = ' ';
+                    d.m_faces[i] = FACE_NORMAL;
+                    bytes--;
+                    i++;
+                }
                 if (bytes > 0)
                 {
                     memmove(d.m_chars + i, d.m_chars + i + bytes, d.m_len - (i + bytes));
                     memmove(d.m_faces + i, d.m_faces + i + bytes, d.m_len - (i + bytes));
                     d.m_len -= bytes;
                 }
-                while (--wc > 0)
-                    d.appendspace();
                 d.appendnul();
                 break;
             }
-- 
2.43.0


From c771384c4411352a1fadb3fe8239b6aa7bb40f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 083/128] fix: the scroll marker at the bottom could split a
 character or wrap

---
 clink/lib/src/display_readline.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 013e1b3..0f59436 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -987,12 +987,23 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
         if (d.m_lastcol - d.m_x > 2)
         {
             d.m_len -= d.m_trail;
-            while (d.m_x + d.m_lastcol + c_horz_scroll_indicator_chars >= _rl_screenwidth)
+            d.m_trail = 0;
+
+            // Remove whole characters until the scroll marker fits.
+            uint32 cols = 0;
+            const uint32 avail = max<int32>(0, _rl_screenwidth - d.m_x - c_horz_scroll_indicator_chars - 1);
+            wcwidth_iter iter_bottom(d.m_chars, d.m_len);
+            while (iter_bottom.next())
             {
-                const int32 bytes = _rl_find_prev_mbchar(d.m_chars, d.m_len, MB_FIND_NONZERO);
-                d.m_lastcol -= clink_wcswidth(d.m_chars + bytes, d.m_len - bytes);
-                d.m_len = bytes;
+                const uint32 wc = iter_bottom.character_wcwidth_onectrl();
+                if (cols + wc > avail)
+                {
+                    d.m_len = uint32(iter_bottom.character_pointer() - d.m_chars);
+                    break;
+                }
+                cols += wc;
             }
+            d.m_lastcol = cols;
 
             while (d.m_x + d.m_lastcol + c_horz_scroll_indicator_chars + 1 < _rl_screenwidth)
             {
-- 
2.43.0


From 810134365dee923d955b60d984b642aa2560cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 084/128] fix: vertical scrolling was wrong when the prompt
 wraps onto several rows

---
 clink/lib/src/display_readline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 0f59436..234826f 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2011,15 +2011,15 @@ void display_manager::display()
     const uint32 old_top = m_top;
     if (m_top < m_last_prompt_line_botlin)
         m_top = m_last_prompt_line_botlin;
-    if (m_last_prompt_line_botlin + next->vpos() < m_top)
-        m_top = m_last_prompt_line_botlin + next->vpos();
-    if (m_last_prompt_line_botlin + next->vpos() > m_top + input_botlin_offset)
+    if (next->vpos() < m_top)
+        m_top = next->vpos();
+    if (next->vpos() > m_top + input_botlin_offset)
         m_top = next->vpos() - input_botlin_offset;
     if (m_top + input_botlin_offset + 1 > next->count())
         m_top = next->count() - 1 - input_botlin_offset;
 
     // Scroll when cursor is on a scroll marker.
-    if (m_top > m_last_prompt_line_botlin && m_top == m_last_prompt_line_botlin + next->vpos())
+    if (m_top > m_last_prompt_line_botlin && m_top == next->vpos())
     {
         const display_line* d = next->get(m_top);
         if (next->cpos() >= d->m_x && next->cpos() < d->m_x + c_horz_scroll_indicator_chars)
-- 
2.43.0


From 879293a97ede59788ae61f91a74b240079406e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 085/128] fix: the cursor could be on the space after the
 scroll marker

---
 clink/lib/src/display_readline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 234826f..e2d310e 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2027,7 +2027,8 @@ void display_manager::display()
     }
     else if (m_top + input_botlin_offset < next->count() - 1 && m_top + input_botlin_offset == next->vpos())
     {
-        if (next->cpos() + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
+        // The marker(s) are followed by a space.
+        if (next->cpos() + c_horz_scroll_indicator_chars + 1 >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
             m_top++;
     }
     assert(m_top >= m_last_prompt_line_botlin);
-- 
2.43.0


From 5ae03fd0493e4adb1d7d27b22206970fd005f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 086/128] fix: erasing the right side prompt could erase part
 of the new prompt

---
 clink/lib/src/display_readline.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index e2d310e..6dcb20e 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2042,6 +2042,11 @@ void display_manager::display()
     if (need_update && !m_horz_scroll)
         update_next->apply_scroll_markers(m_top, m_top + input_botlin_offset);
 
+    // If the right side prompt is shown but shouldn't be, erase it.  This must
+    // happen before displaying the prompt, which may reach where it is shown.
+    if (need_update && _rl_rprompt_shown_len && !next->can_show_rprompt())
+        print_rprompt(nullptr);
+
     // Display the last line of the prompt.
     const bool old_horz_scrolled = m_curr.is_horz_scrolled();
     const bool is_horz_scrolled = next->is_horz_scrolled();
@@ -2121,10 +2126,7 @@ void display_manager::display()
     bool clear_suggestion_list = false;
     if (need_update)
     {
-        // If the right side prompt is shown but shouldn't be, erase it.
         can_show_rprompt = next->can_show_rprompt();
-        if (_rl_rprompt_shown_len && !can_show_rprompt)
-            print_rprompt(nullptr);
 
         // Erase old comment row if its row changes.
         if (*m_curr.get_comment_row() && new_botlin != old_botlin)
-- 
2.43.0


From 1e0f63ff19079b3440ded01cce65c945c0024a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 087/128] fix: the prompt was not displayed again when the
 input line is scrolled

---
 clink/lib/src/display_readline.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 6dcb20e..0dff86b 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2050,9 +2050,8 @@ void display_manager::display()
     // Display the last line of the prompt.
     const bool old_horz_scrolled = m_curr.is_horz_scrolled();
     const bool is_horz_scrolled = next->is_horz_scrolled();
-    if (m_top == m_last_prompt_line_botlin && (forced_display ||
-                                               old_top != m_top ||
-                                               old_horz_scrolled != is_horz_scrolled))
+    if (forced_display || (m_top == m_last_prompt_line_botlin && (old_top != m_top ||
+                                                                  old_horz_scrolled != is_horz_scrolled)))
     {
         assert(need_update); // See is_CJK_codepage usage below...
 
-- 
2.43.0


From d29bdf29683c0af1038ac3c1ba319ecc7c551e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 088/128] fix: moving below the input line scrolled the
 terminal when the input line fills it

---
 clink/lib/src/display_readline.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 0dff86b..7251067 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2234,9 +2234,14 @@ void display_manager::display()
         }
     }
 
-    if (m_curr.has_comment_row() != next->has_comment_row() ||
-        strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
-        new_botlin != old_botlin)
+    // If there is no comment row then avoid moving below the input line, since
+    // the input line might occupy the full height of the terminal (and if the
+    // row for the comment row changed, then it has already been erased).
+    if (next->has_comment_row() ?
+        (!m_curr.has_comment_row() ||
+         strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
+         new_botlin != old_botlin) :
+        (m_curr.has_comment_row() && new_botlin == old_botlin))
     {
         bool reset_col = false;
 
-- 
2.43.0


From f094d1bcfbca6306885aa2d63d5f166228c8b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 089/128] fix: shifting the input line also shifted the right
 side prompt

---
 clink/lib/src/display_readline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 7251067..36bd400 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2562,7 +2562,9 @@ void display_manager::update_line(int32 i, const display_line* o, const display_
     // Optimize updating when the new starting column is less than or equal to
     // the old starting column.  Can't optimize in the other direction unless
     // update_line(0) happens before displaying the prompt string.
-    if (!m_horizpos_workaround && o && d->m_x <= o->m_x && can_optimize)
+    // And can't shift the old text if that would also shift a right side prompt.
+    const bool shift_left = (o && d->m_x < o->m_x && !has_rprompt);
+    if (!m_horizpos_workaround && o && (d->m_x == o->m_x || shift_left) && can_optimize)
     {
         const char* oc = o->m_chars;
         const char* of = o->m_faces;
@@ -2743,7 +2745,7 @@ left_whole:
 
     move_to_row(row);
 
-    if (o && o->m_x > d->m_x)
+    if (shift_left)
     {
         move_to_column(d->m_x);
         shift_cols(d->m_x, d->m_x - o->m_x);
-- 
2.43.0


From 0016d94b3569b229b70278e4606590c0dac845c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 090/128] fix: replacing text with spaces could erase the text
 after it

---
 clink/lib/src/display_readline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 36bd400..42759fa 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2691,8 +2691,8 @@ left_whole:
                         use_eol_opt = false;
                         break;
                     }
-                    --ec;
-                    --ef;
+                    ++ec;
+                    ++ef;
                 }
             }
 
-- 
2.43.0


From 7f71d5ae5939dc4aed14213fa18c4b56296762e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 091/128] fix: displaying the input line again erased the right
 side prompt

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 42759fa..af90e62 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2762,7 +2762,7 @@ left_whole:
     assertimplies(d->m_scroll_mark < 0, _rl_last_c_pos < _rl_screenwidth);
 
     // Clear anything leftover from o.
-    const uint32 lastcol = (o ? o->m_lastcol : _rl_screenwidth);
+    const uint32 lastcol = (o ? o->m_lastcol : _rl_screenwidth - (has_rprompt ? _rl_rprompt_shown_len : 0));
     if (d->m_lastcol < lastcol)
     {
         if (use_eol_opt)
-- 
2.43.0


From 193db1caaafa3ab14a93032165b66fced9189d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 092/128] fix: an input line that reaches the right edge could
 clear the wrong text

---
 clink/lib/src/display_readline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index af90e62..a1385eb 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2769,7 +2769,8 @@ left_whole:
         {
             // Using _rl_screenwidth is more accurate than lastcol, because
             // the escape code clears to the screen width.
-            clear_to_eol(_rl_screenwidth - rcol);
+            if (rcol < _rl_screenwidth)
+                clear_to_eol(_rl_screenwidth - rcol);
         }
         else
         {
-- 
2.43.0


From a7a6e6045af067b45dd815343b6905ec0777c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 093/128] fix: erasing old text with spaces could wrap onto the
 next row

---
 clink/lib/src/display_readline.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index a1385eb..3add759 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2780,11 +2780,20 @@ left_whole:
 
             move_to_column(d->m_lastcol);
 
-            str<> tmp;
-            make_spaces(erase_cols, tmp);
+            if (!m_horizpos_workaround && !has_rprompt)
+            {
+                // Spaces could reach the right edge of the terminal, which
+                // would wrap onto the next row.
+                clear_to_eol(_rl_screenwidth - d->m_lastcol);
+            }
+            else
+            {
+                str<> tmp;
+                make_spaces(erase_cols, tmp);
 
-            rl_fwrite_function(_rl_out_stream, tmp.c_str(), tmp.length());
-            _rl_last_c_pos += erase_cols;
+                rl_fwrite_function(_rl_out_stream, tmp.c_str(), tmp.length());
+                _rl_last_c_pos += erase_cols;
+            }
         }
     }
 
-- 
2.43.0


From c1a485b2dcd9cbd2ac5824ed9db45fd63818bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 094/128] fix: finishing a pending wrap used the wrong row when
 the prompt wraps

---
 clink/lib/src/display_readline.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 3add759..ea251bd 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -3042,9 +3042,8 @@ void display_manager::finish_pending_wrap()
 
     // If there's a display_line, then re-print its first character to force
     // wrapping.  Otherwise, print a placeholder.
-    const int32 index = m_pending_wrap_display->top() +  _rl_last_v_pos;
-    assert(index >= 0);
-    if (index < m_pending_wrap_display->count())
+    const int32 index = m_pending_wrap_display->top() + _rl_last_v_pos - m_last_prompt_line_botlin;
+    if (index >= 0 && index < m_pending_wrap_display->count())
     {
         const display_line& d = *m_pending_wrap_display->get(index);
 
-- 
2.43.0


From 7ce6af521d29f52f6445bfa9b9ea6c6f58357ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 095/128] fix: a selection stayed highlighted after
 redraw-current-line and clear-screen

---
 clink/lib/src/rl/rl_commands.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index e040986..cd1c7a9 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1426,7 +1426,12 @@ void cua_after_command(bool force_clear)
 
     // If not a recognized command, clear the cua selection.
     if (force_clear || s_map.find((void*)rl_last_func) == s_map.end())
-        cua_clear_selection();
+    {
+        // If the command already displayed the selection then it must be
+        // displayed again without the selection.
+        if (cua_clear_selection())
+            rl_display_fixed = 0;
+    }
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 9ac1ac3926182c7694bebacb2f37309141b8a51e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 096/128] fix: an edit of a recalled history line could be lost
 when moving to another line

---
 readline/readline/misc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 614428f..13e9c51 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -381,7 +381,14 @@ _rl_maybe_replace_line (int clear_undo)
 
   temp = current_history ();
   /* If the current line has changed, save the changes. */
-  if (temp && ((UNDO_LIST *)(temp->data) != rl_undo_list))
+/* begin_clink_change
+ * The undo list can be the same even though the line has changed, because
+ * consecutive insertions extend the most recent undo entry.
+ */
+  //if (temp && ((UNDO_LIST *)(temp->data) != rl_undo_list))
+  if (temp && ((UNDO_LIST *)(temp->data) != rl_undo_list ||
+	       strcmp (temp->line, rl_line_buffer) != 0))
+/* end_clink_change */
     {
       temp = replace_history_entry (where_history (), rl_line_buffer, (histdata_t)rl_undo_list);
       xfree (temp->line);
-- 
2.43.0


From 8ec84fc88ee21fe754a05a89d705f27f1ea6407f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 097/128] fix: displaying a wide prompt again could overwrite
 the right side prompt

---
 clink/lib/src/display_readline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index ea251bd..30c4de8 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2044,7 +2044,9 @@ void display_manager::display()
 
     // If the right side prompt is shown but shouldn't be, erase it.  This must
     // happen before displaying the prompt, which may reach where it is shown.
-    if (need_update && _rl_rprompt_shown_len && !next->can_show_rprompt())
+    if (need_update && _rl_rprompt_shown_len &&
+        (!next->can_show_rprompt() ||
+         m_last_prompt_line_width + _rl_rprompt_shown_len > _rl_screenwidth))
         print_rprompt(nullptr);
 
     // Display the last line of the prompt.
-- 
2.43.0


From f0aef2f0f15b85810a9fa3759232d26d637cf6fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 098/128] fix: scrolling with a prompt that exactly fills its
 rows displayed the text over the prompt

---
 clink/lib/src/display_readline.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 30c4de8..2bc6acc 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1550,6 +1550,7 @@ private:
     str_moveable        m_last_prompt_line;
     int32               m_last_prompt_line_width = -1;
     int32               m_last_prompt_line_botlin = -1;
+    bool                m_last_prompt_force_wrap = false;
     int32               m_last_point = -1;
     bool                m_last_modmark = false;
     bool                m_horz_scroll = false;
@@ -1621,6 +1622,7 @@ void display_manager::clear()
     m_last_prompt_line.clear();
     m_last_prompt_line_width = -1;
     m_last_prompt_line_botlin = -1;
+    m_last_prompt_force_wrap = false;
     m_last_point = -1;
     m_last_modmark = false;
     m_horz_scroll = false;
@@ -1965,14 +1967,13 @@ void display_manager::display()
 
     // Calculate ending row and column, accounting for wrapping (including
     // double width characters that don't fit).
-    bool force_wrap = false;
     if (forced_display)
     {
         measure_columns mc(measure_columns::print);
         if (modmark)
             mc.measure("*", true);
         mc.measure(prompt, true);
-        force_wrap = mc.get_force_wrap();
+        m_last_prompt_force_wrap = mc.get_force_wrap();
         m_last_prompt_line_width = mc.get_column();
         m_last_prompt_line_botlin = mc.get_line_count() - 1;
     }
@@ -2080,7 +2081,7 @@ void display_manager::display()
 
         rl_fwrite_function(_rl_out_stream, prompt, strlen(prompt));
 
-        m_pending_wrap = force_wrap;
+        m_pending_wrap = m_last_prompt_force_wrap;
 
         if (is_CJK_codepage(GetConsoleOutputCP()))
         {
-- 
2.43.0


From 7a34204a6783524205b2e2c3e1443d3619147e15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 099/128] fix: previous-history at the first history line lost
 the undo list

---
 readline/readline/misc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 13e9c51..d6a0904 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -789,6 +789,13 @@ rl_get_previous_history (int count, int key)
   if (r == 0 && had_saved_line == 0)	/* failed to find previous history */
     _rl_free_saved_history_line ();
 
+/* begin_clink_change
+ * Still on the same line, so keep using the undo list that was saved into its
+ * history entry. */
+  if (r == 0 && rl_undo_list == 0 && current_history ())
+    rl_undo_list = (UNDO_LIST *)current_history ()->data;
+/* end_clink_change */
+
   return 0;
 }
 
-- 
2.43.0


From c21b5ae275107f683e9c291aa5e2a345a010119b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 100/128] fix: an incremental search that starts on an edited
 history line lost its undo list

---
 readline/readline/isearch.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/readline/readline/isearch.c b/readline/readline/isearch.c
index cbc5afc..5f2b7bb 100644
--- a/readline/readline/isearch.c
+++ b/readline/readline/isearch.c
@@ -296,11 +296,26 @@ _rl_isearch_init (int direction)
   return cxt;
 }
 
+/* begin_clink_change */
+/* Initializing the search saved the undo list of an edited history line into
+   its history entry. */
+static void
+restore_undo_list (void)
+{
+  HIST_ENTRY *entry = current_history ();
+  if (entry && rl_undo_list == 0)
+    rl_undo_list = (UNDO_LIST *)entry->data;
+}
+/* end_clink_change */
+
 static void
 _rl_isearch_fini (_rl_search_cxt *cxt)
 {
   /* First put back the original state. */
   rl_replace_line (cxt->lines[cxt->save_line], 0);
+/* begin_clink_change */
+  restore_undo_list ();
+/* end_clink_change */
 
   rl_restore_prompt ();
 
@@ -666,6 +681,9 @@ opcode_dispatch:
 
     case -4:	/* C-G, abort */
       rl_replace_line (cxt->lines[cxt->save_line], 0);
+/* begin_clink_change */
+      restore_undo_list ();
+/* end_clink_change */
       rl_point = cxt->save_point;
       rl_mark = cxt->save_mark;
       rl_deactivate_mark ();
-- 
2.43.0


From 22bdb9070b90d53808155541c39d12ada2214f97 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 101/128] fix: comparing caselessly advanced the second text by
 the length of the first text's character

---
 readline/readline/mbutil.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/readline/readline/mbutil.c b/readline/readline/mbutil.c
index 203a83d..8a4e24a 100644
--- a/readline/readline/mbutil.c
+++ b/readline/readline/mbutil.c
@@ -623,13 +623,22 @@ _rl_mb_strcaseeqn (const char *s1, size_t l1, const char *s2, size_t l2, size_t
 	    return 0;
 	  s1++;
 	  s2++;
+/* begin_clink_change */
+	  l1--;
+	  l2--;
+/* end_clink_change */
 	  n--;
 	  continue;
  	}
       wc1 = towlower(wc1);
       wc2 = towlower(wc2);
       s1 += v1;
-      s2 += v1;
+/* begin_clink_change */
+      //s2 += v1;
+      s2 += v2;
+      l1 -= v1;
+      l2 -= v2;
+/* end_clink_change */
       n -= v1;
       if ((flags & 1) && (wc1 == L'-' || wc1 == L'_') && (wc2 == L'-' || wc2 == L'_'))
 	continue;
-- 
2.43.0


From 676193f207fe1a6bf4f63dd6962c6170ba78757a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 102/128] fix: a caseless incremental search missed text in a
 line as short as the search text

---
 readline/readline/isearch.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/readline/readline/isearch.c b/readline/readline/isearch.c
index 5f2b7bb..660e776 100644
--- a/readline/readline/isearch.c
+++ b/readline/readline/isearch.c
@@ -841,7 +841,10 @@ opcode_dispatch:
 		found = _rl_mb_strcaseeqn (cxt->search_string,
 					   cxt->search_string_index,
 					   cxt->sline + cxt->sline_index,
-					   limit,
+/* begin_clink_change */
+					   //limit,
+					   cxt->sline_len - cxt->sline_index,
+/* end_clink_change */
 					   cxt->search_string_index, 0);
 	      else
 		found = _rl_strnicmp (cxt->search_string,
-- 
2.43.0


From 4712600b041718e2855061b57cddb0ec43de40c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 103/128] fix: a failed history search could put the cursor
 inside a multibyte character

---
 readline/readline/search.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/readline/readline/search.c b/readline/readline/search.c
index ad6ff3e..5a1e868 100644
--- a/readline/readline/search.c
+++ b/readline/readline/search.c
@@ -763,6 +763,11 @@ rl_history_search_internal (int count, int dir)
       rl_point = _rl_history_search_len;	/* _rl_unsave_line changes it */
       rl_mark = rl_end;				/* XXX */
 /* begin_clink_change */
+      /* The line may be one that an earlier search found, and the search text
+         doesn't necessarily start it. */
+      _rl_fix_point (0);
+      while (rl_point > 0 && (rl_line_buffer[rl_point] & 0xc0) == 0x80)
+	rl_point--;
       rl_maybe_swap_point_and_mark ();
 /* end_clink_change */
 #endif
-- 
2.43.0


From 60d16edb09f930aa663e3b1c5271f0af4a6a09eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 104/128] fix: comparing caselessly in a history search
 advanced the second text by the length of the first text's character

---
 readline/readline/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/search.c b/readline/readline/search.c
index 5a1e868..a657ca3 100644
--- a/readline/readline/search.c
+++ b/readline/readline/search.c
@@ -168,7 +168,7 @@ find_streqn (const char *a, const char *b, int len)
 	  if (wc1 != wc2)
 	    return 0;
 	  a += v1;
-	  b += v1;
+	  b += v2;
 	  len -= v1;
 	  lenb -= v2;
 	}
-- 
2.43.0


From 0820eb446024df4edf9553ab73266bdeecd92a10 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 105/128] fix: a closing parenthesis inside an open quote is
 part of the word ('(cmd "a)')

---
 clink/lib/src/cmd_tokenisers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 39d4fcb..085e817 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -480,7 +480,8 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
     }
 
     length = uint32(m_iter.get_pointer() - m_start);
-    length = trim_trailing_parens(m_start, offset, length, parens);
+    if (!in_quote)
+        length = trim_trailing_parens(m_start, offset, length, parens);
     assert(length >= offset);
     length -= offset;
 
-- 
2.43.0


From be5147b83e8308bfc182308426a25217b7365219 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 106/128] fix: typing a non-ASCII character in
 clink-select-complete canceled it and inserted the character in front of the
 selected match

---
 clink/lib/src/selectcomplete_impl.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/selectcomplete_impl.cpp b/clink/lib/src/selectcomplete_impl.cpp
index 128d526..84d9528 100644
--- a/clink/lib/src/selectcomplete_impl.cpp
+++ b/clink/lib/src/selectcomplete_impl.cpp
@@ -452,6 +452,18 @@ void selectcomplete_impl::on_need_input(int32& bind_group)
 {
 }
 
+//------------------------------------------------------------------------------
+static bool is_last_char_partial(const char* text, uint32 length)
+{
+    for (uint32 trailing = 0; trailing < 3 && trailing < length; ++trailing)
+    {
+        const uint8 c = text[length - 1 - trailing];
+        if ((c & 0xc0) != 0x80)
+            return trailing < uint32((c >= 0xf0) ? 3 : (c >= 0xe0) ? 2 : (c >= 0xc0) ? 1 : 0);
+    }
+    return false;
+}
+
 //------------------------------------------------------------------------------
 void selectcomplete_impl::on_input(const input& input, result& result, const context& context)
 {
@@ -958,7 +970,7 @@ append_not_dup:
                 auto len = input.len;
                 for (const char* seq = input.keys; len-- > 0; ++seq)
                 {
-                    if (*seq < ' ' || *seq == 0x7f)
+                    if (uint8(*seq) < ' ' || *seq == 0x7f)
                     {
                         cancel(result, true/*can_reactivate*/);
                         result.pass();
@@ -971,6 +983,9 @@ append_not_dup:
             // Insert the text.
 append_to_needle:
             m_needle.concat(input.keys, input.len);
+            // Each byte of a UTF8 character arrives as separate input.
+            if (is_last_char_partial(m_needle.c_str(), m_needle.length()))
+                break;
 update_needle:
             reset_top();
             insert_needle();
-- 
2.43.0


From 8f80471efa679a702f094cd4cd9baca3f32a4679 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 107/128] fix: clink-select-complete left the quote it inserted
 open when text follows the cursor or a directory is inserted with Space

---
 clink/lib/src/selectcomplete_impl.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/selectcomplete_impl.cpp b/clink/lib/src/selectcomplete_impl.cpp
index 84d9528..63369f3 100644
--- a/clink/lib/src/selectcomplete_impl.cpp
+++ b/clink/lib/src/selectcomplete_impl.cpp
@@ -2022,10 +2022,12 @@ void selectcomplete_impl::insert_match(int32 final)
 
             // Add closing quote if a typed or inserted opening quote is present
             // but no closing quote is present.
-            if (!m_quoted &&
-                m_anchor > 0 &&
-                rl_completion_found_quote &&
-                rl_completion_quote_character)
+            bool need_close;
+            if (m_quoted)
+                need_close = (cursor > 0 && m_buffer->get_buffer()[cursor - 1] != qs[0]);
+            else
+                need_close = (m_anchor > 0 && rl_completion_found_quote && rl_completion_quote_character);
+            if (need_close)
             {
                 // Remove a preceding backslash unless it is preceded by colon.
                 // Because programs compiled with MSVC treat `\"` as an escape.
@@ -2046,11 +2048,13 @@ void selectcomplete_impl::insert_match(int32 final)
                 {
                     m_buffer->remove(cursor - 1, cursor);
                     cursor--;
+                    m_buffer->set_cursor(cursor);
                     removed_dir_mark = true;
                 }
 
-                qs[0] = rl_completion_quote_character;
-                if (m_buffer->get_buffer()[cursor] != qs[0])
+                if (!m_quoted)
+                    qs[0] = rl_completion_quote_character;
+                if (m_quoted || m_buffer->get_buffer()[cursor] != qs[0])
                     m_buffer->insert(qs);
                 else if (append_space)
                     m_buffer->set_cursor(++cursor);
-- 
2.43.0


From 1fbff53af76a55d989c318789008fd2b07af5c52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 108/128] fix: unicode.isnormalized returned the error code of
 an earlier, unrelated system call

---
 clink/lua/src/unicode_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lua/src/unicode_api.cpp b/clink/lua/src/unicode_api.cpp
index 1f4f1ea..20148e9 100644
--- a/clink/lua/src/unicode_api.cpp
+++ b/clink/lua/src/unicode_api.cpp
@@ -241,6 +241,7 @@ static int32 isnormalized(lua_State* state)
     }
 
     wstr_moveable in(text);
+    SetLastError(ERROR_SUCCESS);
     BOOL ret = s_normaliz.IsNormalizedString(norm, in.c_str(), in.length());
     DWORD err = GetLastError();
 
-- 
2.43.0


From 520eb33657fea313a8afaceb0cee3722c5643037 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 109/128] fix: path.fnmatch crashed when a text was missing

---
 clink/lua/src/path_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/path_api.cpp b/clink/lua/src/path_api.cpp
index cc55674..a3935c6 100644
--- a/clink/lua/src/path_api.cpp
+++ b/clink/lua/src/path_api.cpp
@@ -312,6 +312,8 @@ static int32 api_fnmatch(lua_State* state)
     const char* pattern = checkstring(state, 1);
     const char* string = checkstring(state, 2);
     const char* flags = optstring(state, 3, "");
+    if (!pattern || !string || !flags)
+        return 0;
 
     int32 bits = WM_CASEFOLD|WM_SLASHFOLD;
     for (; *flags; ++flags)
-- 
2.43.0


From 0162752d30b8433089a11040d9e9806f728078a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 110/128] fix: addargunsorted failed for a new argument
 position

---
 clink/lua/scripts/arguments.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 41269a1..27bc3eb 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1390,9 +1390,9 @@ end
 --- This is the same as <a href="#_argmatcher:addarg">_argmatcher:addarg</a>
 --- except that this disables sorting the matches.
 function _argmatcher:addargunsorted(...)
-    local list = self._args[self._nextargindex]
+    local index = self._nextargindex
     self:addarg(...)
-    list.nosort = true
+    self._args[index].nosort = true
     return self
 end
 
-- 
2.43.0


From ec62b24389d301fb032619777a23f9b87612d0f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 111/128] fix: adding a linked flag failed after hideflags

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 27bc3eb..dfafe60 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1478,7 +1478,7 @@ end
 --- works in <a href="#_argmatcher:addarg">_argmatcher:addarg()</a> as well).
 function _argmatcher:hideflags(...)
     local flag_matcher = self._flags or _argmatcher()
-    local args = flag_matcher._args[1] or {}
+    local args = flag_matcher._args[1] or { _links = {} }
     local list = args.hidden or {}
 
     flag_matcher:_hide(list, {...})
-- 
2.43.0


From 25526aa75819a3126d26deac1f2ccd21e9779544 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 112/128] fix: a flag given as a table with a match field did
 not count as a flag prefix

---
 clink/lua/scripts/arguments.lua | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index dfafe60..43f2d3f 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1229,6 +1229,9 @@ end
 
 --------------------------------------------------------------------------------
 local function add_prefix(prefixes, string)
+    if type(string) == "table" then
+        string = string.match
+    end
     if string and type(string) == "string" then
         local prefix = string:sub(1, 1)
         if prefix:len() > 0 then
-- 
2.43.0


From 2b460478a6f493773af2f7f5db8eba9b986bfb44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 113/128] fix: completion counted redirections as arguments

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 43f2d3f..869a2e5 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -487,7 +487,7 @@ function _argreader:next_word(always_last_word)
 
     local last_word = self._last_word or false
     local info = ls:getwordinfo(word_index)
-    if info.redir and not always_last_word then
+    if info.redir and not (always_last_word and last_word) then
         goto retry
     end
 
-- 
2.43.0


From 4675773ec5804e326c9d7818e9d3dd3601b8d8ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 114/128] fix: a flag after a redirection was not recognized as
 the next word after an argument

---
 clink/lua/scripts/arguments.lua | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 869a2e5..d5a9b9d 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -618,6 +618,17 @@ function _argreader:start_chained_command(word_index, mode, expand_aliases, hint
     self._word_index = 2
 end
 
+--------------------------------------------------------------------------------
+-- Returns the next word and its index, skipping redirections.
+local function peek_next_word(line_state, word_index)
+    local count = line_state:getwordcount()
+    local next_index = word_index + 1
+    while next_index <= count and line_state:getwordinfo(next_index).redir do
+        next_index = next_index + 1
+    end
+    return next_index <= count and line_state:getword(next_index) or "", next_index
+end
+
 --------------------------------------------------------------------------------
 -- When self._extra isn't nil, skip classifying the word.  This only happens
 -- when parsing extra words from expanding a doskey alias, or from an inline
@@ -703,7 +714,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
                 end
                 if skip_word then
                     if is_flag then
-                        local next_is_flag = matcher:_is_flag(line_state:getword(word_index + 1))
+                        local next_is_flag = matcher:_is_flag((peek_next_word(line_state, word_index)))
                         self:_pop(next_is_flag)
                     end
                     return
@@ -780,8 +791,8 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
         self._noflags = true
     elseif not self._noflags then
         -- Don't treat a flag prefix character by itself as a flag unless it's in the end word.
-        local next_word = line_state:getword(word_index + 1)
-        next_is_flag = matcher:_is_flag(next_word) and (next_word:byte(2) or word_index + 1 == line_state:getwordcount()) and true or nil
+        local next_word, next_word_index = peek_next_word(line_state, word_index)
+        next_is_flag = matcher:_is_flag(next_word) and (next_word:byte(2) or next_word_index == line_state:getwordcount()) and true or nil
     end
 
     -- Update matcher after possible _push.
-- 
2.43.0


From 7a70115357a0fb2ddf856a57e0a71ad46c37ba27 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 115/128] fix: returning to a nofiles argmatcher that has run
 out of arguments gave it the argument position of the linked argmatcher

---
 clink/lua/scripts/arguments.lua | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index d5a9b9d..35eb100 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1134,11 +1134,13 @@ function _argreader:_pop(next_is_flag)
         return false
     end
 
+    local popped = false
     while #self._stack > 0 do
         if self._matcher and self._matcher._no_file_generation then
             -- :nofiles() dead-ends the parser.
-            return false
+            return popped
         end
+        popped = true
 
         -- Since self._arginfo can be nil, the extents of the table must now
         -- be specified explicitly (..., 1, 6).
-- 
2.43.0


From 0bc20a7918b943b40167017a4f02e8bf6f0b8b91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 116/128] fix: autorun failed an assertion when the AutoRun
 value is empty (debug build)

---
 clink/app/src/loader/autorun.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index b5d4ba5..05a947b 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -174,7 +174,6 @@ static int32 get_value(HKEY key, const char* _name, char** _buffer)
         {
             // len is the buffer size, so find the string length.
             len = int32(strlen(out));
-            assert(len);
             *_buffer = out;
             out = nullptr;
         }
-- 
2.43.0


From 4f700460c883ccf666cc1985047c916c045153f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 117/128] fix: autorun install and uninstall removed other
 commands before an unquoted clink entry

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 05a947b..c0b78fe 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -258,7 +258,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
             // Check if clink's path is quoted.  Checking the needle makes
             // sure not to get tricked by a false positive from something else
             // later on in the value.
-            quoted = !!strchr(needles[i], ' ');
+            quoted = !!strchr(needles[i], '"');
             break;
         }
     }
-- 
2.43.0


From c01ba54c912435616f5e4e7d29a0b27f028862b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 118/128] fix: autorun install and uninstall removed only one
 of several clink entries

---
 clink/app/src/loader/autorun.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index c0b78fe..cc22a1c 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -334,17 +334,19 @@ static const char* get_cmd_start(const char* cmd)
 static bool uninstall_autorun_from_key(HKEY cmd_proc_key, const char* clink_path)
 {
     bool ret = true;
+    bool found = false;
 
     char* key_value = nullptr;
     get_value(cmd_proc_key, "AutoRun", &key_value);
 
     int32 left, right;
-    if (key_value && find_clink_entry(key_value, &left, &right, clink_path))
+    while (key_value && find_clink_entry(key_value, &left, &right, clink_path))
     {
         const char* read;
         char* write;
         int32 i, n;
 
+        found = true;
         s_was_installed = true;
 
         // Copy the key value into itself, skipping clink's entry.
@@ -358,8 +360,11 @@ static bool uninstall_autorun_from_key(HKEY cmd_proc_key, const char* clink_path
 
             ++read;
         }
+    }
 
-        read = get_cmd_start(key_value);
+    if (found)
+    {
+        const char* read = get_cmd_start(key_value);
         if (*read == '\0')
         {
             // Empty key. We might as well delete it.
-- 
2.43.0


From 946012e85e8b4d918a00bf0c5ec5b9683c0fd331 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 119/128] fix: autorun uninstall left the rest of a clink entry
 whose quoted argument contains '&'

---
 clink/app/src/loader/autorun.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index cc22a1c..0a537ee 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -266,12 +266,15 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
     if (tag == nullptr)
         return false;
 
-    // Find right most extents of clink's entry.
-    c = strchr(tag, '&');
-    if (c != nullptr)
-        *right = (int32)(c - value);
-    else
-        *right = (int32)strlen(value);
+    // Find right most extents of clink's entry.  Start after the end quote of
+    // clink's path, and ignore separators inside quotes.
+    int32 in_quotes = false;
+    for (c = tag + strlen(needles[i]); *c && (in_quotes || *c != '&'); ++c)
+    {
+        if (*c == '\"')
+            in_quotes = !in_quotes;
+    }
+    *right = (int32)(c - value);
 
     // When enumerating users, only respond to entries referencing /this/
     // instance of clink.
-- 
2.43.0


From 099017d8c80017a2714015a33c385896f2e46b7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 120/128] fix: autorun install cut off long arguments

---
 clink/app/src/loader/autorun.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 0a537ee..a4ac215 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -450,6 +450,7 @@ static bool install_autorun(const char* clink_path, int32 wow64)
     get_value(cmd_proc_key, "AutoRun", &key_value);
 
     i = key_value ? (int32)strlen(key_value) : 0;
+    i += int32(strlen(clink_path)) + g_clink_args.length();
     i += 2048;
     str_base new_value((char*)malloc(i), i);
     new_value.clear();
-- 
2.43.0


From 54dea0151b0ea9eaad2badca7b5474ac02a4c904 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 121/128] fix: autorun show returned an exit code of 1 when it
 succeeds

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index a4ac215..7c2d851 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -659,7 +659,7 @@ int32 autorun(int32 argc, char** argv)
         }
 
         if (show)
-            return show_autorun();
+            return !show_autorun();
     }
 
     // Get path where clink is installed (assumed to be where this executable is)
-- 
2.43.0


From 37b424e85997003dbc13b2b0e7e3ce87bf2c5b23 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 122/128] fix: autorun uninstall --enumusers missed an unquoted
 clink entry directly after '&'

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 7c2d851..300d0f2 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -282,7 +282,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
     {
         i = quoted ? '\"' : ' ';
         c = tag;
-        while (c > value && c[-1] != i)
+        while (c > value && c[-1] != i && (quoted || c[-1] != '&'))
             --c;
 
         str<> lower_entry;
-- 
2.43.0


From c07423ec575046056f607f1e073eb5bba3ee1276 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 123/128] fix: a command that begins with a slash is one word
 also after a redirection ('2>&1 /x/y')

---
 clink/lib/src/cmd_tokenisers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 085e817..fc17980 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -609,6 +609,8 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
                 if (!m_iter.more() && !redir_arg)
                     return word_token(word_token::invalid_delim);
                 c = m_iter.peek();
+                first_char = true;
+                first_slash = (c == '/');
                 input = get_input_type(c);
                 new_state = c_transition[state][input];
                 if (new_state == sBREAK) // 'rem' can lead to this.
-- 
2.43.0


From b1e2334cdb5d21efb8e6b3bb08d1d31c8a498647 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 124/128] fix: 'history add' and 'history expand' took options
 from within the text ('history add git log --bare')

---
 clink/app/src/loader/history.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clink/app/src/loader/history.cpp b/clink/app/src/loader/history.cpp
index 4ad892c..11b694f 100644
--- a/clink/app/src/loader/history.cpp
+++ b/clink/app/src/loader/history.cpp
@@ -455,8 +455,20 @@ int32 history(int32 argc, char** argv)
     // Check to see if the user asked from some help!
     bool bare = false;
     bool uniq = false;
+    bool text = false;
     for (int32 i = 1; i < argc; ++i)
     {
+        // The text for 'add' and 'expand' is taken verbatim, once it begins.
+        if (text && argv[i][0] != '-')
+            break;
+        if (!text && (argv[i][0] != '-' || argv[i][1] != '-'))
+        {
+            text = (_stricmp(argv[i], "add") == 0 || _stricmp(argv[i], "expand") == 0 ||
+                    strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "-p") == 0);
+            if (text)
+                continue;
+        }
+
         if (is_flag(argv[i], "--help", 3) || is_flag(argv[i], "-h") || is_flag(argv[i], "-?"))
             return print_help(), 0;
 
-- 
2.43.0


From 4cd3cfe0df5b61e3a1f2d52a40539e4799672c54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:34:40 +0000
Subject: [PATCH 125/128] fix: a time format set again was appended to the one
 before ('history --time-format x --time-format y')

---
 clink/lib/src/history_timeformatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/history_timeformatter.cpp b/clink/lib/src/history_timeformatter.cpp
index 736446d..7cbf10d 100644
--- a/clink/lib/src/history_timeformatter.cpp
+++ b/clink/lib/src/history_timeformatter.cpp
@@ -62,6 +62,7 @@ history_timeformatter::~history_timeformatter()
 //------------------------------------------------------------------------------
 void history_timeformatter::set_timeformat(const char* timeformat, bool for_popup)
 {
+    m_timeformat.clear();
     if (m_plaintext)
         ecma48_processor(timeformat, &m_timeformat, nullptr, ecma48_processor_flags::plaintext);
     else
-- 
2.43.0


From cd088dd079cd8b85a461b137b938bd43a7f1f96f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 126/128] fix: 'history N' listed the wrong lines when N
 doesn't fit in 32 bits

---
 clink/app/src/loader/history.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clink/app/src/loader/history.cpp b/clink/app/src/loader/history.cpp
index 11b694f..193bd46 100644
--- a/clink/app/src/loader/history.cpp
+++ b/clink/app/src/loader/history.cpp
@@ -234,8 +234,11 @@ static bool print_history(const char* arg, bool bare)
     {
         if (*c < '0' || *c > '9')
             return false;
-        tail_count *= 10;
-        tail_count += uint8(*c) - '0';
+        const uint32 digit = uint8(*c) - '0';
+        if (tail_count > (UINT_MAX - digit) / 10)
+            tail_count = UINT_MAX;
+        else
+            tail_count = tail_count * 10 + digit;
     }
 
     print_history(tail_count, bare);
-- 
2.43.0


From b4c0ebbbe2b2ca98bd09a488cc0e9a10a5936394 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 127/128] fix: 'set history_file_lines clear' failed with an
 empty number

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 7b58287..35537cc 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -467,7 +467,7 @@ bool migrate_setting(const char* name, const char* value, std::vector<setting_na
         if (!disable)
         {
             if (x > 0)
-                out.emplace_back("history.max_lines", value);
+                out.emplace_back("history.max_lines", value ? value : "2500");
             else if (x == 0)
                 out.emplace_back("history.max_lines", "0"); // Unlimited.
             else
-- 
2.43.0


From 8b0ab11f43a7eb32425a254ba25cbd3397d3d8f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 128/128] fix: autorun install after a value that ends with '&'
 made clink depend on the command before it ('foo&' gave 'foo&&clink')

---
 clink/app/src/loader/autorun.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 300d0f2..e4f4929 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -457,7 +457,19 @@ static bool install_autorun(const char* clink_path, int32 wow64)
 
     // Build the new autorun entry by appending clink's entry to the current one.
     if (key_value != nullptr && *key_value != '\0')
-        new_value << key_value << "&";
+    {
+        // Discard dangling separators; "foo&" and "&" would make "foo&&".
+        for (int32 end = (int32)strlen(key_value); end > 0; --end)
+        {
+            if (key_value[end - 1] == '&' && (end < 2 || key_value[end - 2] != '^'))
+                key_value[end - 1] = '\0';
+            else if (!isspace((uint8)key_value[end - 1]))
+                break;
+        }
+
+        if (*key_value)
+            new_value << key_value << "&";
+    }
     new_value << "\"" << clink_path << "\\clink.bat\" inject --autorun";
 
     if (!g_clink_args.empty())
-- 
2.43.0

