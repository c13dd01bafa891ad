From fa376b8597a868b6672b0f4df39ea8f80b12ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 01/36] fix: x * (0:n) accepts every count up to n, not only 0
 and n

---
 nessaid_cli/compiler.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..3673170 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -219,18 +219,13 @@ class NessaidCliParser(NessaidCliParserCommon):
                 term.position = 0
                 t[0].repeat_count = min_count
             return
-        elif min_count == 0:
+        optional = min_count == 0
+        if optional:
+            min_count = 1
             if max_count == 1:
                 t[0] = OptionalInputElement((term,))
                 term.parent = t[0]
-            else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
-            return
+                return
 
         term_copy = term.copy()
         if min_count == 1:
@@ -249,7 +244,10 @@ class NessaidCliParser(NessaidCliParserCommon):
         opt_block.parent = block_2
         opt_block.position = 0
 
-        t[0] = SequenceInputElement((block_1, block_2))
+        if optional:
+            t[0] = OptionalInputElement((block_1, block_2))
+        else:
+            t[0] = SequenceInputElement((block_1, block_2))
         block_1.parent = t[0]
         block_2.parent = t[0]
 
-- 
2.43.0


From c89eb33b988c1eb27299278594b91ae4e0132658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 02/36] fix: an optional block around a repetition keeps the
 repetition

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 3673170..692eeef 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -275,7 +275,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From 7c6e790b559ac998dad141082670a1888a6b6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 03/36] fix: dec returns its argument minus one

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..8cd5c52 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -502,7 +502,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From 2788fef33dbf51c8d70a20b0a7e5e08a0bbaa4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 04/36] fix: RangedIntToken matches and completes negative
 numbers

---
 nessaid_cli/tokens.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..9509fbc 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -290,7 +290,7 @@ class RangedIntToken(CliToken):
 
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            if match_string[match_string.startswith("-"):].isnumeric():
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -387,13 +387,13 @@ class RangedIntToken(CliToken):
                 if self._start >= 0:
                     return 0, []
                 if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
+                    comp_args = [1, -self._start, 0]
                 else:
                     comp_args = [-self._end, -self._start, 0]
                 n, comps = await self._complete(*comp_args)
                 if n > 0 and not comps:
                     return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
+                return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
                 if count > 10:
@@ -405,12 +405,12 @@ class RangedIntToken(CliToken):
                 if count > self._max_suggestions:
                     comps = []
                 else:
-                    comps = list(range(self._start, self._end + 1))
+                    comps = [str(n) for n in range(self._start, self._end + 1)]
                 return count, comps
 
             else:
                 try:
-                    if token_input.isnumeric():
+                    if token_input[token_input.startswith("-"):].isnumeric():
                         number = int(token_input)
                     else:
                         return 0, []
-- 
2.43.0


From 0960b672286532ed9e65c5dbd46b0185cf570e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 05/36] fix: typing 0 for a RangedIntToken completes to 0 only,
 not to the whole range

---
 nessaid_cli/tokens.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 9509fbc..60acbe4 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -417,9 +417,12 @@ class RangedIntToken(CliToken):
                 except Exception:
                     return 0, []
 
-                if number < 0 or token_input.startswith("-"):
-                    if number == 0 and self._start == 0:
+                if number == 0:
+                    if self._start <= 0 and self._end >= 0:
                         return 1, ["0"]
+                    return 0, []
+
+                if number < 0:
                     if self._start >= 0:
                         return 0, []
                     if self._end >= 0:
-- 
2.43.0


From f7961ab68a77996c1c82ecba325cd848d0d257bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 06/36] fix: convert_to_cli_string quotes and escapes strings
 containing a backslash

---
 nessaid_cli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..b8c9f4a 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -75,7 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
+    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
         if python_string.startswith('"'):
             python_string = python_string[1:]
-- 
2.43.0


From a471f864a978993c082a6024a30df37e0fbe349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 07/36] fix: a single > inside an action block no longer fails
 to compile

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 692eeef..548cb0c 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -98,7 +98,7 @@ class NessaidCliLexer(NessaidCliLexerCommon):
         return t
 
     def t_BINDING_BOUND_CONTENT(self, t):
-        r'([^>\\])+'
+        r'([^>\\]|>(?!>))+'
         self.update_counters(t)
         return t
 
-- 
2.43.0


From cff5b094d6038a82b3cd97c1aac0938e80cf4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 08/36] fix: an empty command file no longer blocks the lines
 of the file that opened it

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..b61ad21 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -460,7 +460,8 @@ class NessaidCli(CliInterface):
         try:
             with open(filename) as fd:
                 lines = [l.rstrip() for l in fd.readlines()]
-                self.file_data.append(lines)
+                if lines:
+                    self.file_data.append(lines)
         except Exception as e:
             self.error("Exception processing input file:", filename, type(e), e)
 
-- 
2.43.0


From 05461474d116eb47177b75e173d7a8a2089ecc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 09/36] fix: exec_args escapes quotes, backslashes, tabs and
 newlines in its arguments

---
 nessaid_cli/cmd.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index cfb8208..57e62ad 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -20,6 +20,7 @@ import tracemalloc
 from datetime import datetime
 
 from nessaid_cli.compiler import compile_grammar
+from nessaid_cli.utils import convert_to_cli_string
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
 from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
 
@@ -376,18 +377,9 @@ class NessaidCmd(NessaidCli):
 
     def exec_args(self, *args):
         modified_args = []
-        chars_to_check = [" "]
         for arg in args:
-            if not (arg.startswith('"') and arg.endswith('"')):
-                need_quoting = False
-                for c in chars_to_check:
-                    if arg.strip():
-                        if c in arg:
-                            need_quoting = True
-                            break
-                if need_quoting:
-                    modified_args.append('"' + arg + '"')
-                    continue
+            if arg.strip() and not (arg.startswith('"') and arg.endswith('"')):
+                arg = convert_to_cli_string(arg)
             modified_args.append(arg)
 
         args = modified_args
-- 
2.43.0


From 362dec9b044ef6d45cc738b19d94a34374335428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 10/36] fix: the string cache no longer confuses quoted and
 plain text that look the same

---
 nessaid_cli/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index b8c9f4a..23d2630 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -39,8 +39,14 @@ class ExtendedString(str):
 
 def convert_to_python_string(cli_string, cli=None):
 
-    if cli and cli_string in cli.str_cache:
-        return cli.str_cache[cli_string]
+    cache_key = (
+        cli_string,
+        getattr(cli_string, "quoted", False),
+        getattr(cli_string, "quote_incomplete", False)
+    )
+
+    if cli and cache_key in cli.str_cache:
+        return cli.str_cache[cache_key]
 
     converted_str = cli_string
 
@@ -69,7 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
         converted_str = "\\".join(converted_parts)
 
     if cli:
-        cli.cache_string(cli_string, converted_str)
+        cli.cache_string(cache_key, converted_str)
 
     return converted_str
 
-- 
2.43.0


From 535ca9311b714116d66c38189d33c6f51611ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 11/36] fix: PathToken values are not cached across changes of
 the file system

---
 nessaid_cli/tokens.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 60acbe4..a5c64c1 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -571,6 +571,10 @@ class PathToken(StringToken):
         self._is_windows = None
         super().__init__(name, cli=cli, helpstring=helpstring)
 
+    @property
+    def cacheable(self):
+        return False
+
     def get_drives(self):
         drives = []
         if self.is_windows:
-- 
2.43.0


From 417b74a319066283806149405fa15ba696c8eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 12/36] fix: an incomplete rule no longer makes a complete
 match ambiguous or replaces it

---
 nessaid_cli/interface.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 8cd5c52..0dfcaf1 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -826,9 +826,11 @@ class CliInterface(StdStreamsHolder):
                     return res
 
                 prompt_choices = set()
+                complete_sequences = []
 
                 for matching_sequence in matching_sequences:
                     choices = set()
+                    complete = False
                     try:
                         self._matched_values = []
                         i = 0
@@ -842,7 +844,7 @@ class CliInterface(StdStreamsHolder):
                         print("Exception getting matched values:", type(e), e, file=self._stderr)
                     last_token = matching_sequence[-1]
                     if last_token == EndOfInpuToken:
-                        seq_complete = True
+                        complete = True
                     else:
                         if (not token_list) and (not last_token_complete):
                             choices.add(last_token)
@@ -850,9 +852,12 @@ class CliInterface(StdStreamsHolder):
                             nexts = last_token.next()
                             for c in nexts:
                                 if c == EndOfInpuToken:
-                                    seq_complete = True
+                                    complete = True
                                 else:
                                     choices.add(c)
+                    if complete:
+                        seq_complete = True
+                        complete_sequences.append(matching_sequence)
                     matching_seq_choices.append(choices)
                     prompt_choices = prompt_choices.union(choices)
 
@@ -875,6 +880,9 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if seq_complete:
+                            matching_sequences = complete_sequences
+
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From ac01fe11e5bf54ca5297d486a4b12465537a90bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 13/36] fix: a number matches its range token also when other
 tokens match the word

---
 nessaid_cli/interface.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 0dfcaf1..a836356 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -775,15 +775,14 @@ class CliInterface(StdStreamsHolder):
                 for p in partial_matches:
                     token = self.get_token(p[-1].name)
                     if token.completable:
-                        if completion:
+                        _n, comps = await self.complete_token(token, cur_token_input) # noqa
+                        if comps:
                             if dry_run and not token_list and not last_token_complete:
                                 self.append_matching_sequence(matching_sequences, p)
                             elif len(completion) == 1:
-                                _n, comps = await self.complete_token(token, cur_token_input) # noqa
-                                if len(comps) == 1:
-                                    val = await self.get_token_value(token, cur_token_input)
-                                    if val is not NullTokenValue:
-                                        self.append_matching_sequence(matching_sequences, p)
+                                val = await self.get_token_value(token, cur_token_input)
+                                if val is not NullTokenValue:
+                                    self.append_matching_sequence(matching_sequences, p)
                             elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
                                 self.append_matching_sequence(matching_sequences, p)
                             else:
@@ -796,7 +795,7 @@ class CliInterface(StdStreamsHolder):
                                 return res
                         elif dry_run and not token_list and not last_token_complete:
                             self.append_matching_sequence(matching_sequences, p)
-                        elif len(partial_matches) == 1:
+                        else:
                             v = await self.get_token_value(token, cur_token_input)
                             if v is not NullTokenValue:
                                 self.append_matching_sequence(matching_sequences, p)
-- 
2.43.0


From f282093cd7e5e71cbade3df0d238492c4a3dd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 14/36] fix: an empty number input lists completions up to the
 suggestion limit, not up to ten

---
 nessaid_cli/tokens.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index a5c64c1..9d353f4 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -396,9 +396,7 @@ class RangedIntToken(CliToken):
                 return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
-                if count > 10:
-                    return count, []
-                elif count == 1:
+                if count == 1:
                     return 1, [str(self._start)]
                 elif count == 0:
                     return 0, []
-- 
2.43.0


From 260c9f9213bb9f34e01ac6e18f5c7eea2792f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 15/36] fix: repeated slashes in a path no longer end the path
 lookup early

---
 nessaid_cli/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 9d353f4..ecaab2d 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -751,7 +751,7 @@ class PathToken(StringToken):
 
             segment = segments.pop(0)
             if segment == "":
-                break
+                continue
 
             p.has_dir_completion = False
 
-- 
2.43.0


From c9a2f4d83a9d3138fe90cef180466aac670f0692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 16/36] fix: convert_to_cli_string keeps a double quote at only
 one end of the text

---
 nessaid_cli/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index 23d2630..a045f00 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -83,10 +83,8 @@ def convert_to_python_string(cli_string, cli=None):
 def convert_to_cli_string(python_string):
     if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
-        if python_string.startswith('"'):
-            python_string = python_string[1:]
-        if python_string.endswith('"'):
-            python_string = python_string[:-1]
+        if len(python_string) > 1 and python_string.startswith('"') and python_string.endswith('"'):
+            python_string = python_string[1:-1]
 
         parts = python_string.split("\\")
         converted_parts = []
-- 
2.43.0


From 0f18bcfb235f1d16db1537f8b55aceb087b98fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 17/36] fix: exec_args keeps a lone double quote or line break
 as the text of its argument

---
 nessaid_cli/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 57e62ad..bcff73b 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -378,7 +378,7 @@ class NessaidCmd(NessaidCli):
     def exec_args(self, *args):
         modified_args = []
         for arg in args:
-            if arg.strip() and not (arg.startswith('"') and arg.endswith('"')):
+            if arg.strip(" \t") and not (len(arg) > 1 and arg.startswith('"') and arg.endswith('"')):
                 arg = convert_to_cli_string(arg)
             modified_args.append(arg)
 
-- 
2.43.0


From 22315a01b0a1509dbc2b671f79d881eea8afc4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 18/36] fix: a nested context hands a line it cannot complete
 to the parent that can execute it

---
 nessaid_cli/cmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index bcff73b..937272e 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -20,6 +20,7 @@ import tracemalloc
 from datetime import datetime
 
 from nessaid_cli.compiler import compile_grammar
+from nessaid_cli.elements import EndOfInpuToken
 from nessaid_cli.utils import convert_to_cli_string
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
 from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
@@ -461,7 +462,8 @@ class NessaidCmd(NessaidCli):
                 if parent_resp.result == MATCH_FAILURE:
                     parent_resp = None
             elif resp.result in [MATCH_PARTIAL, MATCH_AMBIGUOUS]:
-                if parent_resp.result != MATCH_SUCCESS:
+                # A dry run never reports success: the parent can execute the line if it may end here
+                if parent_resp.result != MATCH_SUCCESS and (dry_run or EndOfInpuToken not in parent_resp.next_tokens):
                     parent_resp = None
 
             if parent_resp is not None:
-- 
2.43.0


From 5a51a66eac719535280c8a7d771d0fe1195281e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 19/36] fix: a context entered by a command handed over from
 the initial nested context is run

---
 nessaid_cli/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index b61ad21..1b3a4a2 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -504,14 +504,15 @@ class NessaidCli(CliInterface):
             while self.child_cli:
                 child_cli = self.child_cli
                 try:
-                    await child_cli.context_loop()
+                    try:
+                        await child_cli.context_loop()
+                    finally:
+                        self.child_cli = None
                 except ChildCliExitException as e:
                     match_output = await self.match(
                         e.token_list, dry_run=e.dry_run,
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
-                finally:
-                    self.child_cli = None
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From 21bd655ae8225ff202d04153034b425d2aa9169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 20/36] fix: assigning one variable to another copies its value

The assignment kept a reference, so a later assignment to either variable changed
both, and even the matched token value; $x = $x recursed without end.
---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index a836356..5fea193 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -247,6 +247,8 @@ class ExecContext():
 
                     if lhs:
                         rhs = await self.resolve_argument(block.rhs)
+                        if isinstance(rhs, BindingVariable):
+                            rhs = rhs.value
                         lhs.assign(rhs)
 
                 elif isinstance(block, BindingCall):
-- 
2.43.0


From a028a1fbf9893ddd96608f8c9351a7ec24cfb111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 21/36] fix: typed text is decoded once, before actions use it

Words collected by a block reached handlers undecoded, while keywords and
choices containing backslashes, and texts returned by a called function, were
decoded a second time.
---
 nessaid_cli/interface.py | 10 ++++++----
 nessaid_cli/tokens.py    |  8 ++++----
 nessaid_cli/utils.py     |  9 +++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 5fea193..2861149 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -39,6 +39,7 @@ from nessaid_cli.binding_parser.binding_objects import (
     NamedVariable,
     TokenVariable,
     BindingVariable,
+    BindingStrObject,
     AssignmentStatement,
 )
 
@@ -215,6 +216,8 @@ class ExecContext():
             arglist = [await self.evaluate(arg) for arg in argument.arglist]
             call_res = await self._interface.execute_binding_call(ext_fn, True, *arglist)
             return call_res
+        elif type(argument) == BindingStrObject:
+            return convert_to_python_string(str(argument), cli=self._interface)
         return argument
 
     async def evaluate(self, arg):
@@ -223,9 +226,6 @@ class ExecContext():
             res = res_arg.value
         else:
             res = res_arg
-
-        if isinstance(res, str):
-            res = convert_to_python_string(str(res), cli=self._interface)
         return res
 
     async def execute_binding(self, binding_code):
@@ -578,7 +578,9 @@ class CliInterface(StdStreamsHolder):
     async def execute_success_sequence(self, matched_sequence, match_values, arglist):
 
         exec_context = ExecContext(self, self.current_grammar, arglist, self._stop_index)
-        token_values = match_values.copy()
+        token_values = [
+            convert_to_python_string(str(v), cli=self) if isinstance(v, str) else v for v in match_values
+        ]
         sequence_copy = matched_sequence.copy()
 
         m = sequence_copy.pop(0)
diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index ecaab2d..6ba02a0 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -13,7 +13,7 @@ from pathlib import Path
 
 from nessaid_cli.utils import (
     convert_to_cli_string,
-    convert_to_python_string
+    remove_quotes
 )
 
 
@@ -101,12 +101,12 @@ class CliToken():
         if self.completable:
             _, completions = await self.complete(match_string, cli=cli)
             if len(completions) == 1:
-                return convert_to_python_string(completions[0], cli=cli)
+                return remove_quotes(completions[0])
             elif await self.match(match_string, cli=cli) == MATCH_SUCCESS:
-                return convert_to_python_string(match_string, cli=cli)
+                return remove_quotes(match_string)
         else:
             if await self.match(match_string, cli=cli) == MATCH_SUCCESS:
-                return convert_to_python_string(match_string, cli=cli)
+                return remove_quotes(match_string)
         return NullTokenValue
 
     async def get_helpstring(self, match_string=None, cli=None): # noqa
diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index a045f00..c795918 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -37,6 +37,15 @@ class ExtendedString(str):
         return str(self)
 
 
+def remove_quotes(cli_string):
+    text = str(cli_string)
+    if text.startswith('"'):
+        text = text[1:]
+    if text.endswith('"'):
+        text = text[:-1]
+    return text
+
+
 def convert_to_python_string(cli_string, cli=None):
 
     cache_key = (
-- 
2.43.0


From 0ab29f6169dc65c65d235221c5b026e79da4a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 22/36] fix: a name that begins with call, True, False or None
 is one name in an action

---
 .../binding_parser/binding_text_parser.py     | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..e89a24f 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -27,21 +27,17 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
 
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
-    def t_TRUE(self, t):
-        "True"
+    def t_IDENTIFIER(self, t):
+        r'[A-Za-z_][-a-zA-Z0-9_]*'
+        t.type = NessaidCliBindingLexer.KEYWORD_TOKENS.get(t.value, t.type)
         return t
 
-    def t_FALSE(self, t):
-        "False"
-        return t
-
-    def t_NONE(self, t):
-        "None"
-        return t
-
-    def t_CALL(self, t):
-        "call"
-        return t
+    KEYWORD_TOKENS = {
+        "call": 'CALL',
+        "True": 'TRUE',
+        "False": 'FALSE',
+        "None": 'NONE',
+    }
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
         # Build the lexer
-- 
2.43.0


From 76f7cb25f19d1024d1310d31c5970b052c1b0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 23/36] fix: an action with stray tokens is refused, and the
 syntax error names the token

---
 nessaid_cli/binding_parser/binding_text_parser.py | 2 +-
 nessaid_cli/compiler.py                           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index e89a24f..464185f 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -195,7 +195,7 @@ class NessaidCliBindingParser(NessaidCliParserCommon):
                         | quoted_split_string
                         | eof"""
         print("Syntax error (Unused token)")
-        pass
+        self.p_error(t.slice[1])
 
     def __init__(self, filename="", starting_lineno=1, stdin=None, stdout=None, stderr=None):
         self._filename = filename
diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 548cb0c..c653361 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -691,7 +691,7 @@ class NessaidCliParser(NessaidCliParserCommon):
                         | QUOTED_INCOMPLETE_STR
                         | quoted_split_string"""
         print("Syntax error (Unused token)")
-        self.p_error(t)
+        self.p_error(t.slice[1])
 
     def parse(self, input_str):
         self.lexer.enter_state(NessaidCliLexer.INITIAL_STATE)
-- 
2.43.0


From 91e7a06d75c7b70fca67acb671709f6ae8edbd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 24/36] fix: alternatives that refer to the same grammar are
 not taken for one reading of the line

---
 nessaid_cli/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 2861149..b95b127 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -938,8 +938,8 @@ class CliInterface(StdStreamsHolder):
                 matching_sequences = []
 
     def check_orderless_set_elements(self, tokens):
-        elements = set([t.node.element for t in tokens])
-        return True if len(elements) == 1 else False
+        paths = set([t.node.path for t in tokens])
+        return True if len(paths) == 1 else False
 
     def append_matching_sequence(self, matching_sequences, match):
         for seq in matching_sequences:
-- 
2.43.0


From 6890b21e5688a603c556f08477a21187ce88c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 25/36] fix: a backslash at the end of a line inside an action
 no longer fails to compile

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index c653361..1017687 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -103,7 +103,7 @@ class NessaidCliLexer(NessaidCliLexerCommon):
         return t
 
     def t_BINDING_ESCAPED_CHAR(self, t):
-        r'\\(.)'
+        r'\\(.|\n)'
         self.update_counters(t)
         return t
 
-- 
2.43.0


From 108f7c762edc07602c8e37226f5fd84831a00d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 26/36] fix: TAB does not insert the help text of a free-form
 token

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index b95b127..d80e2f2 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -149,7 +149,7 @@ class ParsingResult():
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-        elif cur_input:
+        elif cur_input and all([t.completion for t in self.next_tokens]):
             common_prefix = self.common_prefix(self.next_tokens)
             if common_prefix:
                 self.last_token = (cur_input, common_prefix)
-- 
2.43.0


From cb43b18c58764c89da41b20a48e5ae2c5a5f39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 27/36] fix: TAB does not take a blank inside an open quote for
 the end of the word

---
 nessaid_cli/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 1b3a4a2..634fe72 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -217,7 +217,7 @@ class NessaidCli(CliInterface):
             self._readline._input_prompt = self.prompt
             return None
 
-        TOKEN_SEPARATORS = [" "]
+        TOKEN_SEPARATORS = [" ", "\t"]
         DEFAULT_SEPARATOR = " "
 
         if state != 0:
@@ -240,7 +240,7 @@ class NessaidCli(CliInterface):
             self.set_completion_tokens(["Exception tokenizing input line: {}: {}".format(type(e), e)])
             return None
 
-        if line and line[-1] in TOKEN_SEPARATORS:
+        if line and line[-1] in TOKEN_SEPARATORS and not (tokens and str(tokens[-1]).endswith(line[-1])):
             last_token_complete = True
         else:
             last_token_complete = False
@@ -294,12 +294,12 @@ class NessaidCli(CliInterface):
                                     self._suggestion_shown = False
                                     return None
                         elif match_output.next_constant_token and match_output.next_constant_token == tok_input:
-                            if line and line[-1] not in TOKEN_SEPARATORS:
+                            if not last_token_complete:
                                 await self._readline.insert_text(DEFAULT_SEPARATOR)
                                 self._suggestion_shown = False
                                 return None
                 elif match_output.next_constant_token:
-                    if line and line[-1] in TOKEN_SEPARATORS:
+                    if last_token_complete:
                         if line == self._current_line:
                             await self._readline.insert_text(match_output.next_constant_token)
                             self._suggestion_shown = False
-- 
2.43.0


From 655cc75adad957f172581b993e7f0f633b9c2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 28/36] fix: on_exit of a nested context runs once when it
 hands a line over to its parent

---
 nessaid_cli/cmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 937272e..a550b9e 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -470,7 +470,6 @@ class NessaidCmd(NessaidCli):
                 if dry_run:
                     return parent_resp
                 else:
-                    await self.on_exit()
                     raise ChildCliExitException(
                         tok_list=tok_list, dry_run=dry_run,
                         last_token_complete=last_token_complete, arglist=arglist
-- 
2.43.0


From 919cdb3e57cdaea45ec68f3226678b2c2daaa433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:16 +0000
Subject: [PATCH 29/36] fix: a keyword is offered beside a free-form token
 whose help text reads the same

---
 nessaid_cli/interface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index d80e2f2..0e5e55d 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -124,6 +124,7 @@ class ParsingResult():
         add_EOI = False
         tokens = list(tokens)
         next_tokens = set()
+        help_tokens = set() # shown as help only, never equal to a completion of the same text
         self.last_token = None
         self.case_insensitive = False
 
@@ -133,7 +134,7 @@ class ParsingResult():
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
-                        next_tokens.add(TokenCompletion(None, helpstring))
+                        help_tokens.add(TokenCompletion(None, helpstring))
                     else:
                         if t.case_insensitive:
                             self.case_insensitive = True
@@ -141,11 +142,11 @@ class ParsingResult():
                             h = await t.get_helpstring(str(c), cli=cli)
                             next_tokens.add(TokenCompletion(str(c), h))
                 else:
-                    next_tokens.add(TokenCompletion(None, helpstring))
+                    help_tokens.add(TokenCompletion(None, helpstring))
             else:
                 add_EOI = True
 
-        self.next_tokens = list(next_tokens)
+        self.next_tokens = list(next_tokens) + list(help_tokens)
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-- 
2.43.0


From d82a209d3d26f446b1d0cf961b3eb3c63fcf5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:46 +0000
Subject: [PATCH 30/36] fix: a command that runs another line keeps the matched
 values of its own

---
 nessaid_cli/cli.py       | 5 +++++
 nessaid_cli/interface.py | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 634fe72..4bd95da 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -426,6 +426,8 @@ class NessaidCli(CliInterface):
             self.error("\n")
             return 11
 
+        executing, matched_values = self.executing, self._matched_values
+
         try:
             arglist = []
             input_tokens = [str(t) for t in tokens]
@@ -440,6 +442,9 @@ class NessaidCli(CliInterface):
             traceback.print_tb(e.__traceback__, file=self.stderr)
             self.error("\n")
             return 13
+        finally:
+            if executing: # The command that ran this line goes on with the values of its own line
+                self._matched_values = matched_values
 
     async def cli_exec_init(self):
         if not self._exec_inited:
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 0e5e55d..931b4e0 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -380,7 +380,7 @@ class CliInterface(StdStreamsHolder):
         self._str_cache_size = str_cache_size
         self._token_value_cache_size = token_value_cache_size
 
-        self._executing = False
+        self._executing = 0 # Lines being executed: a command may run further ones
 
     @property
     def loop(self):
@@ -388,7 +388,7 @@ class CliInterface(StdStreamsHolder):
 
     @property
     def executing(self):
-        return self._executing
+        return self._executing > 0
 
     @property
     def current_grammar(self):
@@ -902,11 +902,11 @@ class CliInterface(StdStreamsHolder):
                                     self._matched_values.append(match_value)
                                     tok_index += 1
                                 res.matched_values = match_values
+                                self._executing += 1
                                 try:
-                                    self._executing = True
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
-                                    self._executing = False
+                                    self._executing -= 1
                                 arglen = len(arglist)
                                 for i in range(arglen):
                                     arglist[i] = root_arglist.pop(0)
-- 
2.43.0


From cb41d32dfcca4996d8a20230a19d3d9dd74ee16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:37 +0000
Subject: [PATCH 31/36] fix: named arguments of a token definition reach the
 class by name

---
 nessaid_cli/elements.py  | 16 +++++++++++++++-
 nessaid_cli/interface.py |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 81f4f8c..7750e44 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -489,7 +489,17 @@ class TokenClassDef():
 
     def __init__(self, classname, arglist):
         self._classname = classname
-        self._arglist = [arg.value for arg in arglist]
+        self._arglist = []
+        self._kwargs = {}
+        for arg in arglist:
+            if arg.param_name is not None:
+                if arg.param_name in self._kwargs:
+                    raise ArgumentError("Param {} got more than one argument".format(arg.param_name))
+                self._kwargs[arg.param_name] = arg.value
+            elif self._kwargs:
+                raise ArgumentError("Positional argument should not follow keyword argument")
+            else:
+                self._arglist.append(arg.value)
 
     @property
     def classname(self):
@@ -499,6 +509,10 @@ class TokenClassDef():
     def arglist(self):
         return self._arglist
 
+    @property
+    def kwargs(self):
+        return self._kwargs
+
 
 class GrammarSpecification:
 
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 931b4e0..63ab85c 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -453,7 +453,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in self._token_class_map:
                     try:
                         self._tokens[(name, helpstring)] = self._token_class_map[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
@@ -462,7 +462,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in _globals:
                     try:
                         self._tokens[(name, helpstring)] =  _globals[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
-- 
2.43.0


From e005ececc90ed216539591e7f58ebefeafbd056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:55 +0000
Subject: [PATCH 32/36] fix: show the help text the grammar gives for a path
 token

---
 nessaid_cli/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 6ba02a0..fe6f859 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -607,7 +607,7 @@ class PathToken(StringToken):
             path_sep = "\\\\"
         else:
             path_sep = "/"
-        return "A {}.".format(self._pathtype) + ' Start the input with quote (") and use {} as separator'.format(path_sep)
+        return self._helpstring or "A {}.".format(self._pathtype) + ' Start the input with quote (") and use {} as separator'.format(path_sep)
 
     def children(self, path):
         try:
-- 
2.43.0


From d19ec2fa2611ada733c65d1c240774ac388bedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:22 +0000
Subject: [PATCH 33/36] fix: a plain name in a rule is a mandatory keyword

A name that is no token or rule defined so far stands for the keyword of
that name, but its element counted as optional: root: foo "x" accepted
the line x.
---
 nessaid_cli/elements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 7750e44..2b7ed56 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -479,6 +479,10 @@ class UnresolvedInputElement(InputElement):
     def arg_list(self):
         return self._arglist
 
+    @property
+    def mandatory(self):
+        return True
+
     def copy(self):
         cp = UnresolvedInputElement(self._value)
         self.copy_extras(cp)
-- 
2.43.0


From c7a55b724e27ab836bcd0205aaa9b8741570364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:22 +0000
Subject: [PATCH 34/36] fix: keep the help text given for a plain name in a
 rule

The help of a keyword written as a plain name, or of a token defined later
in the grammar, was dropped.
---
 nessaid_cli/compiler.py | 2 +-
 nessaid_cli/elements.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 1017687..d13884a 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -415,7 +415,7 @@ class NessaidCliParser(NessaidCliParserCommon):
             t[0] = elem
             return
 
-        elem = UnresolvedInputElement(identifier)
+        elem = UnresolvedInputElement(identifier, helpstring=helpstring)
         self._grammar_spec.add_unresolved_element(elem)
         t[0] = elem
 
diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 2b7ed56..0f76b52 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -463,8 +463,8 @@ class GrammarRefElement(InputElement):
 
 class UnresolvedInputElement(InputElement):
 
-    def __init__(self, keyword, arglist=None):
-        super().__init__()
+    def __init__(self, keyword, arglist=None, helpstring=None):
+        super().__init__(helpstring=helpstring)
         if isinstance(keyword, str):
             self._value = keyword
         else:
@@ -484,7 +484,7 @@ class UnresolvedInputElement(InputElement):
         return True
 
     def copy(self):
-        cp = UnresolvedInputElement(self._value)
+        cp = UnresolvedInputElement(self._value, self._arglist, helpstring=self.helpstring)
         self.copy_extras(cp)
         return cp
 
-- 
2.43.0


From f77b106d344d3c4b2407697a8f151a11c0aec69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:22 +0000
Subject: [PATCH 35/36] fix: report the line of an illegal character in a
 grammar

The lexer's value of an illegal character is all the text left, and its
newlines were counted before the position was reported.
---
 nessaid_cli/lex_yacc_common.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/lex_yacc_common.py b/nessaid_cli/lex_yacc_common.py
index f9f4944..efbce05 100644
--- a/nessaid_cli/lex_yacc_common.py
+++ b/nessaid_cli/lex_yacc_common.py
@@ -105,7 +105,6 @@ class NessaidCliLexerCommon(StdStreamsHolder):
         self.update_counters(t)
 
     def t_error(self, t):
-        self.update_counters(t)
 
         def _repr(t):
             v = t
-- 
2.43.0


From a9b3f92fbd0251a4775a10066febf50515eccb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:59 +0000
Subject: [PATCH 36/36] fix: each line is matched and executed on its own tree

The words and variables of a line are kept in the nodes of the grammar's
tree. Lines run by an action of another line, or at the same time, on one
NessaidCli object mixed them up, and a line cancelled while an action
waited left its variables to the next one.
---
 nessaid_cli/interface.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 63ab85c..45145a9 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -373,7 +373,6 @@ class CliInterface(StdStreamsHolder):
         self._grammar_stack = []
         self._token_class_map = None
         self._matched_values = []
-        self._parse_tree = None
 
         self._str_cache = {}
         self._token_value_cache = {}
@@ -417,15 +416,12 @@ class CliInterface(StdStreamsHolder):
         try:
             grammar = self._grammars.get_grammar(grammar_name)
             self._grammar_stack.append(grammar)
-            self._parse_tree = GrammarWalkTree(grammar)
         except Exception as e:
             raise e
 
     def exit_grammar(self):
         try:
             self._grammar_stack.pop()
-            if self._grammar_stack:
-                self._parse_tree = GrammarWalkTree(self._grammar_stack[-1])
         except Exception as e:
             raise e
 
@@ -709,7 +705,8 @@ class CliInterface(StdStreamsHolder):
         cur_token_input = None
         token_list = tok_list.copy()
 
-        prompt_choices = set(self._parse_tree.first())
+        # Executing a line keeps its words and variables in the nodes: each line gets its own tree
+        prompt_choices = set(GrammarWalkTree(self.current_grammar).first())
 
         res = ParsingResult()
 
-- 
2.43.0

