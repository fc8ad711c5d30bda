From babf8580ca3f3b7819a49ba9f83bebd95fde53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 1/6] fix: replace generated language files atomically

The data generation script truncated each language file and then wrote it in
place: a crash, a full disk or a reader at that moment met an empty or partial
file. The new contents now go to a temporary file beside the target, which
replaces the target once it is on disk.
---
 number_parser_scripts/write_complete_language_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..a625d56 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -184,8 +184,14 @@ def write_complete_data():
         translation_data = re.sub(r"\bfalse\b", "False", translation_data)
         translation_data = re.sub(r"\btrue\b", "True", translation_data)
         out_text = "info = " + translation_data + "\n"
-        with open(full_target_path, "w+") as target_file:
+        # Written beside the target and moved into place once it is on disk, so that
+        # a crash or an I/O error never leaves a missing or partial language file.
+        temporary_path = full_target_path + ".tmp"
+        with open(temporary_path, "w") as target_file:
             target_file.write(out_text)
+            target_file.flush()
+            os.fsync(target_file.fileno())
+        os.replace(temporary_path, full_target_path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 96ffd34a294632663f53316c778c8e5e97033120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 2/6] fix: read and write language data as UTF-8 whatever the
 locale

The data generation script used the locale's default encoding: in a non UTF-8
locale it failed or wrote files that Python reads as other words.
---
 number_parser_scripts/write_complete_language_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index a625d56..c4db4dc 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -144,7 +144,7 @@ def write_complete_data():
 
         language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
         ordered_language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
-        with open(full_source_path, "r") as source:
+        with open(full_source_path, "r", encoding="utf-8") as source:
             data = json.load(source)
             try:
                 requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"]
@@ -161,7 +161,7 @@ def write_complete_data():
                         val = val.replace("\xad", "")
                         _extract_information(key, val, language_data)
 
-        with open(full_supplementary_path, "r") as supplementary_data:
+        with open(full_supplementary_path, "r", encoding="utf-8") as supplementary_data:
             data = json.load(supplementary_data)
             for keys in REQUIRED_NUMBERS_DATA:
                 language_data[keys].update(data[keys])
@@ -187,7 +187,7 @@ def write_complete_data():
         # Written beside the target and moved into place once it is on disk, so that
         # a crash or an I/O error never leaves a missing or partial language file.
         temporary_path = full_target_path + ".tmp"
-        with open(temporary_path, "w") as target_file:
+        with open(temporary_path, "w", encoding="utf-8") as target_file:
             target_file.write(out_text)
             target_file.flush()
             os.fsync(target_file.fileno())
-- 
2.43.0


From 191ae195f03959da09c5871295d064d424c5aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 3/6] fix: keep the Ukrainian words of the shipped data when
 regenerating

Five spellings of 500 and 900 were only in the generated number_parser/data/uk.py,
so regenerating the data dropped them. They are now in its supplementary source.
---
 number_parser_data/supplementary_translation_data/uk.json | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..0843fb1 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,10 +81,15 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "дев'ятсот": 900
+        "дев'ятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяча": 1000,
-- 
2.43.0


From 63402b2a7cd3ad9d0fdde0f202e109d77c2b3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 4/6] fix: report invalid rule keys in a way any output
 encoding can show

Regenerating failed on the key of the Georgian source file that is not ASCII when
the locale's encoding cannot represent it.
---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c4db4dc..f77c738 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -112,7 +112,7 @@ def _extract_information(key, word, language_data):
     try:
         number = int(key)
     except ValueError:
-        print(f"The given key {key} is not an integer")
+        print(f"The given key {key!a} is not an integer")
         return
 
     word = word.replace(";", "")
-- 
2.43.0


From 985c306001d878f7890d63ab9ecb5b5e96c62745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 5/6] fix: read a language's data again after it was found
 empty

A data file that was empty or cut off before its first statement when it was
first read (e.g. while being replaced) left an empty module behind, and every
later call that needed the language failed until the process was restarted.
---
 number_parser/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..5602dcf 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -1,4 +1,5 @@
 import re
+import sys
 import unicodedata
 from importlib import import_module
 
@@ -22,7 +23,13 @@ class LanguageData:
     def __init__(self, language):
         if language not in SUPPORTED_LANGUAGES:
             raise ValueError(f'"{language}" is not a supported language')
-        language_info = getattr(import_module("number_parser.data." + language), "info")
+        language_module = import_module("number_parser.data." + language)
+        try:
+            language_info = getattr(language_module, "info")
+        except AttributeError:
+            # The file was empty or cut off when it was read: read it again next time.
+            sys.modules.pop(language_module.__name__, None)
+            raise
         self.unit_numbers = _normalize_dict(language_info["UNIT_NUMBERS"])
         self.direct_numbers = _normalize_dict(language_info["DIRECT_NUMBERS"])
         self.tens = _normalize_dict(language_info["TENS"])
-- 
2.43.0


From d56a91e6da8e64298cad7e1a8a2ac41a70a528be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 6/6] fix: leave a language module alone while it is still
 being read

A call made from code that interrupts the first load of a language (a signal
handler, say) dropped the half-loaded module, and the interrupted load failed.
---
 number_parser/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 5602dcf..a218cf3 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -27,8 +27,10 @@ class LanguageData:
         try:
             language_info = getattr(language_module, "info")
         except AttributeError:
-            # The file was empty or cut off when it was read: read it again next time.
-            sys.modules.pop(language_module.__name__, None)
+            # The file was empty or cut off when it was read: read it again next time
+            # (unless a call that this one interrupts is still reading it).
+            if not getattr(language_module.__spec__, "_initializing", False):
+                sys.modules.pop(language_module.__name__, None)
             raise
         self.unit_numbers = _normalize_dict(language_info["UNIT_NUMBERS"])
         self.direct_numbers = _normalize_dict(language_info["DIRECT_NUMBERS"])
-- 
2.43.0

