From 971effc07c3a04b0afbc27b830fb3fc1c73e6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 01/21] fix: close the pipe to pdftotext and reap the process

---
 refextract/documents/pdf.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index ce1f207..ed7c4d9 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -76,21 +76,21 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
 
     LOGGER.debug("%s", " ".join(cmd_pdftotext))
     # open pipe to pdftotext:
-    pipe_pdftotext = subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)
-    # read back results:
-    for docline in pipe_pdftotext.stdout:
-        unicodeline = docline.decode("utf-8")
-        # Check for a page-break in this line:
-        m_break_in_line = p_break_in_line.match(unicodeline)
-        if m_break_in_line is None:
-            # There was no page-break in this line. Just add the line:
-            doclines.append(unicodeline)
-        else:
-            # If there was a page-break character in the same line as some
-            # text, split it out into its own line so that we can later
-            # try to find headers and footers:
-            doclines.append("\f")
-            doclines.append(m_break_in_line.group(1))
+    with subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE) as pipe_pdftotext:
+        # read back results:
+        for docline in pipe_pdftotext.stdout:
+            unicodeline = docline.decode("utf-8")
+            # Check for a page-break in this line:
+            m_break_in_line = p_break_in_line.match(unicodeline)
+            if m_break_in_line is None:
+                # There was no page-break in this line. Just add the line:
+                doclines.append(unicodeline)
+            else:
+                # If there was a page-break character in the same line as some
+                # text, split it out into its own line so that we can later
+                # try to find headers and footers:
+                doclines.append("\f")
+                doclines.append(m_break_in_line.group(1))
 
     LOGGER.debug("convert_PDF_to_plaintext found: %s lines of text", len(doclines))
 
-- 
2.43.0


From 115d1171e68448695b69cc65de5b4e96278934a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 02/21] fix: add up totals of a key present in both
 dictionaries

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..d3df2ad 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1065,7 +1065,7 @@ def sum_2_dictionaries(dicta, dictb):
     """
     dict_out = dicta.copy()
     for key in dictb:
-        if "key" in dict_out:
+        if key in dict_out:
             # Add the sum for key in dictb to that of dict_out:
             dict_out[key] += dictb[key]
         else:
-- 
2.43.0


From c9747eb8c450cf9204e406af8ee8acc96adea998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 03/21] fix: do not keep a stale knowledge base after a failed
 load or a modified override

---
 refextract/references/kbs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..3d8b0a6 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -22,6 +22,7 @@
 # or submit itself to any jurisdiction.
 
 import contextlib
+import copy
 import csv
 import re
 
@@ -65,9 +66,13 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
 
     for kb_type, kb in kbs.items():
         if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
             cache[kb_type] = load_kb_by_type(kb_type, kb)
-    return cache
+            # Remember the input only once it is loaded, and as a copy: the
+            # caller may modify it before the next call
+            cache_inputs[kb_type] = (
+                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
+            )
+    return cache.copy()
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From 43fb7c8510d84f6a7fbb87136c66eb745c9777aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 04/21] fix: do not alter the cached journals knowledge base

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index d3df2ad..3c27501 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,7 +120,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
+    standardised_titles = dict(kbs["journals"][1])
     standardised_titles.update(kbs["journals_re"])
     journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
-- 
2.43.0


From 866d9bb6dce0f15fe25fd2d792c5a996eb7f4649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 05/21] fix: only zero-pad pages that can be converted to a
 number

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..d29c15b 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -161,7 +161,7 @@ def handle_special_journals(citation_elements, kbs):
                         el["page"],
                     )
                 el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])
-            if el["page"].isdigit():
+            if el["page"].isdecimal():
                 # JHEP and JCAP have always pages 3 digits long
                 el["page"] = "%03d" % int(el["page"])
 
-- 
2.43.0


From eed14a7ffd748d27c5ac9d3e314f417ddcf0dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 06/21] fix: add link URLs to references in a reproducible
 order

---
 refextract/references/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/record.py b/refextract/references/record.py
index e00522e..6be87d1 100644
--- a/refextract/references/record.py
+++ b/refextract/references/record.py
@@ -160,7 +160,7 @@ def build_reference_fields(citation_elements, line_marker, raw_ref, reference_fo
 
 
 def update_reference_with_urls(reference, url_set):
-    for url in url_set:
+    for url in sorted(url_set):
         add_subfield(reference, "url", url)
 
 
-- 
2.43.0


From 529d6fd485de8c88593f0a8f80a36bba3c7327bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 07/21] fix: read plain-text documents as UTF-8 whatever the
 locale

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index d29c15b..f319469 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1487,7 +1487,7 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-        with open(fpath, "r") as f:
+        with open(fpath, "r", encoding="utf-8") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
         textbody = convert_PDF_to_plaintext(fpath, keep_layout)
-- 
2.43.0


From 8c066ddc2d6df08b45a8a8569ce2a0c523b5f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 08/21] fix: accept reference markers whose number cannot be
 converted

---
 refextract/references/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 80b3690..7f6007d 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -249,7 +249,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
                 # it is not always convertible to int by int()
                 # We can't use its numerical value, but we still accept it
                 # as numeration
-                pass
+                marknum = None
 
             new_line_detected = False
             if marknum is None or current_ref + 1 == marknum:
-- 
2.43.0


From c03f39ba8fd0fe0b8865f6aa9534dc0513fe3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 09/21] fix: do not fail on or damage files without a PDF end
 of file marker

---
 refextract/references/engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index f319469..0c1a7fb 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -25,6 +25,7 @@
 
 import logging
 import mmap
+import os
 import re
 from datetime import datetime
 
@@ -1449,6 +1450,9 @@ def clean_pdf_file(filename):
     """
     strip leading and/or trailing junk from a PDF file
     """
+    if os.path.getsize(filename) == 0:
+        # an empty file cannot be mapped into memory
+        return
     with (
         open(filename, "r+b") as file,
         mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
@@ -1459,6 +1463,10 @@ def clean_pdf_file(filename):
             LOGGER.debug("not a PDF file")
             return
         end = mmfile.rfind(b"%%EOF")
+        if end < start:
+            # no end of file marker after the PDF marker, nothing to strip safely
+            LOGGER.debug("no PDF end of file marker")
+            return
         offset = len(b"%%EOF")
         if start > 0:
             LOGGER.debug("moving and truncating")
-- 
2.43.0


From 9fd691e46eb6444e2a768901eb85f97a908a6685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 10/21] fix: return no TeXkeys when the name of a destination
 cannot be decoded

---
 refextract/references/pdf.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..93f79c5 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -55,20 +55,20 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
             pdf = PdfReader(pdf_stream, strict=False)
             destinations = pdf.named_destinations
             urls = extract_urls(pdf)
+            # not all named destinations point to references
+            refs = []
+            for destination in destinations.items():
+                destination_key = (
+                    destination[0].decode("utf-8")
+                    if isinstance(destination[0], ByteStringObject)
+                    else destination[0]
+                )
+                match = re_reference_in_dest.match(destination_key)
+                if match:
+                    refs.append(destination)
         except Exception:
             LOGGER.debug("PDF: Internal pypdf error, no TeXkeys returned.")
             return []
-        # not all named destinations point to references
-        refs = []
-        for destination in destinations.items():
-            destination_key = (
-                destination[0].decode("utf-8")
-                if isinstance(destination[0], ByteStringObject)
-                else destination[0]
-            )
-            match = re_reference_in_dest.match(destination_key)
-            if match:
-                refs.append(destination)
         two_column_layout = False
         try:
             if _destinations_in_two_columns(pdf, refs):
-- 
2.43.0


From 31c1130bb1f6cfe53a4fcbc54544fc6464e7d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 11/21] fix: use author positions with the line they were found
 in

---
 refextract/references/tag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 3c27501..8b644b4 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -906,6 +906,7 @@ def identify_and_tag_authors(line, authors_kb):
 
     if len(matched_authors_unidecode) > len(matched_authors):
         output_line = unidecode(output_line)
+        line = unidecoded_line
         matched_authors = matched_authors_unidecode
 
     # If there is at least one matched author group
-- 
2.43.0


From 55449a5ebfc8085e1d227293df9c52f960a8a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 12/21] fix: do not let pdftotext take a file name for an
 option

---
 refextract/documents/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index ed7c4d9..053b533 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -70,7 +70,8 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
         "-q",
         "-enc",
         "UTF-8",
-        fpath,
+        # an absolute path cannot be mistaken for an option
+        os.path.abspath(fpath),
         "-",
     ]
 
-- 
2.43.0


From c20f43eb9bc667b6aa754f2ede5b4f967da74470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 13/21] fix: report badly formatted lines of the journals
 regexps kb

---
 refextract/references/kbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 3d8b0a6..52eaf7b 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -458,6 +458,8 @@ def build_journals_re_kb(fpath):
                 continue
             # Extract the seek->replace terms from this KB line:
             m_kb_line = re_kb_line.search(rawline)
+            if not m_kb_line:
+                raise ValueError("Badly formatted kb '%s' at line %s" % (fpath, rawline))
             kb.append(make_tuple(m_kb_line))
 
     return kb
-- 
2.43.0


From 4ec1757e5d78e0f095ca1104bfd36b3fb804f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 14/21] fix: do not take tags written in the text for our own

---
 refextract/references/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 0c1a7fb..da6eca1 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -622,6 +622,8 @@ def parse_reference_line(ref_line, kbs, bad_titles_count=None, linker_callback=N
     if bad_titles_count is None:
         bad_titles_count = {}
     line_marker, ref_line = remove_reference_line_marker(ref_line)
+    # Tags found in the text itself must not be taken for our own
+    ref_line = re.sub(r"<(?=/?cds\.)", "< ", ref_line)
     # Find DOI sections in citation
     ref_line, identified_dois = identify_and_tag_DOI(ref_line)
     # Identify and replace URLs in the line:
-- 
2.43.0


From 1921be5cfad33fce188b3daac03a7d4472378717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 15/21] fix: search books in text with characters that have no
 single upper case

---
 refextract/references/engine.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index da6eca1..7dc98ab 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -780,18 +780,20 @@ def get_possible_author_names(citation):
 
 
 def find_substring_ignore_special_chars(s, substr):
-    s = s.upper()
     substr = substr.upper()
-    clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
+    clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s.upper())
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
+    if not clean_substr:
+        # nothing left to look for
+        return -1
     startIndex = clean_s.find(clean_substr)
     if startIndex != -1:
         i = 0
         real_index = 0
         re_alphanum = re.compile("[A-Z0-9]")
         for char in s:
-            if re_alphanum.match(char):
-                i += 1
+            # a character may have several upper-case ones
+            i += len(re_alphanum.findall(char.upper()))
             if i > startIndex:
                 break
             real_index += 1
@@ -804,12 +806,12 @@ def find_substring_ignore_special_chars(s, substr):
 def cut_substring_with_special_chars(s, sub, startIndex):
     counter = 0
     subPosition = 0
-    s_Upper = s.upper()
     sub = sub.upper()
     clean_sub = re.sub("[^A-Z0-9]", "", sub)
-    for char in s_Upper[startIndex:]:
-        if char == clean_sub[subPosition]:
-            subPosition += 1
+    for original_char in s[startIndex:]:
+        for char in original_char.upper():
+            if subPosition < len(clean_sub) and char == clean_sub[subPosition]:
+                subPosition += 1
         counter += 1
         # end of substrin reached?
         if subPosition >= len(clean_sub):
-- 
2.43.0


From ef209476f84e53a21f09f5e1ae6bd45851c21f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 16/21] fix: keep citation positions when upper-casing changes
 the length of the line

---
 refextract/references/tag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8b644b4..b0a70f2 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -128,7 +128,11 @@ def tag_reference_line(line, kbs, record_titles_count):
     working_line2 = strip_tags(working_line1)
 
     # Transform the line to upper-case, now making a new working line:
-    working_line2 = working_line2.upper()
+    # (keeping characters without a single upper-case equivalent, because
+    # positions in this line are used in the original line)
+    working_line2 = "".join(
+        char.upper() if len(char.upper()) == 1 else char for char in working_line2
+    )
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
-- 
2.43.0


From e1858d870c0d8b6425eeaa04d5d73a71eaf789b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:13 +0000
Subject: [PATCH 17/21] fix: locate and name journals found by regular
 expression

---
 refextract/references/tag.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index b0a70f2..b94d3ae 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -121,8 +121,8 @@ def tag_reference_line(line, kbs, record_titles_count):
     # conflict with other elements
     # e.g. DAN is also a common first name
     standardised_titles = dict(kbs["journals"][1])
-    standardised_titles.update(kbs["journals_re"])
-    journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_re_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_matches = {}
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -143,6 +143,15 @@ def tag_reference_line(line, kbs, record_titles_count):
         working_line2
     )
 
+    # Journals found by regular expression were located in the line before
+    # its multiple spaces were removed:
+    for position, (matched_text, journal) in journals_re_matches.items():
+        standardised_titles[matched_text] = journal
+        position -= sum(
+            removed for space, removed in removed_spaces.items() if space < position
+        )
+        journals_matches[position] = matched_text
+
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
         identify_report_numbers(working_line2, kbs["report-numbers"])
@@ -445,10 +454,10 @@ def tag_atlas_conf(line):
 
 def identifiy_journals_re(line, kb_journals):
     matches = {}
-    for pattern, _dummy_journal in kb_journals:
+    for pattern, journal in kb_journals:
         match = re.search(pattern, line)
         if match:
-            matches[match.start()] = match.group(0)
+            matches[match.start()] = (match.group(0), journal)
     return matches
 
 
-- 
2.43.0


From 820c27524afa841a1708d67065bf4737f40fda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 18/21] fix: do not cut the tag in front of a report number

The character before a report number was dropped (it may be an opening
brace), even when it was the last character of the closing tag of the item
before it, as in 'arXiv:1207.7214 CERN-TH-2000-01': the arXiv number was
lost and its markup reported as miscellaneous text.
---
 refextract/references/tag.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index b94d3ae..909672f 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -516,8 +516,11 @@ def add_tagged_report_number(
     # Fill rebuilt_line with the contents of the reading_line up to the point
     # of the institutional REPORT-NUMBER. However, stop 1 character before the
     # replacement index of this REPORT-NUMBER to allow for removal of braces,
-    # if necessary:
-    if (true_replacement_index - startpos - 1) >= 0:
+    # if necessary (but never into the tag of an item found just before it):
+    if (
+        true_replacement_index - startpos - 1 >= 0
+        and reading_line[true_replacement_index - 1] != ">"
+    ):
         rebuilt_line += reading_line[startpos : true_replacement_index - 1]
     else:
         rebuilt_line += reading_line[startpos:true_replacement_index]
-- 
2.43.0


From 9e357ddb43a4b46f66be03c4a985bdcf07042f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:16 +0000
Subject: [PATCH 19/21] fix: keep markup of items inside quoted text out of the
 title

URLs, DOIs, arXiv numbers, ISBNs and PoS volumes are tagged inside quoted
text too, and the parser takes everything up to the closing tag of the
quoted text as the title, so '"A comment on arXiv:1207.7214"' gave a title
containing the markup, and later URLs and DOIs of the line were mixed up.
---
 refextract/references/tag.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 909672f..f87373c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -116,6 +116,9 @@ def tag_reference_line(line, kbs, record_titles_count):
     # and a 2 years digit format to convert
     working_line1 = tag_atlas_conf(working_line1)
 
+    # Tags are never embedded in other tags
+    working_line1 = untag_quoted_items(working_line1)
+
     # Identify journals with regular expression
     # Some journals need to match exact regexps because they can
     # conflict with other elements
@@ -364,6 +367,15 @@ def tag_quoted_text(line):
     return re_quoted.sub(r"<cds.QUOTED>\g<title></cds.QUOTED>", line)
 
 
+def untag_quoted_items(line):
+    """Remove the tags around quoted text in which other items were tagged"""
+
+    def untag(match):
+        return match.group("title") if "<cds." in match.group("title") else match.group()
+
+    return re.sub(r"<cds\.QUOTED>(?P<title>.*?)</cds\.QUOTED>", untag, line)
+
+
 def tag_arxiv(line):
     """Tag arxiv report numbers
 
-- 
2.43.0


From 56f5e24209b6bf839dfea36535ef925da763b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:38 +0000
Subject: [PATCH 20/21] fix: keep an author that was postponed to a citation
 with its own authors

An author taken out of a citation because it might belong to the next one
was dropped if the next citation, started by a semicolon, had authors.
---
 refextract/references/engine.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 7dc98ab..3b47be7 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -316,11 +316,15 @@ def postpone_last_auth(current_citation, num_auth):
     if num_auth == 0:
         return None
 
-    func = current_citation.__getitem__ if num_auth == 1 else current_citation.pop
-
-    for idx, el in enumerate(reversed(current_citation), 1):
+    for el in reversed(current_citation):
         if el["type"] == "AUTH":
-            return func(-idx)
+            return el
+
+
+def remove_postponed_auth(citation, postponed_auth):
+    """Take an author out of the citation it came from, unless it is its only one"""
+    if citation and sum(el["type"] == "AUTH" for el in citation) > 1:
+        citation[:] = [el for el in citation if el is not postponed_auth]
 
 
 def split_citations_iter(citation_elements):
@@ -331,6 +335,7 @@ def split_citations_iter(citation_elements):
     are repeated, then they signal the start of a new citation. Some additional
     care is taken to handle authors correctly.
     """
+    previous_citation = None
     current_citation = []
     current_types = set()
     last_type = None
@@ -347,11 +352,14 @@ def split_citations_iter(citation_elements):
             if postponed_auth and (
                 num_auth == 0 or prev_split_reason == "repeated field"
             ):
+                remove_postponed_auth(previous_citation, postponed_auth)
                 current_citation.insert(0, postponed_auth)
                 num_auth += 1
             postponed_auth = postpone_last_auth(current_citation, num_auth)
-            yield current_citation
+            if previous_citation is not None:
+                yield previous_citation
 
+            previous_citation = current_citation
             current_citation = []
             current_types = set()
             last_type = None
@@ -371,7 +379,10 @@ def split_citations_iter(citation_elements):
         current_types.add(last_type)
 
     if postponed_auth and (num_auth == 0 or prev_split_reason == "repeated field"):
+        remove_postponed_auth(previous_citation, postponed_auth)
         current_citation.insert(0, postponed_auth)
+    if previous_citation is not None:
+        yield previous_citation
     yield current_citation
 
 
-- 
2.43.0


From 894ffae89fa88ed471519e76bac80457d06933ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:16 +0000
Subject: [PATCH 21/21] fix: keep the first of two equal collaborations of a
 citation

---
 refextract/references/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 3b47be7..93f5499 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -554,7 +554,8 @@ def remove_duplicated_collaborations(splitted_citations):
         for el in citation[:]:
             if el["type"] == "COLLABORATION":
                 if el["collaboration"] in collabs:
-                    citation.remove(el)
+                    # by identity: the first one may be equal to this one
+                    citation[:] = [other for other in citation if other is not el]
                 else:
                     collabs.append(el["collaboration"])
 
-- 
2.43.0

