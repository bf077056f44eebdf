From d1eec032d7be44bbde47642a9e8fc03a78270909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 01/13] fix: make the KB cache safe against failed loads,
 edited inputs and concurrent calls

get_kbs recorded a KB as loaded before loading it, so a load that failed or was
interrupted left a stale or missing KB that later calls used; it compared the
input with the very object the caller may have edited meanwhile; and it handed
out the shared cache itself, so overrides of a concurrent (or nested) call
replaced the KBs of an extraction in progress.
---
 refextract/references/kbs.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..8d75c79 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -22,8 +22,10 @@
 # or submit itself to any jurisdiction.
 
 import contextlib
+import copy
 import csv
 import re
+import threading
 
 from refextract.documents.text import re_group_captured_multiple_space
 from refextract.references.config import CFG_REFEXTRACT_KBS
@@ -52,22 +54,37 @@ def file_resolving(fpath, reader=None, **kwargs):
         yield fpath
 
 
+KBS_CACHE_LOCK = threading.RLock()
+
+
 def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     """Load kbs (with caching).
 
     This function stores the loaded kbs into the cache variable.
     For the caching to work, it needs to receive empty dictionaries
     as "cache" and "cache_inputs" parameters.
+
+    The returned dictionary belongs to the caller: it is not affected by later
+    calls that load other kbs.
     """
     kbs = CFG_REFEXTRACT_KBS.copy()
     if custom_kbs:
         kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
 
-    for kb_type, kb in kbs.items():
-        if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
-            cache[kb_type] = load_kb_by_type(kb_type, kb)
-    return cache
+    loaded_kbs = {}
+    with KBS_CACHE_LOCK:
+        for kb_type, kb in kbs.items():
+            if kb_type not in cache_inputs or kb != cache_inputs[kb_type]:
+                # forget the old input first and only record the new one once it
+                # is completely loaded, so that a failed load is never reused
+                cache_inputs.pop(kb_type, None)
+                # snapshot of the input, which the caller might change afterwards
+                if isinstance(kb, (dict, list, tuple)):
+                    kb = copy.deepcopy(kb)
+                cache[kb_type] = load_kb_by_type(kb_type, kb)
+                cache_inputs[kb_type] = kb
+            loaded_kbs[kb_type] = cache[kb_type]
+    return loaded_kbs
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From 87360dbdc11fbd53a95202b20fc29e719f2f0265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 02/13] fix: do not write the journals_re KB into the cached
 journals KB

tag_reference_line updated the cached journal titles in place, so a journals_re
override leaked into every later extraction of the process.
---
 refextract/references/tag.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..01fa6a9 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -22,6 +22,7 @@
 # or submit itself to any jurisdiction.
 
 import re
+from collections import ChainMap
 from urllib.parse import unquote
 
 from unidecode import unidecode
@@ -120,8 +121,8 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
-    standardised_titles.update(kbs["journals_re"])
+    # do not modify the journals kb itself, it is cached and used by other calls
+    standardised_titles = ChainMap(dict(kbs["journals_re"]), kbs["journals"][1])
     journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
     # Remove identified tags
-- 
2.43.0


From c366cf8880165ed799983c1d27ca3c17ef3c328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:52 +0000
Subject: [PATCH 03/13] fix: never leave a half-stripped document file behind

Stripping the junk around a PDF moved the bytes inside the caller's file and
then truncated it, so a crash, a failing write or a second call working on the
same file lost the document; a PDF header without an end-of-file marker after it
cut the file down or raised ValueError.  Write the stripped document to a
temporary file that atomically replaces the original, and leave a file alone
that needs no stripping.
---
 refextract/references/engine.py | 63 ++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..88a3628 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -24,9 +24,11 @@
 """Main engine responsible for extracting references from PDF documents."""
 
 import logging
-import mmap
+import os
 import re
+import shutil
 from datetime import datetime
+from tempfile import mkstemp
 
 import magic
 
@@ -1448,27 +1450,46 @@ def remove_leading_garbage_lines_from_reference_section(ref_sectn):
 def clean_pdf_file(filename):
     """
     strip leading and/or trailing junk from a PDF file
+
+    The file always holds either its original or its stripped contents, also
+    when the process dies or writing fails half-way, or when several processes
+    strip the same file.
     """
-    with (
-        open(filename, "r+b") as file,
-        mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
-    ):
-        start = mmfile.find(b"%PDF-")
-        if start == -1:
-            # no PDF marker found
-            LOGGER.debug("not a PDF file")
-            return
-        end = mmfile.rfind(b"%%EOF")
-        offset = len(b"%%EOF")
-        if start > 0:
-            LOGGER.debug("moving and truncating")
-            mmfile.move(0, start, end + offset - start)
-            mmfile.resize(end + offset - start)
-            mmfile.flush()
-        elif end > 0 and end + offset != mmfile.size():
-            LOGGER.debug("truncating only")
-            mmfile.resize(end + offset - start)
-            mmfile.flush()
+    with open(filename, "rb") as file:
+        content = file.read()
+    start = content.find(b"%PDF-")
+    if start == -1:
+        # no PDF marker found
+        LOGGER.debug("not a PDF file")
+        return
+    end = content.rfind(b"%%EOF")
+    if end < start:
+        LOGGER.debug("no end of file marker found")
+        return
+    end += len(b"%%EOF")
+    if start > 0:
+        LOGGER.debug("moving and truncating")
+        replace_file_content(filename, content[start:end])
+    elif end != len(content):
+        LOGGER.debug("truncating only")
+        with open(filename, "r+b") as file:
+            file.truncate(end)
+
+
+def replace_file_content(filename, content):
+    """Atomically replace the content of a file."""
+    filename = os.path.realpath(filename)
+    tmp_fd, tmp_path = mkstemp(dir=os.path.dirname(filename))
+    try:
+        with open(tmp_fd, "wb") as tmp_file:
+            tmp_file.write(content)
+            tmp_file.flush()
+            os.fsync(tmp_fd)
+        shutil.copymode(filename, tmp_path)
+        os.replace(tmp_path, filename)
+    except BaseException:
+        os.remove(tmp_path)
+        raise
 
 
 def get_plaintext_document_body(fpath, keep_layout=False):
-- 
2.43.0


From a56c8568cfb71a56ea981731027a3e705b3a0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 04/13] fix: accept URLs whose last component is longer than a
 file name may be

The name of the temporary file ended in the last component of the URL, so that
long URLs (e.g. signed download links) failed with ENAMETOOLONG.
---
 refextract/references/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 26af485..00191ce 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -79,9 +79,10 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
                                     override_kbs_files={'journals': 'my/path/to.kb'})
 
     """
-    # Get temporary filepath to download to
+    # Get temporary filepath to download to (file names are limited in length,
+    # URLs are not)
     filename, filepath = mkstemp(
-        suffix="_{0}".format(os.path.basename(url)),
+        suffix="_{0}".format(os.path.basename(url)[-50:]),
     )
     os.close(filename)
 
-- 
2.43.0


From adcb4f9568cedddb6db467e68f79c4701ae32eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 05/13] fix: raise if pdftotext dies or fails half-way, and
 always reap it

The exit status of pdftotext was ignored, so a converter that was killed after
part of its output silently gave the references of a partial document; and it
was never waited for, leaving a zombie (and an open pipe on errors).
---
 refextract/documents/pdf.py | 39 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index ce1f207..348d342 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -40,6 +40,7 @@ import re
 import subprocess
 
 from refextract.references.config import CFG_PATH_PDFTOTEXT
+from refextract.references.errors import FullTextNotAvailableError
 
 LOGGER = logging.getLogger(__name__)
 
@@ -76,21 +77,29 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
 
     LOGGER.debug("%s", " ".join(cmd_pdftotext))
     # open pipe to pdftotext:
-    pipe_pdftotext = subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)
-    # read back results:
-    for docline in pipe_pdftotext.stdout:
-        unicodeline = docline.decode("utf-8")
-        # Check for a page-break in this line:
-        m_break_in_line = p_break_in_line.match(unicodeline)
-        if m_break_in_line is None:
-            # There was no page-break in this line. Just add the line:
-            doclines.append(unicodeline)
-        else:
-            # If there was a page-break character in the same line as some
-            # text, split it out into its own line so that we can later
-            # try to find headers and footers:
-            doclines.append("\f")
-            doclines.append(m_break_in_line.group(1))
+    with subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE) as pipe_pdftotext:
+        # read back results:
+        for docline in pipe_pdftotext.stdout:
+            unicodeline = docline.decode("utf-8")
+            # Check for a page-break in this line:
+            m_break_in_line = p_break_in_line.match(unicodeline)
+            if m_break_in_line is None:
+                # There was no page-break in this line. Just add the line:
+                doclines.append(unicodeline)
+            else:
+                # If there was a page-break character in the same line as some
+                # text, split it out into its own line so that we can later
+                # try to find headers and footers:
+                doclines.append("\f")
+                doclines.append(m_break_in_line.group(1))
+
+    # pdftotext just fails on broken PDFs, but if it died or gave up half-way the
+    # text is incomplete:
+    returncode = pipe_pdftotext.returncode
+    if returncode < 0 or (returncode != 0 and doclines):
+        raise FullTextNotAvailableError(
+            "pdftotext ended with status %s on '%s'" % (returncode, fpath)
+        )
 
     LOGGER.debug("convert_PDF_to_plaintext found: %s lines of text", len(doclines))
 
-- 
2.43.0


From 6fc43f997cb659397f2f6f7d495bb28c6922566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 06/13] fix: add link URLs to a reference in a reproducible
 order

The URLs found in a PDF are collected in a set, whose iteration order
depends on the hash seed of the process.
---
 refextract/references/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/record.py b/refextract/references/record.py
index e00522e..a3560ea 100644
--- a/refextract/references/record.py
+++ b/refextract/references/record.py
@@ -160,7 +160,8 @@ def build_reference_fields(citation_elements, line_marker, raw_ref, reference_fo
 
 
 def update_reference_with_urls(reference, url_set):
-    for url in url_set:
+    # sets of strings have a different order in every process
+    for url in sorted(url_set, key=str):
         add_subfield(reference, "url", url)
 
 
-- 
2.43.0


From 4e40d4e77470eadf0fa9b3a9b30e6a3ee52f504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:26 +0000
Subject: [PATCH 07/13] fix: read plain text documents as UTF-8 whatever the
 locale

A UTF-8 document could not be read in a process running in the C locale.
---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 88a3628..9bbcc7d 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1508,7 +1508,7 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-        with open(fpath, "r") as f:
+        with open(fpath, "r", encoding="utf-8") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
         textbody = convert_PDF_to_plaintext(fpath, keep_layout)
-- 
2.43.0


From b52a2965aa4a1c2a7789a56d7cf1c003adbd7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 08/13] fix: accept arXiv identifiers of the current year in
 long-running processes

The years were computed once at import, in local time, so a process that
was started last year did not recognise this year's identifiers.
---
 refextract/references/regexs.py | 65 +++++++++++++++++++--------------
 refextract/references/tag.py    |  7 ++--
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c8c4d31..e5c97e5 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -22,7 +22,8 @@
 # or submit itself to any jurisdiction.
 
 import re
-from datetime import datetime
+from datetime import datetime, timezone
+from functools import lru_cache
 
 # Sep
 re_sep = r"\s*[,\s:-]\s*"
@@ -262,13 +263,8 @@ def compute_arxiv_re(report_pattern, report_number):
 RE_OLD_ARXIV = [compute_arxiv_re(*i) for i in old_arxiv.items()]
 
 
-def compute_years(start_year=1991):
-    current_year = datetime.now().year
-    return "|".join(str(y)[2:] for y in range(start_year, current_year + 1))
-
-
-arxiv_years = compute_years()
-arxiv_years_5digits = compute_years(2013)
+def compute_years(start_year, end_year):
+    return "|".join(str(y)[2:] for y in range(start_year, end_year + 1))
 
 
 def compute_months():
@@ -277,27 +273,40 @@ def compute_months():
 
 arxiv_months = compute_months()
 
-re_new_arxiv = re.compile(
-    r""" # 9910.1234v9 [physics.ins-det]
-    (?<!ARXIV:)(?<!\d)
-    (?P<year>%(arxiv_years)s)
-    (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
-    \s*(?P<suffix>\[[A-Z.-]+\])? """
-    % {"arxiv_years": arxiv_years},
-    re.VERBOSE | re.UNICODE | re.IGNORECASE,
-)
 
-re_new_arxiv_5digits = re.compile(
-    r""" # 9910.1234v9 [physics.ins-det]
-    (?<!ARXIV:)(?<!\d)
-    (?P<year>%(arxiv_years)s)
-    (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
-    \s*(?P<suffix>\[[A-Z.-]+\])? """
-    % {"arxiv_years": arxiv_years_5digits},
-    re.VERBOSE | re.UNICODE | re.IGNORECASE,
-)
+@lru_cache(maxsize=2)
+def compute_new_arxiv_res(current_year):
+    re_new_arxiv_5digits = re.compile(
+        r""" # 9910.1234v9 [physics.ins-det]
+        (?<!ARXIV:)(?<!\d)
+        (?P<year>%(arxiv_years)s)
+        (?P<month>(0[1-9]|1[0-2]))
+        \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
+        \s*(?P<suffix>\[[A-Z.-]+\])? """
+        % {"arxiv_years": compute_years(2013, current_year)},
+        re.VERBOSE | re.UNICODE | re.IGNORECASE,
+    )
+    re_new_arxiv = re.compile(
+        r""" # 9910.1234v9 [physics.ins-det]
+        (?<!ARXIV:)(?<!\d)
+        (?P<year>%(arxiv_years)s)
+        (?P<month>(0[1-9]|1[0-2]))
+        \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
+        \s*(?P<suffix>\[[A-Z.-]+\])? """
+        % {"arxiv_years": compute_years(1991, current_year)},
+        re.VERBOSE | re.UNICODE | re.IGNORECASE,
+    )
+    return re_new_arxiv_5digits, re_new_arxiv
+
+
+def get_new_arxiv_res():
+    """Patterns for new-style arXiv identifiers without prefix.
+
+    The accepted years end with the current one (in UTC), which changes during
+    the life of a process.
+    """
+    return compute_new_arxiv_res(datetime.now(timezone.utc).year)
+
 
 # Pattern to recognize quoted text:
 re_quoted = re.compile(r'"(?P<title>[^"]+)"', re.UNICODE)
diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 01fa6a9..095646a 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -51,6 +51,7 @@ from refextract.references.regexs import (
     RE_ATLAS_CONF_POST_2010,
     RE_ATLAS_CONF_PRE_2010,
     RE_OLD_ARXIV,
+    get_new_arxiv_res,
     re_arxiv,
     re_arxiv_5digits,
     re_correct_numeration_2nd_try_ptn1,
@@ -62,8 +63,6 @@ from refextract.references.regexs import (
     re_ibid,
     re_isbn,
     re_multiple_hyphens,
-    re_new_arxiv,
-    re_new_arxiv_5digits,
     re_numeration_nucphys_vol_page_yr,
     re_numeration_nucphys_vol_yr_page,
     re_numeration_vol_nucphys_page_yr,
@@ -375,8 +374,8 @@ def tag_arxiv(line):
 
     line = re_arxiv_5digits.sub(tagger, line)
     line = re_arxiv.sub(tagger, line)
-    line = re_new_arxiv_5digits.sub(tagger, line)
-    line = re_new_arxiv.sub(tagger, line)
+    for re_new_arxiv in get_new_arxiv_res():
+        line = re_new_arxiv.sub(tagger, line)
     return line
 
 
-- 
2.43.0


From 5cd19b07b64f2671e73a5baa29e32e53a6222101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:10 +0000
Subject: [PATCH 09/13] fix: do not lose the references if the link data of a
 PDF is unreadable

TeXkeys and URLs are a bonus: failing to open the PDF again, or undecodable
destination names, made the whole extraction fail.
---
 refextract/references/pdf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..72b1019 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -50,6 +50,14 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
     @return: list of dictionaries with all texkeys
      and corresponding urls found in the PDF
     """
+    try:
+        return _extract_texkeys_and_urls_from_pdf(pdf_file)
+    except Exception:
+        LOGGER.debug("PDF: Impossible to read the document, no TeXkeys returned")
+        return []
+
+
+def _extract_texkeys_and_urls_from_pdf(pdf_file):
     with open(pdf_file, "rb") as pdf_stream:
         try:
             pdf = PdfReader(pdf_stream, strict=False)
-- 
2.43.0


From f839727a80b056959ec15a9f3501fe6c0408f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:30 +0000
Subject: [PATCH 10/13] fix: do not lose the references if the document is gone
 after its conversion

---
 refextract/references/api.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 00191ce..e3e8fde 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -100,6 +100,14 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
     return references
 
 
+def is_pdf_file(path):
+    try:
+        return magic.from_file(path, mime=True) == "application/pdf"
+    except (OSError, magic.MagicException):
+        # the document is not needed any more, except for links in a PDF
+        return False
+
+
 def extract_references_from_file(
     path,
     recid=None,
@@ -147,7 +155,7 @@ def extract_references_from_file(
         override_kbs_files=override_kbs_files,
     )
 
-    if magic.from_file(path, mime=True) == "application/pdf":
+    if is_pdf_file(path):
         extracted_texkeys_urls = extract_texkeys_and_urls_from_pdf(path)
         if len(extracted_texkeys_urls) == len(parsed_refs):
             parsed_refs_updated = []
-- 
2.43.0


From 1e38dd4788193e10c04e2e96c74859667849a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:32 +0000
Subject: [PATCH 11/13] fix: only add text from the link data of a PDF to the
 URLs of a reference

---
 refextract/references/pdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 72b1019..77bdc0a 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -278,7 +278,10 @@ def _get_urls_data_from_page_object(page_object, page_nb):
     annotations = page_object.get("/Annots", [])
     for annotation in annotations:
         annotation_object = annotation.get_object()
-        if "/URI" in annotation_object["/A"]:
+        # only text is a URL, not e.g. a null object or undecodable bytes
+        if "/URI" in annotation_object["/A"] and isinstance(
+            annotation_object["/A"]["/URI"], str
+        ):
             annotation_object.update({"page_nb": page_nb})
             urls_at_page.append(annotation_object)
     return urls_at_page
-- 
2.43.0


From 9e504bca130e120754ce1e506f52522291b31568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:17 +0000
Subject: [PATCH 12/13] fix: download URLs with non-ASCII names whatever the
 locale

---
 refextract/references/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index e3e8fde..dad0c1d 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -30,6 +30,7 @@ from a raw string.
 
 import os
 from tempfile import mkstemp
+from urllib.parse import quote
 
 import magic
 import requests
@@ -79,10 +80,10 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
                                     override_kbs_files={'journals': 'my/path/to.kb'})
 
     """
-    # Get temporary filepath to download to (file names are limited in length,
-    # URLs are not)
+    # Get temporary filepath to download to (file names are limited in length
+    # and, depending on the locale, to ASCII; URLs are not)
     filename, filepath = mkstemp(
-        suffix="_{0}".format(os.path.basename(url)[-50:]),
+        suffix="_{0}".format(quote(os.path.basename(url))[-50:]),
     )
     os.close(filename)
 
-- 
2.43.0


From a0c51f1d72d73450814ec302a2bc2dbe793ae0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:37 +0000
Subject: [PATCH 13/13] fix: reload a knowledge base whose override was
 reordered or edited

Mappings that compare equal but list their entries in another order give other
results (the first match wins), and sets, deques or live views that the caller
edited were taken for the input loaded before.
---
 refextract/references/kbs.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 8d75c79..ec9397f 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -26,6 +26,7 @@ import copy
 import csv
 import re
 import threading
+from collections import OrderedDict
 
 from refextract.documents.text import re_group_captured_multiple_space
 from refextract.references.config import CFG_REFEXTRACT_KBS
@@ -74,12 +75,13 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     loaded_kbs = {}
     with KBS_CACHE_LOCK:
         for kb_type, kb in kbs.items():
+            kb = get_kb_input(kb)
             if kb_type not in cache_inputs or kb != cache_inputs[kb_type]:
                 # forget the old input first and only record the new one once it
                 # is completely loaded, so that a failed load is never reused
                 cache_inputs.pop(kb_type, None)
                 # snapshot of the input, which the caller might change afterwards
-                if isinstance(kb, (dict, list, tuple)):
+                if isinstance(kb, (dict, list)):
                     kb = copy.deepcopy(kb)
                 cache[kb_type] = load_kb_by_type(kb_type, kb)
                 cache_inputs[kb_type] = kb
@@ -87,6 +89,19 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     return loaded_kbs
 
 
+def get_kb_input(kb):
+    """Return the kb in a form that can be compared with earlier inputs.
+
+    The order of its entries matters, and a collection that the caller changes
+    is another input; paths and iterators are only equal to themselves.
+    """
+    if isinstance(kb, dict):
+        return OrderedDict(kb)
+    if hasattr(kb, "startswith") or iter(kb) is kb:
+        return kb
+    return list(kb)
+
+
 def load_kb_by_type(kb_type, kb):
     """Load kb (without caching) for a given kb type."""
 
-- 
2.43.0

