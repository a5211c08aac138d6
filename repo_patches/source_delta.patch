From 4f5315e64967a401b3ed4b444c67cede73e7aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:42 +0000
Subject: [PATCH 01/45] fix: entities before a newline crashed or lost their
 space

A character reference decoding to an empty text or to a space right
before a line ending was taken for trailing spaces of the line:
'&#1;\n' raised IndexError and 'a&#32;\nb' dropped the space.
---
 commonmark/inlines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..03f28a7 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -738,7 +738,9 @@ class InlineParser(object):
         # assume we're at a \n
         self.pos += 1
         lastc = block.last_child
-        if lastc and lastc.t == 'text' and lastc.literal[-1] == ' ':
+        # only spaces in the source count, not those written as entities
+        if lastc and lastc.t == 'text' and \
+           self.subject[self.pos - 2:self.pos - 1] == ' ':
             linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
             lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
             if linebreak:
-- 
2.43.0


From 19a87cebf3e9dedcf876f797d9e598b5a9437252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:04 +0000
Subject: [PATCH 02/45] fix: a lone surrogate in a link destination crashed the
 parser

normalize_uri raised UnicodeEncodeError; use U+FFFD as for NUL.
---
 commonmark/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..f093330 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -68,6 +68,9 @@ def unescape_string(s):
 def normalize_uri(uri):
     try:
         return quote(uri.encode('utf-8'), safe=str(';/@:+?=&()%#*,'))
+    except UnicodeEncodeError:
+        # lone surrogates have no UTF-8 form
+        return normalize_uri(re.sub('[\ud800-\udfff]', '\ufffd', uri))
     except UnicodeDecodeError:
         # Python 2 also throws a UnicodeDecodeError, complaining about
         # the width of the "safe" string. Removing this parameter
-- 
2.43.0


From c41bfd8db33238dbfe06d92942bc6edeb0bc7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:12 +0000
Subject: [PATCH 03/45] fix: do not strip Unicode spaces from paragraphs and
 headings

str.strip() also removes no-break and ideographic spaces, separators
and U+0085, which are not whitespace characters of the spec: they were
lost at the ends of paragraphs, headings and info strings.
---
 commonmark/blocks.py  | 2 +-
 commonmark/common.py  | 3 +++
 commonmark/inlines.py | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..e496875 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -352,7 +352,7 @@ class CodeBlock(Block):
             newline_pos = content.index('\n')
             first_line = content[0:newline_pos]
             rest = content[newline_pos + 1:]
-            block.info = unescape_string(first_line.strip())
+            block.info = unescape_string(first_line.strip(common.WHITESPACE))
             block.literal = rest
         else:
             # indented
diff --git a/commonmark/common.py b/commonmark/common.py
index f093330..82b03ac 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -19,6 +19,9 @@ else:
     from commonmark import entitytrans
     HTMLunescape = entitytrans._unescape
 
+# What the spec calls whitespace characters
+WHITESPACE = ' \t\n\x0b\x0c\r'
+
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 03f28a7..84275c9 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -871,7 +871,7 @@ class InlineParser(object):
         Parse string content in block into inline children,
         using refmap to resolve references.
         """
-        self.subject = block.string_content.strip()
+        self.subject = block.string_content.strip(common.WHITESPACE)
         self.pos = 0
         self.delimiters = None
         self.brackets = None
-- 
2.43.0


From b0a7ff7c96be4e243d372244b56fb931662b525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:40 +0000
Subject: [PATCH 04/45] fix: match labels by the whitespace the spec names

Labels differing in a leading or trailing no-break space were taken
for equal, and tabulations and form feeds were not collapsed.
---
 commonmark/normalize_reference.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/commonmark/normalize_reference.py b/commonmark/normalize_reference.py
index d68a3b1..c9dc3a2 100644
--- a/commonmark/normalize_reference.py
+++ b/commonmark/normalize_reference.py
@@ -14,6 +14,7 @@
 import re
 import sys
 from builtins import str, chr
+from commonmark.common import WHITESPACE
 
 __all__ = ["normalize_reference"]
 
@@ -107,27 +108,28 @@ def _check_native(tbl):
 
 
 # Hoist version check out of function for performance
-SPACE_RE = re.compile(r'[ \t\r\n]+')
+SPACE_RE = re.compile(r'[ \t\n\x0b\x0c\r]+')
 if _check_native(XLAT):
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).casefold()
+        return SPACE_RE.sub(' ', string[1:-1].strip(WHITESPACE)).casefold()
 elif sys.version_info >= (3,) or sys.maxunicode > 0xffff:
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).translate(XLAT)
+        return SPACE_RE.sub(
+            ' ', string[1:-1].strip(WHITESPACE)).translate(XLAT)
 else:
     def _get_smp_regex():
         xls = sorted(x - 0x10000 for x in XLAT if x >= 0x10000)
         xls.append(-1)
         fmt, (dsh, opn, pip, cse) = str('\\u%04x'), str('-[|]')
-        rga, srk, erk = [str(r'[ \t\r\n]+')], 0, -2
+        rga, srk, erk = [str(r'[ \t\n\x0b\x0c\r]+')], 0, -2
         for k in xls:
             new_hir = (erk ^ k) >> 10 != 0
             if new_hir or erk + 1 != k:
@@ -162,4 +164,5 @@ else:
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SMP_RE.sub(_subst_handler, string[1:-1].strip()).translate(XLAT)
+        return SMP_RE.sub(
+            _subst_handler, string[1:-1].strip(WHITESPACE)).translate(XLAT)
-- 
2.43.0


From 12b9b7e1e7bceef8bb1d0ec2ea36ebfb3d4bdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:46 +0000
Subject: [PATCH 05/45] fix: only ASCII digits make an ordered list marker

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index e496875..020871e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -41,7 +41,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
-- 
2.43.0


From 0642f00d001c617a2e01aba3da7edcd1c64adc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:11 +0000
Subject: [PATCH 06/45] fix: decode only the character references the spec
 defines

html.unescape replaces a known prefix of an unknown name ('&notit;'),
maps 0x80-0x9F as windows-1252 and drops control and noncharacters.
The spec only knows complete names, and U+FFFD for invalid code points.
---
 commonmark/common.py  | 25 ++++++++++++++++++-------
 commonmark/inlines.py | 16 ++--------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 82b03ac..6aad8c2 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -10,14 +10,11 @@ except ImportError:
 
 if sys.version_info >= (3, 0):
     if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
+        from html.entities import html5
     else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
+        from .entitytrans import _html5 as html5
 else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
+    from .entitytrans import _html5 as html5
 
 # What the spec calls whitespace characters
 WHITESPACE = ' \t\n\x0b\x0c\r'
@@ -50,11 +47,25 @@ XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
 
+def unescape_entity(s):
+    """Replace one entity (a string matching ENTITY) with its characters.
+
+    This isn't html.unescape, which also replaces a prefix of an unknown
+    name and treats some numeric references as the HTML5 parser does.
+    """
+    if s[1] != '#':
+        return html5.get(s[1:], s)
+    num = int(s[3:-1], 16) if s[2] in 'xX' else int(s[2:-1])
+    if num == 0 or 0xD800 <= num <= 0xDFFF or num > 0x10FFFF:
+        return '\uFFFD'
+    return ('\\U%08x' % num).encode('ascii').decode('unicode-escape')
+
+
 def unescape_char(s):
     if s[0] == '\\':
         return s[1]
     else:
-        return HTMLunescape(s)
+        return unescape_entity(s)
 
 
 def unescape_string(s):
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 84275c9..a279596 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,23 +1,11 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
-import sys
 from commonmark import common
-from commonmark.common import normalize_uri, unescape_string
+from commonmark.common import normalize_uri, unescape_entity, unescape_string
 from commonmark.node import Node
 from commonmark.normalize_reference import normalize_reference
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
-else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
-
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
@@ -708,7 +696,7 @@ class InlineParser(object):
         """Attempt to parse an entity."""
         m = self.match(reEntityHere)
         if m:
-            block.append_child(text(HTMLunescape(m)))
+            block.append_child(text(unescape_entity(m)))
             return True
         else:
             return False
-- 
2.43.0


From de902cfa14aec775f40cbd0ad84c8f18339a0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:18 +0000
Subject: [PATCH 07/45] fix: forget a title that turns out not to end its line

The comparison 'title == ""' was meant to be an assignment, so the
definition kept a title which also stayed in the paragraph; and an
empty title followed by other text discarded the whole definition.
---
 commonmark/inlines.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index a279596..d92e723 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -777,20 +777,19 @@ class InlineParser(object):
         if self.pos != beforetitle:
             title = self.parseLinkTitle()
         if title is None:
-            title = ''
             # rewind before spaces
             self.pos = beforetitle
 
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
+            if title is None:
                 at_line_end = False
             else:
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title == ''
+                title = None
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
@@ -809,7 +808,7 @@ class InlineParser(object):
         if not refmap.get(normlabel):
             refmap[normlabel] = {
                 'destination': dest,
-                'title': title
+                'title': title or ''
             }
         return (self.pos - startpos)
 
-- 
2.43.0


From 3644645f43299c9de6c7c43a351d4a2f03a843fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:43 +0000
Subject: [PATCH 08/45] fix: no Unicode letters or spaces in tag names and
 entities

IGNORECASE and \s are about Unicode in Python 3: '<scr\u0131pt>', a
long s or Kelvin sign in a tag or scheme name and a no-break space
between attributes were accepted.
---
 commonmark/blocks.py  | 9 +++++----
 commonmark/common.py  | 8 ++++++--
 commonmark/inlines.py | 6 +++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 020871e..34935d1 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -10,7 +10,8 @@ from commonmark.node import Node
 CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE),
+    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)',
+               re.IGNORECASE | common.ASCII),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -23,14 +24,14 @@ reHtmlBlockOpen = [
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
         r'(?:\s|[/]?[>]|$)',
-        re.IGNORECASE),
+        re.IGNORECASE | common.ASCII),
     re.compile(
         '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')\\s*$',
-        re.IGNORECASE),
+        re.IGNORECASE | common.ASCII),
 ]
 reHtmlBlockClose = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE),
+    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE | common.ASCII),
     re.compile(r'-->'),
     re.compile(r'\?>'),
     re.compile(r'>'),
diff --git a/commonmark/common.py b/commonmark/common.py
index 6aad8c2..fb25bc3 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -19,6 +19,10 @@ else:
 # What the spec calls whitespace characters
 WHITESPACE = ' \t\n\x0b\x0c\r'
 
+# \s and IGNORECASE only concern ASCII characters in Markdown and HTML
+# (this is what Python 2, which has no such flag, does by default)
+ASCII = getattr(re, 'ASCII', 0)
+
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
@@ -38,11 +42,11 @@ DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE)
+reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE | ASCII)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-    '\\\\' + ESCAPABLE + '|' + ENTITY, re.IGNORECASE)
+    '\\\\' + ESCAPABLE + '|' + ENTITY, re.IGNORECASE | ASCII)
 XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index d92e723..b739c79 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -47,7 +47,8 @@ reLinkTitle = re.compile(
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-reEntityHere = re.compile('^' + common.ENTITY, re.IGNORECASE)
+reEntityHere = re.compile('^' + common.ENTITY,
+                          re.IGNORECASE | common.ASCII)
 reTicks = re.compile(r'`+')
 reTicksHere = re.compile(r'^`+')
 reEllipses = re.compile(r'\.\.\.')
@@ -57,8 +58,7 @@ reEmailAutolink = re.compile(
     r"(?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
-    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
-    re.IGNORECASE)
+    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
 reSpnl = re.compile(r'^ *(?:\n *)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-- 
2.43.0


From 5f591f1b6655baec5fdeee1cf96662c9eb614f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:54 +0000
Subject: [PATCH 09/45] fix: inline declarations and CDATA are case-sensitive

The spec only knows uppercase declaration names and '<![CDATA['.
---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index fb25bc3..00881fa 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -42,7 +42,7 @@ DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE | ASCII)
+reHtmlTag = re.compile('^' + HTMLTAG, ASCII)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-- 
2.43.0


From 68b5838d128f09535878172b1830715cbd1c2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:04 +0000
Subject: [PATCH 10/45] fix: a processing instruction may span lines

---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 00881fa..ba32630 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -37,7 +37,7 @@ ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
 OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
 CLOSETAG = "</" + TAGNAME + "\\s*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
-PROCESSINGINSTRUCTION = "[<][?].*?[?][>]"
+PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
 DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
-- 
2.43.0


From e0d744365daa7b199dfb74116d52ddf68219ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:13 +0000
Subject: [PATCH 11/45] fix: link titles took exponential time to fail

An escaped character matched in two ways, so that an unclosed title
with n of them took 2^n steps. An escaped quote never ends a title.
---
 commonmark/inlines.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index b739c79..0c54203 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -8,8 +8,6 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
-
 rePunctuation = re.compile(
     r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
     r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
@@ -39,11 +37,11 @@ rePunctuation = re.compile(
 )
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
-    '|' +
-    '\'(' + ESCAPED_CHAR + '|[^\'\\x00])*\'' +
-    '|' +
-    '\\((' + ESCAPED_CHAR + '|[^()\\x00])*\\))')
+    r'^(?:"(?:\\[\s\S]|[^"\\\x00])*"'
+    r'|'
+    r"'(?:\\[\s\S]|[^'\\\x00])*'"
+    r'|'
+    r'\((?:\\[\s\S]|[^()\\\x00])*\))')
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-- 
2.43.0


From ba335e8ee096478955decf54d38d1da3402915e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:47 +0000
Subject: [PATCH 12/45] fix: a line of a link label may end with a backslash

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0c54203..80016f4 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -64,7 +64,7 @@ reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
-reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
+reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\[\s\S]){0,1000}\]')
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
-- 
2.43.0


From e5a95f351993f1084cb146d922677b4d02b4f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:56 +0000
Subject: [PATCH 13/45] fix: start over where a failed inline link began

'[foo](bar [baz])' lost its text up to '[baz]' when baz was defined:
the position was kept after a destination that no link followed.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 80016f4..06e648e 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -610,7 +610,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From e82730c995cc45ed217554bccf32f1361a177742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:01 +0000
Subject: [PATCH 14/45] fix: no control characters in an unquoted link
 destination

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 06e648e..2980319 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -503,7 +503,8 @@ class InlineParser(object):
                     else:
                         self.pos += 1
                         openparens -= 1
-                elif re.search(reWhitespaceChar, c):
+                elif c <= ' ' or c == '\x7f':
+                    # neither spaces nor control characters
                     break
                 else:
                     self.pos += 1
-- 
2.43.0


From 3f046a8f552469786e4d869f0d1600ca4110cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:06 +0000
Subject: [PATCH 15/45] fix: parentheses in a link destination must be balanced

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 2980319..59570bb 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -508,7 +508,8 @@ class InlineParser(object):
                     break
                 else:
                     self.pos += 1
-            if self.pos == savepos and c != ')':
+            if openparens > 0 or (self.pos == savepos and c != ')'):
+                self.pos = savepos
                 return None
             res = self.subject[savepos:self.pos]
             return normalize_uri(unescape_string(res))
-- 
2.43.0


From a23c9215a2f504862aa2070d44f6fc57e2ee6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:11 +0000
Subject: [PATCH 16/45] fix: any whitespace separates the parts of a link or
 definition

Only spaces did, so a tab before or after a destination or title made
the link or the definition plain text.
---
 commonmark/inlines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 59570bb..0c21045 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -57,13 +57,13 @@ reEmailAutolink = re.compile(
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
-reSpnl = re.compile(r'^ *(?:\n *)?')
+reSpnl = re.compile(r'^[ \t\x0b\x0c]*(?:\n[ \t\x0b\x0c]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
-reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
+reSpaceAtEndOfLine = re.compile(r'^[ \t\x0b\x0c]*(?:\n|$)')
 reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\[\s\S]){0,1000}\]')
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
-- 
2.43.0


From 8845b1ff260df89692a6de542dec9fa6a44ab6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:38 +0000
Subject: [PATCH 17/45] fix: recognise all Unicode punctuation next to
 delimiters

The table missed everything beyond the BMP (its surrogate pairs never
match a single character) and newer punctuation; ask unicodedata.
---
 commonmark/inlines.py | 40 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0c21045..4d345dc 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
+import unicodedata
 from commonmark import common
 from commonmark.common import normalize_uri, unescape_entity, unescape_string
 from commonmark.node import Node
@@ -8,34 +9,6 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-rePunctuation = re.compile(
-    r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
-    r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
-    r'\u05C6\u05F3\u05F4\u0609\u060A\u060C\u060D\u061B\u061E\u061F'
-    r'\u066A-\u066D\u06D4\u0700-\u070D\u07F7-\u07F9\u0830-\u083E'
-    r'\u085E\u0964\u0965\u0970\u0AF0\u0DF4\u0E4F\u0E5A\u0E5B\u0F04-\u0F12'
-    r'\u0F14\u0F3A-\u0F3D\u0F85\u0FD0-\u0FD4\u0FD9\u0FDA\u104A-\u104F\u10FB'
-    r'\u1360-\u1368\u1400\u166D\u166E\u169B\u169C\u16EB-\u16ED\u1735\u1736'
-    r'\u17D4-\u17D6\u17D8-\u17DA\u1800-\u180A\u1944\u1945\u1A1E\u1A1F\u1AA0-'
-    r'\u1AA6\u1AA8-\u1AAD\u1B5A-\u1B60\u1BFC-\u1BFF\u1C3B-\u1C3F\u1C7E\u1C7F'
-    r'\u1CC0-\u1CC7\u1CD3\u2010-\u2027\u2030-\u2043\u2045-\u2051\u2053-\u205E'
-    r'\u207D\u207E\u208D\u208E\u2308-\u230B\u2329\u232A\u2768-\u2775\u27C5'
-    r'\u27C6\u27E6-\u27EF\u2983-\u2998\u29D8-\u29DB\u29FC\u29FD\u2CF9-\u2CFC'
-    r'\u2CFE\u2CFF\u2D70\u2E00-\u2E2E\u2E30-\u2E42\u3001-\u3003\u3008-\u3011'
-    r'\u3014-\u301F\u3030\u303D\u30A0\u30FB\uA4FE\uA4FF\uA60D-\uA60F\uA673'
-    r'\uA67E\uA6F2-\uA6F7\uA874-\uA877\uA8CE\uA8CF\uA8F8-\uA8FA\uA8FC\uA92E'
-    r'\uA92F\uA95F\uA9C1-\uA9CD\uA9DE\uA9DF\uAA5C-\uAA5F\uAADE\uAADF\uAAF0'
-    r'\uAAF1\uABEB\uFD3E\uFD3F\uFE10-\uFE19\uFE30-\uFE52\uFE54-\uFE61\uFE63'
-    r'\uFE68\uFE6A\uFE6B\uFF01-\uFF03\uFF05-\uFF0A\uFF0C-\uFF0F\uFF1A\uFF1B'
-    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65]|\uD800[\uDD00-'
-    r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
-    r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
-    r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
-    r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
-    r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
-    r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
-)
-
 reLinkTitle = re.compile(
     r'^(?:"(?:\\[\s\S]|[^"\\\x00])*"'
     r'|'
@@ -69,6 +42,13 @@ reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\[\s\S]){0,1000}\]')
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
 
+def is_punctuation(c):
+    """Returns True for an ASCII punctuation character or one of the
+    general Unicode categories Pc, Pd, Pe, Pf, Pi, Po and Ps."""
+    return re.search(reEscapable, c) is not None or \
+        unicodedata.category(c)[0] == 'P'
+
+
 def text(s):
     node = Node('text', None)
     node.literal = s
@@ -261,11 +241,11 @@ class InlineParser(object):
         # Python 2 doesn't recognize '\xa0' as whitespace
         after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \
             c_after == '\xa0'
-        after_is_punctuation = re.search(rePunctuation, c_after)
+        after_is_punctuation = is_punctuation(c_after)
         before_is_whitespace = re.search(
             reUnicodeWhitespaceChar, c_before) or \
             c_before == '\xa0'
-        before_is_punctuation = re.search(rePunctuation, c_before)
+        before_is_punctuation = is_punctuation(c_before)
 
         left_flanking = not after_is_whitespace and \
             (not after_is_punctuation or
-- 
2.43.0


From 7116b1de2cade055f9f6263c41ad5841e7cd099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:42 +0000
Subject: [PATCH 18/45] fix: separators and U+0085 are not Unicode whitespace

\s also matches U+001C to U+001F, U+0085, U+2028 and U+2029, which the
spec doesn't count as whitespace when classifying a delimiter run.
---
 commonmark/inlines.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 4d345dc..3b5e283 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -33,7 +33,6 @@ reAutolink = re.compile(
 reSpnl = re.compile(r'^[ \t\x0b\x0c]*(?:\n[ \t\x0b\x0c]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t\x0b\x0c]*(?:\n|$)')
@@ -42,6 +41,12 @@ reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\[\s\S]){0,1000}\]')
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
 
+def is_unicode_whitespace(c):
+    """Returns True for a tab, line ending, form feed or a character of
+    the general Unicode category Zs."""
+    return c in '\t\n\x0c\r' or unicodedata.category(c) == 'Zs'
+
+
 def is_punctuation(c):
     """Returns True for an ASCII punctuation character or one of the
     general Unicode categories Pc, Pd, Pe, Pf, Pi, Po and Ps."""
@@ -238,13 +243,9 @@ class InlineParser(object):
         if c_after is None:
             c_after = '\n'
 
-        # Python 2 doesn't recognize '\xa0' as whitespace
-        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \
-            c_after == '\xa0'
+        after_is_whitespace = is_unicode_whitespace(c_after)
         after_is_punctuation = is_punctuation(c_after)
-        before_is_whitespace = re.search(
-            reUnicodeWhitespaceChar, c_before) or \
-            c_before == '\xa0'
+        before_is_whitespace = is_unicode_whitespace(c_before)
         before_is_punctuation = is_punctuation(c_before)
 
         left_flanking = not after_is_whitespace and \
-- 
2.43.0


From 90d878bd684f5ad64cf56afc85cb28926d3f2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 19/45] fix: remember failed searches for openers by kind of
 closer

The lower bound found by one closer was applied to closers that may
match other openers, and whether it was set depended on the last opener
looked at, so that '__*a**a*' lost emphasis. As in cmark, keep
one bound per character, can_open and length modulo 3.
---
 commonmark/inlines.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 3b5e283..7b16f6b 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -324,12 +324,9 @@ class InlineParser(object):
             top['previous'] = bottom
 
     def processEmphasis(self, stack_bottom):
-        openers_bottom = {
-            '_': stack_bottom,
-            '*': stack_bottom,
-            "'": stack_bottom,
-            '"': stack_bottom,
-        }
+        # by character, can_open and length modulo 3 of the closer:
+        # all that decides which openers it matches
+        openers_bottom = {}
         odd_match = False
         use_delims = 0
 
@@ -348,8 +345,11 @@ class InlineParser(object):
                 opener = closer.get('previous')
                 opener_found = False
                 closercc = closer.get('cc')
+                closer_kind = (closercc, bool(closer.get('can_open')),
+                               closer['origdelims'] % 3)
                 while (opener is not None and opener != stack_bottom and
-                       opener != openers_bottom[closercc]):
+                       opener != openers_bottom.get(closer_kind,
+                                                    stack_bottom)):
                     odd_match = (closer.get('can_open') or
                                  opener.get('can_close')) and \
                                  closer['origdelims'] % 3 != 0 and \
@@ -426,13 +426,9 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found and not odd_match:
+                if not opener_found:
                     # Set lower bound for future searches for openers:
-                    # We don't do this with odd_match because a **
-                    # that doesn't match an earlier * might turn into
-                    # an opener, and the * might be matched by something
-                    # else.
-                    openers_bottom[closercc] = old_closer['previous']
+                    openers_bottom[closer_kind] = old_closer['previous']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
                         # once we've seen there's no matching opener:
-- 
2.43.0


From 0ce09e7ade3377e6de679583970ed5feb0821558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:10 +0000
Subject: [PATCH 20/45] fix: h2 to h6 begin an HTML block as h1 does

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 34935d1..9b9e5c2 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -19,7 +19,7 @@ reHtmlBlockOpen = [
     re.compile(
         r'^<[/]?(?:address|article|aside|base|basefont|blockquote|body|'
         r'caption|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|'
-        r'fieldset|figcaption|figure|footer|form|frame|frameset|h1|head|'
+        r'fieldset|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|'
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-- 
2.43.0


From 5cc93c84beb8c0f3337c360aedbeab483385b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:45 +0000
Subject: [PATCH 21/45] fix: drop blank lines with tabs after indented code too

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 9b9e5c2..4621dbe 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -357,7 +357,7 @@ class CodeBlock(Block):
             block.literal = rest
         else:
             # indented
-            block.literal = re.sub(r'(\n *)+$', '\n', block.string_content)
+            block.literal = re.sub(r'(\n[ \t]*)+$', '\n', block.string_content)
 
         block.string_content = None
 
-- 
2.43.0


From 3f7e2029a11b57fe71606c1bb5d545b3a31360bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:50 +0000
Subject: [PATCH 22/45] fix: a final CR doesn't begin another line

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 4621dbe..e0672bd 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -892,7 +892,7 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
+        if len(my_input) > 0 and my_input[-1] in '\r\n':
             # ignore last blank line created by final newline
             length -= 1
         for i in range(length):
-- 
2.43.0


From 280397277e41ede943384529237943e12eec61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:16 +0000
Subject: [PATCH 23/45] fix: a blank line in a block quote doesn't make outer
 lists loose

'- > - a\n  >\n- b' has no blank line between its items.
---
 commonmark/blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index e0672bd..832ecc4 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -828,6 +828,9 @@ class Parser(object):
             # propagate last_line_blank up through parents:
             cont = container
             while cont:
+                if cont.t == 'block_quote':
+                    # no blank line to what's around the block quote
+                    last_line_blank = False
                 cont.last_line_blank = last_line_blank
                 cont = cont.parent
 
-- 
2.43.0


From c741c1c5d6d45ef37cc5af2b5acbf3ee24c92193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:22 +0000
Subject: [PATCH 24/45] fix: an item with only link definitions isn't an empty
 item

Two blank lines after the definitions closed it, as if it had begun
with a blank line, and what followed was no longer part of the item.
---
 commonmark/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 832ecc4..d8ffb89 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -256,7 +256,8 @@ class Item(Block):
     @staticmethod
     def continue_(parser=None, container=None):
         if parser.blank:
-            if container.first_child is None:
+            if container.first_child is None and \
+               container.sourcepos[0][0] == parser.line_number - 1:
                 # Blank line after empty list item
                 return 1
             else:
-- 
2.43.0


From fbd6c6ce66b1ef2ad18e7a0c761ac6f3dd6c7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:38 +0000
Subject: [PATCH 25/45] fix: no empty paragraph for definitions before a
 thematic break

'[foo]: /url\n---' gave '<p></p>' before the '<hr />': the definitions
had been taken when the line was tried as a setext underline.
---
 commonmark/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index d8ffb89..486afbc 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -408,7 +408,10 @@ class Paragraph(Block):
                 break
             block.string_content = block.string_content[pos:]
             has_reference_defs = True
-        if has_reference_defs and is_blank(block.string_content):
+        # (the content may be gone if they were followed by a setext
+        # heading underline)
+        if (has_reference_defs and is_blank(block.string_content)) or \
+           block.string_content == '':
             block.unlink()
 
     @staticmethod
-- 
2.43.0


From c5d2822b71c994c3dee02da592a90afb8e6a6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:02 +0000
Subject: [PATCH 26/45] fix: a shortcut reference label has at most 999
 characters

The limit was only applied where the label is written in full.
---
 commonmark/inlines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 7b16f6b..ddd9f6d 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -604,6 +604,8 @@ class InlineParser(object):
                 # contain a bracket. If we know there's a bracket, we
                 # don't even bother checking it.
                 reflabel = self.subject[opener.get('index'):startpos]
+                if len(reflabel) > 1001:
+                    reflabel = None
             if n == 0:
                 # If shortcut reference link, rewind before spaces we skipped.
                 self.pos = savepos
-- 
2.43.0


From 5b86d443c4f29eb7eebd446128fbc3ef4334d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:07 +0000
Subject: [PATCH 27/45] fix: escape raw HTML in an image description

It was copied into the alt attribute, where its quotes and brackets end
the attribute and the tag; show its source as other text.
---
 commonmark/render/html.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..a0d4f9f 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -186,6 +186,9 @@ class HtmlRenderer(Renderer):
     def html_inline(self, node, entering):
         if self.options.get('safe'):
             self.lit('<!-- raw HTML omitted -->')
+        elif self.disable_tags > 0:
+            # in the alt attribute of an image
+            self.out(node.literal)
         else:
             self.lit(node.literal)
 
-- 
2.43.0


From 1a53793fc42b84c45c8b0c19718bbef42d43f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:43 +0000
Subject: [PATCH 28/45] fix: underline reStructuredText headings by their whole
 text

The length was that of the first child: headings of several inlines got
too short a line, empty ones and those beginning with emphasis crashed.
---
 commonmark/render/rst.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..8b25cd8 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -150,12 +150,15 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
+            self.heading_start = len(self.buf)
         else:
+            # as long as the longest line, without its indentation
+            lines = self.buf[self.heading_start:].split('\n')
+            heading_length = max(len(line) for line in lines) - \
+                len(self.indent_char) * self.indent_length
+            banner = heading_char * heading_length
             self.cr()
             self.out(banner)
             self.cr()
-- 
2.43.0


From ddf93d9773a62fec6afdba3c05fdc219b4adfffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:48 +0000
Subject: [PATCH 29/45] fix: indent all lines of code in a list or block quote

Only the first line got the indentation of what it's in. Lines aren't
ended by form feeds or Unicode separators either.
---
 commonmark/render/rst.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 8b25cd8..dc58330 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -42,9 +42,12 @@ class ReStructuredTextRenderer(Renderer):
         indent = self.indent_char * indent_length
         new_lines = []
 
-        for line in literal.splitlines():
+        for line in literal.split('\n'):
             new_lines.append(indent + line)
 
+        if literal.endswith('\n'):
+            new_lines.pop()
+
         return '\n'.join(new_lines)
 
     # Nodes
@@ -111,7 +114,9 @@ class ReStructuredTextRenderer(Renderer):
         self.out(directive)
         self.cr()
         self.cr()
-        self.out(self.indent_lines(node.literal))
+        # unlike out(), indent every line
+        super(ReStructuredTextRenderer, self).lit(
+            self.indent_lines(node.literal, self.indent_length + 4))
         self.cr()
 
     def list(self, node, entering):
-- 
2.43.0


From 7ef2f72e5af2a96e4203bc8d23210431dd9c5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:53 +0000
Subject: [PATCH 30/45] fix: separate the paragraphs of a list item

'- a\n\n  b' was rendered as '* ab'.
---
 commonmark/render/rst.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index dc58330..749acd0 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -73,7 +73,10 @@ class ReStructuredTextRenderer(Renderer):
 
     def paragraph(self, node, entering):
         if node.parent.t == 'item':
-            pass
+            if entering and node.prv:
+                if self.last_out != '\n':
+                    self.cr()
+                self.cr()
         else:
             self.cr()
 
-- 
2.43.0


From 79e17b5af9b3b00954a50faaa23ac1af48dddd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:25 +0000
Subject: [PATCH 31/45] fix: safe mode only drops URLs that begin with an
 unsafe scheme

Only javascript: was anchored; 'http://example.com/?u=file:x' or
'#data:' lost their href though nothing is unsafe about them.
---
 commonmark/render/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index a0d4f9f..082b905 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -8,7 +8,7 @@ from commonmark.render.renderer import Renderer
 
 
 reUnsafeProtocol = re.compile(
-    r'^javascript:|vbscript:|file:|data:', re.IGNORECASE)
+    r'^(?:javascript|vbscript|file|data):', re.IGNORECASE)
 reSafeDataProtocol = re.compile(
     r'^data:image\/(?:png|gif|jpeg|webp)', re.IGNORECASE)
 
-- 
2.43.0


From 1e3a2372e0f329a1395638094653e7182bb02de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:29 +0000
Subject: [PATCH 32/45] fix: HtmlRenderer changed the options it was given

Renderers made without options all shared, and wrote to, the same
default dict, so that setting an option of one set it for all.
---
 commonmark/render/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 082b905..9a9f5af 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -20,6 +20,8 @@ def potentially_unsafe(url):
 
 class HtmlRenderer(Renderer):
     def __init__(self, options={}):
+        # a copy, to change neither the caller's options nor the default
+        options = dict(options)
         #  by default, soft breaks are rendered as newlines in HTML
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
-- 
2.43.0


From 25eefe6cd0c5fb6125bec8e4edbe0db7ec1588d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:33 +0000
Subject: [PATCH 33/45] fix: parsers made without options shared one options
 dict

parser.options['smart'] = True turned it on for all of them.
---
 commonmark/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 486afbc..5f7b955 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -591,7 +591,10 @@ class BlockStarts(object):
 
 
 class Parser(object):
-    def __init__(self, options={}):
+    def __init__(self, options=None):
+        if options is None:
+            # not a default value, which all parsers would share
+            options = {}
         self.doc = Node('document', [[1, 1], [0, 0]])
         self.block_starts = BlockStarts()
         self.tip = self.doc
-- 
2.43.0


From 9dff9bb09250fd3019a1a0b69cebd856202939cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:36 +0000
Subject: [PATCH 34/45] fix: cmark -o without a file name writes to stdout

The name is optional, but None.write raised AttributeError.
---
 commonmark/cmark.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonmark/cmark.py b/commonmark/cmark.py
index c6bd438..56ce76a 100755
--- a/commonmark/cmark.py
+++ b/commonmark/cmark.py
@@ -22,6 +22,7 @@ def main():
         '-o',
         nargs="?",
         type=argparse.FileType('w'),
+        const=sys.stdout,
         default=sys.stdout,
         help="Output HTML/JSON file, defaults to STDOUT")
     parser.add_argument('-a', action="store_true", help="Print formatted AST")
-- 
2.43.0


From 65b43e35a75de11b608437c0e1beeb28150c3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:40 +0000
Subject: [PATCH 35/45] fix: source positions of blocks that end with their end
 line

The end column of fenced code and HTML blocks was the length of the
line before the one that closes them.
---
 commonmark/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 5f7b955..fdc8858 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -328,6 +328,7 @@ class CodeBlock(Block):
                 re.search(reClosingCodeFence, ln[parser.next_nonspace:])
             if match and len(match.group()) >= container.fence_length:
                 # closing fence - we're at end of line, so we can return
+                parser.last_line_length = len(ln)
                 parser.finalize(container, parser.line_number)
                 return 2
             else:
@@ -850,6 +851,7 @@ class Parser(object):
                    re.search(
                        reHtmlBlockClose[container.html_block_type],
                        self.current_line[self.offset:]):
+                    self.last_line_length = len(ln)
                     self.finalize(container, self.line_number)
             elif self.offset < len(ln) and not self.blank:
                 # create a paragraph container for one line
-- 
2.43.0


From 6b272d6d95342b9b9812e1acf9563e0dd16eb023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:52 +0000
Subject: [PATCH 36/45] fix: nest the nodes of the JSON output as they are in
 the AST

Only the children that come first in each node were listed there;
others appeared elsewhere, and containers twice.
---
 commonmark/dump.py | 48 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/commonmark/dump.py b/commonmark/dump.py
index d83f259..33b4f2e 100644
--- a/commonmark/dump.py
+++ b/commonmark/dump.py
@@ -9,10 +9,16 @@ def prepare(obj, topnode=False):
     """Walk the complete AST, only returning needed data.
 
     This removes circular references and allows us to output
-    JSON.
+    JSON. Nodes are nested as in the AST.
     """
     a = []
+    # the lists which the nodes around the current one have their place in
+    lists = [a]
     for subnode, entered in obj.walker():
+        if not entered:
+            lists.pop()
+            continue
+
         rep = {
             'type': subnode.t,
         }
@@ -34,23 +40,43 @@ def prepare(obj, topnode=False):
         if subnode.list_data:
             rep['list_data'] = subnode.list_data
 
+        lists[-1].append(rep)
         if is_container(subnode):
             rep['children'] = []
-
-        if entered and len(a) > 0:
-            if a[-1]['children']:
-                a[-1]['children'].append(rep)
-            else:
-                a[-1]['children'] = [rep]
-        else:
-            a.append(rep)
+            lists.append(rep['children'])
     return a
 
 
 def dumpJSON(obj):
     """Output AST in JSON form, this is destructive of block."""
-    prepared = prepare(obj)
-    return json.dumps(prepared, indent=4, sort_keys=True)
+    # The output is that of json.dumps(prepare(obj), indent=4,
+    # sort_keys=True), which fails on deeply nested documents.
+    a = ['[']
+    stack = [(iter(prepare(obj)), None)]
+    first = True
+    while True:
+        indent = '\n' + ' ' * (8 * len(stack) - 4)
+        rep = next(stack[-1][0], None)
+        if rep is not None:
+            a.append(('' if first else ',') + indent + '{')
+            children = rep.pop('children', None)
+            if children is not None:
+                # the first key in order
+                a.append(indent + '    "children": [')
+                stack.append((iter(children), rep))
+                first = True
+                continue
+        else:
+            rep = stack.pop()[1]
+            a.append(']' if first else indent[:-4] + ']')
+            if rep is None:
+                return ''.join(a)
+            a.append(',')
+            indent = indent[:-8]
+        # the other keys and the end of the node
+        a.append(json.dumps(rep, indent=4, sort_keys=True)[1:].replace(
+            '\n', indent))
+        first = False
 
 
 def dumpAST(obj, ind=0, topnode=False):
-- 
2.43.0


From c959bf9a896d5d05c04f00070836fb8021e7d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:19 +0000
Subject: [PATCH 37/45] fix: a list number 01 may interrupt a paragraph as 1
 does

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index fdc8858..83a43aa 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -103,7 +103,7 @@ def parse_list_marker(parser, container):
     if m:
         data['type'] = 'bullet'
         data['bullet_char'] = m.group()[0]
-    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
+    elif m2 and (container.t != 'paragraph' or int(m2.group(1)) == 1):
         m = m2
         data['type'] = 'ordered'
         data['start'] = int(m.group(1))
-- 
2.43.0


From 365872385932f7f7b9cf983e13dc090dc8c230c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:22 +0000
Subject: [PATCH 38/45] fix: no second newline after text that ends with one

---
 commonmark/render/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/render/renderer.py b/commonmark/render/renderer.py
index 058f86b..bf2d174 100644
--- a/commonmark/render/renderer.py
+++ b/commonmark/render/renderer.py
@@ -30,7 +30,7 @@ class Renderer(object):
         self.last_out = s
 
     def cr(self):
-        if self.last_out != '\n':
+        if not self.last_out.endswith('\n'):
             self.lit('\n')
 
     def out(self, s):
-- 
2.43.0


From e5a03acff5d52c87086ed7bf99eaa21f8cbf8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:27 +0000
Subject: [PATCH 39/45] fix: indent text after a newline in reStructuredText

---
 commonmark/render/rst.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 749acd0..43b3830 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -63,7 +63,12 @@ class ReStructuredTextRenderer(Renderer):
         self.cr()
 
     def text(self, node, entering):
-        self.out(node.literal)
+        # a newline may come from a character reference
+        for i, line in enumerate(node.literal.split('\n')):
+            if i > 0:
+                self.cr()
+            if line:
+                self.out(line)
 
     def emph(self, node, entering):
         self.out('*')
-- 
2.43.0


From 4c614b1776b89f71563df1f12f9ec5948a85b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:14 +0000
Subject: [PATCH 40/45] fix: keep the spaces of blank code lines in a list item

---
 commonmark/blocks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 83a43aa..8901de4 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -255,18 +255,18 @@ class Item(Block):
 
     @staticmethod
     def continue_(parser=None, container=None):
-        if parser.blank:
-            if container.first_child is None and \
-               container.sourcepos[0][0] == parser.line_number - 1:
-                # Blank line after empty list item
-                return 1
-            else:
-                parser.advance_next_nonspace()
+        if parser.blank and container.first_child is None and \
+           container.sourcepos[0][0] == parser.line_number - 1:
+            # Blank line after empty list item
+            return 1
         elif parser.indent >= (container.list_data['marker_offset'] +
                                container.list_data['padding']):
+            # also of a blank line, whose other spaces may belong to code
             parser.advance_offset(
                 container.list_data['marker_offset'] +
                 container.list_data['padding'], True)
+        elif parser.blank:
+            parser.advance_next_nonspace()
         else:
             return 1
         return 0
-- 
2.43.0


From 93544c7dab79f5083c3f0897afad3649ff8a8f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:57 +0000
Subject: [PATCH 41/45] fix: blank lines between all blocks of a list item in
 reStructuredText

'- a\n\n      code' was rendered without the blank line a directive needs.
---
 commonmark/render/rst.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 43b3830..bc03119 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -78,9 +78,8 @@ class ReStructuredTextRenderer(Renderer):
 
     def paragraph(self, node, entering):
         if node.parent.t == 'item':
-            if entering and node.prv:
-                if self.last_out != '\n':
-                    self.cr()
+            # no blank lines around the only paragraph of an item
+            if node.prv if entering else node.nxt:
                 self.cr()
         else:
             self.cr()
-- 
2.43.0


From 3e24cac58ac0d2896af88bb5517cdcafea94b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:06 +0000
Subject: [PATCH 42/45] fix: collect rendered pieces in a list

Adding every piece to one string copied all output so far each time: a
document whose output is quadratic (many uses of one long reference)
took cubic time.
---
 commonmark/render/html.py     | 8 ++++----
 commonmark/render/renderer.py | 8 +++++---
 commonmark/render/rst.py      | 2 +-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 9a9f5af..5661d64 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -39,15 +39,15 @@ class HtmlRenderer(Renderer):
         if self.disable_tags > 0:
             return
 
-        self.buf += '<' + name
+        self.buf.append('<' + name)
         if attrs and len(attrs) > 0:
             for attrib in attrs:
-                self.buf += ' ' + attrib[0] + '="' + attrib[1] + '"'
+                self.buf.append(' ' + attrib[0] + '="' + attrib[1] + '"')
 
         if selfclosing:
-            self.buf += ' /'
+            self.buf.append(' /')
 
-        self.buf += '>'
+        self.buf.append('>')
         self.last_out = '>'
 
     # Node methods #
diff --git a/commonmark/render/renderer.py b/commonmark/render/renderer.py
index bf2d174..208d59e 100644
--- a/commonmark/render/renderer.py
+++ b/commonmark/render/renderer.py
@@ -9,7 +9,9 @@ class Renderer(object):
         """
         walker = ast.walker()
 
-        self.buf = ''
+        # pieces of output, joined at the end: adding to a string would
+        # copy all of it
+        self.buf = []
         self.last_out = '\n'
 
         event = walker.nxt()
@@ -19,14 +21,14 @@ class Renderer(object):
                 getattr(self, type_)(event['node'], event['entering'])
             event = walker.nxt()
 
-        return self.buf
+        return ''.join(self.buf)
 
     def lit(self, s):
         """Concatenate a literal string to the buffer.
 
         @param str {String} The string to concatenate.
         """
-        self.buf += s
+        self.buf.append(s)
         self.last_out = s
 
     def cr(self):
diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index bc03119..0f3a3fc 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -167,7 +167,7 @@ class ReStructuredTextRenderer(Renderer):
             self.heading_start = len(self.buf)
         else:
             # as long as the longest line, without its indentation
-            lines = self.buf[self.heading_start:].split('\n')
+            lines = ''.join(self.buf[self.heading_start:]).split('\n')
             heading_length = max(len(line) for line in lines) - \
                 len(self.indent_char) * self.indent_length
             banner = heading_char * heading_length
-- 
2.43.0


From 758b2a8bb97e00415952818789126a8f9ee16036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:03 +0000
Subject: [PATCH 43/45] fix: nbsp without semicolon in the bundled entity table

html.entities.html5 has it; _unescape('&nbsp') left it alone.
---
 commonmark/entitytrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/entitytrans.py b/commonmark/entitytrans.py
index 71c8025..3dc8446 100755
--- a/commonmark/entitytrans.py
+++ b/commonmark/entitytrans.py
@@ -1149,7 +1149,7 @@ _html5 = {
     'natur;': '\u266e',
     'natural;': '\u266e',
     'naturals;': '\u2115',
-    # 'nbsp': '\xa0',
+    'nbsp': '\xa0',
     'nbsp;': '\xa0',
     'nbump;': '\u224e\u0338',
     'nbumpe;': '\u224f\u0338',
-- 
2.43.0


From c4453ab71bafb513088c4f9383a38df43a3e593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 44/45] fix: start every rendering afresh, also after one that
 failed

disable_tags and indent_length kept what a rendering that ended with an
exception had left there.
---
 commonmark/render/html.py | 5 +++++
 commonmark/render/rst.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 5661d64..0385aa6 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -218,6 +218,11 @@ class HtmlRenderer(Renderer):
 
     # Helper methods #
 
+    def render(self, ast):
+        # an earlier rendering may have ended with an exception
+        self.disable_tags = 0
+        return super(HtmlRenderer, self).render(ast)
+
     def out(self, s):
         self.lit(self.escape(s))
 
diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 0f3a3fc..38071a9 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -25,6 +25,11 @@ class ReStructuredTextRenderer(Renderer):
         self.indent_char = indent_char
         self.indent_length = 0
 
+    def render(self, ast):
+        # an earlier rendering may have ended with an exception
+        self.indent_length = 0
+        return super(ReStructuredTextRenderer, self).render(ast)
+
     def lit(self, s):
         if s == '\n':
             indent = ''  # Avoid whitespace if we're just adding a newline
-- 
2.43.0


From 7f576e7beef1fe1fab9171b9562cf1fe22da5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 45/45] fix: show the start of lists that begin with 0 in the
 printed AST

---
 commonmark/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/dump.py b/commonmark/dump.py
index 33b4f2e..c8e7ed9 100644
--- a/commonmark/dump.py
+++ b/commonmark/dump.py
@@ -109,7 +109,7 @@ def dumpAST(obj, ind=0, topnode=False):
             print(
                 "\t\t" + indChar + "[bullet_char] = " +
                 obj.list_data['bullet_char'])
-        if obj.list_data.get('start'):
+        if obj.list_data.get('start') is not None:
             print(
                 "\t\t" + indChar + "[start] = " +
                 str(obj.list_data.get('start')))
-- 
2.43.0

