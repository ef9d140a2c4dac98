From 6946387d0e1cb7bb77390ba65467dd36a71a63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:29 +0000
Subject: [PATCH 01/52] fix: parse() and parsefrags() no longer report a
 spurious leading None event

The accumulating handler was primed twice, so the documented event sequence
started with None.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..71fc0fa 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -343,8 +343,8 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
 def handler(accumulator):
+    #Not primed here; parser() primes the handler it is given
     while True:
         event = yield
         accumulator.append(event)
-- 
2.43.0


From 962f634400f9980252e8bf795697482a0fe39e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:29 +0000
Subject: [PATCH 02/52] fix: resume correctly when an attribute value is split
 across fragments

The parser stayed positioned on the opening quote, and read the value as an
attribute name when the next fragment arrived.
---
 pylib/uxml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 71fc0fa..5853259 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -287,7 +287,8 @@ def parser(handler, strict=True):
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
                                 if not done: need_input = True
-                                #Don't advance to newpos, so effectively backtrack
+                                #Don't advance to newpos, and reread the attribute from its name
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
-- 
2.43.0


From 965d3fef1d2f46a84f2563482ee83796dc335a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:29 +0000
Subject: [PATCH 03/52] fix: reject an attribute whose value is not quoted

'<a x= y="1">' was accepted with x lost and an attribute named ' y'.
---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 5853259..37dec2a 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -295,6 +295,8 @@ def parser(handler, strict=True):
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected quoted attribute value, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From cde2af7ca8a56df48f109ebd9e3340bde28b53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:29 +0000
Subject: [PATCH 04/52] fix: parser no longer loops forever on truncated input
 or text before the document element

Running out of input in the final fragment, or meeting anything but '<' before
the document element, left the state machine spinning. Truncated input now
behaves the same whether or not it arrives in the final fragment.
---
 pylib/uxml/parser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 37dec2a..9088bcd 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -168,7 +168,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -176,6 +176,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected \'<\', found {0}'.format(window[pos]))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
@@ -186,7 +188,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -203,7 +205,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -215,7 +217,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -254,7 +256,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -266,7 +268,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -274,7 +276,7 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
+                        if pos == wlen:
                             need_input = True
                             pos = backtrackpos
                             continue
@@ -286,7 +288,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, and reread the attribute from its name
                                 pos = backtrackpos
                                 continue
@@ -300,7 +302,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -320,7 +322,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
-- 
2.43.0


From 98281b3cb57c17656ae43cafbca66d551deeec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:29 +0000
Subject: [PATCH 05/52] fix: malformed character references are rejected, not
 taken for a lack of input

Formatting the error message raised IndexError, which handle_cdata() treats as
running out of input.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 9088bcd..28f015a 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -124,7 +124,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From fc251f30940c4871d13bd893a0db560b8d912a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:29 +0000
Subject: [PATCH 06/52] fix: reject tags without an element name

'<></>' was accepted as an element with an empty name.
---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 28f015a..5f22dd2 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -204,6 +204,8 @@ def parser(handler, strict=True):
                                 advpos += 1
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
+                            else:
+                                raise RuntimeError('Expected element name, found {0}'.format(window[advpos]))
                         except IndexError:
                             need_input = True #Do not advance until we have enough input
                             continue
-- 
2.43.0


From b36c17410ecd747f3f23fa608e85b7174f3f9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:06 +0000
Subject: [PATCH 07/52] fix: xml_remove removes the given node, not an equal
 sibling text node

---
 pylib/uxml/tree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..6bdf931 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,9 +146,15 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
+        for index, candidate in enumerate(self.xml_children):
+            #Identity before equality, because text nodes with the same content are equal
+            if candidate is child:
+                break
+        else:
+            index = self.xml_children.index(child) if child in self.xml_children else -1
+        if index != -1:
+            child = self.xml_children.pop(index)
             child._xml_parent = None
-            self.xml_children.remove(child)
         else:
             raise ValueError(f'Element {self} has no child {child}')
         return
-- 
2.43.0


From 26f2aa55f9db603bf10a97783b546a8332d25cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:26 +0000
Subject: [PATCH 08/52] fix: serialized attribute values with newlines or tabs
 can be read back by the MicroXML parser

---
 pylib/uxml/tree.py   | 10 +++++++++-
 pylib/uxml/writer.py |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 6bdf931..034ad2c 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -9,13 +9,21 @@
 
 import sys
 import weakref
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape, quoteattr as sax_quoteattr
 
 from amara3.uxml.parser import parser, event  # parse, parsefrags
 
 # NO_PARENT = object()
 
 
+def quoteattr(val):
+    '''
+    Quote an attribute value. MicroXML only has hexadecimal character references
+    '''
+    quoted = sax_quoteattr(val)
+    return quoted.replace('&#10;', '&#xA;').replace('&#13;', '&#xD;').replace('&#9;', '&#x9;')
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..804a059 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,9 +4,10 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml import tree, xml
+from amara3.uxml.tree import quoteattr
 
 class token(Enum):
     start_open = 1
-- 
2.43.0


From e8ede00119dea768091964a7a38f40e607cc6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:54 +0000
Subject: [PATCH 09/52] fix: names may contain any MicroXML name character,
 such as '.' or U+00C1

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 5f22dd2..e282290 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From b4df57530686da8280193ac77567d7c3faf08d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 10/52] fix: several patterns given to one sender are matched
 independently

---
 pylib/uxml/treeiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..57dde4e 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [[] for _ in self._patterns]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
-- 
2.43.0


From 3a347a54ae6c7a97e99f44f4170441b86f22b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 11/52] fix: '**' in patterns no longer commits to the first
 element that the next step matches

---
 pylib/uxml/treeiter.py | 15 ++++++++++++++-
 pylib/uxml/treeutil.py | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 57dde4e..245d186 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -79,11 +79,24 @@ class sender:
         def _any_until_func(ev):
             if ev[0] == event.start_element:
                 next_next = next(ev)
-                if next_next is not None:
+                if next_next == MATCHED_STATE:
                     return next_next
+                if next_next is not None:
+                    #This element might also be one more of those to be skipped
+                    return self._either(next_next, _any_until_func)
             return _any_until_func
         return _any_until_func
 
+    def _either(self, first, second):
+        def _either_func(ev):
+            results = [ result for result in (first(ev), second(ev)) if result is not None ]
+            if MATCHED_STATE in results:
+                return MATCHED_STATE
+            if len(results) == 2:
+                return self._either(*results)
+            return results[0] if results else None
+        return _either_func
+
     def _any(self, next, funcs):
         def _any_func(ev):
             if any( (func(ev) for func in funcs) ):
diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..e25a6de 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -107,11 +107,24 @@ def any_until(next):
     def _any_until(node):
         if isinstance(node, element):
             next_next = next(node)
-            if next_next is not None:
+            if next_next == MATCHED_STATE:
                 return next_next
+            if next_next is not None:
+                #This element might also be one more of those to be skipped
+                return either(next_next, _any_until)
         return _any_until #Return this same state until we can match the next
     return _any_until
 
+def either(first, second):
+    def _either(node):
+        results = [ result for result in (first(node), second(node)) if result is not None ]
+        if MATCHED_STATE in results:
+            return MATCHED_STATE
+        if len(results) == 2:
+            return either(*results)
+        return results[0] if results else None
+    return _either
+
 def any_(next, funcs):
     def _any(node):
         if any( (func(node) for func in funcs) ):
-- 
2.43.0


From 6b603cd39e45eac66f3d61baae61efe8b9b45e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:09 +0000
Subject: [PATCH 12/52] fix: alternatives in a select_pattern step

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index e25a6de..d09c197 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -144,7 +144,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(MATCHED_STATE, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From f219009cc3590b358ba5a0503e877752efd6354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:10 +0000
Subject: [PATCH 13/52] fix: following_siblings starts from the given node, not
 from an equal text node

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index d09c197..7cea0bd 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 7696552eef8107d78debd57e052eeb11ff354d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:12 +0000
Subject: [PATCH 14/52] fix: make_pretty uses the requested indent at every
 level

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 7cea0bd..1ccec62 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -230,7 +230,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
-- 
2.43.0


From 9db5961a132cc7d872a0b246f37424299e90f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 15/52] fix: an XML treebuilder can be used for more than one
 document

---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..102dc80 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From 0182f0bdcdd2536a4fb3637b2528581270f111fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:42 +0000
Subject: [PATCH 16/52] fix: select_value yields elements only

---
 pylib/uxml/treeutil.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 1ccec62..58db182 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -54,9 +54,7 @@ def select_value(source, val):
     source - if an element, starts with all child elements in order; can also be any other iterator
     val - string value to match
     '''
-    if isinstance(source, element):
-        source = source.xml_children
-    return filter(lambda x: x.xml_value == val, source)
+    return filter(lambda x: x.xml_value == val, select_elements(source))
 
 
 def select_attribute(source, name, val=None):
-- 
2.43.0


From ad6895167f67c61ddb096f550750b02fbfc6071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:49 +0000
Subject: [PATCH 17/52] fix: end events of elements whose namespace URI
 contains other whitespace characters

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 102dc80..d216abd 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -33,7 +33,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From 098ccceaa641d85ba7b76e53f45c76ea8a042c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:11 +0000
Subject: [PATCH 18/52] fix: XPath attribute nodes keep their name

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..9b8b710 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -64,9 +64,9 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From 4b9e0a32cb44163dc95d9001ca450b6888205c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:12 +0000
Subject: [PATCH 19/52] fix: XPath '=' compares each item on the left with each
 item on the right

---
 pylib/uxml/uxpath/xast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9b8b710..5bf8865 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -282,13 +282,13 @@ class binary_expression:
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
             lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
+            rhs = list(self.right.compute(ctx))
             # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
             # If LHS is a node sequence, check comparison on each item
             for i in lhs:
                 for j in rhs:
                     i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
+                    j = j.xml_value if isinstance(j, node) else j
                     if i == j:
                         yield True
                         return
-- 
2.43.0


From ff7c629b18cae74a5462949e441e3d581df80ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:13 +0000
Subject: [PATCH 20/52] fix: XPath unary minus

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 5bf8865..28bb827 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -212,7 +212,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-- 
2.43.0


From bc27a97d518180f1578bf8ef901a970413b9e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:15 +0000
Subject: [PATCH 21/52] fix: XPath node tests apply to the root node on the
 parent and ancestor axes, and '*' to elements only

---
 pylib/uxml/uxpath/xast.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 28bb827..6e3441a 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -433,14 +433,19 @@ class step:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
                 parent = parent.xml_parent
-            yield root_node.get(ctx.item)
+            if not isinstance(ctx.item, root_node):
+                new_ctx = ctx.copy(item=root_node.get(ctx.item))
+                yield from self.node_test.compute(new_ctx)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
             parent = ctx.item.xml_parent
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = parent.xml_parent
+            if not isinstance(ctx.item, root_node):
+                new_ctx = ctx.copy(item=root_node.get(ctx.item))
+                yield from self.node_test.compute(new_ctx)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
@@ -475,8 +480,9 @@ class step:
             if ctx.item.xml_parent:
                 new_ctx = ctx.copy(item=ctx.item.xml_parent)
                 yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
+            elif not isinstance(ctx.item, root_node):
+                new_ctx = ctx.copy(item=root_node.get(ctx.item))
+                yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
             start = ctx.item.xml_parent.xml_children.index(ctx.item)
@@ -582,7 +588,8 @@ class name_test:
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
         if self.name == '*':
-            yield ctx.item
+            if isinstance(ctx.item, element):
+                yield ctx.item
         else:
             # yield from (n for n in nodeseq if n.xml_name == self.name)
             if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
@@ -643,7 +650,7 @@ class abbreviated_step:
             # assert isinstance(ctx.item, node)
             if ctx.item.xml_parent:
                 yield ctx.item.xml_parent
-            else:
+            elif not isinstance(ctx.item, root_node):
                 yield root_node.get(ctx.item)
 
     def __call__(self, ctx):
-- 
2.43.0


From a488d619928600f52e4829dce385f85d526be3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:29 +0000
Subject: [PATCH 22/52] fix: the XPath root node is found from any node, is the
 same throughout a tree, and follows changes to the tree

---
 pylib/uxml/uxpath/xast.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 6e3441a..b28308f 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -36,30 +36,30 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
-
     def __init__(self, docelem):
-        self.xml_name = ''
-        self.xml_value = ''
         self.xml_children = [docelem]
         node.__init__(self)
 
+    @property
+    def xml_value(self):
+        return self.xml_children[0].xml_value
+
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
     @staticmethod
-    #@functools.lru_cache()
-    def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
-        if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
-        curr_elem = elem
-        parent = curr_elem.xml_parent
+    def get(item):
+        if isinstance(item, root_node): return item
+        assert isinstance(item, node), 'Cannot get root node from object {} of type {}'.format(item, type(item))
+        top = item
+        parent = top.xml_parent
         while parent:
-            curr_elem = parent
-            parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+            top = parent
+            parent = top.xml_parent
+        #The root node lives as long as the tree that it is the root of
+        if not hasattr(top, '_xml_root_node'):
+            top._xml_root_node = root_node(top)
+        return top._xml_root_node
 
 
 class attribute_node(node):
-- 
2.43.0


From 29eb53661972bd28c18d823a00940c552d111ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:09 +0000
Subject: [PATCH 23/52] fix: XPath following, preceding and sibling axes

---
 pylib/uxml/uxpath/xast.py | 63 +++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b28308f..7184fcf 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -28,7 +28,7 @@ import operator
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
-from amara3.uxml.treeutil import descendants
+from amara3.uxml.treeutil import descendants, following_siblings
 
 
 class root_node(node):
@@ -89,6 +89,25 @@ def index_docorder(node):
         node._docorder = index
 
 
+def preceding_siblings(item):
+    '''
+    List of the nodes before item among the children of its parent, nearest first
+    '''
+    siblings = item.xml_parent.xml_children
+    #By identity, because text nodes with the same content are equal
+    index = next((ix for ix, sibling in enumerate(siblings) if sibling is item), 0)
+    return siblings[:index][::-1]
+
+
+def subtree(item):
+    '''
+    Yields item and all its descendant nodes, in document order
+    '''
+    yield item
+    for child in item.xml_children:
+        yield from subtree(child)
+
+
 # Casts
 def to_string(obj):
     '''
@@ -462,18 +481,18 @@ class step:
                 new_ctx = ctx.copy(item=child)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
-            while to_process:
-                ff = to_process[0]
-                to_process = list(ff.xml_children) + to_process[1:]
-                new_ctx = ctx.copy(item=ff)
-                yield from self.node_test.compute(new_ctx)
+            current = ctx.item
+            while current.xml_parent:
+                to_process = list(following_siblings(current))
+                while to_process:
+                    ff = to_process[0]
+                    to_process = list(ff.xml_children) + to_process[1:]
+                    new_ctx = ctx.copy(item=ff)
+                    yield from self.node_test.compute(new_ctx)
+                current = current.xml_parent
         elif self.axis == 'following-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            for ff in list(ctx.item.xml_parent.xml_children)[start:]:
+            for ff in list(following_siblings(ctx.item)):
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
@@ -484,22 +503,16 @@ class step:
                 new_ctx = ctx.copy(item=root_node.get(ctx.item))
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
+            current = ctx.item
+            while current.xml_parent:
+                for sibling in preceding_siblings(current):
+                    for prev in reversed(list(subtree(sibling))):
+                        new_ctx = ctx.copy(item=prev)
+                        yield from self.node_test.compute(new_ctx)
+                current = current.xml_parent
         elif self.axis == 'preceding-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[:start]
-            to_process.reverse()
-            for prev in to_process:
+            for prev in preceding_siblings(ctx.item):
                 new_ctx = ctx.copy(item=prev)
                 yield from self.node_test.compute(new_ctx)
         return
-- 
2.43.0


From 45f6018de0a8e538b636a4f43ea7f9972e2896e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:28 +0000
Subject: [PATCH 24/52] fix: XPath node type tests on the attribute axis, and
 other axes starting from attributes

---
 pylib/uxml/uxpath/xast.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 7184fcf..f42b06e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -67,6 +67,7 @@ class attribute_node(node):
         node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
@@ -444,7 +445,11 @@ class step:
         elif self.axis == 'attribute':
             if isinstance(ctx.item, element):
                 for k, v in ctx.item.xml_attributes.items():
-                    if self.node_test.name in ('*', k):
+                    if isinstance(self.node_test, name_test):
+                        matched = self.node_test.name in ('*', k)
+                    else:
+                        matched = self.node_test.name == 'node'
+                    if matched:
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
             parent = ctx.item.xml_parent
-- 
2.43.0


From 31fd5966bd9c968bbb805425461001151493435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 25/52] fix: '//' inside an XPath expression leaves the
 expression as it is, and is short for /descendant-or-self::node()/

---
 pylib/uxml/uxpath/xast.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f42b06e..e53b03c 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -282,13 +282,16 @@ class binary_expression:
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
             # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
+            # Abbreviation for /descendant-or-self::node()/
+            if isinstance(self.right, step) and self.right.axis == 'child':
+                # The same nodes, in document order
+                right = step('descendant', self.right.node_test)
+            else:
+                right = binary_expression(step('descendant-or-self', node_type_test('node')), '/', self.right)
             selected = self.left.compute(ctx)
             for item in selected:
                 new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+                yield from right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
             if not hasattr(ctx.item, '_docorder'):
-- 
2.43.0


From 2c6226777ec7534af7023cab03e1dffdb0dcd835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:53 +0000
Subject: [PATCH 26/52] fix: XPath '|' works for all kinds of nodes, without
 duplicates, also after changes to the tree

---
 pylib/uxml/uxpath/xast.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index e53b03c..a0ae885 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,7 +24,6 @@ __all__ = [
     ]
 
 
-import operator
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -90,6 +89,25 @@ def index_docorder(node):
         node._docorder = index
 
 
+def docorder(item):
+    '''
+    Sort key which arranges the nodes of a tree in document order, and is the same only for the same node
+    '''
+    path = []
+    while item.xml_parent:
+        parent = item.xml_parent
+        #Attributes come after their element, but before its children
+        if isinstance(item, attribute_node):
+            path.append((0, list(parent.xml_attributes).index(item.xml_name)))
+        else:
+            path.append((1, next(ix for ix, child in enumerate(parent.xml_children) if child is item)))
+        item = parent
+    if not isinstance(item, root_node):
+        path.append((1, 0))
+    path.append((1, id(root_node.get(item))))
+    return tuple(reversed(path))
+
+
 def preceding_siblings(item):
     '''
     List of the nodes before item among the children of its parent, nearest first
@@ -294,13 +312,13 @@ class binary_expression:
                 yield from right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
-            selected = list(self.left.compute(ctx))
-            selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            selected = {}
+            for operand in (self.left, self.right):
+                for item in operand.compute(ctx):
+                    selected.setdefault(docorder(item), item)
+            for key in sorted(selected):
+                yield selected[key]
 
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
-- 
2.43.0


From 68ae7eb3bc48682e01c18e7ecc382eef41a8ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:55 +0000
Subject: [PATCH 27/52] fix: XPath context items such as 0 and the empty string

---
 pylib/uxml/uxpath/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..a3be269 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -89,8 +89,8 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
+        item = item if item is not None else self.item
+        pos = pos if pos is not None else self.pos
         variables = variables if variables else self.variables
         functions = functions if functions else self.functions
         lookuptables = lookuptables if lookuptables else self.lookuptables
-- 
2.43.0


From 3b16f375d72887dd10a7313ede8135d232e7990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 28/52] fix: XPath 'and' and 'or' yield booleans, and treat an
 empty sequence as false

---
 pylib/uxml/uxpath/xast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a0ae885..ca006f6 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -355,12 +355,12 @@ class binary_expression:
             rhs = self.right.compute(ctx)
             yield next(lhs) <= next(rhs)
         elif self.op == 'or':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
+            lhs = to_boolean(self.left.compute(ctx))
+            rhs = to_boolean(self.right.compute(ctx))
             yield next(lhs) or next(rhs)
         elif self.op == 'and':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
+            lhs = to_boolean(self.left.compute(ctx))
+            rhs = to_boolean(self.right.compute(ctx))
             # lhs_val = next(lhs, None)
             # rhs_val = next(rhs, None)
             # print((self.left, lhs_val, self.right, rhs_val))
-- 
2.43.0


From 3af36205bd1c753ee7a5bfbd449f1475bf9fd8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:19 +0000
Subject: [PATCH 29/52] fix: XPath 'and' binds tighter than 'or'

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..bf539c0 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..67bb751 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,7 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -24,7 +25,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -217,7 +219,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -262,7 +265,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -285,7 +289,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From e1ad06edb86576d234dd63fd18bb9480274319a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:35 +0000
Subject: [PATCH 30/52] fix: XPath predicates apply to the step they follow,
 not to a whole expression with operators

---
 pylib/uxml/uxpath/parserules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 67bb751..eb61ef9 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -17,6 +17,7 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    ('left', 'OPEN_BRACKET'),
 )
 
 #
-- 
2.43.0


From a33a8d2ed2f7b19975686655e75d337222ec658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:52 +0000
Subject: [PATCH 31/52] fix: successive XPath predicates filter each other's
 results

---
 pylib/uxml/uxpath/xast.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index ca006f6..6b30b0e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -580,24 +580,25 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        items = self.lhs.compute(ctx)
+        # Each predicate filters, and counts positions in, the result of the one before
+        for pred in self.predicates:
+            items = self._filter(items, pred, ctx)
+        yield from items
+
+    def _filter(self, items, pred, ctx):
+        for pos, item in enumerate(items):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 == predval:
+                    yield item
+            elif next(to_boolean(predval)):
                 yield item
 
 
-- 
2.43.0


From bcd1e9d70b94c5a82651a187d2012844173e9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 32/52] fix: XPath string values of booleans and floating-point
 numbers

---
 pylib/uxml/uxpath/xast.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 6b30b0e..d817f88 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,7 +25,10 @@ __all__ = [
 
 
 # import functools
+import math
+import re
 from collections.abc import Iterable
+from decimal import Decimal
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.treeutil import descendants, following_siblings
 
@@ -144,10 +147,21 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
     elif isinstance(val, bool):
+        # bools are ints in Python
         yield 'true' if val else 'false'
+    elif isinstance(val, float):
+        if math.isnan(val):
+            yield 'NaN'
+        elif math.isinf(val):
+            yield 'Infinity' if val > 0 else '-Infinity'
+        elif val == int(val):
+            yield str(int(val))
+        else:
+            # Decimal point, but never an exponent
+            yield format(Decimal(repr(val)), 'f')
+    elif isinstance(val, int):
+        yield str(val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From 4924afca3cc4f95d65e6b911d5e465cf079c4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 33/52] fix: XPath number conversion yields NaN for what is not
 a number

---
 pylib/uxml/uxpath/functions.py |  4 +++-
 pylib/uxml/uxpath/xast.py      | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..c846a2e 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -271,7 +271,9 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
         obj = next(seq.compute(ctx), '')
     else:
         obj = seq
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d817f88..31efb47 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -166,6 +166,12 @@ def to_string(obj):
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
 
+NUMBER_PATTERN = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*')
+
+def _parse_number(s):
+    return float(s) if NUMBER_PATTERN.fullmatch(s) else math.nan
+
+
 def to_number(obj):
     '''
     Cast an arbitrary object or sequence to a number type
@@ -177,12 +183,14 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
+        yield math.nan
     elif isinstance(val, str):
-        yield float(val)
+        yield _parse_number(val)
     elif isinstance(val, node):
-        yield float(strval(val))
+        yield _parse_number(strval(val))
+    elif isinstance(val, bool):
+        # bools are ints in Python
+        yield int(val)
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
-- 
2.43.0


From eb880ed5655427190df7ff488621c81304419393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 34/52] fix: XPath boolean value of NaN is false

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 31efb47..1a4ca51 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -217,7 +217,7 @@ def to_boolean(obj):
     elif isinstance(val, node):
         yield True
     elif isinstance(val, float) or isinstance(val, int):
-        yield bool(val)
+        yield bool(val) and not math.isnan(val)
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From 892b2e4983ee370315184a6a785da6ecf25efb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:42 +0000
Subject: [PATCH 35/52] fix: XPath comparisons hold if they do for any pair of
 items, with nodes converted to their values

---
 pylib/uxml/uxpath/xast.py | 55 ++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 1a4ca51..1bbf388 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -26,6 +26,7 @@ __all__ = [
 
 # import functools
 import math
+import operator
 import re
 from collections.abc import Iterable
 from decimal import Decimal
@@ -222,6 +223,24 @@ def to_boolean(obj):
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
 
+COMPARISONS = {
+    '=': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge,
+}
+
+def compare(op, left, right):
+    '''
+    Compare two items, as booleans if either is a boolean, else as numbers if either is a number, else as strings
+    '''
+    types = (type(left), type(right))
+    if bool in types:
+        cast = to_boolean
+    elif int in types or float in types:
+        cast = to_number
+    else:
+        cast = to_string
+    return COMPARISONS[op](next(cast(left)), next(cast(right)))
+
+
 class literal_wrapper:
     '''
     Literal string or number
@@ -342,40 +361,10 @@ class binary_expression:
             for key in sorted(selected):
                 yield selected[key]
 
-        # FIXME: A lot of work to do on comparisons
-        elif self.op == '=':
-            lhs = self.left.compute(ctx)
+        elif self.op in COMPARISONS:
+            # True if the comparison holds for any item from the left and any from the right
             rhs = list(self.right.compute(ctx))
-            # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
-                for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = j.xml_value if isinstance(j, node) else j
-                    if i == j:
-                        yield True
-                        return
-            yield False
-        elif self.op == '!=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
-        elif self.op == '>':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
-        elif self.op == '<':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
-        elif self.op == '>=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
-        elif self.op == '<=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
+            yield any( compare(self.op, i, j) for i in self.left.compute(ctx) for j in rhs )
         elif self.op == 'or':
             lhs = to_boolean(self.left.compute(ctx))
             rhs = to_boolean(self.right.compute(ctx))
-- 
2.43.0


From 11575675cd3b0a94cd3f0c58f3fe2186aba26f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:44 +0000
Subject: [PATCH 36/52] fix: XPath string functions accept any expression as
 argument

---
 pylib/uxml/uxpath/functions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index c846a2e..e0dd2d7 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -27,7 +27,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
@@ -36,7 +36,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), '')
     return to_string(obj)
 
 
@@ -173,8 +173,8 @@ def substring(ctx, full, start, length):
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
+    start = int(next(number_arg(ctx, start)))
+    length = int(next(number_arg(ctx, length)))
     yield full[start-1:start-1+length]
 
 
@@ -184,10 +184,8 @@ def string_length(ctx, s=None):
     Yields one number
     '''
     if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
-    yield len(s)
+        s = ctx.item
+    yield len(next(string_arg(ctx, s), ''))
 
 
 @microxpath_function('normalize-space')
-- 
2.43.0


From 560baf590b5d43299cffac2ffeb2c9b07a40c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:02 +0000
Subject: [PATCH 37/52] fix: XPath substring functions when there is nothing to
 find or the start is before the string

---
 pylib/uxml/uxpath/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index e0dd2d7..f847ae1 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -154,7 +154,7 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    yield full[:full.index(part)] if part in full else ''
 
 
 @microxpath_function('substring-after')
@@ -164,7 +164,7 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    yield full[full.index(part)+len(part):] if part in full else ''
 
 
 @microxpath_function('substring')
@@ -175,7 +175,7 @@ def substring(ctx, full, start, length):
     full = next(string_arg(ctx, full), '')
     start = int(next(number_arg(ctx, start)))
     length = int(next(number_arg(ctx, length)))
-    yield full[start-1:start-1+length]
+    yield full[max(start-1, 0):max(start-1+length, 0)]
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From 89ea04ebaeb557b24632ca2f20c26b23bc8e3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:28 +0000
Subject: [PATCH 38/52] fix: qquery accepts a parsed XPath expression

---
 pylib/uxml/uxpath/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index a3be269..52bb3b6 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -132,6 +132,8 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
     if not root: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
+    else:
+        parsed_expr = xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From 560ef2487f0ea694a2cf57036da76e758c0bc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:59 +0000
Subject: [PATCH 39/52] fix: HTML elements with a colon in their name keep the
 position html5lib gives them

---
 pylib/uxml/html5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..e39863f 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -278,7 +278,10 @@ class treebuilder(TreeBuilder):
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
             if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
+                if xml_html5lib_namespace is MARKER:
+                    xml_html5lib_namespace = namespace
+                #html5lib has to find the element under the name it knows
+                xml_html5lib_name = name
                 namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
             if xml_html5lib_namespace != MARKER:
-- 
2.43.0


From 78c6d3c677caacc945ce8cae2b4fb1e075ffc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:19 +0000
Subject: [PATCH 40/52] fix: elements that html5lib clones keep their HTML
 namespace

---
 pylib/uxml/html5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index e39863f..51ca705 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -155,7 +155,12 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        #Also what html5lib needs to recognize the element by
+        for key in ('xml_html5lib_name', 'xml_html5lib_namespace'):
+            if hasattr(self, key):
+                setattr(clone, key, getattr(self, key))
+        return clone
 
 
 # class comment(tree.comment):
-- 
2.43.0


From 9142bca63ec8789109fb151be0644308c06b2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:53 +0000
Subject: [PATCH 41/52] fix: elements keep the name and namespace that html5lib
 knows them by, also SVG and MathML ones

---
 pylib/uxml/html5.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 51ca705..00098b1 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -268,7 +268,8 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
+            #html5lib has to find the element under the name and namespace it knows
+            xml_html5lib_name, xml_html5lib_namespace = name, namespace
             if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
                 #html5lib feints support for HTML5 elements kept in the null namespace
                 #But in reality this support is broken.  We have to in effect keep
@@ -283,10 +284,6 @@ class treebuilder(TreeBuilder):
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
             if (u":" in name and not namespace):
-                if xml_html5lib_namespace is MARKER:
-                    xml_html5lib_namespace = namespace
-                #html5lib has to find the element under the name it knows
-                xml_html5lib_name = name
                 namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
             if xml_html5lib_namespace != MARKER:
-- 
2.43.0


From 28bfdced43d8cba90098cc3e3188118b86d30865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 42/52] fix: white space is allowed after the equals sign of an
 attribute

---
 pylib/uxml/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index e282290..4f2b55b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -278,8 +278,13 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if pos == wlen:
-                            need_input = True
+
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
-- 
2.43.0


From cef5a44f39d0e2f0baf32b19de008e5b8144bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:43 +0000
Subject: [PATCH 43/52] fix: XPath path operators bind tighter than all other
 operators, also after predicates, variables and parentheses

---
 pylib/uxml/uxpath/parserules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index eb61ef9..55069c2 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -17,6 +17,8 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    # Right, so that steps are collected into a relative path
+    ('right', 'PATH_SEP', 'ABBREV_PATH_SEP'),
     ('left', 'OPEN_BRACKET'),
 )
 
-- 
2.43.0


From 93035e4ed1ac1e7f1f89bc83140b00b59eee5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 44/52] fix: the XPath step text() or node() selects children
 also when it is a whole expression

---
 pylib/uxml/uxpath/parserules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 55069c2..5cd1bf0 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -101,6 +101,9 @@ def p_expr_paths_etc(p):
          | VariableReference
     """
     p[0] = p[1]
+    # Same ambiguity between node type test & function call as below
+    if isinstance(p[1], xast.node_type_test):
+        p[0] = xast.step('child', p[1])
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From 300efa13c1f74ca002e434fdc76305e09eac52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 45/52] fix: XPath /self::node() and the like do not yield the
 root node once more

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 1bbf388..d006684 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -436,7 +436,7 @@ class absolute_path:
 
 
 def _step_is_just_node(r):
-    return isinstance(r, step) \
+    return isinstance(r, step) and r.axis == 'child' \
         and isinstance(r.node_test, node_type_test) \
         and r.node_test.name == 'node'
 
-- 
2.43.0


From cad6f9e5e53b8c3b11ae01c54459760eca7224c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:29 +0000
Subject: [PATCH 46/52] fix: XPath boolean value of a text node is true even if
 it is empty, and string values are plain strings

---
 pylib/uxml/uxpath/xast.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d006684..97cfcb7 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -144,10 +144,11 @@ def to_string(obj):
         val = obj
     if val is None:
         yield ''
-    elif isinstance(val, str):
-        yield val
     elif isinstance(val, node):
+        # text nodes are strs in Python
         yield strval(val)
+    elif isinstance(val, str):
+        yield val
     elif isinstance(val, bool):
         # bools are ints in Python
         yield 'true' if val else 'false'
@@ -213,10 +214,11 @@ def to_boolean(obj):
         yield False
     elif isinstance(val, bool):
         yield val
-    elif isinstance(val, str):
-        yield bool(val)
     elif isinstance(val, node):
+        # text nodes are strs in Python
         yield True
+    elif isinstance(val, str):
+        yield bool(val)
     elif isinstance(val, float) or isinstance(val, int):
         yield bool(val) and not math.isnan(val)
     else:
-- 
2.43.0


From 3f30acd9596c0f3a4d5ef704905925b0faf92034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:42 +0000
Subject: [PATCH 47/52] fix: a slash followed by a name is an absolute XPath
 path, also if the name is that of an operator

---
 pylib/uxml/uxpath/parserules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 5cd1bf0..39a5327 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,6 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
+    # Lowest, so that a name after a slash is a step, even if it is also the name of an operator
+    ('left', 'ROOT_ONLY'),
     ('left', 'OR_OP'),
     ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
@@ -118,7 +120,7 @@ def p_expr_literal(p):
 
 def p_absolute_location_path_rootonly(p):
     """
-    AbsoluteLocationPath : PATH_SEP
+    AbsoluteLocationPath : PATH_SEP %prec ROOT_ONLY
     """
     p[0] = xast.absolute_path(p[1])
 
-- 
2.43.0


From b33cf73691a93d2fea5d804cb419331df568702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:10 +0000
Subject: [PATCH 48/52] fix: the XPath following axis of an attribute includes
 the children of its element

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 97cfcb7..f19359e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -522,7 +522,8 @@ class step:
         elif self.axis == 'following':
             current = ctx.item
             while current.xml_parent:
-                to_process = list(following_siblings(current))
+                #What follows an attribute are the children of its element
+                to_process = list(current.xml_parent.xml_children if isinstance(current, attribute_node) else following_siblings(current))
                 while to_process:
                     ff = to_process[0]
                     to_process = list(ff.xml_children) + to_process[1:]
-- 
2.43.0


From 82db18e9915ed7e4ccbca7cd025976acbd172526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 49/52] =?UTF-8?q?fix:=20names=20in=20XPath=20expressions?=
 =?UTF-8?q?=20can=20have=20the=20letters=20from=20=C3=80=20to=20=C3=96?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index bf539c0..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From 0bbd5f8e780cbd01db5fef3075caf4875f92050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:16 +0000
Subject: [PATCH 50/52] fix: html5 attributes whose names merely begin with
 xmlns are kept

---
 pylib/uxml/html5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 00098b1..f6112b9 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -139,7 +139,7 @@ class element(tree.element, node):
         for key, val in attrs.items():
             if isinstance(key, tuple):
                 self.xml_attributes[qname_to_local(key[1])] = val
-            elif key.startswith(u'xmlns'):
+            elif key == u'xmlns' or key.startswith(u'xmlns:'):
                 continue
             else:
                 self.xml_attributes[key] = val
-- 
2.43.0


From 30b8f55f7d76401a1fee6b395467b3c59903326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 51/52] fix: XPath substring() rounds its arguments as XPath
 says, also NaN and infinity, and the length can be left out

---
 pylib/uxml/uxpath/functions.py | 36 +++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index f847ae1..4767084 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -9,6 +9,8 @@ __all__ = [
 
 
 #import operator
+import math
+from fractions import Fraction
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.uxpath.xast import root_node, attribute_node, index_docorder, to_string, to_number, to_boolean
@@ -167,15 +169,39 @@ def substring_after(ctx, full, part):
     yield full[full.index(part)+len(part):] if part in full else ''
 
 
+def _nearest_integer(num):
+    '''
+    The integer closest to num, the higher one if there are two, or None for NaN and infinity
+    '''
+    if num != num or num == math.inf or num == -math.inf:
+        return None
+    return math.floor(Fraction(num) + Fraction(1, 2))
+
+
 @microxpath_function('substring')
-def substring(ctx, full, start, length):
+def substring(ctx, full, start, length=None):
     '''
-    Yields one string
+    Yields one string, the characters of the first string from the given position (the first one is 1).
+    The position and the number of characters are rounded. Without the latter, all the characters that follow
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(number_arg(ctx, start)))
-    length = int(next(number_arg(ctx, length)))
-    yield full[max(start-1, 0):max(start-1+length, 0)]
+    start = next(number_arg(ctx, start))
+    if length is not None:
+        length = next(number_arg(ctx, length))
+    elif start == -math.inf:
+        yield full
+        return
+    else:
+        length = math.inf
+    start = _nearest_integer(start)
+    if start is None:
+        yield ''
+    elif length == math.inf:
+        yield full[max(start-1, 0):]
+    elif _nearest_integer(length) is None:
+        yield ''
+    else:
+        yield full[max(start-1, 0):max(start-1+_nearest_integer(length), 0)]
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From d348c7273e9d8cfb9eeb002889f21656026e3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:32 +0000
Subject: [PATCH 52/52] fix: XPath boolean value of integers beyond the range
 of floats

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f19359e..4eab16a 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -220,7 +220,8 @@ def to_boolean(obj):
     elif isinstance(val, str):
         yield bool(val)
     elif isinstance(val, float) or isinstance(val, int):
-        yield bool(val) and not math.isnan(val)
+        # NaN is not equal to itself
+        yield bool(val) and val == val
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0

