From 9b01f823ad49b37f965f9935bcf6637a14152671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 01/55] fix: lines with bytes undefined in cp1252 no longer
 abort reading

Such a line is reported as E_FILE_UTF8_BAD like other non-UTF-8 lines.
---
 asterisklint/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..1006c56 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,7 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From 5029d75b5ad8bff3548dcec116d15cec2906ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 02/55] fix: preprocessor directives holding an equals sign are
 not varsets

---
 asterisklint/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..404f7f5 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -111,6 +111,13 @@ class ConfigParser(object):
 
     def __iter__(self):
         for where, data, comment in super().__iter__():
+            if data.lstrip().startswith('#'):
+                # Call the preprocessor, it may insert data into our
+                # internal data generator. Do this before trying the
+                # regexes: "#exec cmd --foo=bar" is not a varset.
+                self.preprocessor(where, data, bool(comment))
+                continue
+
             for regex, func in self.regexes:
                 match = regex.match(data)
                 if match:
@@ -120,12 +127,7 @@ class ConfigParser(object):
                     yield value
                     break
             else:
-                if data.lstrip().startswith('#'):
-                    # Call the preprocessor, it may insert data into our
-                    # internal data generator.
-                    self.preprocessor(where, data, bool(comment))
-                else:
-                    E_CONF_BAD_LINE(where, startswith=data[0:16])
+                E_CONF_BAD_LINE(where, startswith=data[0:16])
 
     def preprocessor(self, where, data, comment):
         text = data.lstrip()
-- 
2.43.0


From 2b602d19b78bf75b1d0e7017a15bf691260d1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 03/55] fix: a context with a template name of several
 characters opens a context

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 404f7f5..f66faa6 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -84,7 +84,7 @@ class ConfigParser(object):
 
     regexes = (
         # [context](template1,template2)
-        (re.compile(r'^(\s*)\[([^]]*)\]\s*\(([^)\+])\)$'),
+        (re.compile(r'^(\s*)\[([^]]*)\]\s*\(([^)\+]+)\)$'),
          (lambda comment, where, match: Context(
              name=match.groups()[1], templates=match.groups()[2],
              comment=comment, bolspace=match.groups()[0], where=where))),
-- 
2.43.0


From e45858946a9a685249ab568d63491f8d23d9bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 04/55] fix: #include of a filename with a NUL byte is
 reported, not fatal

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index f66faa6..a70c184 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -177,7 +177,7 @@ class ConfigParser(object):
             try:
                 self.include(os.path.join(os.path.dirname(where.filename),
                                           rest))
-            except OSError:
+            except (OSError, ValueError):  # ValueError: embedded NUL
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From 861e85d3c5b50f312bbf5fbc6d574defb3f823e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 05/55] fix: a pattern does not match an extension longer than
 the pattern

---
 asterisklint/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..0093034 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -360,7 +360,7 @@ class Pattern(object):
             except IndexError:
                 return False  # extension is longer than pattern
 
-            if value[0] in (0x18000, 0x28000, 0x30000):
+            if value[0] in (0x18000, 0x28000):
                 return True
             elif len(value) == 2:
                 if char not in value[1]:
-- 
2.43.0


From 039a208b56fd19d52ecb87a4dba284feec856125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 06/55] fix: unterminated or empty character set in a pattern
 is not fatal

---
 asterisklint/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 0093034..ac5968f 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -141,7 +141,9 @@ class Pattern(object):
             elif num == 0x5b:           # '['
                 try:
                     range_end = raw.index(0x5d)  # ']'
-                except IndexError:
+                except ValueError:
+                    range_end = 0
+                if not range_end:  # unterminated or empty
                     # TODO: raise error!
                     ret.append((0x40000,))
                     return ret
-- 
2.43.0


From cc76a486069bf664210461d5107994f2c00a401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:19 +0000
Subject: [PATCH 07/55] fix: patterns are UTF-8 everywhere, not latin1 in some
 places

---
 asterisklint/pattern.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index ac5968f..5151da4 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -211,22 +211,23 @@ class Pattern(object):
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
             if self.values[0] == self.NOT_A_PATTERN:
-                # Hrm.. latin1 here.. not so nice.
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:]).decode('latin1')
+                ret = bytes(
+                    (i[0] & 0xff) for i in self.values[1:]).decode(
+                        'utf-8', 'replace')
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,)):
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:-1]).decode('latin1')
+                ret = bytes(
+                    (i[0] & 0xff) for i in self.values[1:-1]).decode(
+                        'utf-8', 'replace')
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
                 # up.
                 assert self.values[0] == self.IS_A_PATTERN
                 ret = ('_' + self._canonical_pattern_range(
-                    self.values[1:-1]).decode('latin1'))
+                    self.values[1:-1]).decode('utf-8', 'replace'))
             self._canonical_pattern = ret
         return self._canonical_pattern
 
@@ -335,28 +336,28 @@ class Pattern(object):
         if self.values[0] == Pattern.NOT_A_PATTERN:
             for value in self.values[1:]:
                 assert len(value) == 1, self.values
-                ret.append(chr(value[0] & 0xff))
+                ret.append(value[0] & 0xff)
         elif self.values[0] == Pattern.IS_A_PATTERN:
             for value in self.values[1:]:
                 if value[0] == 0x18000:
-                    ret.append('0-123456789-333')  # 1+ chars
+                    ret.extend(b'0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
-                    ret.append('-123456789-333')  # 0+ chars
+                    ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
                 else:
-                    ret.append(chr(value[0] & 0xff))
+                    ret.append(value[0] & 0xff)
         else:
             assert False, self.values  # what pattern?
 
-        return ''.join(ret)
+        return bytes(ret).decode('utf-8', 'replace')
 
     def matches_extension(self, extension):
         """
         Check if the extension matches this pattern.
         """
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        for i, char in enumerate(extension.replace('-', '').encode('utf-8')):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From a00a897427db21a1a74d2a1d5caef3dc3c52255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 08/55] fix: the example of a pattern with a set that starts
 with a dash matches

---
 asterisklint/pattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 5151da4..a0c106e 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -345,6 +345,9 @@ class Pattern(object):
                     ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
+                elif value[0] >= 0x200 and value[0] & 0xff == 0x2d:
+                    # A dash in an extension is ignored; take the next.
+                    ret.append(value[1][1] if len(value) == 2 else 0x2e)
                 else:
                     ret.append(value[0] & 0xff)
         else:
-- 
2.43.0


From 5aa77d0a11b11420fb0647fa5b26067578698aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 09/55] fix: the canonical form of patterns with [, ] or a
 leading underscore is the same pattern

---
 asterisklint/pattern.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index a0c106e..f3477be 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -218,7 +218,8 @@ class Pattern(object):
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
-                    self.values[-1] == (0x30000,)):
+                    self.values[-1] == (0x30000,) and
+                    self.values[1] != (0x15f,)):  # but not '__xyz'
                 ret = bytes(
                     (i[0] & 0xff) for i in self.values[1:-1]).decode(
                         'utf-8', 'replace')
@@ -239,7 +240,7 @@ class Pattern(object):
             0x18000: 0x2e,  # '.'
             0x28000: 0x21,  # '!'
         }
-        special = set([0x21, 0x2d, 0x2e,  # '!', '-', '.'
+        special = set([0x21, 0x2d, 0x2e, 0x5b,  # '!', '-', '.', '['
                        0x4e, 0x58, 0x5a, 0x6e, 0x78, 0x7a])  # NnXxZz
 
         ret = []
@@ -262,7 +263,7 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3:
+                        elif length == 3 and start != 0x5c:  # '\\]^'
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -280,9 +281,6 @@ class Pattern(object):
         dash = (0x2d in binstr)
         if dash:
             binstr.remove(0x2d)
-        if (0x5d in binstr):
-            binstr.remove(0x5d)
-            ret.append(0x5d)
         ranges = self._canonical_pattern_get_ranges(binstr)
         # Reorder ranges: first numeric and alpha, and then the rest.
         # (Does this cause trouble if the dash is in a range?)
@@ -293,7 +291,7 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                if length <= 3:
+                if length <= 3 and range_[0] != 0x5c:  # '\\]^'
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From de69b41024699b2ee88ad74b0415cff33f42e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 10/55] fix: a lone bracket does not make an extension
 non-canonical

---
 asterisklint/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index f3477be..1665d0b 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -70,7 +70,7 @@ class Pattern(object):
     NOT_A_PATTERN = 0
     IS_A_PATTERN = 1
 
-    RE_NO_DASH = re_compile(r'(\[.[^]]*\]|[^][-]+)')
+    RE_NO_DASH = re_compile(r'(\[.[^]]*\]|[^-])')
 
     # Pattern heeft equality tests zodat "s-zap" == "s-[1-9]ap", maar emit
     # wel een warning als je hier iets anders neerzet! (Zelfde verhaal
-- 
2.43.0


From 8bf7c1ec1f9ad2275e1d9a3401c58ca4a673a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 11/55] fix: the canonical form of a pattern keeps the literal
 dash in [-]

---
 asterisklint/pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 1665d0b..c31428d 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -219,7 +219,8 @@ class Pattern(object):
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,) and
-                    self.values[1] != (0x15f,)):  # but not '__xyz'
+                    self.values[1] != (0x15f,) and  # but not '__xyz'
+                    (0x12d,) not in self.values):   # and not '_x[-]z'
                 ret = bytes(
                     (i[0] & 0xff) for i in self.values[1:-1]).decode(
                         'utf-8', 'replace')
-- 
2.43.0


From 6910c40ab3680a7ae854ce9457e62a14a76b7127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 12/55] fix: an exten without any comma is reported, not fatal

---
 asterisklint/dialplan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..5236229 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -473,7 +473,11 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                try:
+                    pattern, rest = varset.value.split(',', 1)
+                except ValueError:
+                    E_DP_PRIO_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 549e88d681aea89479ae96f94979f126a8663d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 13/55] fix: reporting an invalid label is not fatal

---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 5236229..cbe6411 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -502,7 +502,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From 76a45f319948cee71a58a7f9c2b0114cd8f60aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:45 +0000
Subject: [PATCH 14/55] fix: superscript digits are not a priority (and not
 fatal)

---
 asterisklint/dialplan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index cbe6411..cb92c08 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -450,7 +450,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and g_prio.isdecimal():
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -491,7 +491,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif prio.isdecimal():
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
-- 
2.43.0


From 490498b9043d96fc99003d5bc04c714c92529ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 15/55] fix: an exten with an empty pattern is reported, not
 taken for same

---
 asterisklint/dialplan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index cb92c08..db67ba6 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -478,6 +478,9 @@ class DialplanVarset(object):
                 except ValueError:
                     E_DP_PRIO_MISSING(varset.where)
                     return None
+                if not pattern:
+                    E_DP_PAT_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From d10d61e11d55dd5265a194f18112efec0abc7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 16/55] fix: a second [general] context is reported, not fatal

---
 asterisklint/dialplan.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index db67ba6..0ec8f33 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -118,9 +118,8 @@ class Dialplan(object):
     def add_general(self, general):
         if self._general:
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
-            # BEWARE: make sure we use a ref to the NEW context, because
-            # we may be appending to that object...!!
-            self._general.extend(general)
+            # BEWARE: the variables that follow must be added to the OLD
+            # context. See DialplanAggregator.on_context().
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
@@ -591,7 +590,7 @@ class DialplanAggregator(ConfigAggregator):
     def on_context(self, context):
         if context.name == 'general':
             self._dialplan.add_general(context)
-            self._curcontext = context
+            self._curcontext = self._dialplan.general
         elif context.name == 'globals':
             self._dialplan.add_globals(context)
             self._curcontext = context
-- 
2.43.0


From 44d2a713ac14d5b0510e4009893706f5e1fc6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:48 +0000
Subject: [PATCH 17/55] fix: reopening a context with a comment or template is
 not fatal

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From 1b921fd88c70b0872f9b7033f7a700721ca1c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:49 +0000
Subject: [PATCH 18/55] fix: circular dialplan includes do not cause endless
 recursion

---
 asterisklint/dialplan.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 0ec8f33..8ab3913 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -283,9 +283,12 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def match_pattern(self, extension, priority, parents=()):
         """
         Find the best matching extension for the priority.
+
+        The parents are the names of the contexts through which we got
+        here: includes may be circular.
         """
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
@@ -306,6 +309,8 @@ class DialplanContext(Context):
 
         # Nothing? Try our includes.
         for include in self.includes:
+            if include.context_name in parents + (self.name,):
+                continue
             try:
                 context = self.dialplan.get_context(include.context_name)
             except KeyError:
@@ -313,7 +318,8 @@ class DialplanContext(Context):
                 # warn about that somewhere else.
                 pass
             else:
-                ret = context.match_pattern(extension, priority)
+                ret = context.match_pattern(
+                    extension, priority, parents + (self.name,))
                 if ret:
                     return ret
 
@@ -335,7 +341,7 @@ class DialplanContext(Context):
             # There is no clemency for non-existent labels, only for
             # non-existent priorities.
             if isinstance(priority, int):
-                return self.match_pattern('i', 1)
+                return self.match_pattern('i', 1, parents)
 
         return None
 
-- 
2.43.0


From 5f63ebecb00d8bff84d00a24de606f563cea75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 19/55] fix: a goto to a label in an included context is not an
 error

---
 asterisklint/dialplan.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 8ab3913..0092b96 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -277,11 +277,20 @@ class DialplanContext(Context):
                 sorted(list(set(i.pattern for i in self))))
         return self._sorted_patterns
 
-    def has_label(self, label):
+    def has_label(self, label, parents=()):
         """
-        Check whether the label is used anywhere in this context.
+        Check whether the label is used anywhere in this context or in
+        the contexts that it includes.
         """
-        return any(label in i['labels'] for i in self.pattern_cache.values())
+        if any(label in i['labels'] for i in self.pattern_cache.values()):
+            return True
+        parents += (self.name,)
+        return any(
+            i.context_name not in parents and
+            i.context_name in self.dialplan.contexts_by_name and
+            self.dialplan.get_context(i.context_name).has_label(
+                label, parents)
+            for i in self.includes)
 
     def match_pattern(self, extension, priority, parents=()):
         """
-- 
2.43.0


From bafd72b6efb7a273193db05291a712b9f59f846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 20/55] fix: a goto with more than three arguments does not
 hang

---
 asterisklint/app/base.py           | 27 +++++++++++++++++++++++++++
 asterisklint/app/vall/app_stack.py | 28 +++++-----------------------
 asterisklint/app/vall/builtin.py   | 20 +++++++-------------
 3 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index dc8596b..db77bc5 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -172,6 +172,33 @@ class DelimitedArgsMixin(object):
         return self.split_args(data, where)
 
 
+class JumpDestinationMixin(object):
+    """
+    For the apps that jump to [[context,]exten,]prio.
+    """
+    def _args_to_destination(self, args, where):
+        jumpdest = args[:]  # don't touch caller args
+
+        if len(jumpdest) > 3:
+            # See: ast_parseable_goto()
+            # Priority '%s' must be a number > 0, or valid label.
+            if not isinstance(self, MinMaxArgsMixin):
+                # The MinMaxArgsMixin would already have warned.
+                E_APP_ARG_MANY(where, app=self.name, max_args=3)
+
+            # This should also raise a W_DP_GOTO_CONTEXT_NOEXTEN later on,
+            # unless it contains vars and the warning is suppressed.
+            # (Join the excess arguments with a comma separator.)
+            excess = [jumpdest[2]]
+            [excess.extend((',', i)) for i in jumpdest[3:]]
+            jumpdest[2:] = [Var.join(excess)]
+        while len(jumpdest) < 3:
+            jumpdest.insert(0, None)
+        assert len(jumpdest) == 3, jumpdest
+
+        return tuple(jumpdest)
+
+
 class MinMaxArgsMixin(object):
     def __init__(self, min_args=None, max_args=None, **kwargs):
         super().__init__(**kwargs)
diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index c81db78..bd9bce7 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -14,33 +14,15 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
-    E_APP_ARG_MANY, W_APP_BALANCE,
-    AppBase, DelimitedArgsMixin, MinMaxArgsMixin, NoPipeDelimiterMixin,
-    VarCondIfStyleApp)
-from ...variable import Var
+    W_APP_BALANCE,
+    AppBase, DelimitedArgsMixin, JumpDestinationMixin, MinMaxArgsMixin,
+    NoPipeDelimiterMixin, VarCondIfStyleApp)
 
 
-class _GosubMixin:
+class _GosubMixin(JumpDestinationMixin):
     def _gosub_args_to_destination(self, args, where):
         # jumpdest = [[context,]exten,]prio(args)
-        jumpdest = args[:]  # don't touch caller args
-
-        if len(jumpdest) > 3:
-            # See: ast_parseable_goto()
-            # Priority '%s' must be a number > 0, or valid label.
-            if not isinstance(self, MinMaxArgsMixin):
-                # The MinMaxArgsMixin would already have warned.
-                E_APP_ARG_MANY(where, app=self.name, max_args=3)
-
-            # This should also raise a W_DP_GOTO_CONTEXT_NOEXTEN later on,
-            # unless it contains vars and the warning is suppressed.
-            # (Join the excess arguments with a comma separator.)
-            excess = [jumpdest[2]]
-            [excess.extend((',', i)) for i in jumpdest[3:]]
-            jumpdest[2:] = [Var.join(excess)]
-        while len(jumpdest) < 3:
-            jumpdest.insert(0, None)
-        assert len(jumpdest) == 3, jumpdest
+        jumpdest = list(self._args_to_destination(args, where))
 
         # Quickly drop the Gosub-args for now.
         # Only use the label (context+exten+prio).
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..b9ec7a7 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -14,8 +14,8 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
-    AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
-    NoPipeDelimiterMixin, VarCondIfStyleApp)
+    AppBase, DelimitedArgsMixin, IfStyleApp, JumpDestinationMixin,
+    MinMaxArgsMixin, NoPipeDelimiterMixin, VarCondIfStyleApp)
 
 from asterisklint.varfun import VarLoader
 
@@ -66,23 +66,19 @@ class Congestion(BuiltinAppBase):
 
 
 class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
-           AppBase):
+           AppBase, JumpDestinationMixin):
     def __init__(self, **kwargs):
         super().__init__(min_args=1, max_args=3, **kwargs)
 
     def __call__(self, data, where, jump_destinations):
         args = super().__call__(data, where, jump_destinations)
 
-        jumpdest = args[:]
-        while len(jumpdest) != 3:
-            jumpdest.insert(0, None)
-        assert len(jumpdest) == 3
-        jump_destinations.append(tuple(jumpdest))
+        jump_destinations.append(self._args_to_destination(args, where))
 
         return args
 
 
-class GotoIf(_Builtin, VarCondIfStyleApp):
+class GotoIf(_Builtin, VarCondIfStyleApp, JumpDestinationMixin):
     def __call__(self, data, where, jump_destinations):
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
@@ -90,10 +86,8 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
-                while len(jumpdest) != 3:
-                    jumpdest.insert(0, None)
-                assert len(jumpdest) == 3
-                jump_destinations.append(tuple(jumpdest))
+                jump_destinations.append(
+                    self._args_to_destination(jumpdest, where))
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From ea524f3f83df2bb000ea5a4fbea67ab9da347854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 21/55] fix: the comma style ExecIf, GotoIf and GosubIf of 1.4
 are reported, not fatal or misread

---
 asterisklint/app/vall/app_exec.py  | 9 +++++++++
 asterisklint/app/vall/app_stack.py | 5 ++++-
 asterisklint/app/vall/builtin.py   | 5 ++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..ad04cf9 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import AppBase, VarCondIfStyleApp
+from ...variable import Var
 
 # In the following commit -- between Asterisk 1.4 and Asterisk 1.6.x --
 # not only did the default App argument delimiter change from pipe (|)
@@ -46,6 +47,14 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
+        if isinstance(iftrue, list):
+            # The ExecIf(<cond>,<app>[,<args>]) of Asterisk 1.4 for which
+            # we already raised E_APP_ARG_IFSTYLE.
+            app, args = iftrue[0], []
+            for arg in iftrue[1:]:
+                args.extend((',', arg))
+            iftrue = Var.join([app, '('] + args[1:] + [')'])
+
         if iftrue:
             App(iftrue, where=where)
         if iffalse:
diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index bd9bce7..d01e988 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -72,7 +72,10 @@ class GosubIf(VarCondIfStyleApp, _GosubMixin):
 
         for args in (iftrue, iffalse):
             if args:
-                jumpdest = self.separate_args(args)
+                if isinstance(args, list):  # already separated
+                    jumpdest = args
+                else:
+                    jumpdest = self.separate_args(args)
                 jump_destinations.append(
                     self._gosub_args_to_destination(jumpdest, where))
 
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index b9ec7a7..8ad4f4a 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -85,7 +85,10 @@ class GotoIf(_Builtin, VarCondIfStyleApp, JumpDestinationMixin):
 
         for args in (iftrue, iffalse):
             if args:
-                jumpdest = self.separate_args(args)
+                if isinstance(args, list):  # already separated
+                    jumpdest = args
+                else:
+                    jumpdest = self.separate_args(args)
                 jump_destinations.append(
                     self._args_to_destination(jumpdest, where))
 
-- 
2.43.0


From 69c891bcdad033ebd3b74aee23ed437545551c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:38 +0000
Subject: [PATCH 22/55] fix: printing an empty variable or expression is not
 fatal

---
 asterisklint/expression.py | 2 +-
 asterisklint/variable.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..267220f 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,7 +79,7 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
+        if self.name is not None:  # a plain variable; may match anything
             return True
 
         re_joined = ''.join(
@@ -168,13 +168,13 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
-        if self.name:
+        if self.name is not None:
             list_ = [self.name]  # [name]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
@@ -226,7 +226,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From 6da84c000de1a6a379a86cf662baba34edc4ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 23/55] fix: the inside of a variable or function call is not
 split

---
 asterisklint/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 267220f..2a10aa1 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -173,9 +173,10 @@ class Var(object):
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
-        # In case we're an atom, pretend we're a list.
+        # In case we're an atom, pretend we're a list. The name of an atom
+        # is not text: ${CUT(a=b,=,1)} does not contain an equals sign.
         if self.name is not None:
-            list_ = [self.name]  # [name]  # (start, length)
+            list_ = [self]       # [<Var>]
         else:
             list_ = self._list   # [contents...]  # (start, length)
 
-- 
2.43.0


From d76283135af065d36743cf8e60ef63c9665b5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:41 +0000
Subject: [PATCH 24/55] fix: messages quote variables as written, not as object
 addresses

---
 asterisklint/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 2a10aa1..2db7f61 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -172,6 +172,9 @@ class Var(object):
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
+    def __repr__(self):
+        return repr(str(self))
+
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list. The name of an atom
         # is not text: ${CUT(a=b,=,1)} does not contain an equals sign.
-- 
2.43.0


From 43c8c9bb1109223cc47a46f6a09cf2862c4cb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 25/55] fix: superscript digits in a substring are reported,
 not fatal

---
 asterisklint/varfun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..cf539d3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -398,8 +398,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    start.isdecimal() or
+                    (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
                 start = length = None
@@ -410,8 +410,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    length.isdecimal() or
+                    (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From 321ddd5627cb8cd6957bb7ef7cdbb137e916c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 26/55] fix: a substring with a dynamic start and a negative
 length is not fatal; bad values are named

---
 asterisklint/varfun.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index cf539d3..7accc05 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -402,8 +402,8 @@ class VarLoader(metaclass=Singleton):
                     (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
+                E_VAR_SUBSTR_START(where, start=start)
                 start = length = None
-                E_VAR_SUBSTR_START(where, start=None)
 
         if length is not None:
             if isinstance(length, Var):
@@ -415,16 +415,17 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
-                    length = None
+                if length == 0 or (isinstance(start, int) and start < 0 and
+                                   -length <= start):
                     E_VAR_SUBSTR_LENGTH(where, length=length)
+                    length = None
             else:
                 E_VAR_SUBSTR_LENGTH(where, length=length)
                 start = length = None
 
         # If start is 0 and there is no length, it makes no sense.
         if start == 0 and not length:
+            E_VAR_SUBSTR_START(where, start=start)
             start = None
-            E_VAR_SUBSTR_START(where, start=None)
 
         return varname, start, length
-- 
2.43.0


From 7c383dadc227667443bb4212cf994135c1dfa6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:57 +0000
Subject: [PATCH 27/55] fix: substrings with a dynamic or a large negative
 start

---
 asterisklint/variable.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 2db7f61..0342fe3 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -258,19 +258,18 @@ class SliceMixin(object):
         self.length = length
         if length is not None and isinstance(length, int):
             assert length != 0
-            if length < 0:
-                self._endpos = length
-            elif self.start < 0:
-                self._endpos = self.start + length
-                assert self._endpos < 0
-            else:
-                self._endpos = self.start + length
 
     def format(self, **kwargs):
+        # SOURCE: main/pbx_variables.c: substring()
         value = super().format(**kwargs)
+        # A negative offset that is too large means: from the start.
+        start = self.start
+        if start < 0:
+            start = max(0, len(value) + start)
+        value = value[start:]
         if self.length:
-            return value[self.start:self._endpos]
-        return value[self.start:]
+            return value[0:self.length]
+        return value
 
     def __str__(self):
         if self.length:
-- 
2.43.0


From 6336dbbdb5fc7cb2da8b164e6423b4c731d6ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:58 +0000
Subject: [PATCH 28/55] fix: a dynamic substring or expression is not taken for
 the variable itself

---
 asterisklint/expression.py | 4 ++++
 asterisklint/variable.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 652dee5..16419c9 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -30,6 +30,10 @@ class Expr(Var):
     def __init__(self, expression=None):  # drop start and length args
         super().__init__(name=expression)
 
+    def format(self, **kwargs):
+        # We do not evaluate expressions.
+        raise KeyError(str(self))
+
     def __str__(self):
         if self.name is not None:
             return '$[{}]'.format(self.name)
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 0342fe3..00b9ef0 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -292,6 +292,10 @@ class VarDynSlice(Var):
         self.start = start
         self.length = length
 
+    def format(self, **kwargs):
+        # Only known at run time.
+        raise KeyError(str(self))
+
     def __str__(self):
         if self.length:
             return '${{{}:{}:{}}}'.format(
-- 
2.43.0


From 31abdc0e5c8c6b369b854e254e34ae425ea292d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 29/55] fix: a slice of mixed text and variables is text again,
 not a list

---
 asterisklint/function.py |  9 +--------
 asterisklint/variable.py | 15 ++++-----------
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/asterisklint/function.py b/asterisklint/function.py
index 07483ba..9b2f1ab 100644
--- a/asterisklint/function.py
+++ b/asterisklint/function.py
@@ -26,14 +26,7 @@ class ReadFunc(Var):
     def __init__(self, func=None, args=None):
         assert func is not None and args is not None
 
-        # The "convenience" strjoin in Var getslice creates trouble for
-        # us here: args can be a list or a simple iterable.
-        if isinstance(args, list):
-            func_and_args = [func, '('] + args + [')']
-        else:
-            func_and_args = [func, '(', args, ')']
-
-        super().__init__(name=Var.join(func_and_args))
+        super().__init__(name=Var.join([func, '(', args, ')']))
 
         self.func = func
         self.args = args
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 00b9ef0..f11213b 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -117,24 +117,17 @@ class Var(object):
         """
         Get an item or list of items.
 
-        If a slice is requested (and a list is returned), we attempt to
-        join the list using strjoin. Examples::
+        If a slice is requested, we join the items again. Examples::
 
-            ['A', 'B', 'C', <Var>, 'D'] ==> ['ABC', <Var>, 'D']
+            ['A', 'B', 'C', <Var>, 'D'] ==> <Var.join of them>
             ['A', 'B', 'C'] ==> 'ABC'
             ['A'] ==> 'A'
             [<Var>] ==> <Var>
-            [] ==> []
-
-        This should never be a problem because you'll be iterating over
-        the results anyway.
+            [] ==> ''
         """
         item = self._get_cached_iter().__getitem__(*args, **kwargs)
         if isinstance(item, list):
-            ret = list(strjoin(item))  # joins consecutive strings together
-            if len(ret) == 1:
-                return ret[0]
-            return ret
+            return Var.join(item)
         return item
 
     def __len__(self):
-- 
2.43.0


From a969714a6fc72c8a4e5135a3651a361233bf5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 30/55] fix: reporting a dynamic function call is not fatal

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 7accc05..3d6f8dc 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -168,7 +168,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From cce40d7dacc3410b570e9a09cbe66edd9383e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:45 +0000
Subject: [PATCH 31/55] fix: a call of a function without a name is reported,
 not fatal

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 3d6f8dc..794137c 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -137,7 +137,7 @@ class FuncLoader(metaclass=Singleton):
             if char == '(':
                 func = func_and_args[0:i]
                 break
-        assert func  # we only get here if there is a '('
+        # (We only get here if there is a '('.)
 
         # Search backwards for the trailing ')'.
         tail = ''
-- 
2.43.0


From 4041b6ffb5232f90d595501398e7ceca6717a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:18 +0000
Subject: [PATCH 32/55] fix: an assignment to a dynamic function or without
 parenthesis is reported, not fatal

---
 asterisklint/varfun.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 794137c..0190ad8 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -194,7 +194,12 @@ class FuncLoader(metaclass=Singleton):
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
-            args = ''
+            func, args = func_and_args, ''
+
+        if isinstance(func, Var):
+            # We won't be able to match any real functions.
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
 
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
-- 
2.43.0


From 2c191349a45b8e45192c4fe3d9a48ed7a18c3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 33/55] fix: an ExecIf of a dynamic application is not fatal

---
 asterisklint/application.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..33b048c 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -19,6 +19,7 @@ from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .varfun import VarLoader, VarParseError
+from .variable import Var
 from .version import AsteriskVersion
 
 
@@ -160,12 +161,19 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
+            if isinstance(app, Var):
+                # Only known at run time: ExecIf(${x}?${app_and_args})
+                return False
             if self.raw.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = '()'
         else:
             data = '(' + str(data)  # data could be a Var; collapse for now
 
+        if isinstance(app, Var):
+            # Only known at run time: ExecIf(${x}?${app}(${args}))
+            return False
+
         # SOURCE: pbx/pbx_config.c: pbx_load_config()
         if data.startswith('(') and data.endswith(')'):
             data = data[1:-1]
-- 
2.43.0


From ec4644f621d41e2d6dd1914f6546e2efced5f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 34/55] fix: a dynamic priority does not match an absent label

---
 asterisklint/dialplan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 0092b96..4d7fb2b 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -313,7 +313,8 @@ class DialplanContext(Context):
                     # Is it a variable? Then format all unknowns as .*
                     # and attempt a regex match.
                     elif (priority.could_match(exten.prio) or
-                            priority.could_match(exten.label)):
+                            (exten.label and
+                             priority.could_match(exten.label))):
                         return exten
 
         # Nothing? Try our includes.
-- 
2.43.0


From 8a02f4f5c5a0b71a859c1d260e89014437e4b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:57 +0000
Subject: [PATCH 35/55] fix: the previous occurrence of a priority or label is
 shown by file and line

---
 asterisklint/dialplan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 4d7fb2b..57e3455 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -433,7 +433,7 @@ class DialplanContext(Context):
             previous_with_prio = pattern_cache['prios'].get(extension.prio)
             if previous_with_prio:
                 E_DP_PRIO_DUPE(
-                    extension.where, previous=previous_with_prio,
+                    extension.where, previous=previous_with_prio.where,
                     prio=extension.prio)
                 return  # don't insert this one
             pattern_cache['prios'][extension.prio] = extension
@@ -444,7 +444,7 @@ class DialplanContext(Context):
                     extension.label)
                 if previous_with_label:
                     E_DP_LABEL_DUPE(
-                        extension.where, previous=previous_with_label,
+                        extension.where, previous=previous_with_label.where,
                         label=extension.label)
                     extension.label = ''  # wipe it
                 else:
-- 
2.43.0


From 8a2a567d4b0805b01b3cf2fb1a4542ee71f88614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 36/55] fix: a function called UNKNOWN does not exist

---
 asterisklint/varfun.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 0190ad8..dcc90ea 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -211,11 +211,10 @@ class FuncLoader(metaclass=Singleton):
         loaded = FuncLoader().get(func.lower())
 
         # Check function availability.
-        if loaded.name != func:
-            if loaded.name == 'UNKNOWN':
-                E_FUNC_MISSING(where, func=func)
-            else:
-                E_FUNC_BAD_CASE(where, func=func, proper=loaded.name)
+        if loaded.name == 'UNKNOWN':
+            E_FUNC_MISSING(where, func=func)
+        elif loaded.name != func:
+            E_FUNC_BAD_CASE(where, func=func, proper=loaded.name)
 
         return loaded
 
-- 
2.43.0


From 97e62f280b8b0bb4b2bc7521692404d9e89297bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 37/55] fix: quotes and backslashes are removed from standard
 arguments, not from raw ones

---
 asterisklint/app/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index db77bc5..e69752f 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -166,7 +166,7 @@ class DelimitedArgsMixin(object):
     def split_args(self, data, where):
         return self.separate_args(
             data, delimiter=self._arg_delimiter,
-            remove_quotes_backslashes=self._arg_raw)
+            remove_quotes_backslashes=(not self._arg_raw))
 
     def __call__(self, data, where, jump_destinations):
         return self.split_args(data, where)
-- 
2.43.0


From b30d91c231332cf0aed5256996cc75982795011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:37 +0000
Subject: [PATCH 38/55] fix: the argument of an option is not a series of
 options

---
 asterisklint/app/base.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index e69752f..c93945d 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -43,8 +43,24 @@ class AppOptions(AppArg):
         super().__init__('options')
         self.options = options
 
+    @staticmethod
+    def drop_option_args(arg):
+        """
+        Drop the (<arg>) from options like the "g(<arg>)" for VoiceMail.
+        """
+        # SOURCE: main/app.c: ast_app_parse_options()
+        ret = []
+        letters = list(arg)
+        while letters:
+            if letters[0] == '(' and ret and ')' in letters:
+                del letters[0:letters.index(')') + 1]
+            else:
+                ret.append(letters.pop(0))
+        return ret
+
     def validate(self, arg, where):
-        str_options = [i for i in arg if isinstance(i, str)]
+        str_options = [
+            i for i in self.drop_option_args(arg) if isinstance(i, str)]
         bad_options = [i for i in str_options if i not in self.options]
         if bad_options:
             E_APP_ARG_BADOPT(where, argno=self.argno, app=self.app,
-- 
2.43.0


From c9e902175f92c24e61cfab9471c7fea7f3e09cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 39/55] fix: the destination of a goto inside an ExecIf is
 checked too

---
 asterisklint/app/vall/app_exec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index ad04cf9..305bff4 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -55,10 +55,10 @@ class ExecIf(VarCondIfStyleApp):
                 args.extend((',', arg))
             iftrue = Var.join([app, '('] + args[1:] + [')'])
 
-        if iftrue:
-            App(iftrue, where=where)
-        if iffalse:
-            App(iffalse, where=where)
+        for action in (iftrue, iffalse):
+            if action:
+                jump_destinations.extend(
+                    App(action, where=where).jump_destinations)
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From 8fcf440b6365367403921263182babfc9102c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:25 +0000
Subject: [PATCH 40/55] fix: the dialplan is shown in order of priority, like
 Asterisk does

---
 asterisklint/dialplan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 57e3455..1917fe6 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -265,7 +265,9 @@ class DialplanContext(Context):
         """
         ret = []
         for pattern in self.get_sorted_patterns():
-            ret.extend(i for i in self if i.pattern == pattern)
+            ret.extend(sorted(
+                (i for i in self if i.pattern == pattern),
+                key=(lambda i: i.prio)))
         return ret
 
     def get_sorted_patterns(self):
-- 
2.43.0


From e5d80e00e61e2cfd15d2c6d301fb63f79381ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 41/55] fix: templates are reported once, not twice

---
 asterisklint/configobj.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index ff6b6d5..d786e0f 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -41,9 +41,11 @@ class Context(object):
         Use this on subclasses of Context.
         """
         assert not context._varsets
-        return cls(name=context.name, templates=context._templates,
-                   comment=context.comment, bolspace='',
-                   where=context.where, **kwargs)
+        ret = cls(name=context.name, comment=context.comment, bolspace='',
+                  where=context.where, **kwargs)
+        # (Don't pass these along, or we'd complain about them twice.)
+        ret._templates = context._templates
+        return ret
 
     def __init__(self, name, templates='', comment=False, bolspace='',
                  where=None):
-- 
2.43.0


From 899c85ee1739ce766c8aa54666b43a891b933ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 42/55] fix: the timing information of an include is not part
 of the context name

---
 asterisklint/dialplan.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 1917fe6..f17e64f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -238,7 +238,7 @@ class Dialplan(object):
                                      extension.app_with_parens))))
             for include in context.includes:
                 ret.append('  %-17s %-45s [pbx_config]' % (
-                    'Include =>', "'%s'" % (include.context_name,)))
+                    'Include =>', "'%s'" % (include.value,)))
             ret.append('')
         return '\n'.join(ret)
 
@@ -554,7 +554,10 @@ class DialplanVarset(object):
 class Include(object):
     def __init__(self, value, where):
         # FIXME: check for value name? contexts existence?
-        self.context_name = value
+        # SOURCE: main/pbx.c: ast_context_add_include2()
+        # Drop the timing info: <context>[,<times>,<weekdays>,...]
+        self.value = value
+        self.context_name = value.split(',', 1)[0]
         self.where = where
 
 
-- 
2.43.0


From 394ae0f872c031af68fa67485995f1c2d32243ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 43/55] fix: INC and DEC of a dynamic variable name are not
 fatal

---
 asterisklint/func/vall/func_math.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func/vall/func_math.py b/asterisklint/func/vall/func_math.py
index 33077ea..271ae6b 100644
--- a/asterisklint/func/vall/func_math.py
+++ b/asterisklint/func/vall/func_math.py
@@ -28,7 +28,8 @@ class INC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if isinstance(data, str):
+            VarLoader().count_var(data, where)
         return ret
 
 
@@ -39,7 +40,8 @@ class DEC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if isinstance(data, str):
+            VarLoader().count_var(data, where)
         return ret
 
 
-- 
2.43.0


From 83e6f69daa9548e2a2a70073dbebaabbceb0efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 44/55] fix: the type of an Originate may be a variable or in
 another case

---
 asterisklint/app/vall/app_originate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/app_originate.py b/asterisklint/app/vall/app_originate.py
index 17cbf79..7d9ecc6 100644
--- a/asterisklint/app/vall/app_originate.py
+++ b/asterisklint/app/vall/app_originate.py
@@ -18,7 +18,8 @@ from ..base import E_APP_ARG_BADOPT, App, AppArg
 
 class AppOrExten(AppArg):
     def validate(self, arg, where):
-        if arg not in ('app', 'exten'):
+        # SOURCE: apps/app_originate.c: strcasecmp; variables may be fine.
+        if isinstance(arg, str) and arg.lower() not in ('app', 'exten'):
             E_APP_ARG_BADOPT(
                 where, argno=self.argno, app=self.app, opts=arg)
 
-- 
2.43.0


From d504e3eae629ae33d2c6718963025e6ac880241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 45/55] fix: an ExecIf without action is reported, not fatal

---
 asterisklint/app/vall/app_exec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 305bff4..453d2b9 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -47,7 +47,7 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if isinstance(iftrue, list):
+        if iftrue and isinstance(iftrue, list):
             # The ExecIf(<cond>,<app>[,<args>]) of Asterisk 1.4 for which
             # we already raised E_APP_ARG_IFSTYLE.
             app, args = iftrue[0], []
-- 
2.43.0


From 75fb81549ba784254824979a678ef561ec9d7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 46/55] fix: the previous occurrence of a func_odbc key is
 shown by file and line

---
 asterisklint/func_odbc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..e64eac5 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -205,7 +205,8 @@ class OdbcFunction(Context):
                 # 2016 in Asterisk 13), so it uses the first key, not
                 # the last.
                 previous = [i for i in set_ if i.variable == new.variable][0]
-                E_CONF_KEY_DUPE(new.where, key=new.variable, previous=previous)
+                E_CONF_KEY_DUPE(new.where, key=new.variable,
+                                previous=previous.where)
                 return False
 
             if new_pos < used_poses[-1]:
-- 
2.43.0


From 769185417c8cfb432b880e8c5ec2ee9af95f7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 47/55] fix: a func_odbc function with a NUL in its name is
 reported, not fatal

---
 asterisklint/func_odbc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index e64eac5..b0bfd92 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -46,6 +46,13 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 
 class FuncOdbcFunc(FuncBase):
+    def __init__(self, name):
+        self._name = name
+
+    @property
+    def name(self):
+        return self._name
+
     @property
     def module(self):
         # This would be correct automatically, since this module is
@@ -237,9 +244,7 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
-        odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
-        FuncLoader().register(odbc_function_class())
+        FuncLoader().register(FuncOdbcFunc(self.get_function_name()))
 
 
 class FuncOdbcAggregator(ConfigAggregator):
-- 
2.43.0


From f425a058150933072358348e5918a1896fb5c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 48/55] fix: report an unknown command instead of a traceback

---
 asterisklint/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..c4d38d5 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -28,7 +28,7 @@ from . import alintver
 COMMAND_RE = re.compile(r'^[a-z0-9][a-z0-9_-]*$')
 
 
-class NoSuchCommand(ValueError):
+class NoSuchCommand(ImportError):
     pass
 
 
@@ -116,7 +116,7 @@ def load_command(command, command_path=None):
             if os.path.isfile(command_path):
                 break
         else:
-            raise ImportError('No dir found for command {!r}'.format(command))
+            raise NoSuchCommand('No dir found for command {!r}'.format(command))
 
     command_mod_name = 'asterisklint.commands.{}'.format(command)
 
-- 
2.43.0


From 275917df9d92b3b813d3d9b1eefdf0f1e6d17135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 49/55] fix: rewrite all issues of a file if two of them share
 a line

---
 asterisklint/helper/mutator.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..df4bef4 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -13,6 +13,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+from io import BytesIO
 from tempfile import NamedTemporaryFile
 import os
 
@@ -71,27 +72,26 @@ class FileMutatorBase(object):
         tempout = NamedTemporaryFile(
             dir=os.path.dirname(disk_filename), mode='wb', delete=False)
 
-        issues = self.issues_per_file[filename]
+        # There may be more than one issue on a line. And if the file was
+        # included more than once, we'll have seen the issues as often.
+        issues = {}
+        for issue in self.issues_per_file[filename]:
+            issues_on_line = issues.setdefault(issue.lineno, [])
+            if issue not in issues_on_line:
+                issues_on_line.append(issue)
+
         try:
-            issueptr = 0
-            issue = issues[issueptr]
             with open(filename, 'rb') as file_:
                 for lineno, line in enumerate(file_):
-                    if issue and lineno == issue.lineno:
+                    for issue in issues.get(lineno, ()):
                         # Do actual work on the issue.
+                        outfile = BytesIO()
                         self.process_issue(
                             issue=issue,
                             inline=line,
-                            outfile=tempout)
-
-                        # Jump to the next issue.
-                        issueptr += 1
-                        if issueptr < len(issues):
-                            issue = issues[issueptr]
-                        else:
-                            issue = None
-                    else:
-                        tempout.write(line)
+                            outfile=outfile)
+                        line = outfile.getvalue()
+                    tempout.write(line)
             tempout.flush()
         except Exception:
             os.unlink(tempout.name)
-- 
2.43.0


From 9cce68993860807280e2b65e2836647208ea04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:38 +0000
Subject: [PATCH 50/55] fix: rewrite the target of a relative symlink

---
 asterisklint/helper/mutator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index df4bef4..6a1b9b8 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -62,9 +62,9 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
+        if os.path.islink(filename):
+            disk_filename = os.path.realpath(filename)
+        else:
             disk_filename = filename
 
         # Place the tempfile in the same dir, so renaming works
-- 
2.43.0


From b56528815e4714dd5a362b5ab1c57b843f736706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 51/55] fix: do not leave the temporary file when rewriting
 fails

---
 asterisklint/helper/mutator.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 6a1b9b8..8d2b502 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -92,24 +92,24 @@ class FileMutatorBase(object):
                             outfile=outfile)
                         line = outfile.getvalue()
                     tempout.write(line)
-            tempout.flush()
+            tempout.close()
+
+            # Update file permissions.
+            srcstat = os.stat(tempout.name)
+            dststat = os.stat(filename)
+            if (srcstat.st_uid != dststat.st_uid or
+                    srcstat.st_gid != dststat.st_gid):
+                os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
+            if srcstat.st_mode != dststat.st_mode:
+                os.chmod(tempout.name, dststat.st_mode)
+
+            print('Overwriting', disk_filename, '...')
+            os.rename(tempout.name, disk_filename)
         except Exception:
             os.unlink(tempout.name)
             raise
         finally:
             tempout.close()
 
-        # Update file permissions.
-        srcstat = os.stat(tempout.name)
-        dststat = os.stat(filename)
-        if (srcstat.st_uid != dststat.st_uid or
-                srcstat.st_gid != dststat.st_gid):
-            os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
-        if srcstat.st_mode != dststat.st_mode:
-            os.chmod(tempout.name, dststat.st_mode)
-
-        print('Overwriting', disk_filename, '...')
-        os.rename(tempout.name, disk_filename)
-
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From 0033199256554a1b339ad4e7072e5df49e4bf49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 52/55] fix: do not show the messages of another, failed
 request

---
 web/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/wsgi.py b/web/wsgi.py
index 9896db9..b92365a 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -122,6 +122,9 @@ class DialplanCheck:
         filedata = req.media['files'][filename].encode('utf-8')
         opener = UploadedFileOpener(filename, filedata)
 
+        # Drop messages left behind by a request that failed halfway.
+        MessageDefManager.reset()
+
         parser = FileDialplanParser(opener=opener)
         parser.include(filename)
         dialplan = next(iter(parser))
-- 
2.43.0


From dd60fba97d4d374a1dd4b8817d00ed0e112f6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 53/55] fix: do not judge BackGround by the spelling of another
 request

---
 web/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/wsgi.py b/web/wsgi.py
index b92365a..2c7f63a 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -6,6 +6,7 @@ from wsgiref.simple_server import WSGIRequestHandler, make_server
 
 from asterisklint import FileDialplanParser
 from asterisklint.alintver import version_str
+from asterisklint.application import AppLoader
 from asterisklint.defines import MessageDefManager
 
 
@@ -124,6 +125,8 @@ class DialplanCheck:
 
         # Drop messages left behind by a request that failed halfway.
         MessageDefManager.reset()
+        # Drop choices made by others: the spelling of BackGround.
+        AppLoader().load_all()
 
         parser = FileDialplanParser(opener=opener)
         parser.include(filename)
-- 
2.43.0


From c9aa65821ee715ec338725371d589d54aea24ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:38 +0000
Subject: [PATCH 54/55] fix: let a section replace the ones of its name in
 VoIPGRID config

---
 contrib/commands/vg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 88a19df..7496402 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -155,10 +155,8 @@ class VoipgridFileConfigParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileConfigParser = VoipgridFileConfigParser  # noqa
@@ -192,10 +190,8 @@ class VoipgridFileFuncOdbcParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileFuncOdbcParser = VoipgridFileFuncOdbcParser  # noqa
-- 
2.43.0


From c6e8250ec50f277b173bf072d55a112a5727b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:12 +0000
Subject: [PATCH 55/55] fix: a func_odbc function with empty statements has no
 SQL

---
 asterisklint/func_odbc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index b0bfd92..19f182c 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -236,8 +236,10 @@ class OdbcFunction(Context):
         self.finalize_register()
 
     def finalize_check_any_read_write(self):
-        if not (self.has_variable('read') or self.has_variable('write') or
-                self.has_variable('readsql') or self.has_variable('writesql')):
+        # func_odbc.c: "was found, but there was no SQL to execute" is about
+        # empty statements too.
+        if not (self.get_variable('read') or self.get_variable('write') or
+                self.get_variable('readsql') or self.get_variable('writesql')):
             E_ODBC_NOSQL(self.where)
             return False
         return True
-- 
2.43.0

