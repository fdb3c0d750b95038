From 603f1e5ddc7a73cf3c67be4bfe40885cc70e06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:08 +0000
Subject: [PATCH 01/30] fix: keep attribute replacements of structure inserts
 intact

Rendering a tal:replace="structure ..." together with tal:attributes
consumed the replacement dictionary stored in the compiled program.
Only the first rendering (or the first pass of a loop) got the new
attribute values.  Work on a copy of the dictionary.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..aa740e1 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -464,6 +464,7 @@ class TALGenerator:
         # (name, value, action, expr, xlat, msgid)
         if not repldict:
             return attrlist
+        repldict = repldict.copy()  # the caller's dict may be in a program
         newlist = []
         for item in attrlist:
             key = item[0]
-- 
2.43.0


From 29357f19001f557b1dfee57155e1f0feb15daf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:54 +0000
Subject: [PATCH 02/30] fix: unwind the macro stack when a macro raises an
 error

An error inside a macro that is handled by an enclosing tal:on-error
left the macro on the macro stack, so later slots were resolved against
the wrong macro and the nesting limit was reached too early.  The
in-use flag was left behind as well.
---
 src/zope/tal/talinterpreter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..6d54d01 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -884,8 +884,10 @@ class TALInterpreter:
         (macroName, macro) = stuff
         wasInUse = self.inUseDirective
         self.inUseDirective = False
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
     bytecode_handlers["defineMacro"] = do_defineMacro
 
     def do_useMacro(self, stuff,
@@ -916,13 +918,15 @@ class TALInterpreter:
         prev_source = self.sourceFile
         wasInUse = self.inUseDirective
         self.inUseDirective = True
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
+            self.popMacro()
 
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
-        self.popMacro()
         # Push the outer macroname again.
         self.engine.setLocal('macroname', outer)
     bytecode_handlers["useMacro"] = do_useMacro
-- 
2.43.0


From ed4cdb6c9aa549d4cbee70ef0e72be6db847d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:55 +0000
Subject: [PATCH 03/30] fix: restore the source file name after a handled error

When tal:on-error handled an error raised in a macro of another file,
the engine and the interpreter kept the name of that file, so later
errors were reported for the wrong file.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 6d54d01..7e74e09 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -998,6 +998,7 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        prev_source = self.sourceFile
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1011,6 +1012,9 @@ class TALInterpreter:
             try:
                 self.restoreState(state)
                 engine = self.engine
+                if self.sourceFile != prev_source:
+                    engine.setSourceFile(prev_source)
+                    self.sourceFile = prev_source
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From 666cd6a08fef4af2ce2e3c30aa025f28bcc6795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:57 +0000
Subject: [PATCH 04/30] fix: close the translation unit when its content raises
 an error

An error inside i18n:translate that is handled by an enclosing
tal:on-error left the unit open, so a following i18n:name of an outer
unit was stored in the wrong mapping.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 7e74e09..4c4290a 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -731,6 +731,7 @@ class TALInterpreter:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+            self.i18nStack.pop()
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
@@ -740,7 +741,6 @@ class TALInterpreter:
                 msgid = default
             else:
                 msgid = normalize(default)
-        self.i18nStack.pop()
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From 478d118fb10caea35dd591b5b48f8cf993167fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:59 +0000
Subject: [PATCH 05/30] fix: keep marked sections in HTML templates

<![CDATA[...]]> sections and <![if ...]> conditionals were silently
dropped from HTML templates.
---
 src/zope/tal/htmltalparser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..da19020 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -297,6 +297,13 @@ class HTMLTALParser(HTMLParser):
     def handle_decl(self, data):
         self.gen.emitRawText("<!%s>" % data)
 
+    def unknown_decl(self, data):
+        # Marked sections: SGML ones such as <![CDATA[...]]>, and
+        # Microsoft ones such as <![if IE]> which have a single bracket.
+        end = "]>" if data.lower().startswith(("if", "else", "endif")) \
+            else "]]>"
+        self.gen.emitRawText(f"<![{data}{end}")
+
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
-- 
2.43.0


From e0136377d4fcdd8b21d8882807aba42ae9d105bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:00 +0000
Subject: [PATCH 06/30] fix: do not crash extracting a msgid that also is a
 default text

A msgid that occurs once with a default text and once without one made
the extraction fail with an AttributeError while formatting the
warning about the different defaults.
---
 src/zope/tal/talgettext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..0f64029 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -123,8 +123,10 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     # no default means that the msgid is the default
+                     (msgid.default or msgid).encode('utf-8'),
+                     (existing_msgid.default
+                      or existing_msgid).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From b341580874c4184213f6bccc762321b3be7788a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:02 +0000
Subject: [PATCH 07/30] fix: report the position of errors in tal:attributes

Syntax errors and duplicate names in tal:attributes were reported
without the line and column of the element.
---
 src/zope/tal/taldefs.py      | 7 ++++---
 src/zope/tal/talgenerator.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..4f76bb5 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -138,17 +138,18 @@ _attr_re = re.compile(r"\s*([^\s]+)\s+([^\s].*)\Z", re.S)
 _subst_re = re.compile(r"\s*(?:(text|structure)\s+)?(.*)\Z", re.S)
 
 
-def parseAttributeReplacements(arg, xml):
+def parseAttributeReplacements(arg, xml, position=(None, None)):
     attr_dict = {}
     for part in splitParts(arg):
         m = _attr_re.match(part)
         if not m:
-            raise TALError("Bad syntax in attributes: %r" % part)
+            raise TALError("Bad syntax in attributes: %r" % part, position)
         name, expr = m.groups()
         if not xml:
             name = name.lower()
         if name in attr_dict:
-            raise TALError("Duplicate attribute name in attributes: %r" % part)
+            raise TALError("Duplicate attribute name in attributes: %r" % part,
+                           position)
         attr_dict[name] = expr
     return attr_dict
 
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index aa740e1..e75463b 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -689,8 +689,8 @@ class TALGenerator:
             self.pushProgram()
         if attrsubst or i18nattrs:
             if attrsubst:
-                repldict = taldefs.parseAttributeReplacements(attrsubst,
-                                                              self.xml)
+                repldict = taldefs.parseAttributeReplacements(
+                    attrsubst, self.xml, self.position)
             else:
                 repldict = {}
             if i18nattrs:
-- 
2.43.0


From a095579195f7af8f9480c25b8a0d3873dda0cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:03 +0000
Subject: [PATCH 08/30] fix: report the position when the macro nesting limit
 is exceeded

---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 4c4290a..3c8f7c6 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -267,7 +267,8 @@ class TALInterpreter:
     def pushMacro(self, macroName, slots, definingName, extending):
         if len(self.macroStack) >= self.stackLimit:
             raise METALError("macro nesting limit (%d) exceeded "
-                             "by %s" % (self.stackLimit, repr(macroName)))
+                             "by %s" % (self.stackLimit, repr(macroName)),
+                             self.position)
         self.macroStack.append(
             MacroStackItem((macroName, slots, definingName, extending,
                             True, self.i18nContext)))
-- 
2.43.0


From 9fa80defe0276082e3eabf390650b55fbec507eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:05 +0000
Subject: [PATCH 09/30] fix: close the translation unit of i18n:translate with
 tal:content

The nesting level of translation units was not decremented for an
element with both i18n:translate and tal:content.  A stray i18n:name
after such an element was accepted and failed with an IndexError when
rendered.
---
 src/zope/tal/talgenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e75463b..1566509 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -789,8 +789,9 @@ class TALGenerator:
         #
         # Still, we should emit insertTranslation opcode before i18nVariable
         # in case tal:content, i18n:translate and i18n:name in the same tag
-        if not content and msgid is not None:
-            self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
+            if not content:
+                self.emitTranslation(msgid, i18ndata)
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From 19d18e192011f9ab9bc13aa55b4834c3335a9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:06 +0000
Subject: [PATCH 10/30] fix: return the same program when getCode() is called
 again

The optimizer rendered static attributes in place in the collected
instructions, so a second getCode() quoted them twice.
---
 src/zope/tal/talgenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 1566509..eff979d 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -89,6 +89,9 @@ class TALGenerator:
             except IndexError:
                 item = (None, None)
             opcode = item[0]
+            if opcode in ("startTag", "startEndTag"):
+                # optimizeStartTag() modifies the attribute list
+                item = item[:2] + (list(item[2]),)
             if opcode == "rawtext":
                 collect.append(item[1])
                 continue
-- 
2.43.0


From dbc8651ebe975186d0c51cc0856a479a847b7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:08 +0000
Subject: [PATCH 11/30] fix: close the connection opened by
 XMLParser.parseURL()

---
 src/zope/tal/xmlparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..e4cd08a 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -88,7 +88,8 @@ class XMLParser:
 
     def parseURL(self, url):
         """Parse the given URL."""
-        self.parseStream(urlopen(url))
+        with urlopen(url) as f:
+            self.parseStream(f)
 
     def parseStream(self, stream):
         """Parse the given stream (open file)."""
-- 
2.43.0


From bd50cf9ad96a85ae1e21a214448db45607ede6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:09 +0000
Subject: [PATCH 12/30] fix: report i18n:data="structure ..." as a template
 error

It failed with a bare AssertionError that carries no position.
---
 src/zope/tal/talgenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index eff979d..46ea4b2 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -360,7 +360,9 @@ class TALGenerator:
         else:
             key, expr = parseSubstitution(i18ndata)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
+            if key != 'text':
+                raise I18NError("i18n:data cannot be a structure: %r"
+                                % i18ndata, self.position)
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 28c9f75a1e7c12256605f4203bc0ce165a342209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:11 +0000
Subject: [PATCH 13/30] fix: allow i18n:attributes to name a boolean HTML
 attribute

Without a tal:attributes expression for the same attribute, the missing
expression was passed to the engine for evaluation.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 3c8f7c6..19e5e83 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -487,7 +487,8 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if (expr is not None and self.html
+                and name.lower() in BOOLEAN_HTML_ATTRS):
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
-- 
2.43.0


From b4a11a4a2c44b8baaae6fb8d20df3d9f77281355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:12 +0000
Subject: [PATCH 14/30] fix: allow empty TAL elements without attributes in XML
 templates

<tal:block/> was compiled to an instruction that fails with a TypeError
when rendered, because its start tag was optimized to plain text before
the empty element was minimized.
---
 src/zope/tal/talgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 46ea4b2..b82bfe7 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -258,11 +258,11 @@ class TALGenerator:
 
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
-        start = self.popProgram()  # start tag
         if (isend or not program) and self.xml:
             # Minimize empty element
-            start[-1] = ("startEndTag",) + start[-1][1:]
+            self.program[-1] = ("startEndTag",) + self.program[-1][1:]
             isend = 1
+        start = self.popProgram()  # start tag
         cexpr = optTag[0]
         if cexpr:
             cexpr = self.compileExpression(optTag[0])
-- 
2.43.0


From 2db594c3c25f1f362a264b22b2be28e3526b631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:22 +0000
Subject: [PATCH 15/30] fix: let i18n:domain="default" override an enclosing
 domain

An i18n:domain of "default" inside an element with another domain was
ignored, so its messages were requested from the enclosing domain.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index b82bfe7..08ab30f 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -635,7 +635,8 @@ class TALGenerator:
             target = i18ndict.get("target") or self.i18nContext.target
             if (domain != DEFAULT_DOMAIN
                 or source is not None
-                    or target is not None):
+                or target is not None
+                    or self.i18nContext.parent is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
                                                       domain=domain,
                                                       source=source,
-- 
2.43.0


From a1446d6e4c4bfcd67ad3c0fcd36f3363767f075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:39 +0000
Subject: [PATCH 16/30] fix: do not take attributes with a foreign prefix for
 directives

On an element of the TAL, METAL or I18N namespace in HTML, an attribute
such as xml:lang was taken for a directive of the element's namespace.
It was then rejected as unknown. Only attributes without a prefix belong
to the namespace of their element, as in the XML parser.
---
 src/zope/tal/htmltalparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index da19020..e72a30c 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -339,6 +339,7 @@ class HTMLTALParser(HTMLParser):
                 nsuri = self.nsdict.get(prefix)
                 if nsuri in self._namespaces:
                     return name, suffix, self._namespaces[nsuri]
+            return name, name, 'unknown'
         return name, name, 0
 
     def process_ns(self, name, attrs):
-- 
2.43.0


From 514dae803c374ef57f92262cb9c13ec8cd9d1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:16 +0000
Subject: [PATCH 17/30] fix: keep the prefix an XML name was written with

When two prefixes were bound to the same namespace, all names of that
namespace were rendered with the prefix declared last. If that was the
default namespace, prefixed attributes lost their prefix and so their
namespace. Expat reports the prefix of each name when asked to.
---
 src/zope/tal/talparser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..432fb84 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -41,6 +41,8 @@ class TALParser(XMLParser):
             code generator to use. If one is not given, a default will be used.
         """
         XMLParser.__init__(self, encoding)
+        # names are reported as "uri name prefix"
+        self.parser.namespace_prefixes = True
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
@@ -124,11 +126,8 @@ class TALParser(XMLParser):
 
     def fixname(self, name):
         if ' ' in name:
-            uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
-            prefixed = name
-            if prefix:
-                prefixed = f"{prefix}:{name}"
+            uri, name, *prefix = name.split(' ')
+            prefixed = ':'.join(prefix + [name])
             ns = self._namespaces.get(uri, "x")
             return (prefixed, name, ns)
         return (name, name, None)
-- 
2.43.0


From 5f6a3245ea14a4724de8ec2a220ad19e60b9aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:18 +0000
Subject: [PATCH 18/30] fix: keep xmlns="" well-formed

Undeclaring the default namespace in an XML template was rendered as an
attribute without a value.
---
 src/zope/tal/talparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 432fb84..234326d 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -119,7 +119,7 @@ class TALParser(XMLParser):
             if uri in self._namespaces:
                 item = (key, uri, "xmlns")
             else:
-                item = (key, uri)
+                item = (key, uri or "")
             newlist.append(item)
         self.nsNew = []
         return newlist
-- 
2.43.0


From 6617fe2a164baab2aa866c1a925e9ab6eb98c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:07 +0000
Subject: [PATCH 19/30] fix: keep XML mode after inserting a structure

Inserting a checked structure into an XML page ran a program marked as
HTML, so the rest of the page was rendered in HTML mode: macros were
refused, later structures were parsed as HTML and Boolean attributes and
empty elements came out differently.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 19e5e83..407ec6b 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -811,7 +811,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 6ec8064cb1e32c9f9b8cf04fd26bd9623c197450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:17 +0000
Subject: [PATCH 20/30] fix: report the template's position while inserting a
 structure

Attribute replacements of an inserted structure were evaluated after
telling the engine the position within the inserted text, so errors
pointed to the wrong line of the template.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 407ec6b..dbb76ab 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -76,9 +76,10 @@ class AltTALGenerator(TALGenerator):
         i18ndict = {}
         if self.enabled and self.repldict:
             taldict["attributes"] = "x x"
+        # The position is one in the inserted text, not in the template.
         TALGenerator.emitStartElement(self, name, attrlist,
                                       taldict, metaldict, i18ndict,
-                                      position, isend)
+                                      isend=isend)
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-- 
2.43.0


From 63da89ba9e404157fd70c94442e61b1a57a3a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:52 +0000
Subject: [PATCH 21/30] fix: report the position of a repeated element in every
 repetition

From the second repetition on, expressions of the repeated element were
evaluated while the engine still had the position of the last element
inside it, so errors pointed to the wrong line.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index dbb76ab..ae58135 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -844,9 +844,12 @@ class TALInterpreter:
 
     def do_loop_tal(self, stuff):
         (name, expr, block) = stuff
+        position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
             self.interpret(block)
+            # The next item starts over at the repeated element.
+            self.do_setPosition(position)
     bytecode_handlers["loop"] = do_loop
 
     def translate(self, msgid, default=None, i18ndict=None,
-- 
2.43.0


From 239ad090c875b9efa56303d8c074f3feb6777fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:53 +0000
Subject: [PATCH 22/30] fix: report the right position when evaluating
 i18n:data

The expression is evaluated after the content of its element, while the
engine still had the position of the last element inside.
---
 src/zope/tal/talinterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ae58135..09c46c7 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -728,6 +728,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -746,6 +747,7 @@ class TALInterpreter:
                 msgid = normalize(default)
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
+            self.do_setPosition(position)
             obj = self.engine.evaluate(stuff[2])
         xlated_msgid = self.translate(msgid, default, i18ndict, obj)
         # TODO: I can't decide whether we want to html.escape the translated
-- 
2.43.0


From a15aa3f5f1bc0f0c215a06d3fef8ac2aa5c1d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:53 +0000
Subject: [PATCH 23/30] fix: accept a script element whose type attribute has
 no value

The HTML parser failed with an AttributeError on <script type>.
---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index e72a30c..8f6dd6b 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,7 +194,8 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if (type_attr and type_attr[0][1]
+                    and type_attr[0][1].startswith('text/server-')):
                 attrlist.remove(type_attr[0])
                 taldict = {'script': type_attr[0][1], 'omit-tag': ''}
         self.tagstack.append(tag)
-- 
2.43.0


From e0e2d253ce47155e9a7cb660dea5e025de425cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:16 +0000
Subject: [PATCH 24/30] fix: honour tal:omit-tag without a value

In HTML <p tal:omit-tag> was accepted and the tag was rendered all the
same, because the value of an attribute without value is None.
---
 src/zope/tal/talgenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 08ab30f..62d6f6b 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -540,6 +540,8 @@ class TALGenerator:
         attrsubst = taldict.get("attributes")
         onError = taldict.get("on-error")
         omitTag = taldict.get("omit-tag")
+        if omitTag is None and "omit-tag" in taldict:
+            omitTag = ""  # <p tal:omit-tag>
         TALtag = taldict.get("tal tag")
         i18nattrs = i18ndict.get("attributes")
         # Preserve empty string if implicit msgids are used.  We'll generate
-- 
2.43.0


From 2e685d48d8bda74c4008d82eacc6c0b901217f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:16 +0000
Subject: [PATCH 25/30] fix: honour i18n:translate without a value

In HTML <p i18n:translate> was accepted but the text was not translated,
because the value of an attribute without value is None.
---
 src/zope/tal/talgenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 62d6f6b..eb9c126 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -548,6 +548,8 @@ class TALGenerator:
         # code with the msgid='' and calculate the right implicit msgid during
         # interpretation phase.
         msgid = i18ndict.get("translate")
+        if msgid is None and "translate" in i18ndict:
+            msgid = ""  # <p i18n:translate>
         varname = i18ndict.get('name')
         i18ndata = i18ndict.get('data')
 
-- 
2.43.0


From 8373783ec9eeafcaa52210ed2dfa64b4cc2a7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:18 +0000
Subject: [PATCH 26/30] fix: name the file in errors of XML templates

Errors raised while parsing an HTML file carry the file name, those of
XML files did not.
---
 src/zope/tal/talparser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 234326d..e6560f9 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -19,6 +19,7 @@ from zope.tal.taldefs import XML_NS
 from zope.tal.taldefs import ZOPE_I18N_NS
 from zope.tal.taldefs import ZOPE_METAL_NS
 from zope.tal.taldefs import ZOPE_TAL_NS
+from zope.tal.taldefs import TALError
 from zope.tal.talgenerator import TALGenerator
 from zope.tal.xmlparser import XMLParser
 
@@ -50,6 +51,14 @@ class TALParser(XMLParser):
         self.nsDict = {XML_NS: 'xml'}
         self.nsNew = []
 
+    def parseFile(self, filename):
+        """Parse from the given filename."""
+        try:
+            XMLParser.parseFile(self, filename)
+        except TALError as e:
+            e.setFile(filename)
+            raise
+
     def getCode(self):
         """Return the compiled program and macros after parsing."""
         return self.gen.getCode()
-- 
2.43.0


From 75c6bd7b593321ad0e0bd53f6b3d7b352b8afbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:31 +0000
Subject: [PATCH 27/30] fix: reject an empty i18n:name

It was ignored, all other invalid names are rejected.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index eb9c126..845b63a 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -522,7 +522,7 @@ class TALGenerator:
         for key, value in i18ndict.items():
             if key not in taldefs.KNOWN_I18N_ATTRIBUTES:
                 raise I18NError("bad i18n attribute: " + repr(key), position)
-            if not value and key in ("attributes", "data", "id"):
+            if not value and key in ("attributes", "data", "id", "name"):
                 raise I18NError("missing value for i18n attribute: " +
                                 repr(key), position)
 
-- 
2.43.0


From 0740cdce6bd73ebd10d98e223640d6ec37eddaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:23 +0000
Subject: [PATCH 28/30] fix: keep source annotations out of message ids and
 mappings

With source annotations on, a pending annotation was written into the text
of a translated element or named part.  The message id then contained the
comment and no translation was found.  The annotation is now written before
the translated text.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 09c46c7..0245d5d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -307,6 +307,11 @@ class TALInterpreter:
             self._stream_write = self.stream.write
 
     def _annotated_stream_write(self, s):
+        if self._stream_stack:
+            # Captured text is data, for instance a message id; the
+            # annotation comes before what is made of it.
+            self.stream.write(s)
+            return
         idx = s.find('<?xml')
         if idx >= 0 or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
-- 
2.43.0


From 68fb564fa0b8f6f0b036fd8ae6d5def6543617ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:58 +0000
Subject: [PATCH 29/30] fix: annotate the output of an element with
 tal:on-error at its start

A pending source annotation was left out when the output of the element
started and came up somewhere inside it, after the first nested element
that redirects its output.  If the element failed, the annotation could be
lost together with the discarded output.
---
 src/zope/tal/talinterpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 0245d5d..069b4a5 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1012,8 +1012,10 @@ class TALInterpreter:
         (block, handler) = stuff
         state = self.saveState()
         prev_source = self.sourceFile
+        pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        if not pending:
+            self._stream_write = stream.write
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1023,6 +1025,7 @@ class TALInterpreter:
         except BaseException:
             exc = sys.exc_info()[1]
             try:
+                self._pending_source_annotation = pending
                 self.restoreState(state)
                 engine = self.engine
                 if self.sourceFile != prev_source:
-- 
2.43.0


From 4d6f335d9182e922cf7d7b391402ec9a55723418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:08 +0000
Subject: [PATCH 30/30] fix: write a source annotation after an element with
 tal:on-error in place

An annotation announced at the end of the element, for instance after a
macro, was written before the output of the element instead of before the
text that follows it.
---
 src/zope/tal/talinterpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 069b4a5..ef8f750 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1043,8 +1043,14 @@ class TALInterpreter:
             finally:
                 engine.endScope()
         else:
+            # An annotation that is still pending belongs to what follows.
+            pending = self._pending_source_annotation
+            self._pending_source_annotation = False
             self.restoreOutputState(state)
             self.stream_write(stream.getvalue())
+            if pending:
+                self._pending_source_annotation = True
+                self._stream_write = self._annotated_stream_write
     bytecode_handlers["onError"] = do_onError
 
     bytecode_handlers_tal = bytecode_handlers.copy()
-- 
2.43.0

