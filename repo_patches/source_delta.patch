From 38c663776328a20293d553de77125c520f722eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 01/85] fix: ^^ at the end of the input or before a non-ASCII
 character is not a ^^ sequence

Tokenizing raised TypeError on ^^ at the end of the input.
---
 plasTeX/Tokenizer.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..84f10b1 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -277,15 +277,23 @@ class Tokenizer(object):
                 next_char = _read1()
 
                 if next_char != token:
-                    self.pushChar(next_char)
+                    if next_char:
+                        self.pushChar(next_char)
                 else:
                     next_char = _read1()
-                    num = ord(next_char)
-                    if num >= 64:
-                        token = chr(num-64)
+                    # Not a ^^ sequence if nothing follows, or if what
+                    # follows isn't a 7-bit character
+                    if not next_char or ord(next_char) >= 128:
+                        if next_char:
+                            self.pushChar(next_char)
+                        self.pushChar(token)
                     else:
-                        token = chr(num+64)
-                    code = whichCode(token)
+                        num = ord(next_char)
+                        if num >= 64:
+                            token = chr(num-64)
+                        else:
+                            token = chr(num+64)
+                        code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From 4a9c7f3c5fad39ce08ac46ef35de40014a91983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 02/85] fix: decode ^^hh notation and ^^ sequences that start
 with a decoded character

---
 plasTeX/Tokenizer.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 84f10b1..9122b09 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -28,6 +28,9 @@ DEFAULT_CATEGORIES = [
 VERBATIM_CATEGORIES = [''] * 16
 VERBATIM_CATEGORIES[11] = encoding.stringletters()
 
+# Digits used in ^^ notation (e.g. ^^5e)
+HEX_DIGITS = '0123456789abcdef'
+
 CatCode = NewType('CatCode', int)
 
 class Token(Text):
@@ -271,7 +274,7 @@ class Tokenizer(object):
 
             code = whichCode(token)
 
-            if code == CC_SUPER:
+            while code == CC_SUPER:
 
                 # Handle characters like ^^M, ^^@, etc.
                 next_char = _read1()
@@ -279,6 +282,7 @@ class Tokenizer(object):
                 if next_char != token:
                     if next_char:
                         self.pushChar(next_char)
+                    break
                 else:
                     next_char = _read1()
                     # Not a ^^ sequence if nothing follows, or if what
@@ -287,12 +291,22 @@ class Tokenizer(object):
                         if next_char:
                             self.pushChar(next_char)
                         self.pushChar(token)
+                        break
                     else:
                         num = ord(next_char)
-                        if num >= 64:
-                            token = chr(num-64)
+                        # Two lowercase hexadecimal digits denote the
+                        # character with that code
+                        hex_char = _read1() if next_char in HEX_DIGITS else ''
+                        if hex_char and hex_char in HEX_DIGITS:
+                            token = chr(int(next_char + hex_char, 16))
                         else:
-                            token = chr(num+64)
+                            if hex_char:
+                                self.pushChar(hex_char)
+                            if num >= 64:
+                                token = chr(num-64)
+                            else:
+                                token = chr(num+64)
+                        # The new character may start another ^^ sequence
                         code = whichCode(token)
 
             # Just go to the next character if you see one of these...
-- 
2.43.0


From 62ed7f8faedd822e3d51478275943ef3367317e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 03/85] fix: whether blanks after a control sequence are
 skipped depends on the category codes in force

Blanks were not skipped after control words ending in a character that is a
letter only by its current category code (e.g. @ after \makeatletter), and
were skipped after control symbols made of an ASCII letter with another
category code.  Blanks are also skipped after a control space.
---
 plasTeX/Tokenizer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 9122b09..5a656ff 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -462,13 +462,12 @@ class Tokenizer(object):
 # another macro class that would eat whitspace incorrectly.  So we
 # have to do this kind of thing in the parse() method of Macro.
 #
-                    if next_code != CC_EOL:
 # HACK: I couldn't get the parse() thing to work so I'm just not
-#       going to parse whitespace after EscapeSequences that end in
-#       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
-                            # Absorb following whitespace
-                            self.state = STATE_S
+#       going to parse whitespace after control symbols (other than
+#       the control space) as a half-assed solution.
+                    if next_code in (CC_LETTER, CC_SPACE):
+                        # Absorb following whitespace
+                        self.state = STATE_S
 
                     break
 
-- 
2.43.0


From ef4b05cd524d697e54558738902629010bdba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 04/85] fix: ignored and invalid characters end a control word
 and can follow an escape character

---
 plasTeX/Tokenizer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 5a656ff..7283822 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -241,8 +241,7 @@ class Tokenizer(object):
         Get the next character in the stream and its category code
 
         This function handles automatically converts characters like
-        ^^M, ^^@, etc. into the correct character.  It also bypasses
-        ignored and invalid characters.
+        ^^M, ^^@, etc. into the correct character.
 
         If you are iterating through the characters in a TeX instance
         and you go too far, you can put the character back with
@@ -255,8 +254,6 @@ class Tokenizer(object):
 
         whichCode = self.context.whichCode
         CC_SUPER = Token.CC_SUPER
-        CC_IGNORED = Token.CC_IGNORED
-        CC_INVALID = Token.CC_INVALID
 
         def _read1():
             if mybuffer:
@@ -309,10 +306,6 @@ class Tokenizer(object):
                         # The new character may start another ^^ sequence
                         code = whichCode(token)
 
-            # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
-                continue
-
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -381,6 +374,8 @@ class Tokenizer(object):
         CC_EOL = Token.CC_EOL
         CC_COMMENT = Token.CC_COMMENT
         CC_ACTIVE = Token.CC_ACTIVE
+        CC_IGNORED = Token.CC_IGNORED
+        CC_INVALID = Token.CC_INVALID
         prev = None
 
         while 1:
@@ -400,6 +395,10 @@ class Tokenizer(object):
                 self.state = STATE_M
                 token = tokenClasses[code](char)
 
+            # Just go to the next character if you see one of these...
+            elif code in (CC_IGNORED, CC_INVALID):
+                continue
+
             # Whitespace
             elif code == CC_SPACE:
                 if self.state  == STATE_S or self.state == STATE_N:
-- 
2.43.0


From 26b79e4e53b872ee56be24b22ff3e037acd09977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 05/85] fix: end of line characters drop the rest of their line
 and every line end starts a new line

A character other than the line end with category 5 only dropped the rest of
its line when it was found at the start of a line, a line end with category 14
dropped the following line too, and blanks at the start of a line were kept
when the previous line end had another category than 5.
---
 plasTeX/Tokenizer.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 7283822..f2fbd51 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -220,21 +220,16 @@ class Tokenizer(object):
         self.source = source
         self.seek = source.seek
         self.read = source.read
-        self.readline = source.readline
         self.tell = source.tell
         self.lineNumber = 1
 
-# There seems to be a problem with readline in Python 2.4 !!!
     def readline(self):
-        read = self.read
+        """ Drop the rest of the current line, including pushed back characters """
         mybuffer = self._charBuffer
-        while 1:
-            if mybuffer:
-                char = mybuffer.pop(0)
-            else:
-                char = read(1)
-            if not char or ord(char) == 10:
-                break
+        while mybuffer:
+            if mybuffer.pop(0) == '\n':
+                return
+        self.source.readline()
 
     def iterchars(self) -> Generator[Tuple[CatCode, str], None, None]:
         """
@@ -397,11 +392,15 @@ class Tokenizer(object):
 
             # Just go to the next character if you see one of these...
             elif code in (CC_IGNORED, CC_INVALID):
+                if char == '\n':
+                    self.state = STATE_N
                 continue
 
             # Whitespace
             elif code == CC_SPACE:
                 if self.state  == STATE_S or self.state == STATE_N:
+                    if char == '\n':
+                        self.state = STATE_N
                     continue
                 self.state = STATE_S
                 token = Space(' ')
@@ -409,6 +408,10 @@ class Tokenizer(object):
             # End of line
             elif code == CC_EOL:
                 state = self.state
+                # An end of line character drops the rest of its line
+                if char != '\n':
+                    self.lineNumber += 1
+                    self.readline()
                 if state == STATE_S:
                     self.state = STATE_N
                     continue
@@ -417,11 +420,6 @@ class Tokenizer(object):
                     code = CC_SPACE
                     self.state = STATE_N
                 elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
@@ -446,11 +444,10 @@ class Tokenizer(object):
                                 break
                         token = EscapeSequence(''.join(word))
 
-                    elif next_code == CC_EOL:
+                    elif next_code == CC_EOL and next_char == '\n':
                         #pushChar(token)
                         #token = EscapeSequence()
                         token = Space(' ')
-                        self.state = STATE_S
 
                     else:
                         token = EscapeSequence(next_char)
@@ -468,6 +465,9 @@ class Tokenizer(object):
                         # Absorb following whitespace
                         self.state = STATE_S
 
+                    if next_char == '\n':
+                        self.state = STATE_N
+
                     break
 
                 else: token = EscapeSequence()
@@ -484,8 +484,9 @@ class Tokenizer(object):
                     continue
 
             elif code == CC_COMMENT:
-                self.readline()
-                self.lineNumber += 1
+                if char != '\n':
+                    self.readline()
+                    self.lineNumber += 1
                 self.state = STATE_N
                 continue
 
@@ -498,6 +499,10 @@ class Tokenizer(object):
                 token = tokenClasses[code](char)
                 self.state = STATE_M
 
+            # A new line starts after a line end, whatever its category
+            if char == '\n':
+                self.state = STATE_N
+
             prev = token
 
             yield token
-- 
2.43.0


From 928865874d4917d0868f817b516f59717d5972d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 06/85] fix: \let aliases of characters are resolved when used
 and replaced by later definitions

---
 plasTeX/Base/TeX/Primitives.py |  3 ++-
 plasTeX/Context.py             | 31 +++++++++++++++++++++++++------
 plasTeX/TeX.py                 |  9 +++++++++
 plasTeX/Tokenizer.py           | 12 ------------
 4 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..8bda2bb 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -350,7 +350,8 @@ class ifdefined(IfCommand):
     def invoke(self, tex):
         a = self.parse(tex)
         n = str(a['name'].macroName)
-        b = n in self.ownerDocument.context
+        context = self.ownerDocument.context
+        b = n in context or context.get_let(a['name']) is not a['name']
         tex.processIfContent(b)
         return []
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..9f64a51 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -804,7 +804,9 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[0][macroName(value)] = value
+        name = macroName(value)
+        self.contexts[0].lets.pop(name, None)
+        self.contexts[0][name] = value
 
     __setitem__ = addGlobal
 
@@ -828,7 +830,9 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[-1][macroName(value)] = value
+        name = macroName(value)
+        self.contexts[-1].lets.pop(name, None)
+        self.contexts[-1][name] = value
 
     def whichCode(self, char):
         """
@@ -1165,11 +1169,23 @@ class Context(object):
             self.addGlobal(name, newclass)
 
     def get_let(self, command):
+        """
+        Return the character token that `command` is an alias of
+
+        Required Arguments:
+        command -- the control sequence token to look up
+
+        Returns: the character token that the innermost definition of
+        the control sequence makes it equivalent to, or `command` itself
+        if that definition is a macro
+
+        """
+        name = command.nodeName
         for context in reversed(self.contexts):
-            try:
-                return context.lets[command]
-            except KeyError:
-                pass
+            if name in context.lets:
+                return context.lets[name]
+            if dict.__contains__(context, name):
+                break
         return command
 
     def let(self, dest, source):
@@ -1187,8 +1203,11 @@ class Context(object):
         # Use nodeName instead of macroName to work with Macros as well as
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
+        if source.catcode == Token.CC_ESCAPE:
+            source = self.get_let(source)
         if source.catcode == Token.CC_ESCAPE:
             self.top[dest.nodeName] = self[source.nodeName]
+            self.top.lets.pop(dest.nodeName, None)
         else:
             self.top.lets[dest.nodeName] = source
 
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..0293e6b 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -291,6 +291,7 @@ class TeX(object):
         pushToken = self.pushToken
         pushTokens = self.pushTokens
         createElement = self.ownerDocument.createElement
+        get_let = self.ownerDocument.context.get_let
         ELEMENT_NODE = Macro.ELEMENT_NODE
 
         while 1:
@@ -310,6 +311,14 @@ class TeX(object):
 
             # We need to expand this one
             elif token.macroName is not None:
+
+                # Check for any \let aliases of characters
+                if token.catcode == Token.CC_ESCAPE:
+                    alias = get_let(token)
+                    if alias is not token:
+                        pushToken(alias)
+                        continue
+
                 try:
                     # By default, invoke() should put the macro instance
                     # itself into the output stream.  We'll handle this
diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index f2fbd51..549108a 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -472,17 +472,6 @@ class Tokenizer(object):
 
                 else: token = EscapeSequence()
 
-                # Check for any \let aliases
-                token = context.get_let(token)
-
-                # TODO: This action should be generalized so that the
-                #       tokens are processed recursively
-                if token is not token and token.catcode == CC_COMMENT:
-                    self.readline()
-                    self.lineNumber += 1
-                    self.state = STATE_N
-                    continue
-
             elif code == CC_COMMENT:
                 if char != '\n':
                     self.readline()
@@ -492,7 +481,6 @@ class Tokenizer(object):
 
             elif code == CC_ACTIVE:
                 token = EscapeSequence('active::%s' % char)
-                token = context.get_let(token)
                 self.state = STATE_M
 
             else:
-- 
2.43.0


From 7075246a30a23a556e40bbd77f6d617810045c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 07/85] fix: a global definition replaces the local definitions
 of every open group

---
 plasTeX/Context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 9f64a51..12406e2 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -804,8 +804,11 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
+        # A global definition replaces the local ones of every open group
         name = macroName(value)
-        self.contexts[0].lets.pop(name, None)
+        for context in self.contexts:
+            context.lets.pop(name, None)
+            dict.pop(context, name, None)
         self.contexts[0][name] = value
 
     __setitem__ = addGlobal
-- 
2.43.0


From 71ae0074ab034acb294304bcd72e34341cf33d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 08/85] fix: \ifcase outside the listed cases takes the \else
 branch, only conditionals nest while skipping

---
 plasTeX/TeX.py | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 0293e6b..af9f6a6 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -18,8 +18,8 @@ from typing import Optional, List
 import contextlib, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
-from plasTeX.Base.TeX.Primitives import MathShift
-from plasTeX import ParameterCommand, Macro
+from plasTeX.Base.TeX.Primitives import MathShift, IfCommand
+from plasTeX import ParameterCommand, Macro, NewIf, UnrecognizedMacro
 from plasTeX import glue, muglue, mudimen, dimen, number
 from plasTeX.Logging import getLogger, disableLogging, fileLogging
 
@@ -549,13 +549,13 @@ class TeX(object):
 
         """
         # Since the true content always comes first, we need to set
-        # True to case 0 and False to case 1.
-        elsefound = False
+        # True to case 0 and False to the else case.
         if isinstance(which, bool):
             if which: which = 0
-            else: which = 1
+            else: which = None
 
         cases = [[]]
+        elsecase = None
         nesting = 0
         correctly_terminated = False
         iterator = self.itertokens()
@@ -566,7 +566,7 @@ class TeX(object):
                 cases[-1].append(t)
                 cases[-1].append(next(iterator))
                 continue
-            elif name.startswith('if'):
+            elif self.isConditional(name):
                 cases[-1].append(t)
                 nesting += 1
             elif name == 'fi':
@@ -576,6 +576,8 @@ class TeX(object):
                 cases[-1].append(t)
                 nesting -= 1
             elif not(nesting) and name == 'else':
+                if elsecase is None:
+                    elsecase = len(cases)
                 cases.append([])
                 continue
             elif not(nesting) and name == 'or':
@@ -587,11 +589,35 @@ class TeX(object):
         if not correctly_terminated:
             log.warning(r'\end occurred when \if was incomplete')
 
-        # else case for ifs without elses
-        cases.append([])
+        # Anything that isn't one of the listed cases selects the else case
+        last = len(cases) if elsecase is None else elsecase
+        if which is None or not(0 <= which < last):
+            which = elsecase
 
         # Push if-selected tokens back into tokenizer
-        self.pushTokens(cases[which])
+        if which is not None:
+            self.pushTokens(cases[which])
+
+    def isConditional(self, name):
+        """
+        Does the named macro begin an `if' block?
+
+        Required Arguments:
+        name -- name of the macro
+
+        Returns:
+        boolean.  For unknown macros, this is a guess based on the name.
+
+        """
+        if not name:
+            return False
+        macro = self.ownerDocument.context.top.get(name)
+        if isinstance(macro, type):
+            if issubclass(macro, (IfCommand, NewIf)):
+                return True
+            if not issubclass(macro, UnrecognizedMacro):
+                return False
+        return name.startswith('if')
 
     def readArgument(self, *args, **kwargs):
         """
-- 
2.43.0


From 797e4ce495619e47fe18bc025e2771ef8f48d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 09/85] fix: \expandafter of a macro that expands to nothing
 leaves nothing behind

---
 plasTeX/Base/TeX/Primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 8bda2bb..7e2d5f8 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -500,6 +500,8 @@ class expandafter(Command):
 
         # We expand aftertok once, not recursively
         expanded = None
+        if aftertok.catcode == Token.CC_ESCAPE:
+            aftertok = tex.ownerDocument.context.get_let(aftertok)
         if isinstance(aftertok, EscapeSequence):
             obj = tex.ownerDocument.createElement(aftertok.macroName)
             obj.contextDepth = aftertok.contextDepth
@@ -508,7 +510,8 @@ class expandafter(Command):
         if isinstance(aftertok, Macro):
             expanded = aftertok.invoke(tex)
 
-        expanded = expanded or [aftertok]
+        if expanded is None:
+            expanded = [aftertok]
 
         return [nexttok] + expanded
 
-- 
2.43.0


From 8224f4abafba01fff72d069cbebe4acc94e32f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 10/85] fix: delimited parameters of \def match whole
 delimiters outside groups, #{ and ## in bodies

---
 plasTeX/__init__.py | 147 +++++++++++++++++++++++++++-----------------
 1 file changed, 91 insertions(+), 56 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..a06aaeb 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1103,10 +1103,14 @@ def expandDef(definition, params):
     for t in definition:
         # Expand parameters
         if t.catcode == Token.CC_PARAMETER:
+            parameter = t
             for t in definition:
                 # Double '#'
                 if t.catcode == Token.CC_PARAMETER:
                     output.append(t)
+                # Not a parameter
+                elif t.catcode != Token.CC_OTHER or t not in string.digits:
+                    output.extend([parameter, t])
                 else:
                     if int(t) < len(params) and params[int(t)] is not None:
                         # This is a pretty bad hack, but `ifx' commands
@@ -1167,68 +1171,99 @@ class Definition(Macro):
     args = '' # type: str
     definition = None # type: Optional[str]
 
-    def invoke(self, tex):
-        if not self.args: return self.definition
+    @property
+    def parameters(self):
+        """
+        The tokens before the first parameter, a list with the
+        delimiter tokens of each of the parameters, and whether the
+        last parameter also ends at a begin group token (i.e. `#{')
 
-        name = macroName(self)
-        argIter = iter(self.args)
-        inparam = False
-        params = [None]
-        for a in argIter:
-
-            # Beginning a new parameter
-            if a.catcode == Token.CC_PARAMETER:
-
-                # Adjacent parameters, just get the next token
-                if inparam:
-                    params.append(tex.readArgument(parentNode=self,
-                                                   name='#%s' % len(params)))
-
-                # Get the parameter number
-                for a in argIter:
-                    # Numbered parameter
-                    if a in string.digits:
-                        inparam = True
-
-                    elif a.catcode == Token.CC_PARAMETER:
-                        continue
-
-                    # Handle #{ case here
-                    elif a.catcode == Token.CC_BGROUP:
-                        param = []
-                        for t in tex.itertokens():
-                            if t.catcode == Token.CC_BGROUP:
-                                tex.pushToken(t)
-                            else:
-                                param.append(t)
-                        inparam = False
-                        params.append(param)
+        """
+        prefix = current = []
+        delimiters = []
+        brace = False
+        args = list(self.args or [])
+        while args:
+            a = args.pop(0)
+            if a.catcode != Token.CC_PARAMETER:
+                current.append(a)
+                continue
+            while args and args[0].catcode == Token.CC_PARAMETER:
+                args.pop(0)
+            if not args:
+                brace = True
+            elif args.pop(0) in string.digits:
+                current = []
+                delimiters.append(current)
+            else:
+                raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+        return prefix, delimiters, brace
 
-                    else:
-                        raise ValueError('Invalid arg string: %s' % ''.join(self.args))
-                    break
+    def readDelimited(self, tex, delimiter, brace=False):
+        """
+        Read the tokens up to the given delimiter that isn't inside a group
 
-            # In a parameter, so get everything up to a token that matches `a`
-            elif inparam:
-                param = []
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    param.append(t)
-                inparam = False
-                params.append(param)
+        Required Arguments:
+        tex -- the TeX stream to read from
+        delimiter -- list of tokens that ends the argument
+        brace -- the delimiter must be followed by a begin group token,
+            which isn't removed from the stream
 
-            # Not in a parameter, just make sure the token matches
-            else:
-                for t in tex.itertokens():
-                    if t == a:
+        Returns:
+        list of tokens.  If it is just one group, its braces are removed.
+
+        """
+        param = []
+        level = 0
+        for t in tex.itertokens():
+            if not brace or t.catcode != Token.CC_BGROUP:
+                param.append(t)
+            start = len(param) - len(delimiter)
+            if level == 0 and start >= 0 and param[start:] == delimiter and \
+               (not brace or t.catcode == Token.CC_BGROUP):
+                if brace:
+                    tex.pushToken(t)
+                del param[start:]
+                break
+            if t.catcode == Token.CC_BGROUP:
+                if brace:
+                    param.append(t)
+                level += 1
+            elif t.catcode == Token.CC_EGROUP:
+                level -= 1
+
+        # Remove the braces if the whole argument is a single group
+        if len(param) > 1 and param[0].catcode == Token.CC_BGROUP:
+            level = 0
+            for i, t in enumerate(param):
+                if t.catcode == Token.CC_BGROUP:
+                    level += 1
+                elif t.catcode == Token.CC_EGROUP:
+                    level -= 1
+                    if level == 0:
+                        if i == len(param) - 1:
+                            param = param[1:-1]
                         break
-                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
-                    break
+        return param
 
-        if inparam:
-            params.append(tex.readArgument(parentNode=self,
-                                           name='#%s' % len(params)))
+    def invoke(self, tex):
+        params = [None]
+        prefix, delimiters, brace = self.parameters
+
+        # Make sure that the tokens before the first parameter match
+        for a in prefix:
+            for t in tex.itertokens():
+                if t != a:
+                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (macroName(self), t, a, ''.join(self.args)))
+                break
+
+        for i, delimiter in enumerate(delimiters):
+            atbrace = brace and i == len(delimiters) - 1
+            if delimiter or atbrace:
+                params.append(self.readDelimited(tex, delimiter, atbrace))
+            else:
+                params.append(tex.readArgument(parentNode=self,
+                                               name='#%s' % len(params)))
 
         deflog.debug2('expanding %s %s', self.definition, params)
 
-- 
2.43.0


From 9a755a9736d7f3c48bb9bc0b75922610b28352e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 11/85] fix: brackets inside braces do not end an optional
 argument

---
 plasTeX/TeX.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index af9f6a6..4beb13d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -917,9 +917,19 @@ class TeX(object):
             if t.catcode != Token.CC_ESCAPE and \
                (t == begin or str(t) == str(begin)):
                 level = 1
+                braces = 0
                 for t in tokens:
                     source.append(t)
-                    if t.catcode != Token.CC_ESCAPE and \
+                    # Delimiters within braces don't count
+                    if t.catcode == Token.CC_BGROUP:
+                        toks.append(t)
+                        braces += 1
+                    elif t.catcode == Token.CC_EGROUP:
+                        toks.append(t)
+                        braces = max(0, braces - 1)
+                    elif braces:
+                        toks.append(t)
+                    elif t.catcode != Token.CC_ESCAPE and \
                        (t == begin or str(t) == str(begin)):
                         toks.append(t)
                         level += 1
-- 
2.43.0


From a352f09ea9c49da6b2ff340230d9ea6387f39c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 12/85] fix: \newcommand and \newenvironment definitions are
 local to the current group

---
 plasTeX/Base/LaTeX/Definitions.py |  4 ++--
 plasTeX/Context.py                | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..a9dcbd8 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -19,7 +19,7 @@ class newcommand(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
@@ -46,7 +46,7 @@ class newenvironment(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['begin'], a['end'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('environment %s %s %s', *args)
         self.ownerDocument.context.newenvironment(*args, **kwargs)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 12406e2..24ca3ad 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1047,7 +1047,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
         """
         Create a \\newcommand
 
@@ -1057,6 +1057,7 @@ class Context(object):
         definition -- string containing the LaTeX definition
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this macro is local or global
 
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
@@ -1084,9 +1085,12 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
+    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None, local=False):
         """
         Create a \\newenvironment
 
@@ -1099,6 +1103,7 @@ class Context(object):
             environment
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this environment is local or global
 
         Examples::
             c.newenvironment('mylist', 0, [r'\\begin{itemize}', r'\\end{itemize}'])
@@ -1125,15 +1130,17 @@ class Context(object):
 
         macrolog.debug('creating newenvironment %s', name)
 
+        add = self.addLocal if local else self.addGlobal
+
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        add(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        add('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
-- 
2.43.0


From 101e2bce3b360597d644ef360f0e21b137e4a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 13/85] fix: reading a number only expands what follows it and
 \value is an internal integer

---
 plasTeX/Base/LaTeX/Numbering.py |  18 +++++-
 plasTeX/Base/TeX/Primitives.py  |   5 +-
 plasTeX/TeX.py                  | 101 ++++++++++++++++++++++++++++----
 plasTeX/__init__.py             |   6 ++
 4 files changed, 113 insertions(+), 17 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 2de5263..502f3bb 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -3,7 +3,7 @@ C.8.4 Numbering (p194)
 
 """
 
-from plasTeX import Command
+from plasTeX import Command, CountCommand, count, dimen
 
 
 class newcounter(Command):
@@ -24,14 +24,23 @@ class addtocounter(Command):
         a = self.parse(tex)
         self.ownerDocument.context.counters[a['name']].addtocounter(a['value'])
 
-class value(Command):
+class value(CountCommand):
+    """ The value of a counter, an internal integer where numbers are read """
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
-        return tex.textTokens(self.ownerDocument.context.counters[a['name']].arabic)
+        if not tex.scanningNumber:
+            return tex.textTokens(self.ownerDocument.context.counters[a['name']].arabic)
+
+    def __count__(self):
+        return count(self.ownerDocument.context.counters[self.attributes['name']].value)
+
+    def __dimen__(self):
+        return dimen(self.__count__())
 
 class arabic(Command):
     """ Return arabic representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -39,6 +48,7 @@ class arabic(Command):
 
 class Roman(Command):
     """ Return uppercase roman representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -52,6 +62,7 @@ class roman(Roman):
 
 class Alph(Command):
     """ Return the uppercase letter representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -65,6 +76,7 @@ class alph(Alph):
 
 class fnsymbol(Command):
     """ Return the symbol representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 7e2d5f8..ab6168c 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -180,7 +180,7 @@ class gdef(DefCommand):
     local = False
 
 class IfCommand(Command):
-    pass
+    expandable = True
 
 class if_(IfCommand):
     """ \\if """
@@ -413,6 +413,7 @@ class catcode(Command):
 
 class csname(Command):
     """ \\csname """
+    expandable = True
     def invoke(self, tex):
         name = []
         for t in tex:
@@ -494,6 +495,7 @@ class noligs_(Command):
     macroName = '@noligs'
 
 class expandafter(Command):
+    expandable = True
     def invoke(self, tex):
         nexttok = next(tex.itertokens())
         aftertok = next(tex.itertokens())
@@ -553,6 +555,7 @@ class hfil(Command):
     pass
 
 class the(Command):
+    expandable = True
     args = 'arg:cs'
     def invoke(self, tex):
         result = Command.invoke(self, tex)
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 4beb13d..63ee463 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -74,6 +74,9 @@ class TeX(object):
         # Auxiliary files loaded
         self.auxFiles = []
 
+        # Is the next token expected to begin a number or dimension?
+        self.scanningNumber = False
+
         # TeX arguments types and their casting functions
         self.argtypes = {
             'url': (self.castNone, {'#':12,'~':12,'%':12,'&':12}),
@@ -598,6 +601,36 @@ class TeX(object):
         if which is not None:
             self.pushTokens(cases[which])
 
+    def expandableTokens(self):
+        """
+        Iterate over tokens while only expanding them
+
+        Unlike `__iter__', commands that do more than being replaced by
+        other tokens are not invoked.  They are returned as they are.
+
+        """
+        context = self.ownerDocument.context
+        for token in self.itertokens():
+            if token is None:
+                continue
+            if token.nodeType != Macro.ELEMENT_NODE and token.macroName is not None:
+                if token.catcode == Token.CC_ESCAPE:
+                    alias = context.get_let(token)
+                    if alias is not token:
+                        self.pushToken(alias)
+                        continue
+                macro = context.top.get(token.macroName)
+                if isinstance(macro, type) and issubclass(macro, Macro) and macro.expandable:
+                    obj = self.ownerDocument.createElement(token.macroName)
+                    obj.contextDepth = token.contextDepth
+                    obj.parentNode = token.parentNode
+                    tokens = obj.invoke(self)
+                    if tokens is None:
+                        tokens = [obj]
+                    self.pushTokens(tokens)
+                    continue
+            yield token
+
     def isConditional(self, name):
         """
         Does the named macro begin an `if' block?
@@ -1484,8 +1517,8 @@ class TeX(object):
                 break
             if t in string.digits:
                 num = t + self.readSequence(string.digits, False)
-                for t in self:
-                    if t.nodeType == Token.ELEMENT_NODE:
+                for t in self.expandableTokens():
+                    if t.nodeType == Token.ELEMENT_NODE or t.macroName is not None:
                         self.pushToken(t)
                         return sign * float(num)
                     elif t in '.,':
@@ -1516,14 +1549,26 @@ class TeX(object):
 
         """
         ParameterCommand.disable()
+        self.scanningNumber = True
         sign = self.readOptionalSigns()
         for t in self:
+            self.scanningNumber = False
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
+                if isinstance(t.value, dimen):
+                    num = dimen(sign * dimen(t))
+                else:
+                    # An internal integer is a factor if there is a unit
+                    unit = self.readKeyword(units)
+                    if unit is None:
+                        num = dimen(sign * dimen(t))
+                    else:
+                        num = dimen(sign * number(t) * dimen('1%s' % unit))
                 ParameterCommand.enable()
-                return dimen(sign * dimen(t))
+                return num
             self.pushToken(t)
             break
+        self.scanningNumber = False
         num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
         ParameterCommand.enable()
         return num
@@ -1619,11 +1664,11 @@ class TeX(object):
 
         """
         output = []
-        for t in self:
+        for t in self.expandableTokens():
             if t.nodeType == Macro.ELEMENT_NODE:
                 self.pushToken(t)
                 break
-            if t not in chars:
+            if t.macroName is not None or t not in chars:
                 if optspace and t.catcode == Token.CC_SPACE:
                     pass
                 else:
@@ -1634,6 +1679,37 @@ class TeX(object):
             return default
         return ''.join(output)
 
+    def readParameter(self):
+        """
+        Read a register or parameter unless it begins an assignment
+
+        Returns:
+        `ParameterCommand' instance or None
+
+        """
+        for t in self.expandableTokens():
+            obj = t
+            if t.nodeType != Macro.ELEMENT_NODE and t.macroName is not None:
+                macro = self.ownerDocument.context.top.get(t.macroName)
+                if isinstance(macro, type) and issubclass(macro, ParameterCommand):
+                    obj = self.ownerDocument.createElement(t.macroName)
+            if not isinstance(obj, ParameterCommand):
+                self.pushToken(t)
+                return None
+            skipped = []
+            for tok in self.itertokens():
+                skipped.append(tok)
+                if tok.catcode != Token.CC_SPACE:
+                    break
+            self.pushTokens(skipped)
+            if skipped and skipped[-1] == '=':
+                self.pushToken(t)
+                return None
+            if obj is not t:
+                obj.invoke(self)
+            return obj
+        return None
+
     def readInteger(self, optspace=True):
         """
         Read an integer from the stream
@@ -1643,10 +1719,12 @@ class TeX(object):
 
         """
         ParameterCommand.disable()
-        num = None
+        num = t = None
+        self.scanningNumber = True
         sign = self.readOptionalSigns()
 
         for t in self:
+            self.scanningNumber = False
             # internal/coerced integers
             if t.nodeType == Macro.ELEMENT_NODE:
                 if isinstance(t, ParameterCommand):
@@ -1658,13 +1736,9 @@ class TeX(object):
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
                                                               optspace=optspace)))
-                for t in self:
-                    if t.nodeType == Macro.ELEMENT_NODE and \
-                       isinstance(t, ParameterCommand):
-                        num = number(num * number(t))
-                    else:
-                        self.pushToken(t)
-                    break
+                factor = self.readParameter()
+                if factor is not None:
+                    num = number(num * number(factor))
             # octal constant
             elif t == "'":
                 num = number(sign * int('0' + self.readSequence(string.octdigits,
@@ -1680,6 +1754,7 @@ class TeX(object):
                     break
             break
         ParameterCommand.enable()
+        self.scanningNumber = False
         if num is not None:
             return num
         log.warning('Missing number%s, treating as `0`. (%s)', self.lineInfo, t)
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a06aaeb..384f93e 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -140,6 +140,9 @@ class Macro(Element):
     # LaTeX argument template
     args = '' # type: str
 
+    # Does invoking the macro do nothing but replace it by other tokens?
+    expandable = False
+
     # Force there to be at least on paragraph in the content
     forcePars = False
 
@@ -1062,6 +1065,7 @@ class UnrecognizedMacro(Macro):
 
 class NewIf(Macro):
     """ Base class for all generated \\newifs """
+    expandable = True
 
     state = False
 
@@ -1132,6 +1136,7 @@ def expandDef(definition, params):
 
 class NewCommand(Macro):
     """ Superclass for all \newcommand/\newenvironment type commands """
+    expandable = True
     nargs = 0
     opt = None
     definition = None
@@ -1168,6 +1173,7 @@ class NewCommand(Macro):
 
 class Definition(Macro):
     """ Superclass for all \\def-type commands """
+    expandable = True
     args = '' # type: str
     definition = None # type: Optional[str]
 
-- 
2.43.0


From bb2acddfdb68419ba1c1db48df2025bcb285677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 14/85] fix: filename generator keeps bindings for later
 alternatives, limits words before replacing characters, reports an error
 whenever no fresh name exists

---
 plasTeX/Filenames.py | 166 +++++++++++++++++++++----------------------
 1 file changed, 80 insertions(+), 86 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..c3ad5dc 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -1,5 +1,9 @@
 import re, string, os.path
 
+class FilenameTemplate(string.Template):
+    """ Filename with variables that can carry a format (e.g. ${title.5}) """
+    braceidpattern = r'\w+(?:\.\d+)?'
+
 class Filenames(object):
 
     def __init__(self, spec, charsub=None, variables=None, extension='',
@@ -75,6 +79,8 @@ class Filenames(object):
         self.files = self.parseFilenames(spec)
         self.charsub = charsub or []
         self.variables = variables or {}
+        # Namespace to go back to after each issued name
+        self.initial = dict(self.variables)
         self.extension = extension
         self.invalid = invalid or {}
         self.newFilename = self._newFilename()
@@ -127,8 +133,10 @@ class Filenames(object):
         return next(self)
 
     def __next__(self):
-        for name in self.newFilename:
-            return name
+        name = next(self.newFilename)
+        if name is None:
+            raise ValueError('Filename could not be created.')
+        return name
 
     def addExtension(self, filename):
         """ Add a file extension to the filename if none exists """
@@ -137,10 +145,59 @@ class Filenames(object):
             return filename + self.extension
         return filename
 
+    def expand(self, item, num):
+        """
+        Do variable substitution on one filename
+
+        Arguments:
+        item -- the filename containing variables
+        num -- the value of $num
+
+        Returns:
+        two-element tuple: the resulting filename, or None if it contains
+        a variable that has no value, and a boolean that indicates whether
+        the filename contains $num
+
+        """
+        numbered = False
+        currentns = {}
+        # Locate all key names and formats in the string
+        for name, key, format in re.findall(r'\$\{((\w+)(?:\.(\d+))?)}', item):
+            # Supply a file number as needed
+            if key == 'num':
+                numbered = True
+                currentns[name] = ('%%.%sd' % format) % num
+                continue
+            if key not in self.variables:
+                return None, numbered
+            value = self.variables[key]
+            # Limit other variables to specified number of words
+            if format:
+                value = ' '.join(value.split()[:int(format)])
+            if self.charsub:
+                for char in self.charsub[0]:
+                    value = value.replace(char, self.charsub[1])
+            currentns[name] = value
+        try:
+            result = FilenameTemplate(item).substitute(currentns)
+        except KeyError:
+            return None, numbered
+        return self.addExtension(result), numbered
+
+    def issue(self, filename):
+        """ Mark a filename as used and reset the namespace """
+        self.invalid[filename] = None
+        self.variables.clear()
+        self.variables.update(self.initial)
+        return filename
+
     def _newFilename(self):
-        """ Generator that generates new filenames """
-        g = self.variables.copy()
+        """
+        Generator that generates new filenames
 
+        None is generated each time that no filename can be created.
+
+        """
         # Split filenames into static and wildcard groups
         static = []
         wildcard = []
@@ -159,96 +216,33 @@ class Filenames(object):
         # Initialize file number counter
         num = 1
 
-        # Locate all key names and formats in the string
-        keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
-
         # Return static filenames
         for item in static:
-            currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
-            for key, format in keysre.findall(item):
-                # Supply a file number as needed
-                if key == 'num':
-                    currentns['num'] = ('%%.%sd' % format) % num
-                # Limit other variables to specified number of words
-                elif format and key in currentns:
-                    value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
-            try:
-                # Strip formats
-                item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-                # Do variable substitution
-                result = string.Template(item).substitute(currentns)
-                if 'num' in currentns:
-                    num += 1
-                self.variables.clear()
-                self.variables.update(g)
-                result = self.addExtension(result)
-                if result not in self.invalid:
-                    self.invalid[result] = None
-                    yield result
-            except KeyError:
+            result, numbered = self.expand(item, num)
+            if result is None:
                 continue
+            if numbered:
+                num += 1
+            if result not in self.invalid:
+                yield self.issue(result)
 
         # We've reached the wildcard stage.  The wildcard gives us
         # multiple alternatives of filenames to choose from.  Keep trying
         # each one with the current namespace until one works.
-        passes = 0
         while 1:
-            passes += 1
+            retry = False
             for item in wildcard:
-                currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
-                for key, format in keysre.findall(item):
-                    # Supply a file number as needed
-                    if key == 'num':
-                        currentns['num'] = ('%%.%sd' % format) % num
-                    # Limit other variables to specified number of words
-                    elif format and key in currentns:
-                        value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
-                try:
-                    # Strip formats
-                    item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-                    # Do variable substitution
-                    result = string.Template(item).substitute(currentns)
-                    if 'num' in currentns:
-                        num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
-                    result = self.addExtension(result)
-                    if result not in self.invalid:
-                        self.invalid[result] = None
-                        yield result
-                    else:
-                        continue
-                    break
-                except KeyError as key:
-                    if 'num' in self.variables:
-                        del self.variables['num']
+                result, numbered = self.expand(item, num)
+                if result is None:
                     continue
-            else:
-                # We tried 100 different names and still don't have a unique
-                # one, we better just bail out.
-                if passes > 100:
+                if numbered:
+                    num += 1
+                if result not in self.invalid:
+                    yield self.issue(result)
                     break
-
-        raise ValueError('Filename could not be created.')
+                # The next number gives another filename
+                retry = retry or numbered
+            else:
+                # All possible filenames are taken already
+                if not retry:
+                    yield None
-- 
2.43.0


From 703aa80b1d17fd91d9eca2a5330eda13c853d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 15/85] fix: booleans in configuration files are read as
 yes/no, true/false, on/off

---
 plasTeX/ConfigManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..e0ed8aa 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -55,6 +55,12 @@ class BooleanOption(ConfigOption[bool]):
         if disables:
             group.add_argument(*disables, dest=self.name, help=self.description + formatDefault(self.value), action='store_false', default=None)
 
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.strip().lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: {}".format(string))
+
 class MultiStringOption(ConfigOption[List[str]]):
     def registerArgparse(self, group: ArgumentGroup):
         group.add_argument(*self.options, dest=self.name, type=str, nargs="*", help=self.description, action="append")
-- 
2.43.0


From 8c3204d7a4cb7cd5ad0ac9dba653e8da1768b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 16/85] fix: keys of dictionary options keep their case in
 configuration files

---
 plasTeX/ConfigManager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index e0ed8aa..7a2eaaa 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,8 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # The keys of dictionary options are case sensitive
+            data.optionxform = str
             data.read(filename)
 
             for section in data.sections():
@@ -290,8 +292,9 @@ class ConfigManager(Dict[str, ConfigSection]):
                 dictObject = next((x for x in self[section].data.values() if isinstance(x, DictOption)), None)
 
                 for key, val in data.items(section):
-                    if key in self[section].data:
-                        self[section].data[key].setFromString(val)
+                    option = self[section].data.get(key.lower())
+                    if option is not None:
+                        option.setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 1233b10299dcbc3aa77aaf80b61e616e5d388847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 17/85] fix: documented defaults and names of options are the
 ones in force

---
 Doc/command.tex | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Doc/command.tex b/Doc/command.tex
index f179284..ff4e4df 100644
--- a/Doc/command.tex
+++ b/Doc/command.tex
@@ -128,7 +128,7 @@ a \class{Renderer} class.
 \end{configuration}
 
 \begin{configuration}{Packages directories}
-\options{\longprogramopt{packages-dir=\optval{directories}}}
+\options{\longprogramopt{packages-dirs=\optval{directories}}}
 \config{general}{packages-dirs}
 \default{[]}
 specifies a list of directories where python implementations
@@ -144,7 +144,7 @@ specifies which theme to use.
 
 \begin{configuration}{Extra theme files}
 \options{\longprogramopt{copy-theme-extras} or
-         \longprogramopt{ignore-theme-extras}}
+         \longprogramopt{no-theme-extras}}
 \config{general}{copy-theme-extras}
 \default{yes}
 indicates whether or not extra files that belong to a theme (if there are
@@ -196,7 +196,7 @@ specifies a list of files that contain language terms
 \begin{configuration}{Section number depth}
 \options{\longprogramopt{sec-num-depth=\optval{integer}}}
 \config{document}{sec-num-depth}
-\default{6}
+\default{2}
 specifies the section level depth that should appear in section numbers.
 This value overrides the value of the secnumdepth counter in the document.
 \end{configuration}
@@ -571,7 +571,7 @@ indicates whether or not images should be generated.
 \options{\longprogramopt{enable-image-cache} or
          \longprogramopt{disable-image-cache}}
 \config{images}{cache}
-\default{yes}
+\default{no}
 indicates whether or not images should use a cache between runs.
 \end{configuration}
 
@@ -591,7 +591,7 @@ You can use the value of ``none'' to turn the imager off.
 \begin{configuration}{Image filenames}
 \options{\longprogramopt{image-filenames=\optval{filename-template}}}
 \config{images}{filenames}
-\default{images/img-\$num(4).png}
+\default{images/img-\$num(4)}
 specifies the image naming template to use to generate filenames.  This
 template is the same as the templates used by the \longprogramopt{filename}
 option.
@@ -712,7 +712,7 @@ and proofs.
 
 \begin{configuration}{Extra javascript}
   \options{\longprogramopt{extra-js \optval{filename1 filename2 ...}}}
-\config{html5}{extra-css}
+\config{html5}{extra-js}
 \default{[]}
 specifies a list of javascript files to use (in addition
 to those coming from the theme is the use-theme-js option is set to true).
@@ -734,7 +734,7 @@ some filter is expected to handle mathematics (see
 \begin{configuration}{MathJax library url}
 \options{\longprogramopt{mathjax-url=\optval{url}}}
 \config{html5}{mathjax-url}
-\default{http://cdn.mathjax.org/mathjax/latest/MathJax.js?config=TeX-AMS_CHTML}
+\default{https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js}
 specifies where to find the MathJax javascript lib (including the config
 information as in the default value).
 \end{configuration}
-- 
2.43.0


From 907d59a05f6d6fde18c0671f86be5d6f1b2ec7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 18/85] fix: inserted nodes have the node that lists them as
 parent

Fragments get the same treatment as elements, a fragment inserted at a
negative index keeps the order of its children, and item assignment
handles negative and invalid indexes.
---
 plasTeX/DOM/__init__.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..928bc98 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
@@ -915,16 +917,13 @@ class Node(object):
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
-            for item in newChild:
+            for item in list(newChild):
                 self.append(item, setParent=setParent)
         else:
             self.childNodes.append(newChild)
 
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
@@ -945,16 +944,15 @@ class Node(object):
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
-            for item in newChild:
+            if i < 0:
+                i = max(0, len(self) + i)
+            for item in list(newChild):
                 self.insert(i, item, setParent=setParent)
                 i += 1
         else:
             self.childNodes.insert(i, newChild)
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
@@ -969,6 +967,11 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        if not(isinstance(i, slice)):
+            if i < 0:
+                i += len(self)
+            if not(0 <= i < len(self)):
+                raise IndexError('child index out of range')
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From 1d4b6c0aa20f1ece3bb6cccc30d0c04e15edfb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 19/85] fix: document position is determined by the deepest
 common container

---
 plasTeX/DOM/__init__.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 928bc98..5539f2d 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -489,16 +489,23 @@ def _compareDocumentPosition(self, other):
     sparents.reverse()
     oparents.reverse()
 
-    for i, sparent in enumerate(sparents):
-        for j, oparent in enumerate(oparents):
-            if sparent is oparent:
-                s = sparents[i+1]
-                o = oparents[j+1]
-                for item in sparent:
-                   if item is s:
-                       return Node.DOCUMENT_POSITION_FOLLOWING
-                   if item is o:
-                       return Node.DOCUMENT_POSITION_PRECEDING
+    # The deepest node that contains both of them determines the order
+    common = None
+    for s, o in zip(sparents, oparents):
+        if s is not o:
+            break
+        common = s
+
+    if common is not None:
+        values = []
+        if common.attributes:
+            values.extend(common.attributes.values())
+        values.extend(common)
+        for item in values:
+            if item is s:
+                return Node.DOCUMENT_POSITION_FOLLOWING
+            if item is o:
+                return Node.DOCUMENT_POSITION_PRECEDING
 
     return Node.DOCUMENT_POSITION_DISCONNECTED
 
-- 
2.43.0


From d2e27b76ea379a1f499812726e5616aa6986be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 20/85] fix: clones of nodes share no nodes with the original

---
 plasTeX/DOM/__init__.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 5539f2d..72b5f6d 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1055,18 +1055,27 @@ class Node(object):
 #       node.nodeType = self.nodeType
         node.parentNode = self.parentNode
         node.ownerDocument = self.ownerDocument
+        def clone(value):
+            """ Nodes can not be shared by two attribute maps """
+            if isinstance(value, Node):
+                return value.cloneNode(True)
+            if type(value) is list:
+                return [clone(x) for x in value]
+            if type(value) is dict:
+                return dict((k, clone(v)) for k, v in value.items())
+            return value
+        # An attribute can act as the child nodes
+        children = self.childNodes
+        if node.attributes is not None and self.attributes is not None:
+            for key, value in self.attributes.items():
+                if value is not children:
+                    node.attributes[key] = clone(value)
+                elif deep:
+                    node.attributes[key] = clone(value)
+                    children = []
         if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
+            for x in children:
+                node.append(x.cloneNode(deep))
         return node
 
     def normalize(self, charsubs=None):
-- 
2.43.0


From dc052287adba026e19201f30cda76046822741b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 21/85] fix: getElementsByTagName reports each node once and
 searches list attributes

---
 plasTeX/DOM/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 72b5f6d..7958dd9 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1290,6 +1290,9 @@ def _getElementsByTagName(self, tagname):
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
         for item in list(self.attributes.values()):
+            # The attribute that acts as the child nodes is handled below
+            if item is self.childNodes:
+                continue
             if getattr(item, 'tagName', None) in tagname:
                  output.append(item)
             if hasattr(item, 'getElementsByTagName'):
@@ -1298,14 +1301,14 @@ def _getElementsByTagName(self, tagname):
                 for e in item:
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
             elif isinstance(item, dict):
                 for e in list(item.values()):
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
-- 
2.43.0


From 9d4d01185fd27c77120d738f812d156cbe0e42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 22/85] fix: document positions below list attributes and
 through child fragments

---
 plasTeX/DOM/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 7958dd9..d662d4b 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -486,8 +486,16 @@ def _compareDocumentPosition(self, other):
         oparents.append(parent)
         parent = parent.parentNode
 
-    sparents.reverse()
-    oparents.reverse()
+    # A fragment that acts as the child nodes of its parent isn't a
+    # container of its own
+    def containers(parents):
+        return [p for i, p in enumerate(reversed(parents), 1)
+                if i == len(parents) or
+                   p.nodeType != Node.DOCUMENT_FRAGMENT_NODE or
+                   getattr(p.parentNode, '_dom_childNodes', None) is not p]
+
+    sparents = containers(sparents)
+    oparents = containers(oparents)
 
     # The deepest node that contains both of them determines the order
     common = None
-- 
2.43.0


From 1268353d243036be4acbc2e00f92b7c85d41df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 23/85] fix: removed and cloned nodes are detached

Their parent links named a node that does not list them; with the old
parent inserted below the removed node, walking up the parents (e.g. in
compareDocumentPosition) did not end.
---
 plasTeX/DOM/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index d662d4b..cf0a98f 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -506,8 +506,13 @@ def _compareDocumentPosition(self, other):
 
     if common is not None:
         values = []
-        if common.attributes:
-            values.extend(common.attributes.values())
+        for value in (common.attributes or {}).values():
+            if isinstance(value, list):
+                values.extend(value)
+            elif isinstance(value, dict):
+                values.extend(value.values())
+            else:
+                values.append(value)
         values.extend(common)
         for item in values:
             if item is s:
@@ -914,8 +919,15 @@ class Node(object):
         the item removed from the list
 
         """
-        try: return self.childNodes.pop(index)
+        try: child = self.childNodes.pop(index)
         except: raise IndexError('object has no childNodes')
+        # The child is detached now (a fragment can be the child nodes of
+        # its parent)
+        if child.parentNode is self or \
+           self.nodeType == Node.DOCUMENT_FRAGMENT_NODE and \
+           child.parentNode is self.parentNode:
+            child.parentNode = None
+        return child
 
     def append(self, newChild, setParent=True):
         """
@@ -1061,7 +1073,7 @@ class Node(object):
         except: pass
 #       node.nodeValue = self.nodeValue
 #       node.nodeType = self.nodeType
-        node.parentNode = self.parentNode
+        node.parentNode = None
         node.ownerDocument = self.ownerDocument
         def clone(value):
             """ Nodes can not be shared by two attribute maps """
@@ -1706,7 +1718,7 @@ class CharacterData(str, Node):
     def cloneNode(self, deep=True):
         o = type(self)(self)
         o.ownerDocument = self.ownerDocument
-        o.parentNode = self.parentNode
+        o.parentNode = None
         return o
 
     @property
-- 
2.43.0


From 978c9013b12e082cb06a2b173bfd804801faad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 24/85] fix: asking for the preamble leaves the parents of its
 nodes alone

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 384f93e..a8645e3 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -876,7 +876,7 @@ class TeXDocument(Document):
         for item in self:
             if item.level == Macro.DOCUMENT_LEVEL:
                 break
-            output.append(item)
+            output.append(item, setParent=False)
         return output
 
     @property
-- 
2.43.0


From ca7573eeb9068e33f4bf8de4bd8886f4da71e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 25/85] fix: ifthen tests evaluate as the expression they
 spell, \whiledo one round at a time

---
 plasTeX/Packages/ifthen.py | 259 +++++++++++++++++--------------------
 1 file changed, 116 insertions(+), 143 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 645172b..4b16843 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -4,10 +4,13 @@ A Python implementation of the ifthen package.
 
 """
 
-from plasTeX import Command, TeXFragment, number
-from plasTeX.Tokenizer import Token, Space
+from plasTeX import Command, ParameterCommand, Tokenizer
+from plasTeX.Tokenizer import Token
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
-from typing import Union, List
+from plasTeX.Logging import getLogger
+from typing import List, Optional
+
+log = getLogger()
 
 
 class _boolToken(Token):
@@ -47,169 +50,138 @@ class OR(Command):
     pass
 
 
+class _endOfTest(Token):
+    """A placeholder token which marks the end of a test"""
+
+
 class ifthenelse(Command):
     r"""The \ifthenelse macro.
 
-    This works by first disabling entering math with \( and \) commands.
-    Instead they will be used to group expressions in the if test. The
-    macros are set back to normal once parsing is complete.
+    The tokens of the test are evaluated from left to right as an expression
 
-    The argument corresponding to the test statement is expanded, so that the
-    result of macros and definitions can be used as part of the expression.
+        expression := operand { \and operand | \or operand }
+        operand    := \not operand | \( expression \) | test atom
 
-    The expanded tokens are reorganised from an infix expression into a
-    postfix expression, then evaluated. The conversion makes for a much
-    simpler stack based evaluation.
+    where a test atom is either a macro that expands to a boolean (\equal,
+    \isodd, ...) or the comparison of two numbers. During the evaluation
+    entering math with \( and \) is disabled.
 
     Depending on the resulting value of the test expression, the ifthenelse
     macro is expanded into either the "then" argument, or the "else" argument.
     """
-    args = 'test:XTok then:nox else:nox'
+    args = 'test:nox then:nox else:nox'
 
     def invoke(self, tex) -> List[Token]:
-        # Temporarily disable entering math mode with \( and \)
-        BeginMath.disableMath = EndMath.disableMath = True
         a = self.parse(tex)
-        BeginMath.disableMath = EndMath.disableMath = False
-        if isinstance(a['test'], TeXFragment):
-            test_result = self.evaluate(tex, a['test'])
-        else:
-            test_result = self.evaluate(tex, [a['test']])
-        return a['then'] if test_result.state else a['else']
-
-    def prec(self, tok: Union[Token, number]) -> int:
-        """Return the operator precedence for the given token"""
-        if tok in ['>', '<', '=']:
-            return 2
-        if isinstance(tok, (_and, AND, _or, OR, _not, NOT)):
-            return 1
-        return 0
-
-    def evaluate(self, tex, test: Union[List[Token], TeXFragment]) -> _boolToken:
-        """Reorganise a test expression into postfix and evaluate it."""
-        stack: List[Union[Token, number]] = []
-        postfix: List[Union[Token, number]] = []
-        test_iter = iter(test)
-        for tok in test_iter:
-            # Handle literal integers with tex.readNumber
-            number_tokens: List[Token] = []
-            while tok.catcode == Token.CC_OTHER and (tok not in ['<', '>', '=']):
-                number_tokens.append(tok)
-                tok = next(test_iter, Space())
-            if number_tokens:
-                value: int = tex.readInternalType(number_tokens, tex.readNumber)
-                postfix.append(number(value))
-
-            # Handle parentheses and booleans
-            if tok.catcode == Token.CC_SPACE or tok is None:
-                pass
-            elif isinstance(tok, _boolToken):
-                postfix.append(tok)
-            elif tok.nodeName == '(':
-                stack.append(tok)
-            elif tok.nodeName == ')':
-                while stack:
-                    if not isinstance(stack[-1], number) and stack[-1].nodeName == '(':
+        return a['then'] if self.evaluate(tex, a['test']) else a['else']
+
+    def evaluate(self, tex, test: List[Token]) -> bool:
+        """Evaluate the tokens of a test expression."""
+        end = _endOfTest('end of test')
+        tex.pushToken(end)
+        tex.pushTokens(test)
+        # Temporarily disable entering math mode with \( and \), and the
+        # assignments done by registers
+        disableMath = BeginMath.disableMath
+        BeginMath.disableMath = EndMath.disableMath = True
+        ParameterCommand.disable()
+        try:
+            result = self.readExpression(tex)
+            tok = self.readTestToken(tex)
+            if tok is not end:
+                log.warning('Unexpected %s in test%s', tok, tex.lineInfo)
+                for tok in tex.itertokens():
+                    if tok is end:
                         break
-                    postfix.append(stack.pop())
-                stack.pop()  # (
-            else:
-                # Handle operators and precedence
-                while stack and self.prec(tok) <= self.prec(stack[-1]):
-                    postfix.append(stack.pop())
-                stack.append(tok)
-        while stack:
-            postfix.append(stack.pop())
-
-        # Now evaluate the expression in postfix form
-        while postfix:
-            tok = postfix.pop(0)
-            if isinstance(tok, _boolToken):
-                stack.append(tok)
-            elif isinstance(tok, number):
-                stack.append(tok)
-            elif isinstance(tok, (_and, AND)):
-                op1 = stack.pop()
-                op2 = stack.pop()
-                if isinstance(op1, _boolToken) and isinstance(op2, _boolToken):
-                    stack.append(_true() if op1.state and op2.state else _false())
-                else:
-                    raise ValueError('Missing expected boolean value')
+        finally:
+            ParameterCommand.enable()
+            BeginMath.disableMath = EndMath.disableMath = disableMath
+        return result
+
+    def readTestToken(self, tex) -> Optional[Token]:
+        """Read the next expanded token that is not a blank."""
+        for tok in tex:
+            if tok.catcode != Token.CC_SPACE:
+                return tok
+        return None
+
+    def readExpression(self, tex) -> bool:
+        r"""Read operands joined by \and and \or, which associate to the left."""
+        result = self.readOperand(tex)
+        while True:
+            tok = self.readTestToken(tex)
+            if isinstance(tok, (_and, AND)):
+                result = self.readOperand(tex) and result
             elif isinstance(tok, (_or, OR)):
-                op1 = stack.pop()
-                op2 = stack.pop()
-                if isinstance(op1, _boolToken) and isinstance(op2, _boolToken):
-                    stack.append(_true() if op1.state or op2.state else _false())
-                else:
-                    raise ValueError('Missing expected boolean value')
-            elif isinstance(tok, (_not, NOT)):
-                op1 = stack.pop()
-                if isinstance(op1, _boolToken):
-                    stack.append(_false() if op1.state else _true())
-                else:
-                    raise ValueError('Missing expected boolean value')
-            elif tok == '>':
-                op2 = stack.pop()
-                op1 = stack.pop()
-                if isinstance(op1, number) and isinstance(op2, number):
-                    stack.append(_true() if op1 > op2 else _false())
-                else:
-                    raise ValueError('Missing expected number')
-            elif tok == '<':
-                op2 = stack.pop()
-                op1 = stack.pop()
-                if isinstance(op1, number) and isinstance(op2, number):
-                    stack.append(_true() if op1 < op2 else _false())
-                else:
-                    raise ValueError('Missing expected number')
-            elif tok == '=':
-                op2 = stack.pop()
-                op1 = stack.pop()
-                if isinstance(op1, number) and isinstance(op2, number):
-                    stack.append(_true() if op1 == op2 else _false())
-                else:
-                    raise ValueError('Missing expected number')
-
-        if stack and isinstance(stack[-1], _boolToken):
-            return stack[-1]
-        else:
-            return _false()
+                result = self.readOperand(tex) or result
+            else:
+                if tok is not None:
+                    tex.pushToken(tok)
+                return result
+
+    def readOperand(self, tex) -> bool:
+        tok = self.readTestToken(tex)
+        if isinstance(tok, _boolToken):
+            return tok.state
+        if isinstance(tok, (_not, NOT)):
+            return not self.readOperand(tex)
+        if isinstance(tok, BeginMath):
+            result = self.readExpression(tex)
+            tok = self.readTestToken(tex)
+            if not isinstance(tok, EndMath):
+                log.warning('Missing \\) in test%s', tex.lineInfo)
+                if tok is not None:
+                    tex.pushToken(tok)
+            return result
+        if tok is not None:
+            tex.pushToken(tok)
+        if tok is None or isinstance(tok, _endOfTest):
+            log.warning('Missing operand in test%s', tex.lineInfo)
+            return False
+        first = tex.readNumber()
+        relation = self.readTestToken(tex)
+        if relation not in ['<', '>', '=']:
+            log.warning('Missing relation in test%s', tex.lineInfo)
+            if relation is not None:
+                tex.pushToken(relation)
+            return False
+        second = tex.readNumber()
+        if relation == '<':
+            return first < second
+        if relation == '>':
+            return first > second
+        return first == second
 
 
 class whiledo(ifthenelse):
     r"""The \whiledo macro.
 
-    Similar to ifthenelse, but repeatedy append the second argument to the
-    resulting expansion until the first argument expands and evaluates to false.
+    As long as the test is true this expands to the operations followed by
+    the loop itself, so that the operations take effect before the test is
+    evaluated again.
     """
     args = 'test:nox operations:nox'
 
     def invoke(self, tex) -> List[Token]:
         a = self.parse(tex)
-        tok: List[Token] = []
-        while True:
-            expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
-            if isinstance(expanded, TeXFragment):
-                test_result = self.evaluate(tex, expanded)
-            else:
-                test_result = self.evaluate(tex, [expanded])
-            if not test_result.state:
-                break
-            tok += tex.expandTokens(a['operations'], parentNode=self.parentNode)
-        return tok
+        if not self.evaluate(tex, a['test']):
+            return []
+        return (a['operations'] + [Tokenizer.EscapeSequence('whiledo')]
+                + [Tokenizer.BeginGroup('{')] + a['test'] + [Tokenizer.EndGroup('}')]
+                + [Tokenizer.BeginGroup('{')] + a['operations'] + [Tokenizer.EndGroup('}')])
 
 
 class boolean(Command):
-    """Expand to a _boolToken depending on the value of the named TeX if"""
+    r"""Expand to a _boolToken depending on the value of the named TeX if"""
     args = 'name:str'
 
     def invoke(self, tex):
-        a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
-            if self.ownerDocument.context[a['name']].state:
-                return [_true()]
-            else:
-                return [_false()]
+        name = self.parse(tex)['name']
+        if name in ('true', 'false'):
+            return [_true() if name == 'true' else _false()]
+        if 'if' + name not in self.ownerDocument.context:
+            raise ValueError("Boolean %s not defined" % name)
+        return [_true() if self.ownerDocument.context['if' + name].state else _false()]
 
 
 class isodd(Command):
@@ -252,9 +224,9 @@ class lengthtest(Command):
     """
     Evaluate a length test and return a _boolToken depending on the result
 
-    The < and > relations are implemented directly. However, equals tests if
-    the lengths are just very close. This is to ensure that the result of tests
-    such as "1cm=10mm" match in LaTeX and plasTeX.
+    Lengths which are just very close are equal, and not less or greater. This
+    is to ensure that the result of tests such as "1cm=10mm" match in LaTeX and
+    plasTeX.
 
     The workaround is required because LaTeX dimension calculations are
     internally handled by integer arithmetic rather than floating point
@@ -283,7 +255,7 @@ class newboolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        self.ownerDocument.context.newif(self.parse(tex)['name'])
+        self.ownerDocument.context.newif('if' + self.parse(tex)['name'])
 
 
 class provideboolean(newboolean):
@@ -296,10 +268,11 @@ class setboolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
             if a['value'].lower() == 'true':
-                self.ownerDocument.context[a['name']].setTrue()
+                self.ownerDocument.context[name].setTrue()
             elif a['value'].lower() == 'false':
-                self.ownerDocument.context[a['name']].setFalse()
+                self.ownerDocument.context[name].setFalse()
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
-- 
2.43.0


From 47525afdbb9c58a336cedc114a2da34d822dab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 26/85] fix: equal lengths are not less or greater in
 \lengthtest

---
 plasTeX/Packages/ifthen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 4b16843..fb5ac07 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -241,12 +241,13 @@ class lengthtest(Command):
         a = tex.readDimen()
         relation = next(tex.itertokens())
         b = tex.readDimen()
+        equal = abs(a - b) < 1e-6
         if relation == '<':
-            return [_true() if a < b else _false()]
+            return [_true() if a < b and not equal else _false()]
         elif relation == '>':
-            return [_true() if a > b else _false()]
+            return [_true() if a > b and not equal else _false()]
         elif relation == '=':
-            return [_true() if abs(a - b) < 1e-6 else _false()]
+            return [_true() if equal else _false()]
         raise ValueError('"%s" is not a valid relation' % relation)
 
 
-- 
2.43.0


From d38ccece8df401dc6a08beaba453baa915185923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 27/85] fix: \equal compares markup by its source, not by its
 address

---
 plasTeX/Packages/ifthen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index fb5ac07..ac145b0 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -198,11 +198,11 @@ class isodd(Command):
 
 class equal(Command):
     """Expand to a _boolToken, _true if arguments expand to the same string"""
-    args = 'first:str second:str'
+    args = 'first second'
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['first'] == a['second']:
+        if a['first'].source.strip() == a['second'].source.strip():
             return [_true()]
         else:
             return [_false()]
-- 
2.43.0


From 14b7423c7c1b7d257d7ede9cb85f969a9ce60518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 28/85] fix: damaged or foreign label files are recognised and
 replaced

---
 plasTeX/Context.py     | 86 +++++++++++++++++++++++++++++-------------
 plasTeX/Packages/xr.py |  6 +--
 2 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 24ca3ad..830f28d 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -2,6 +2,8 @@ import sys
 import os
 import configparser
 import contextlib
+import hashlib
+import pickle
 import re
 import time
 from pathlib import Path
@@ -27,6 +29,47 @@ stacklog = getLogger('context.stack')
 macrolog = getLogger('context.macros')
 
 
+# Saved auxiliary information ends with this marker and a digest of the data
+PAUX_MARKER = b'\nplasTeX auxiliary information '
+
+
+def loadPaux(filename: str) -> Dict[str, Dict]:
+    """
+    Load the cross-document information saved by `savePaux`
+
+    Required Arguments:
+    filename -- the name of the file
+
+    Returns: dictionary of renderer names to dictionaries of labels.  An
+    exception is raised if the file does not contain such data.
+
+    """
+    with open(filename, 'rb') as fh:
+        data, marker, digest = fh.read().rpartition(PAUX_MARKER)
+    if not marker:
+        data = digest
+    elif hashlib.sha256(data).hexdigest().encode() != digest:
+        raise ValueError('%s is damaged' % filename)
+    d = pickle.loads(data)
+    if not isinstance(d, dict) or not all(isinstance(x, dict) for x in d.values()):
+        raise ValueError('%s contains no labels' % filename)
+    return d
+
+
+def savePaux(filename: str, d: Dict[str, Dict]) -> None:
+    """
+    Save cross-document information
+
+    Required Arguments:
+    filename -- the name of the file
+    d -- dictionary of renderer names to dictionaries of labels
+
+    """
+    data = pickle.dumps(d)
+    with open(filename, 'wb') as fh:
+        fh.write(data + PAUX_MARKER + hashlib.sha256(data).hexdigest().encode())
+
+
 class ContextItem(dict):
     """
     Localized macro/category code stack element
@@ -239,24 +282,16 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
+        d = {}
         if os.path.exists(filename):
             try:
-                with open(filename, 'rb') as fh:
-                    d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
-                os.remove(filename)
-                d = {rtype:{}}
-        else:
-            d = {rtype:{}}
-        data = d[rtype]
-        for key, value in list(self.persistentLabels.items()):
-            data[key] = value.persist()
+                d = loadPaux(filename)
+            except Exception as msg:
+                log.warning('Replacing unusable auxiliary information. (%s)' % msg)
         try:
-            with open(filename, 'wb') as fh:
-                pickle.dump(d, fh)
+            d.setdefault(rtype, {}).update((key, value.persist())
+                        for key, value in self.persistentLabels.items())
+            savePaux(filename, d)
         except Exception as msg:
             log.warning('Could not save auxiliary information. (%s)' % msg)
 
@@ -273,22 +308,21 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
         if not os.path.exists(filename):
             return
+        wou = self.warnOnUnrecognized
+        self.warnOnUnrecognized = False
         try:
-            d = pickle.load(open(filename, 'rb'))
-            try: data = d[rtype]
-            except KeyError: return
-            wou = self.warnOnUnrecognized
-            self.warnOnUnrecognized = False
-            for key, value in list(data.items()):
-                n = self[value.get('macroName', 'Macro')]()
-                n.restore(value)
-                self.labels[key] = n
-            self.warnOnUnrecognized = wou
+            labels = {}
+            for key, value in loadPaux(filename).get(rtype, {}).items():
+                name = value.get('macroName', 'Macro')
+                labels[key] = self[name]() if name in self else plasTeX.Command()
+                labels[key].restore(value)
+            self.labels.update(labels)
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
+        finally:
+            self.warnOnUnrecognized = wou
 
     @property
     def isMathMode(self):
diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..07b0f9f 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -1,7 +1,7 @@
-import pickle
 import os
 from typing import Dict
 from plasTeX import Command
+from plasTeX.Context import loadPaux
 from plasTeX.Logging import getLogger
 
 log = getLogger()
@@ -11,8 +11,8 @@ def load_paux(name: str) -> Dict:
         log.warning('Could not find {}'.format(name))
         return dict()
     try:
-        data = pickle.load(open(name, 'rb'))
-    except:
+        data = loadPaux(name)
+    except Exception:
         log.warning('Failed to load {}'.format(name))
         return dict()
     return data
-- 
2.43.0


From 712f51e82872a59db02871e3c62e9ee219be63e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 29/85] fix: saving labels forgets those of earlier versions of
 the document

---
 plasTeX/Context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 830f28d..0d74e79 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -289,8 +289,8 @@ class Context(object):
             except Exception as msg:
                 log.warning('Replacing unusable auxiliary information. (%s)' % msg)
         try:
-            d.setdefault(rtype, {}).update((key, value.persist())
-                        for key, value in self.persistentLabels.items())
+            d[rtype] = {key: value.persist()
+                        for key, value in self.persistentLabels.items()}
             savePaux(filename, d)
         except Exception as msg:
             log.warning('Could not save auxiliary information. (%s)' % msg)
-- 
2.43.0


From 36a4595e700adc42f5820bdcb1a3abe3b13d98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 30/85] fix: import the collator from pyuca.collator, where it
 is

pyuca does not export Collator_10_0_0 from its top level, so the index was
always sorted by the lower-case fallback (accented letters after z).
---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..96da0bf 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -14,7 +14,7 @@ from typing import Optional
 log = getLogger()
 
 try:
-    from pyuca import Collator_10_0_0
+    from pyuca.collator import Collator_10_0_0
     collator = Collator_10_0_0().sort_key
 except ImportError:
     collator = lambda x: x.lower()
-- 
2.43.0


From 4d50f385771857759e0f5a32f684674ea954e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 31/85] fix: keep the index entries of one path together when
 sorting

Entries whose sort keys collate alike (x and X, or one sort key with
several displayed keys) were sorted by an order that is not total, so that
a line of the index could appear more than once.
---
 plasTeX/Base/LaTeX/Index.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 96da0bf..0f8ba17 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -181,8 +181,7 @@ class IndexUtils(object):
             # See how many levels we need to add/subtract between this one
             # and the previous
             common = 0
-            for prevkey, itemkey in zip(zip(prev.sortkey, prev.key),
-                                        zip(item.sortkey, item.key)):
+            for prevkey, itemkey in zip(prev.path, item.path):
                 if prevkey == itemkey:
                     common += 1
                     continue
@@ -407,18 +406,20 @@ class IndexEntry(object):
     def normal(self):
         return not(self.see) and not(self.seealso)
 
+    @property
+    def path(self):
+        """ The path of this entry: sort key and displayed key per level """
+        return [(sortkey, key.source)
+                for sortkey, key in zip(self.sortkey, self.key)]
+
     def __lt__(self, other):
-        key_self = list(zip([collator(x) for x in self.sortkey if isinstance(x, str)],
-                            [collator(x.textContent) for x in self.key],
-                            self.key))
-        key_other = list(zip([collator(x) for x in other.sortkey if isinstance(x, str)],
-                             [collator(x.textContent) for x in other.key],
-                             other.key))
-        if key_self < key_other:
-            return True
-        elif key_self > key_other:
-            return False
-        return (len(self.key) < len(other.key))
+        # The raw sort key and the source only break ties, but they are
+        # needed to keep the entries of one path (and all the entries
+        # below it) together.
+        return ([(collator(sortkey), sortkey, collator(key.textContent), key.source)
+                 for sortkey, key in zip(self.sortkey, self.key)] <
+                [(collator(sortkey), sortkey, collator(key.textContent), key.source)
+                 for sortkey, key in zip(other.sortkey, other.key)])
 
     def __repr__(self):
         if self.format is None:
-- 
2.43.0


From 0d1a833bdbb86a152f4f59ada6307581a03725b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 32/85] fix: everything after | in an index entry is the format

A ! or @ in the format ended the key path there and lost the entry's key,
and an empty format added an empty subentry.
---
 plasTeX/Base/LaTeX/Index.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 0f8ba17..ce98143 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -283,6 +283,7 @@ class index(Command):
         entry = iter(self.attributes['entry'])
         current = []
         alphanumeric = [Token.CC_OTHER, Token.CC_LETTER, Token.CC_SPACE]
+        informat = False
 
         # Parse the index tokens
         for tok in entry:
@@ -292,6 +293,9 @@ class index(Command):
                     for tok in entry:
                         current.append(tok)
                         break
+                # Everything after the format separator is the format
+                elif informat:
+                    current.append(tok)
                 # Entry separator
                 elif tok == '!':
                     key.append(current)
@@ -308,6 +312,7 @@ class index(Command):
                     if len(sortkey) < len(key):
                         sortkey.append(current)
                     current = format
+                    informat = True
                 else:
                     current.append(tok)
                 continue
@@ -315,7 +320,7 @@ class index(Command):
             current.append(tok)
 
         # Make sure to get the stuff at the end
-        if not format:
+        if not informat:
             key.append(current)
             if len(sortkey) < len(key):
                 sortkey.append(current)
-- 
2.43.0


From 26d9d0d52c9ca4db771f3a63586074588a17ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 33/85] fix: group index entries by the first letter of
 ligatures

Entries starting with a letter which unidecode spells with two characters
(as AE and SS) were put under a Symbols heading amid the letters.
---
 plasTeX/Base/LaTeX/Index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index ce98143..9520093 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -85,7 +85,10 @@ class IndexUtils(object):
         for item in self:
             try:
                 label = title = unidecode(item.sortkey[0]).upper()
-                if title in encoding.stringletters():
+                if item.sortkey[0].isalpha():
+                    # Letters such as AE give more than one character
+                    label = title = title[:1]
+                if title and title in encoding.stringletters():
                     pass
                 elif title == '_':
                      title = '_ (Underscore)'
-- 
2.43.0


From 3f32f3e69cbf024acfaad993d745724fe2d6e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 34/85] fix: include entries that come after \printindex in the
 index

The index was built where \printindex stands, which left out every entry
after it.
---
 plasTeX/Base/LaTeX/Index.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 9520093..83af52a 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -176,6 +176,13 @@ class IndexUtils(object):
                 self.pop()
         else:
             Command.digest(self, tokens)
+        # There may be more entries after this point of the document
+        self.ownerDocument.addPostParseCallbacks(0, self.buildIndex)
+
+    def buildIndex(self):
+        """ Build the index from the entries of the whole document """
+        while self.childNodes:
+            self.pop()
         doc = self.ownerDocument
         current = self
         entries = sorted(self.ownerDocument.userdata.get('index', []))
-- 
2.43.0


From 2f7422670501af8ca8e300fe380cefc85f480426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 35/85] fix: only stepping a counter resets the counters within
 it

\setcounter and \addtocounter (and \nonumber) also reset them; LaTeX does not.
---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 1 +
 plasTeX/__init__.py         | 2 --
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..83a85c5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -19,4 +19,5 @@ class appendix(Command): # type: ignore
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.counters['subsection'].setcounter(0)
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index b78b1a5..8daf727 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -70,4 +70,5 @@ class appendix(Command):
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
+        self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context['thechapter'] = type(self).thechapter
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a8645e3..bf85ffc 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1626,11 +1626,9 @@ class Counter(object):
 
     def addtocounter(self, other):
         self.value += int(other)
-        self.resetcounters()
 
     def setcounter(self, other):
         self.value = int(other)
-        self.resetcounters()
 
     def stepcounter(self):
         self.value += 1
-- 
2.43.0


From d29f3d8cae5ff36965e6259b1eca46da7fb35fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 36/85] fix: reset the counters which \newcounter declares
 within another

The name of the outer counter was kept as a document fragment, which never
equals the name of the counter that is stepped.
---
 plasTeX/Base/LaTeX/Numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 502f3bb..06dbe0d 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -7,7 +7,7 @@ from plasTeX import Command, CountCommand, count, dimen
 
 
 class newcounter(Command):
-    args = 'name:str [ within ]'
+    args = 'name:str [ within:str ]'
     def invoke(self, tex):
         a = self.parse(tex)
         self.ownerDocument.context.newcounter(a['name'], a['within'])
-- 
2.43.0


From fa0a97e440acdc80d3014529919b6939a7b95a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 37/85] fix: do not step the counters of sections below the
 numbering depth

---
 plasTeX/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index bf85ffc..3572205 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -568,7 +568,15 @@ class Macro(Element):
         """
         if self.counter is not None:
             self.ownerDocument.context.currentlabel = self
-            self.stepcounter(tex)
+            if self.withinNumberDepth:
+                self.stepcounter(tex)
+
+    @property
+    def withinNumberDepth(self):
+        """ Is this not a section below the numbering depth? """
+        try: secnumdepth = self.config['document']['sec-num-depth']
+        except: secnumdepth = 10
+        return secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL
 
     def postParse(self, tex):
         """
@@ -579,9 +587,7 @@ class Macro(Element):
 
         """
         if self.counter:
-            try: secnumdepth = self.config['document']['sec-num-depth']
-            except: secnumdepth = 10
-            if secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL:
+            if self.withinNumberDepth:
                 self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
                 self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
 
-- 
2.43.0


From f966bff97db22e7c278f6729a40956dcec22a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 38/85] fix: number parts and equations of the book and report
 classes as LaTeX does

Parts have Roman numbers, equations of a report carry the chapter number, and
equations before the first chapter do not (0.1), also in an appendix.  Counters
may have any name (as the environment of \newtheorem{my-thm}).
---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 4 ++--
 plasTeX/Packages/report.py  | 1 -
 plasTeX/__init__.py         | 6 +++++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 83a85c5..0229531 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -5,6 +5,7 @@ from plasTeX.Packages import report
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
+    document.context['theequation'].format = '${equation}'
     document.context['theindex'].counter = 'section'
     document.context['theindex'].level = Environment.SECTION_LEVEL
     document.context['printindex'].counter = 'section'
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 8daf727..15780ee 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -10,7 +10,7 @@ def ProcessOptions(options, document):
 
     # Sections
     context.newcounter('part', resetby='volume',
-                       format='$part')
+                       format='${part.Roman}')
     context.newcounter('chapter', resetby='volume',
                        format='$chapter')
     context.newcounter('section', resetby='chapter',
@@ -27,7 +27,7 @@ def ProcessOptions(options, document):
                        format='${thesubparagraph}.${subsubparagraph}')
 
     context.newcounter('equation', resetby='chapter',
-                       format='${thechapter}.${equation}')
+                       format='${thechapter}.${equation}', trimLeft=True)
 
     context.newcounter('secnumdepth')
     context.newcounter('tocdepth')
diff --git a/plasTeX/Packages/report.py b/plasTeX/Packages/report.py
index b2e5d11..73bfc18 100644
--- a/plasTeX/Packages/report.py
+++ b/plasTeX/Packages/report.py
@@ -3,4 +3,3 @@ from plasTeX.Packages import book
 
 def ProcessOptions(options, document): # type: ignore
     book.ProcessOptions(options, document)
-    document.context['theequation'].format = '${equation}'
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3572205..383d754 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1700,10 +1700,14 @@ class TheCounter(Command):
             return getattr(self.ownerDocument.context.counters[name], format)
 
         format = re.sub(r'\$(\w+)', r'${\1}', self.format)
+        # Without a chapter, numbers within a chapter have no prefix
+        m = self.trimLeft and re.match(r'\$\{the(\w+)\}\.', format)
+        if m and not self.ownerDocument.context.counters[m.group(1)].value:
+            format = format[m.end():]
         if self.format is None:
             format = '${%s.arabic}' % self.nodeName[3:]
 
-        t = re.sub(r'\$\{\s*(\w+)(?:\.(\w+))?\s*\}', counterValue, format)
+        t = re.sub(r'\$\{\s*([^${}.]*[^${}.\s])(?:\.(\w+))?\s*\}', counterValue, format)
 
         # If trimLeft is set to True, we remove any "0." at the beginning.
         # Document classes such as book and report which do this in the
-- 
2.43.0


From be030175e72ae80b4297fa0fed0e676c03b5a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 39/85] fix: number list items, equations and their labels as
 LaTeX's groups do

Items with a label of their own do not step a counter, enumerate counters
belong to the level of open enumerate environments, \nonumber takes the
number of exactly its row or equation back, cases and multline rows take no
number, \numberwithin follows the control counter's format, and a label
after the end of an environment no longer attaches to that environment.
---
 plasTeX/Base/LaTeX/Lists.py | 53 ++++++++++++++++++++++++-------------
 plasTeX/Base/LaTeX/Math.py  | 26 +++++++++---------
 plasTeX/Context.py          | 35 +++++++++++++++++++-----
 plasTeX/Packages/amsmath.py | 15 ++++++++---
 plasTeX/Packages/book.py    |  6 ++---
 plasTeX/__init__.py         |  6 ++++-
 6 files changed, 96 insertions(+), 45 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..b99d03b 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -13,25 +13,35 @@ class enumivname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
 
     class item(Command):
         args = '[ term ]'
-        counter = 'enumi'
+        counter = None
         position = 0
         forcePars = True
 
         def invoke(self, tex):
             """ Set up counter for this list depth """
-            try:
-                self.counter = List.counters[List.depth-1]
-                self.position = self.ownerDocument.context.counters[self.counter].value + 1
-            except (KeyError, IndexError):
-                pass
+            lists = List.enclosing(self.ownerDocument.context)
+            if lists:
+                self.counter = lists[-1].itemcounter
+                lists[-1].numitems += 1
+                self.position = lists[-1].numitems
             return Command.invoke(self, tex)
 
+        def preArgument(self, arg, tex):
+            """ Only items without a label of their own are numbered """
+
+        def postArgument(self, arg, value, tex):
+            if arg.options.get('spec') == '[]':
+                if value is not None:
+                    self.counter = None
+                self.refstepcounter(tex)
+                if self.counter:
+                    self.position = self.ownerDocument.context.counters[self.counter].value
+
         def digest(self, tokens):
             """
             Items should absorb all of the content within that 
@@ -48,18 +58,14 @@ class List(Environment):
             if self.forcePars:
                 self.paragraphs()
 
-    def invoke(self, tex):
-        """ Set list nesting depth """
-        if self.macroMode != Environment.MODE_END:
-            List.depth += 1
-        else:
-            List.depth -= 1
-        try:
-            for i in range(List.depth, len(List.counters)):
-                self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
-        except (IndexError, KeyError):
-            pass
-        return Environment.invoke(self, tex)
+    # Counter of the items and number of items seen so far
+    itemcounter = None
+    numitems = 0
+
+    @classmethod
+    def enclosing(cls, context):
+        """ The lists of this type that are open, outermost first """
+        return [x.obj for x in context.contexts if isinstance(x.obj, cls)]
 
     def digest(self, tokens):
         if self.macroMode != Environment.MODE_END:
@@ -99,6 +105,15 @@ class enumerate_(List):
     macroName = 'enumerate'
     args = '[ type ]'  # Actually defined in the enumerate package, but it doesn't hurt
 
+    def invoke(self, tex):
+        """ Set up the counter for this nesting depth """
+        if self.macroMode != Environment.MODE_END:
+            depth = len(enumerate_.enclosing(self.ownerDocument.context))
+            if depth < len(List.counters):
+                self.itemcounter = List.counters[depth]
+                self.ownerDocument.context.counters[self.itemcounter].setcounter(0)
+        return List.invoke(self, tex)
+
 class description(List): 
     pass
 
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..322948f 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -172,8 +172,9 @@ class eqnarray(EqnarrayStar):
         counter: Optional[str] = 'equation'
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
-            res[1].ref = self.ref
-            self.ownerDocument.context.currentlabel = res[1]
+            if self.counter:
+                res[1].ref = self.ref
+                self.ownerDocument.context.setCurrentLabel(res[1], depth=1)
             return res
 
     def invoke(self, tex):
@@ -181,20 +182,21 @@ class eqnarray(EqnarrayStar):
         if self.macroMode == self.MODE_END:
             return res
         res[1].ref = self.ref
+        self.firstrow = res[1]
         return res
+
 class nonumber(Command):
 
     def invoke(self, tex):
-        self.ownerDocument.context.counters['equation'].addtocounter(-1)
-
-    def digest(self, tokens):
-        try:
-            row = self.parentNode
-            while not isinstance(row, Array.ArrayRow):
-                row = row.parentNode
-            row.ref = None
-        except AttributeError as e:
-            print('problem encountered %s' % e)
+        """ Take back the number of the current row or equation """
+        context = self.ownerDocument.context
+        node = context.currentlabel
+        if isinstance(node, (equation, eqnarray, Array.ArrayRow)) and \
+           node.ref is not None:
+            node.ref = None
+            if isinstance(node, eqnarray):
+                node.firstrow.ref = None
+            context.counters['equation'].addtocounter(-1)
 
 class notag(nonumber):
     pass
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 0d74e79..dda2041 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -83,6 +83,8 @@ class ContextItem(dict):
         self.obj = None
         self.parent = None
         self.owner = None
+        # Labelable object to go back to at the end of the group
+        self.currentlabel = None
 
     @property
     def name(self):
@@ -750,6 +752,7 @@ class Context(object):
         newcontext = ContextItem()
         newcontext.categories = self.categories
         newcontext.obj = obj
+        newcontext.currentlabel = self.currentlabel
 
         if obj is not None:
 
@@ -790,9 +793,9 @@ class Context(object):
             # Pop until we hit a None in the context
             while len(self.contexts) > 1:
                 if self.contexts[-1].obj is None:
-                    self.contexts.pop()
+                    self.endgroup()
                     break
-                self.contexts.pop()
+                self.endgroup()
         else:
             while len(self.contexts) > 1:
                 o = self.contexts[-1].obj
@@ -801,23 +804,43 @@ class Context(object):
                     pass
                 # Found context pushed by ourself
                 elif o is obj:
-                    self.contexts.pop()
+                    self.endgroup()
                     break
                 # Don't pop parent node
                 elif o is obj.parentNode:
                     break
                 # Found the \begin to our \end
                 elif type(obj) == type(o) and obj.macroMode == obj.MODE_END:
-                    self.contexts.pop()
+                    self.endgroup()
                     break
                 # Found the \foo to our \endfoo
                 elif obj.nodeName == ('end%s' % o.nodeName):
-                    self.contexts.pop()
+                    self.endgroup()
                     break
-                self.contexts.pop()
+                self.endgroup()
 
         self.mapMethods()
 
+    def endgroup(self):
+        """ Remove the top of the stack and everything local to it """
+        self.currentlabel = self.contexts.pop().currentlabel
+
+    def setCurrentLabel(self, node, depth=0):
+        """
+        Set the object that labels get attached to
+
+        Required Arguments:
+        node -- the labelable object
+
+        Keyword Arguments:
+        depth -- number of groups at the top of the stack whose end does
+            not restore the previous object
+
+        """
+        self.currentlabel = node
+        for context in self.contexts[len(self.contexts)-depth:]:
+            context.currentlabel = node
+
     def addGlobal(self, key, value):
         """
         Add a macro to the global context
diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..5e8dbcd 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -1,3 +1,4 @@
+import plasTeX
 from plasTeX import Command
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
@@ -37,7 +38,9 @@ class FAlignStar(_AMSEquationStar):
     macroName = 'falign*'
 
 class multiline(_AMSEquation):
-    pass
+    # The whole environment has one number
+    class EndRow(_AMSEquation.EndRow):
+        counter = None
 
 class MultilineStar(_AMSEquationStar):
     macroName = 'multiline*'
@@ -68,7 +71,10 @@ class gathered(MathEnvironmentPre):
     pass
 
 class cases(_AMSEquation):
-    pass
+    counter = None
+
+    class EndRow(_AMSEquation.EndRow):
+        counter = None
 
 class flalign(_AMSEquation):
     pass
@@ -137,8 +143,9 @@ class numberwithin(Command):
         target_cnt.resetby = control
 
         # Formatting
-        ctx['the'+target].format = '{}.${{{}}}'.format(
-                ctx['the'+control].format, target)
+        name = 'the' + target
+        ctx.addGlobal(name, type(name, (plasTeX.TheCounter,),
+                {'format': '${the%s}.${%s}' % (control, target)}))
 
 class eqref(Command):
     args = 'label:idref'
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 15780ee..8b1aac4 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -4,9 +4,9 @@ def ProcessOptions(options, document):
     context = document.context
     # Lists
     context.newcounter('enumi')
-    context.newcounter('enumii', resetby='enumi')
-    context.newcounter('enumiii', resetby='enumii')
-    context.newcounter('enumiv', resetby='enumiii')
+    context.newcounter('enumii')
+    context.newcounter('enumiii')
+    context.newcounter('enumiv')
 
     # Sections
     context.newcounter('part', resetby='volume',
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 383d754..e7158e2 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -567,7 +567,11 @@ class Macro(Element):
 
         """
         if self.counter is not None:
-            self.ownerDocument.context.currentlabel = self
+            context = self.ownerDocument.context
+            # The object stays the current one after a command has been
+            # parsed, but not after the end of an environment
+            own = context.top.obj is self and self.macroMode == Macro.MODE_NONE
+            context.setCurrentLabel(self, depth=int(own))
             if self.withinNumberDepth:
                 self.stepcounter(tex)
 
-- 
2.43.0


From 1c02101a4a0ee11564a849b58a0238127d1551c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 40/85] fix: labels with scripts in mathematics, rows after
 \\*, starred commands as label targets

A label name with an underscore is read as such in mathematics too, \\* ends a
row that gets a number, starred commands without a counter (\hspace*) are no
longer what a label attaches to, and there is no letter for zero.
---
 plasTeX/Base/LaTeX/Math.py |  6 ++++++
 plasTeX/TeX.py             | 25 +++++++++++++++++++++++--
 plasTeX/__init__.py        |  6 ++++--
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 322948f..5de1071 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -170,6 +170,12 @@ class eqnarray(EqnarrayStar):
     class EndRow(Array.EndRow):
         """ End of a row """
         counter: Optional[str] = 'equation'
+
+        def postArgument(self, arg, value, tex):
+            # Rows after \\* have a number as well
+            if arg.index == 0:
+                self.refstepcounter(tex)
+
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             if self.counter:
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 63ee463..27e6ccc 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1099,6 +1099,27 @@ class TeX(object):
         """
         return type(self.normalize(tokens))
 
+    def castKey(self, tokens, **kwargs):
+        """
+        Join the tokens into the name of a label
+
+        In mathematics, the name can contain scripts (i.e. `_').
+
+        Required Arguments:
+        tokens -- list of tokens to cast
+
+        Returns:
+        string
+
+        See Also:
+        self.castString()
+
+        """
+        key = self.normalize(tokens)
+        if not isinstance(key, str):
+            key = key.source
+        return str(key)
+
     def castLabel(self, tokens, **kwargs):
         """
         Join the tokens into a string and set a label in the context
@@ -1115,7 +1136,7 @@ class TeX(object):
         self.castRef()
 
         """
-        label = self.castString(tokens, **kwargs)
+        label = self.castKey(tokens, **kwargs)
         self.ownerDocument.context.label(label)
         return label
 
@@ -1135,7 +1156,7 @@ class TeX(object):
         self.castLabel()
 
         """
-        ref = self.castString(tokens, **kwargs)
+        ref = self.castKey(tokens, **kwargs)
         self.ownerDocument.context.ref(kwargs['parentNode'], kwargs['name'], ref)
         return ref
 
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index e7158e2..a0da022 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -536,7 +536,7 @@ class Macro(Element):
         """
         # If there was a '*', unset the counter for this instance
         if arg.index == 0 and arg.name == '*modifier*':
-            if value:
+            if value and self.counter:
                 self.counter = ''
             self.refstepcounter(tex)
 
@@ -1670,7 +1670,9 @@ class Counter(object):
 
     @property
     def Alph(self):
-        return encoding.stringletters()[self.value - 1].upper()
+        # There is no letter for zero
+        return (encoding.stringletters()[self.value - 1].upper()
+                if self.value else '')
 
     @property
     def alph(self):
-- 
2.43.0


From 77a189a421a1c147fbee1531525d3f2ed8fcfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 41/85] fix: render theorems and equation references in XHTML

---
 plasTeX/Renderers/XHTML/Crossref.zpts | 2 +-
 plasTeX/Renderers/XHTML/Thms.zpts     | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)
 create mode 100644 plasTeX/Renderers/XHTML/Thms.zpts

diff --git a/plasTeX/Renderers/XHTML/Crossref.zpts b/plasTeX/Renderers/XHTML/Crossref.zpts
index 5c33855..e701f04 100644
--- a/plasTeX/Renderers/XHTML/Crossref.zpts
+++ b/plasTeX/Renderers/XHTML/Crossref.zpts
@@ -1,4 +1,4 @@
-name: ref
+name: ref eqref
 <a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/ref">#.#.#</a>
 
 name: pageref
diff --git a/plasTeX/Renderers/XHTML/Thms.zpts b/plasTeX/Renderers/XHTML/Thms.zpts
new file mode 100644
index 0000000..cd65489
--- /dev/null
+++ b/plasTeX/Renderers/XHTML/Thms.zpts
@@ -0,0 +1,9 @@
+name: thmenv
+<div tal:attributes="id self/id; class string:${self/thmName}_thmwrapper">
+<div tal:attributes="class string:${self/thmName}_thmheading">
+<span tal:attributes="class string:${self/thmName}_thmcaption" tal:content="self/caption">Theorem</span>
+<span tal:condition="self/ref" tal:attributes="class string:${self/thmName}_thmlabel" tal:content="self/ref">1.1</span>
+<span tal:condition="self/title" tal:attributes="class string:${self/thmName}_thmtitle" tal:content="self/title">Title</span>
+</div>
+<div tal:attributes="class string:${self/thmName}_thmcontent" tal:content="self"></div>
+</div>
-- 
2.43.0


From 0a8c23554600504be6deb845b4ad05a1d0cf329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 42/85] fix: expand macros while scanning keywords, keep the
 token that does not match

---
 plasTeX/TeX.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 27e6ccc..6d25e01 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1510,15 +1510,16 @@ class TeX(object):
         `None' -- if none of the keywords are found
 
         """
-        self.readOptionalSpaces()
         for word in words:
             matched = []
             letters = list(word.upper())
-            for t in self.itertokens():
-                if t.nodeType == Token.ELEMENT_NODE:
-                    break
+            for t in self.expandableTokens():
+                # Spaces before the keyword are ignored
+                if not matched and t.catcode == Token.CC_SPACE:
+                    continue
                 matched.append(t)
-                if t.upper() == letters[0]:
+                if t.nodeType != Token.ELEMENT_NODE and \
+                   t.macroName is None and t.upper() == letters[0]:
                     letters.pop(0)
                     if not letters:
                         if optspace:
@@ -1655,7 +1656,7 @@ class TeX(object):
 
     def readOneOptionalSpace(self):
         """ Read one optional space from the stream """
-        for t in self.itertokens():
+        for t in self.expandableTokens():
             if t.nodeType == Token.ELEMENT_NODE:
                 self.pushToken(t)
                 return None
-- 
2.43.0


From e8e6575339c30fe87fa35ee9f156b93f5d3c6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 43/85] fix: infinite units are not multiplied, all units apply
 to internal integers

---
 plasTeX/TeX.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 6d25e01..c09184b 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1581,17 +1581,14 @@ class TeX(object):
                     num = dimen(sign * dimen(t))
                 else:
                     # An internal integer is a factor if there is a unit
-                    unit = self.readKeyword(units)
-                    if unit is None:
-                        num = dimen(sign * dimen(t))
-                    else:
-                        num = dimen(sign * number(t) * dimen('1%s' % unit))
+                    num = self.readUnitOfMeasure(units=units, factor=sign * number(t),
+                                                 default='sp')
                 ParameterCommand.enable()
                 return num
             self.pushToken(t)
             break
         self.scanningNumber = False
-        num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
+        num = self.readUnitOfMeasure(units=units, factor=sign * self.readDecimal())
         ParameterCommand.enable()
         return num
 
@@ -1599,13 +1596,18 @@ class TeX(object):
         """ Read a mudimen from the stream """
         return mudimen(self.readDimen(units=mudimen.units))
 
-    def readUnitOfMeasure(self, units):
+    def readUnitOfMeasure(self, units, factor=1, default=None):
         """
         Read a unit of measure from the stream
 
         Required Arguments:
         units -- list of acceptable units of measure
 
+        Keyword Arguments:
+        factor -- number of units that the resulting dimension has
+        default -- unit to use if there is none in the stream.  If it
+            is not given, a missing unit is reported.
+
         Returns:
         `dimen' instance
 
@@ -1617,17 +1619,28 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return dimen(t)
+                return dimen(factor * dimen(t))
             self.pushToken(t)
             break
-        true = self.readKeyword(['true'])
-        unit = self.readKeyword(units)
+        unit = None
+        # Infinite units have any number of l's which can be apart
+        if 'fil' in units:
+            unit = self.readKeyword(['fil'], optspace=False)
+            while unit in ['fil', 'fill'] and self.readKeyword(['l'], optspace=False):
+                unit += 'l'
+        if unit is not None:
+            self.readOneOptionalSpace()
+        else:
+            self.readKeyword(['true'])
+            unit = self.readKeyword(units)
+        if unit is None:
+            unit = default
         if unit is None:
             log.warning('Missing unit (expecting %s)%s, treating as `%s`',
                         ', '.join(units), self.lineInfo, units[0])
             unit = units[0]
         ParameterCommand.enable()
-        return dimen('1%s' % unit)
+        return dimen('%r%s' % (float(factor), unit))
 
     def readOptionalSigns(self):
         """
-- 
2.43.0


From d1cb68b050c9390b797ddb3bf76343dcf310f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 44/85] fix: keep stretch and shrink of glue registers, and
 those that follow a dimension register

---
 plasTeX/TeX.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c09184b..4076dee 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1804,9 +1804,10 @@ class TeX(object):
         # internal/coerced glue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
+               isinstance(t, ParameterCommand) and isinstance(t.value, glue):
                 ParameterCommand.enable()
-                return glue(sign * glue(t))
+                parts = [t.value, t.value.stretch, t.value.shrink]
+                return glue(*[x if x is None else sign * dimen(x) for x in parts])
             self.pushToken(t)
             break
         dim = self.readDimen()
@@ -1834,9 +1835,10 @@ class TeX(object):
         # internal/coerced muglue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
+               isinstance(t, ParameterCommand) and isinstance(t.value, glue):
                 ParameterCommand.enable()
-                return muglue(sign * muglue(t))
+                parts = [t.value, t.value.stretch, t.value.shrink]
+                return muglue(*[x if x is None else sign * dimen(x) for x in parts])
             self.pushToken(t)
             break
         dim = self.readMuDimen()
-- 
2.43.0


From e07bbe169e6630f1c3e5ea95d55a28ac7a81b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 45/85] fix: hexadecimal digits are upper case, a character
 constant absorbs an optional space

---
 plasTeX/TeX.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 4076dee..9f956e7 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1780,12 +1780,14 @@ class TeX(object):
                                                    default='0', optspace=optspace), 8))
             # hex constant
             elif t == '"':
-                num = number(sign * int('0x' + self.readSequence(string.hexdigits,
+                num = number(sign * int('0x' + self.readSequence(string.digits + 'ABCDEF',
                                                default='0', optspace=optspace), 16))
             # character token
             elif t == '`':
                 for t in self.itertokens():
                     num = number(sign * ord(t))
+                    if optspace:
+                        self.readOneOptionalSpace()
                     break
             break
         ParameterCommand.enable()
-- 
2.43.0


From 162e5d9a1f3aa85b3de81e9c5d8a41fa6e1ded17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 46/85] fix: string arguments that contain groups are bound to
 their text

---
 plasTeX/TeX.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 9f956e7..8ab5016 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1097,7 +1097,10 @@ class TeX(object):
         self.cast()
 
         """
-        return type(self.normalize(tokens))
+        value = self.normalize(tokens)
+        if not isinstance(value, str) and hasattr(value, 'textContent'):
+            value = value.textContent.strip()
+        return type(value)
 
     def castKey(self, tokens, **kwargs):
         """
-- 
2.43.0


From d09875d5440e2661bc8a46eb19aadf47756ee13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 47/85] fix: keys without a value, groups in keys and equal
 signs in values of dictionary arguments

---
 plasTeX/TeX.py | 56 ++++++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 8ab5016..aadd5f0 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1362,17 +1362,31 @@ class TeX(object):
         dictarg = type()
         currentkey = []
         currentvalue = None
+
+        def addItem():
+            key = self.normalize(currentkey)
+            if currentvalue is None:
+                # Empty items are ignored
+                if isinstance(key, str) and not key:
+                    return
+                value = True
+            else:
+                value = self.normalize(self.cast(currentvalue, subtype))
+            dictarg[key] = value
+
         while tokens:
             current = tokens.pop(0)
 
+            # Tokens belong to the key until there is a value
+            target = currentkey if currentvalue is None else currentvalue
+
             if current.nodeType == Macro.ELEMENT_NODE:
-                currentvalue.append(current)
-                continue
+                target.append(current)
 
             # Found grouping
             elif current.catcode == Token.CC_BGROUP:
                 level = 1
-                currentvalue.append(current)
+                target.append(current)
                 while tokens:
                     current = tokens.pop(0)
                     if current.catcode == Token.CC_BGROUP:
@@ -1381,43 +1395,23 @@ class TeX(object):
                         level -= 1
                         if not level:
                             break
-                    currentvalue.append(current)
-                currentvalue.append(current)
-                continue
+                    target.append(current)
+                target.append(current)
 
             # Found end-of-key delimiter
-            if current == '=':
+            elif current == '=' and currentvalue is None:
                 currentvalue = []
 
             # Found end-of-value delimiter
             elif current == delim:
-                # Handle this later
-                pass
-
-            # Extend key
-            elif currentvalue is None:
-                currentkey.append(current)
-
-            # Extend value
-            else:
-                currentvalue.append(current)
-
-            # Found end-of-value delimiter
-            if current == delim or not tokens:
-                currentkey = self.normalize(currentkey)
-                currentvalue = self.normalize(self.cast(currentvalue, subtype))
-                if currentvalue is None:
-                    currentvalue = True
-                dictarg[currentkey] = currentvalue
+                addItem()
                 currentkey = []
                 currentvalue = None
 
-        if currentkey:
-            currentkey = self.normalize(currentkey)
-            currentvalue = self.normalize(self.cast(currentvalue, subtype))
-            if currentvalue is None:
-                currentvalue = True
-            dictarg[currentkey] = currentvalue
+            else:
+                target.append(current)
+
+        addItem()
 
         return dictarg
 
-- 
2.43.0


From 80913b4f9458d2e4e0715ee5a943a2ce8587b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 48/85] fix: reading an argument leaves registers and warnings
 enabled as they were

---
 plasTeX/TeX.py | 54 +++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index aadd5f0..708230d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -715,58 +715,67 @@ class TeX(object):
 
         # Disable expansion of parameters
         ParameterCommand.disable()
+        try:
+            return self._readArgumentAndSource(spec, type, subtype, delim,
+                                               expanded, default, parentNode,
+                                               name, charsubs)
+        finally:
+            # Re-enable Parameters
+            ParameterCommand.enable()
+
+    def _readArgumentAndSource(self, spec, type, subtype, delim, expanded,
+                               default, parentNode, name, charsubs):
+        """
+        Get an argument and its source while parameters are disabled
 
+        See Also:
+        self.readArgumentAndSource()
+
+        """
         if charsubs is None:
             charsubs = getattr(self.ownerDocument, 'charsubs', [])
 
         if type in ['Dimen','Length','Dimension']:
             n = self.readDimen()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['MuDimen','MuLength']:
             n = self.readMuDimen()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['Glue','Skip']:
             n = self.readGlue()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['MuGlue','MuSkip']:
             n = self.readMuGlue()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['Number','Int','Integer']:
             n = self.readNumber()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['Token','Tok']:
             for tok in self.itertokens():
-                ParameterCommand.enable()
                 return tok, tok.source
 
         if type in ['XTok','XToken']:
-            self.ownerDocument.context.warnOnUnrecognized = False
-            for t in self.itertokens():
-                if t.catcode == Token.CC_BGROUP:
-                    self.pushToken(t)
-                    toks, source = self.readToken(True)
+            context = self.ownerDocument.context
+            warn = context.warnOnUnrecognized
+            context.warnOnUnrecognized = False
+            try:
+                for t in self.itertokens():
+                    if t.catcode == Token.CC_BGROUP:
+                        self.pushToken(t)
+                        toks, source = self.readToken(True)
+                    else:
+                        toks = self.expandTokens([t], parentNode=parentNode)
+                        source = self.source(toks)
                     if len(toks) == 1:
-                        ParameterCommand.enable()
                         return toks[0], toks[0].source
-                    ParameterCommand.enable()
                     return toks, source
-                else:
-                    toks = self.expandTokens([t], parentNode=parentNode)
-                    if len(toks) == 1:
-                        ParameterCommand.enable()
-                        return toks[0], toks[0].source
-                    ParameterCommand.enable()
-                    return toks, self.source(toks)
+            finally:
+                context.warnOnUnrecognized = warn
 
         # Definition argument string
         if type in ['Args']:
@@ -778,7 +787,6 @@ class TeX(object):
                 else:
                     args.append(t)
             else: pass
-            ParameterCommand.enable()
             return args, self.source(args)
 
         if type in ['any']:
@@ -832,7 +840,6 @@ class TeX(object):
             self.ownerDocument.context.catcode(key, value)
 
         if toks is None:
-            ParameterCommand.enable()
             return default, ''
         res = self.cast(toks, type, subtype, delim, parentNode, name)
 
@@ -841,9 +848,6 @@ class TeX(object):
            getattr(res,'nodeType',None) == Macro.DOCUMENT_FRAGMENT_NODE:
             res.normalize(charsubs)
 
-        # Re-enable Parameters
-        ParameterCommand.enable()
-
         if False and parentNode is not None:
             log.warning('%s %s: %s', parentNode.nodeName, name, source)
             log.warning('categories: %s', self.ownerDocument.context.categories)
-- 
2.43.0


From 7e85edf797b7774e09e81198bad31a0fa1f7cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 49/85] fix: keys of dictionary arguments are strings

---
 plasTeX/TeX.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 708230d..51a098b 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1368,10 +1368,10 @@ class TeX(object):
         currentvalue = None
 
         def addItem():
-            key = self.normalize(currentkey)
+            key = self.castString(currentkey)
             if currentvalue is None:
                 # Empty items are ignored
-                if isinstance(key, str) and not key:
+                if not key:
                     return
                 value = True
             else:
-- 
2.43.0


From 64510a4a89909d7dfc0748a1356060df0e62c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 50/85] fix: nothing after the space that ends a number is
 expanded or used as a factor

---
 plasTeX/TeX.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 51a098b..c0c3b5a 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1771,10 +1771,12 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
+                                                              optspace=False)))
                 factor = self.readParameter()
                 if factor is not None:
                     num = number(num * number(factor))
+                elif optspace:
+                    self.readOneOptionalSpace()
             # octal constant
             elif t == "'":
                 num = number(sign * int('0' + self.readSequence(string.octdigits,
-- 
2.43.0


From 4f30ff4588a21d3fc6c103b022719e6b0881f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 51/85] fix: every argument in a column specification is read

---
 plasTeX/Base/LaTeX/Arrays.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea80bed..ea1515c 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -544,12 +544,15 @@ class Array(Environment):
                 continue
 
             if tok == '<':
-                output[-1].after = tex.readArgument()
+                after = tex.readArgument()
+                if output:
+                    output[-1].after = after
                 continue
 
-            if tok == '@':
+            if tok in ['@', '!']:
+                between = tex.readArgument()
                 if output:
-                    output[-1].between = tex.readArgument()
+                    output[-1].between = between
                 continue
 
             if tok == '*':
@@ -561,14 +564,14 @@ class Array(Environment):
 
             output.append(ColumnType.columnTypes.get(tok, ColumnType)())
 
-            if tok.lower() in ['p','d']:
+            if tok.lower() in ['p','m','b','d']:
                 tex.readArgument()
 
             if before:
                 output[-1].before = before
                 before = None
 
-        if leftborder:
+        if leftborder and output:
             output[0].style['border-left'] = '1px solid black'
 
         return output
-- 
2.43.0


From bd2f2fedf59643a62e3f60fd2efd9bc148564094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 52/85] fix: a partial rule counts the columns that the cells
 before it span

---
 plasTeX/Base/LaTeX/Arrays.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea1515c..d84be85 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -147,12 +147,10 @@ class Array(Environment):
                 location = self.locations[self.position]
             colnum = 1
             for cell in cells:
-                if colnum < start or colnum > end:
-                    colnum += 1
-                    continue
-                cell.style['border-%s-style' % location] = 'solid'
-                cell.style['border-%s-color' % location] = 'black'
-                cell.style['border-%s-width' % location] = '1px'
+                if start <= colnum <= end:
+                    cell.style['border-%s-style' % location] = 'solid'
+                    cell.style['border-%s-color' % location] = 'black'
+                    cell.style['border-%s-width' % location] = '1px'
                 if cell.attributes:
                     colnum += cell.attributes.get('colspan', 1)
                 else:
-- 
2.43.0


From 8d08647eae611abe92ac2a8f99d55e160f005cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 53/85] fix: the rules of empty rows above the first row of a
 table are drawn

---
 plasTeX/Base/LaTeX/Arrays.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index d84be85..b2200c6 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -469,8 +469,8 @@ class Array(Environment):
         Apply borders from \\(h|c|v)line and colspecs
 
         """
-        lastrow = len(self) - 1
         emptyrows = []
+        leading = []
         prev = None
         for i, row in enumerate(self):
             if not isinstance(row, Array.ArrayRow):
@@ -478,13 +478,16 @@ class Array(Environment):
             # If the row is only here to apply borders, apply the
             # borders to the adjacent row.  Empty rows are deleted later.
             if row.isBorderOnly:
-                if i == 0 and lastrow:
-                    row.applyBorders(self[1], 'top')
-                elif prev is not None:
+                if prev is not None:
                     row.applyBorders(prev, 'bottom')
+                else:
+                    leading.append(row)
                 emptyrows.insert(0, i)
             else:
                 row.applyBorders()
+                for rules in leading:
+                    rules.applyBorders(row, 'top')
+                leading = []
                 if self.colspec:
                     # Expand multicolumns so that they don't mess up
                     # the colspec attributes
-- 
2.43.0


From ec940d9198871bacc194647dba0d2f16c54ca106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 54/85] fix: a font declaration in an item does not absorb the
 items that follow

---
 plasTeX/Base/LaTeX/Lists.py | 1 +
 plasTeX/__init__.py         | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index b99d03b..bdd5985 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -21,6 +21,7 @@ class List(Environment):
         counter = None
         position = 0
         forcePars = True
+        endsDeclarations = True
 
         def invoke(self, tex):
             """ Set up counter for this list depth """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a0da022..f52f6e9 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -938,6 +938,11 @@ class Environment(Macro):
             if item.nodeType == Node.ELEMENT_NODE:
                 if item.macroMode == Macro.MODE_END and type(item) is type(self):
                     break
+                # A declaration does not absorb the next item of a list
+                if self.macroMode == Macro.MODE_NONE and \
+                   getattr(item, 'endsDeclarations', False):
+                    tokens.push(item)
+                    break
                 item.parentNode = self
                 item.digest(tokens)
             # Stay within our context depth
-- 
2.43.0


From c55491a007e7ec11c539c1a78643f4f2549f68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 55/85] fix: the text of a document without paragraph breaks is
 a paragraph

---
 plasTeX/Base/LaTeX/Document.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/Base/LaTeX/Document.py b/plasTeX/Base/LaTeX/Document.py
index 9b801ec..3810121 100644
--- a/plasTeX/Base/LaTeX/Document.py
+++ b/plasTeX/Base/LaTeX/Document.py
@@ -8,6 +8,7 @@ from plasTeX.Base.LaTeX.Sectioning import SectionUtils
 
 class document(Environment, SectionUtils):
     level = Environment.DOCUMENT_LEVEL
+    forcePars = True
 
     @property
     def title(self):
-- 
2.43.0


From d1fdf497d581eb7f2fd48cf545841d12774a95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 56/85] fix: no quotes or dashes are substituted in groups and
 arguments in mathematics

---
 plasTeX/TeX.py      |  2 ++
 plasTeX/__init__.py | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c0c3b5a..4b57df3 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -734,6 +734,8 @@ class TeX(object):
         """
         if charsubs is None:
             charsubs = getattr(self.ownerDocument, 'charsubs', [])
+            if self.ownerDocument.context.isMathMode:
+                charsubs = []
 
         if type in ['Dimen','Length','Dimension']:
             n = self.readDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index f52f6e9..7dd6202 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -736,6 +736,25 @@ class Macro(Element):
             node = node.parentNode
         return
 
+    @property
+    def textCharsubs(self):
+        """
+        Character substitutions for the text in this node
+
+        There are none in mathematics.
+
+        """
+        node = self
+        while node is not None and node is not self.ownerDocument:
+            mode = getattr(node, 'mathMode', None)
+            if mode is not None:
+                return [] if mode else self.ownerDocument.charsubs
+            node = node.parentNode
+        # Not in the document yet
+        if node is None and self.ownerDocument.context.isMathMode:
+            return []
+        return self.ownerDocument.charsubs
+
     def paragraphs(self, force=True):
         """
         Group content into paragraphs
@@ -759,7 +778,7 @@ class Macro(Element):
 
         # No paragraphs, and we aren't forcing paragraphs...
         if parname is None and not force:
-            self.normalize(self.ownerDocument.charsubs)
+            self.normalize(self.textCharsubs)
             return
 
         if parname is None:
-- 
2.43.0


From af63d8816cb004a197682770abbc17550bc31947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 57/85] fix: every character can delimit a verb command

---
 plasTeX/Base/LaTeX/Verbatim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Verbatim.py b/plasTeX/Base/LaTeX/Verbatim.py
index d842d60..59d867e 100644
--- a/plasTeX/Base/LaTeX/Verbatim.py
+++ b/plasTeX/Base/LaTeX/Verbatim.py
@@ -29,12 +29,13 @@ class verb(Command):
     def invoke(self, tex):
         """ Parse for matching delimiters """
         self.ownerDocument.context.push(self)
-        self.parse(tex)
+        # The delimiter may be any character, so it has to be read verbatim too
         self.ownerDocument.context.setVerbatimCatcodes()
+        self.parse(tex)
         # See what the delimiter is
         for endpattern in tex:
             self.delimiter = endpattern
-            if isinstance(endpattern, bgroup):
+            if isinstance(endpattern, bgroup) or endpattern == '{':
                 self.delimiter = endpattern = Other('}')
             break
         tokens = [self, endpattern]
-- 
2.43.0


From 1699899428ecf30b443beb09fd0b9d86b5ed8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 58/85] fix: a verbatim environment ends at its own end marker
 only

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 7dd6202..009b121 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1051,7 +1051,7 @@ class VerbatimEnvironment(NoCharSubEnvironment):
                         res = [end]
                     tex.pushTokens(res)
                     break
-            if len(tokens) >= endlength2:
+            if self.macroMode == Environment.MODE_NONE and len(tokens) >= endlength2:
                 if tokens[-endlength2:] == endpattern2:
                     tokens = tokens[:-endlength2]
                     self.ownerDocument.context.pop(self)
-- 
2.43.0


From 0e43e33c3cc9b5a2e9bec8a43a970a3aaaf0af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 59/85] fix: formulas in text boxes within a formula do not end
 it

---
 plasTeX/Base/LaTeX/Boxes.py     | 6 +++---
 plasTeX/Base/LaTeX/Math.py      | 3 ++-
 plasTeX/Base/LaTeX/Sentences.py | 3 ++-
 plasTeX/Packages/fancybox.py    | 3 ++-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Boxes.py b/plasTeX/Base/LaTeX/Boxes.py
index 0cc87ac..8a1a907 100644
--- a/plasTeX/Base/LaTeX/Boxes.py
+++ b/plasTeX/Base/LaTeX/Boxes.py
@@ -8,7 +8,7 @@ from plasTeX import Command, Environment
 from plasTeX import DimenCommand, GlueCommand
 
 
-class TextBoxCommand(Command):
+class TextBoxCommand(BoxCommand):
 
     class width(DimenCommand):
         value = DimenCommand.new(0)
@@ -29,7 +29,7 @@ class mbox(BoxCommand):
 class makebox(TextBoxCommand):
     args = '[ width:dimen ] [ pos:str ] self'
 
-class fbox(Command):
+class fbox(BoxCommand):
     args = 'self'
 
 class framebox(TextBoxCommand):
@@ -50,7 +50,7 @@ class lrbox(Environment):
 class usebox(Command):
     args = 'name:cs'
 
-class parbox(Command):
+class parbox(BoxCommand):
     args = '[ pos:str ] width:dimen self'
 
 class minipage(Environment):
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 5de1071..735e8b5 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -4,6 +4,7 @@ C.7 Mathematical Formulas (p187)
 """
 
 from plasTeX.Base.LaTeX.Arrays import Array
+from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment, sourceChildren, NoCharSubEnvironment
 from plasTeX import DimenCommand, GlueCommand, TeXFragment
 from typing import Optional
@@ -698,7 +699,7 @@ class boldmath(Command):
 class unboldmath(Command):
     pass
 
-class text(Command):
+class text(BoxCommand):
     args = 'self'
 
 # Math Style
diff --git a/plasTeX/Base/LaTeX/Sentences.py b/plasTeX/Base/LaTeX/Sentences.py
index eefbc59..316f955 100644
--- a/plasTeX/Base/LaTeX/Sentences.py
+++ b/plasTeX/Base/LaTeX/Sentences.py
@@ -4,6 +4,7 @@ C.3.1 Making Sentences (p170)
 """
 
 from plasTeX import Command, Environment
+from plasTeX.Base.TeX.Primitives import BoxCommand
 
 
 #
@@ -86,7 +87,7 @@ class TeX(Command):
 # Misc
 #
 
-class emph(Command):
+class emph(BoxCommand):
     args = 'self'
 
 class em(Environment):
diff --git a/plasTeX/Packages/fancybox.py b/plasTeX/Packages/fancybox.py
index 8fd7cc6..bb443b9 100644
--- a/plasTeX/Packages/fancybox.py
+++ b/plasTeX/Packages/fancybox.py
@@ -4,8 +4,9 @@ plasTeX package for fancy boxes
 """
 
 from plasTeX import Command
+from plasTeX.Base.LaTeX import Boxes
 
-class fbox(Command):
+class fbox(Boxes.fbox):
     args = 'self'
 
 class shadowbox(fbox):
-- 
2.43.0


From 0df971d3d7ab78f50e23e759cc35dbd31b2e4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 60/85] fix: the cells of matrices are mathematics, not
 paragraphs

---
 plasTeX/Packages/amsmath.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5e8dbcd..1d49454 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -3,7 +3,7 @@ from plasTeX import Command
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
-from plasTeX.Base.LaTeX.Math import math, MathEnvironmentPre
+from plasTeX.Base.LaTeX.Math import MathEnvironmentPre
 
 from plasTeX import Tokenizer
 from plasTeX.Logging import getLogger
@@ -11,7 +11,7 @@ from plasTeX.Logging import getLogger
 deflog = getLogger('parse.definitions')
 
 class pmatrix(Array):
-    pass
+    mathMode = True
 
 class _AMSEquation(eqnarray):
     pass
@@ -93,19 +93,19 @@ class MultlineStar(MultilineStar):
     macroName = 'multline*'
 
 class matrix(Array):
-    pass
+    mathMode = True
 
-class vmatrix(Array):
+class vmatrix(matrix):
     pass
-class Vmatrix(Array):
+class Vmatrix(matrix):
     pass
 
-class bmatrix(Array):
+class bmatrix(matrix):
     pass
-class Bmatrix(Array):
+class Bmatrix(matrix):
     pass
 
-class smallmatrix(Array):
+class smallmatrix(matrix):
     pass
 
 class dddot(math):
-- 
2.43.0


From 63249f27d9c98b4f4ba0c0cce638485c8cd0012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 61/85] fix: the source of dddot and ddddot keeps their
 argument

---
 plasTeX/Packages/amsmath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 1d49454..a443793 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -108,11 +108,11 @@ class Bmatrix(matrix):
 class smallmatrix(matrix):
     pass
 
-class dddot(math):
-    pass
+class dddot(Command):
+    args = 'self'
 
-class ddddot(math):
-    pass
+class ddddot(Command):
+    args = 'self'
 
 class DeclareMathOperator(Command):
     args = '* name:cs definition:nox'
-- 
2.43.0


From 3e5f0000e1011f06da6e36c2688e9635df46cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 62/85] fix: the source of an array keeps the rules after its
 last row

---
 plasTeX/Base/LaTeX/Arrays.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index b2200c6..3cfb03e 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -502,9 +502,10 @@ class Array(Environment):
                         cell.style.update(spec.style)
                 prev = row
 
-        # Pop empty rows
+        # Pop empty rows, but remember the rules as they were written
         for i in emptyrows:
-            self.pop(i)
+            row = self.pop(i)
+            (self[i-1] if i else self).rules = row
 
     @classmethod
     def compileColspec(cls, tex, colspec):
@@ -599,7 +600,15 @@ class Array(Environment):
                 argSource = ' '
             s.append('%sbegin{%s}%s' % (escape, name, argSource))
             if self.hasChildNodes():
-                for row in self:
+                rows = []
+                for row in [self] + list(self):
+                    if row is not self:
+                        rows.append(row)
+                    # Rules that had a row of their own
+                    while getattr(row, 'rules', None) is not None:
+                        row = row.rules
+                        rows.append(row)
+                for row in rows:
                     for cell in row:
                         s.append(sourceChildren(cell, par=not(self.mathMode)))
                         if cell.endToken is not None:
-- 
2.43.0


From 22e0f5af8f83a1780901021f73d46f23ff3e2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 63/85] fix: the lines of substack are not rows of the array
 around it

---
 plasTeX/Packages/amsmath.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index a443793..85075d8 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -114,6 +114,21 @@ class dddot(Command):
 class ddddot(Command):
     args = 'self'
 
+class substack(Command):
+    args = 'self'
+
+    # The lines are not rows of the array that contains this command
+    class EndLine(Command):
+        macroName = '\\'
+        args = '* [ space ]'
+
+    def parse(self, tex):
+        self.ownerDocument.context.push(self)
+        try:
+            return Command.parse(self, tex)
+        finally:
+            self.ownerDocument.context.pop(self)
+
 class DeclareMathOperator(Command):
     args = '* name:cs definition:nox'
     def invoke(self, tex):
-- 
2.43.0


From 6a4d7752e43572124c129fbeffda7488a5e5b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 64/85] fix: the lines of gathered are not rows of the array
 around it

---
 plasTeX/Packages/amsmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 85075d8..e4ab8c5 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -67,7 +67,7 @@ class EquationStar(_AMSEquationStar):
 class aligned(_AMSEquationStar):
     pass
 
-class gathered(MathEnvironmentPre):
+class gathered(_AMSEquationStar):
     pass
 
 class cases(_AMSEquation):
-- 
2.43.0


From 514ec0a6cfeded94cf2bdcfce340bb41a569e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 65/85] fix: titles are escaped in the attributes of HTML5
 links

---
 plasTeX/Renderers/HTML5/Index.jinja2s                |  2 +-
 .../HTML5/Themes/default/default-layout.jinja2       | 12 ++++++------
 .../HTML5/Themes/default/document-layout.jinja2      | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..9a8523a 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
index c31176a..29dd574 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -144,13 +144,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
index a7aa818..455ebd1 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -143,13 +143,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
-- 
2.43.0


From 0f523dcdd1bd4d5c3fc1c8fc8186ae51884d3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 66/85] fix: the note of a citation is escaped in HTML5 pages

---
 plasTeX/Renderers/HTML5/Bibliography.jinja2s | 2 +-
 plasTeX/Renderers/HTML5/natbib.jinja2s       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Bibliography.jinja2s b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
index 623b66d..1d48a0f 100644
--- a/plasTeX/Renderers/HTML5/Bibliography.jinja2s
+++ b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
@@ -20,7 +20,7 @@ name: cite
   {% if item.idref and item.idref.bibitem.url %}
   <a href="{{ item.idref.bibitem.url }}">{{ item }}</a>
   {% else %}
-  {{ item }}
+  {{ item | e if item.nodeType == item.TEXT_NODE else item }}
   {% endif %}
 {% endfor %}
 </span>
diff --git a/plasTeX/Renderers/HTML5/natbib.jinja2s b/plasTeX/Renderers/HTML5/natbib.jinja2s
index 0a07470..bbb0884 100644
--- a/plasTeX/Renderers/HTML5/natbib.jinja2s
+++ b/plasTeX/Renderers/HTML5/natbib.jinja2s
@@ -7,7 +7,7 @@ type: xml
 	{% if item.idref and item.idref.bibitem.url %}
 	<a href="{{ item.idref.bibitem.url }}" >{{ item }}</a>
 	{% else %}
-	{{ item }}
+	{{ item | e if item.nodeType == item.TEXT_NODE else item }}
 	{% endif %}
 {% endfor %}
 </span>
-- 
2.43.0


From 16f65e4cebc999843e35191c5f03a3fa96ad1e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 67/85] fix: URLs are escaped once, in HTML5 and in XHTML pages

---
 plasTeX/Packages/hyperref.py             |  4 +++-
 plasTeX/Renderers/HTML5/hyperref.jinja2s | 10 +++++-----
 plasTeX/Renderers/XHTML/hyperref.zpts    | 10 +++++-----
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 46b276e..b3598fe 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -15,7 +15,9 @@ import urllib.parse
 def addBaseURL(self, urlarg):
     try:
         baseurl = self.ownerDocument.userdata['packages']['hyperref']['baseurl']
-        return urllib.parse.urljoin(baseurl, self.attributes[urlarg])
+        return self.ownerDocument.createTextNode(
+            urllib.parse.urljoin(baseurl.textContent,
+                                 self.attributes[urlarg].textContent))
     except KeyError: pass
     return self.attributes[urlarg]
 
diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 437e7a9..f32469d 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -1,22 +1,22 @@
 name: href
-<a href ="{{ obj.attributes.url}}">{{ obj }}</a>
+<a href ="{{ obj.attributes.url.textContent | e }}">{{ obj }}</a>
 
 name: url
-<a href="{{ obj.attributes.url or obj }}">{{ obj.attributes.url or obj }}</a>
+<a href="{{ obj.attributes.url.textContent | e }}">{{ obj.attributes.url.textContent | e }}</a>
 
 name: nolinkurl
-{{ obj.attributes.url }}
+{{ obj.attributes.url.textContent | e }}
 
 name: hyperbaseurl
 
 name: hyperimage
-<img src="{{ obj.attributes.url }}" />
+<img src="{{ obj.attributes.url.textContent | e }}" />
 
 name: hyperdef
 <a name="{{ obj.attributes.category }}.{{ obj.attributes.name }}" >{{ obj }}</a>
 
 name: hyperref
-<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url }}#{{ obj.attributes.category }}.{{ obj.attributes.name}}{% endif %}" >{{ obj }}</a>
+<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url.textContent | e }}#{{ obj.attributes.category }}.{{ obj.attributes.name}}{% endif %}" >{{ obj }}</a>
 
 name: hyperlink
 <a href="{{ obj.idref.label.url }}" >{{ obj }}</a>
diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index e8919f5..db8a295 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -1,22 +1,22 @@
 name: href
-<a tal:attributes="href self/attributes/url" tal:content="self">link text</a>
+<a tal:attributes="href self/attributes/url/textContent" tal:content="self">link text</a>
 
 name: url
-<a tal:attributes="href self/attributes/url | self" tal:content="self/attributes/url | self">link text</a>
+<a tal:attributes="href self/attributes/url/textContent" tal:content="self/attributes/url/textContent">link text</a>
 
 name: nolinkurl
-<span tal:replace="self/attributes/url">url</span>
+<span tal:replace="self/attributes/url/textContent">url</span>
 
 name: hyperbaseurl
 
 name: hyperimage
-<img tal:attributes="src self/attributes/url" />
+<img tal:attributes="src self/attributes/url/textContent" />
 
 name: hyperdef
 <a tal:attributes="name string:${self/attributes/category}.${self/attributes/name}" tal:content="self">text</a>
 
 name: -hyperref
-<a tal:attributes="href string:${self/attributes/url}#${self/attributes/category}.${self/attributes/name}" tal:content="self">link text</a>
+<a tal:attributes="href string:${self/attributes/url/textContent}#${self/attributes/category}.${self/attributes/name}" tal:content="self">link text</a>
 
 name: hyperref
 <a tal:attributes="href self/idref/label/url" tal:content="self">link text</a>
-- 
2.43.0


From e9ca3a82c9d8cb7bdd1402fece8aec5c2575df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 68/85] fix: text that looks like an image placeholder stays as
 it is

---
 plasTeX/Renderers/PageTemplate/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 527118f..c0b5013 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -604,7 +604,7 @@ class PageTemplate(BaseRenderer):
 
     def processFileContent(self, document, s):
         # Add width, height, and depth to images
-        s = re.sub(r'&amp;(\S+)-(width|height|depth);(?:&amp;([a-z]+);)?',
+        s = re.sub(r'&amp;([^\s&]+)-(width|height|depth);(?:&amp;([a-z]+);)?',
                    self.setImageData, s)
 
         # Convert characters >127 to entities
@@ -645,7 +645,8 @@ class PageTemplate(BaseRenderer):
                 return str(getattr(img, parameter))
         except KeyError: pass
 
-        return '&%s-%s;' % (filename, parameter)
+        # Not a placeholder after all
+        return m.group(0)
 
 
 # Set Renderer variable so that plastex will know how to load it
-- 
2.43.0


From 73058b42a32c555b830bc216fb069494512c071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 69/85] fix: characters the output encoding lacks are written
 as references

---
 plasTeX/Renderers/PageTemplate/__init__.py | 1 +
 plasTeX/Renderers/__init__.py              | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index c0b5013..37e1cb7 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -280,6 +280,7 @@ class PageTemplate(BaseRenderer):
 
     outputType = str
     fileExtension = '.xml'
+    outputErrors = 'xmlcharrefreplace'
 
     def __init__(self, *args, **kwargs):
         BaseRenderer.__init__(self, *args, **kwargs)
diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..3d86fe5 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -199,7 +199,7 @@ class Renderable(object):
                 # Write the file content
 
                 enc = child.config['files']['output-encoding']
-                with open(filename, 'w', encoding=enc) as f:
+                with open(filename, 'w', encoding=enc, errors=r.outputErrors) as f:
                     f.write(val)
 
                 status.info(' ] ')
@@ -359,6 +359,9 @@ class Renderer(dict):
     imageUnits = '&${units};'
     encodingErrors = 'replace'
 
+    # Error handling for characters that the output encoding does not have
+    outputErrors = 'strict'
+
     def __init__(self, data=None):
         dict.__init__(self, data or {})
 
@@ -568,7 +571,7 @@ class Renderer(dict):
             if isinstance(postProcess, collections.abc.Callable):
                 s = postProcess(document, s)
 
-            with open(f, 'w', encoding=encoding) as fd:
+            with open(f, 'w', encoding=encoding, errors=self.outputErrors) as fd:
                 fd.write(''.join(s))
 
     def find(self, keys, default=None):
-- 
2.43.0


From 41cafb301be1d3e6c2f8f695d1c23b321232c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 70/85] fix: XHTML pages show the title of a proof

---
 plasTeX/Renderers/XHTML/Thms.zpts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/Thms.zpts b/plasTeX/Renderers/XHTML/Thms.zpts
index cd65489..bc5212a 100644
--- a/plasTeX/Renderers/XHTML/Thms.zpts
+++ b/plasTeX/Renderers/XHTML/Thms.zpts
@@ -7,3 +7,12 @@ name: thmenv
 </div>
 <div tal:attributes="class string:${self/thmName}_thmcontent" tal:content="self"></div>
 </div>
+
+name: proof
+<div class="proof_wrapper" tal:attributes="id self/id">
+<div class="proof_heading">
+<span class="proof_caption" tal:condition="self/caption" tal:content="self/caption">Proof of something</span>
+<span class="proof_caption" tal:condition="not:self/caption" tal:content="context/terms/proof">Proof</span>
+</div>
+<div class="proof_content" tal:content="self"></div>
+</div>
-- 
2.43.0


From 1c63c7900d322ebee692de6bc80821b19b1186e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 71/85] fix: the text content of a tie is a space

---
 plasTeX/Base/TeX/Text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/Base/TeX/Text.py b/plasTeX/Base/TeX/Text.py
index 4060bf5..c80def9 100644
--- a/plasTeX/Base/TeX/Text.py
+++ b/plasTeX/Base/TeX/Text.py
@@ -141,6 +141,10 @@ class allowbreak(Command):
 class ControlSpace(Command):
     macroName = 'active::~'
 
+    @property
+    def textContent(self):
+        return self.ownerDocument.createTextNode('\u00A0')
+
 class slash(Command):
     str = '/'
 
-- 
2.43.0


From 1f8317a8c6cca26051a093bf1a77b1a6e4297d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 72/85] fix: amsthm keeps the name of a theorem as it was
 written

---
 plasTeX/Packages/amsthm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/amsthm.py b/plasTeX/Packages/amsthm.py
index 96a53be..e072cd4 100755
--- a/plasTeX/Packages/amsthm.py
+++ b/plasTeX/Packages/amsthm.py
@@ -165,7 +165,7 @@ class newtheorem(Command):
         self.parse(tex)
         a = self.attributes
         name = str(a['name'])
-        header = a['header'].textContent
+        header = a['header']
         star = a['*modifier*'] == '*'
         parent = a['parent']
         shared = a['shared']
-- 
2.43.0


From 82eae2f53afde5732a0f9039f4bc0128550b7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 73/85] fix: the note of a citation is one piece of the
 citation

---
 plasTeX/Base/LaTeX/Bibliography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index 374c10f..c6441ab 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -108,7 +108,9 @@ class cite(Command):
     def postnote(self):
         a = self.attributes
         if a['text'] is not None:
-            return a['text']
+            node = self.ownerDocument.createElement('bgroup')
+            node.extend(a['text'])
+            return node
         return ''
 
     def citation(self):
-- 
2.43.0


From e378fdb8a9b19e190c86a6df34c90689931f7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 74/85] fix: the python theme shows the footnotes of the start
 page

---
 plasTeX/Renderers/XHTML/Themes/python/document-layout.html | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
index 3b6a02c..e265a9c 100644
--- a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
+++ b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
@@ -53,6 +53,13 @@
 
 <div tal:content="self">section content</div>
 
+<div id="footnotes" tal:condition="self/footnotes">
+<p><b>Footnotes</b></p>
+<ol>
+<li tal:repeat="footnote self/footnotes" tal:content="footnote" tal:attributes="id footnote/id">footnote text</li>
+</ol>
+</div>
+
 <div tal:condition="self/tableofcontents" class="contents">
 <hr />
 <ul>
-- 
2.43.0


From 921d484d94b711db32af393f9570f0b755ed50b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 75/85] fix: registers are set in the document that assigns
 them only

---
 plasTeX/Context.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index dda2041..3b90024 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -774,7 +774,15 @@ class Context(object):
         """
         for value in list(context.values()):
             if ismacro(value):
-                self[macroName(value)] = value
+                name = macroName(value)
+                if isinstance(value, type) and issubclass(value, plasTeX.ParameterCommand):
+                    # Registers and parameters keep their value in the class,
+                    # so every document has classes of its own
+                    current = self.contexts[0].get(name)
+                    if isinstance(current, type) and issubclass(current, value):
+                        continue
+                    value = type(value.__name__, (value,), {'__module__': value.__module__})
+                self[name] = value
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
-- 
2.43.0


From aa143453be8f8bcd6c2ed7953f6f72f0b4d7980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 76/85] fix: the level of the index and the bibliography is
 changed in article documents only

---
 plasTeX/Packages/article.py | 12 +++++-------
 plasTeX/Packages/natbib.py  |  4 +++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 0229531..da703f5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -1,17 +1,15 @@
 from plasTeX.Packages.report import *
-from plasTeX import Environment
 from plasTeX.Packages import report
 
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
     document.context['theequation'].format = '${equation}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    # These are sections in the documents of this class only
+    for name in ['theindex', 'printindex', 'bibliography']:
+        cls = document.context[name]
+        document.context[name] = type(name, (cls,),
+            {'counter': 'section', 'level': Command.SECTION_LEVEL})
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..c2175c1 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -50,7 +50,9 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            document.context['bibliography'] = type('bibliography',
+                (document.context['bibliography'],),
+                {'level': Base.section.level})
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
-- 
2.43.0


From 0b5b275f4f5b0765fbc37bb282ee56ae6a912379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 77/85] fix: math that is still open at the end of a document
 ends there

---
 plasTeX/Base/TeX/Primitives.py | 12 +++++++-----
 plasTeX/Context.py             |  3 +++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index ab6168c..a622192 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -46,9 +46,12 @@ class BoxCommand(Command):
     args = 'self'
     mathMode = False
     def parse(self, tex):
-        MathShift.inEnv.append(None)
-        Command.parse(self, tex)
-        MathShift.inEnv.pop()
+        inEnv = self.ownerDocument.context.mathShifts
+        inEnv.append(None)
+        try:
+            Command.parse(self, tex)
+        finally:
+            inEnv.pop()
         return self.attributes
 
 class hbox(BoxCommand): pass
@@ -64,7 +67,6 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
@@ -73,7 +75,7 @@ class MathShift(Command):
         account \mbox{}es.
 
         """
-        inEnv = type(self).inEnv
+        inEnv = self.ownerDocument.context.mathShifts
 
         current = self.ownerDocument.createElement('math')
         for t in tex.itertokens():
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 3b90024..b4fc9ae 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -238,6 +238,9 @@ class Context(object):
         # Depth of the context stack
         self.depth = 0
 
+        # Math environments that were opened by `$`, and None for each box
+        self.mathShifts = []
+
         # Holds the current environment name stack
         self._currenvir = []
 
-- 
2.43.0


From 31b86e205e3ca70e784b6dc1ef0a8f5e4dc5fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 78/85] fix: hyperref, verse and beamer change the arguments of
 commands in their documents only

---
 plasTeX/Packages/beamer.py   | 137 +++++++++++++++++++++++++++--------
 plasTeX/Packages/hyperref.py |   9 ++-
 plasTeX/Packages/verse.py    |   5 +-
 3 files changed, 114 insertions(+), 37 deletions(-)

diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..0b6c49f 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -1,6 +1,6 @@
 from plasTeX import Command, Environment
 from plasTeX.Base import textbf, textit, textsl, textrm, textsf
-from plasTeX.Base import List, label, newcommand, newenvironment
+from plasTeX.Base import label, newcommand, newenvironment
 from plasTeX.Base import renewcommand, renewenvironment
 from plasTeX.Base import itemize, enumerate_, description
 from plasTeX.Base import part, section, subsection, subsubsection
@@ -138,37 +138,110 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
+# The commands of LaTeX have more arguments in beamer documents (and in these
+# only, so they are redefined here rather than changed)
+
+class textbf(textbf):
+    args = '< overlay >' + textbf.args
+
+class textit(textit):
+    args = '< overlay >' + textit.args
+
+class textsl(textsl):
+    args = '< overlay >' + textsl.args
+
+class textrm(textrm):
+    args = '< overlay >' + textrm.args
+
+class textsf(textsf):
+    args = '< overlay >' + textsf.args
+
+class color(color):
+    args = '< overlay >' + color.args
+
+class label(label):
+    args = '< overlay >' + label.args
+
+class includegraphics(includegraphics):
+    args = '< overlay >' + includegraphics.args
+
+class newcommand(newcommand):
+    args = '< overlay >' + newcommand.args
+
+class renewcommand(renewcommand):
+    args = '< overlay >' + renewcommand.args
+
+class newenvironment(newenvironment):
+    args = '< overlay >' + newenvironment.args
+
+class renewenvironment(renewenvironment):
+    args = '< overlay >' + renewenvironment.args
+
+class itemize(itemize):
+    args = '[ overlay ]'
+
+    class item(itemize.item):
+        args = '< alert >' + itemize.item.args + '< alert2 >'
+
+class enumerate_(enumerate_):
+    args = '[ overlay ] [ template ]'
+
+    class item(enumerate_.item):
+        args = '< alert >' + enumerate_.item.args + '< alert2 >'
+
+class description(description):
+    args = '[ overlay ] [ longtext ]'
+
+    class item(description.item):
+        args = '< alert >' + description.item.args + '< alert2 >'
+
+class section(section):
+    args = '< overlay >' + section.args
+
+class subsection(subsection):
+    args = '< overlay >' + subsection.args
+
+class subsubsection(subsubsection):
+    args = '< overlay >' + subsubsection.args
+
+class part(part):
+    args = '< overlay >' + part.args
+
+class thebibliography(thebibliography):
+    class bibitem(thebibliography.bibitem):
+        args = '< overlay >' + thebibliography.bibitem.args
+
+class appendix(appendix):
+    args = '< overlay >' + appendix.args
+
+class hypertarget(hypertarget):
+    args = '< overlay >' + hypertarget.args
+
+class hyperlink(hyperlink):
+    args = '< overlay >' + hyperlink.args + '< overlay2 >'
+
+class tableofcontents(tableofcontents):
+    args = '[ options:dict ]' + tableofcontents.args
+
+class abstract(abstract):
+    args = '< overlay >' + abstract.args
+
+class verse(verse):
+    args = '< overlay >' + verse.args
+
+class quotation(quotation):
+    args = '< overlay >' + quotation.args
+
+class quote(quote):
+    args = '< overlay >' + quote.args
+
+class footnote(footnote):
+    # modify options int -> dict
+    args = '< overlay > [ options:dict ] self'
+
+class footnotetext(footnotetext):
+    # modify options int -> dict
+    args = '< overlay > [ options:dict ] self'
 
 class resetcounteronoverlays(Command):
     args = 'counter'
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index b3598fe..af63706 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -9,7 +9,7 @@ TO DO:
 """
 
 from plasTeX import Command, Environment
-from plasTeX.Base.LaTeX.Crossref import ref, pageref
+from plasTeX.Base.LaTeX import Crossref
 import urllib.parse
 
 def addBaseURL(self, urlarg):
@@ -23,8 +23,11 @@ def addBaseURL(self, urlarg):
 
 # Basic macros
 
-ref.args = '* %s' % ref.args
-pageref.args = '* %s' % pageref.args
+class ref(Crossref.ref):
+    args = '* %s' % Crossref.ref.args
+
+class pageref(Crossref.pageref):
+    args = '* %s' % Crossref.pageref.args
 
 class href(Command):
     args = 'url:url self'
diff --git a/plasTeX/Packages/verse.py b/plasTeX/Packages/verse.py
index 2259395..4a60844 100644
--- a/plasTeX/Packages/verse.py
+++ b/plasTeX/Packages/verse.py
@@ -1,6 +1,7 @@
-from plasTeX.Base.LaTeX.Quotations import verse
+from plasTeX.Base.LaTeX import Quotations
 
-verse.args = '[ width:nox ]'
+class verse(Quotations.verse):
+    args = '[ width:nox ]'
 
 class altverse(verse):
     pass
-- 
2.43.0


From c306e6861e4955b7bf022e34633e8d251c571866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 79/85] fix: citation aliases belong to the document that
 defines them

---
 plasTeX/Packages/natbib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index c2175c1..624465f 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -862,21 +862,21 @@ class citetext(Base.Command):
 
 class defcitealias(Base.Command):
     args = 'key:str text'
-    aliases = {}
     def invoke(self, tex):
         res = Base.Command.invoke(self, tex)
-        defcitealias.aliases[self.attributes['key']] = self.attributes['text']
+        aliases = self.ownerDocument.userdata['natbib'].setdefault('aliases', {})
+        aliases[self.attributes['key']] = self.attributes['text']
         return res
 
 class citetalias(citet):
     args = 'bibkeys:list:str'
     def citation(self):
-        return citet.citation(self, text=defcitealias.aliases.get(self.attributes['bibkeys'][0],''))
+        return citet.citation(self, text=self.ownerDocument.userdata['natbib'].get('aliases', {}).get(self.attributes['bibkeys'][0],''))
 
 class citepalias(citep):
     args = 'bibkeys:list:str'
     def citation(self):
-        return citep.citation(self, text=defcitealias.aliases.get(self.attributes['bibkeys'][0],''))
+        return citep.citation(self, text=self.ownerDocument.userdata['natbib'].get('aliases', {}).get(self.attributes['bibkeys'][0],''))
 
 class shortcites(Base.Command):
     args = 'bibkeys:list:str'
-- 
2.43.0


From 887478a98629d72fdbb3701668c275160fb6069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 80/85] fix: loading a language leaves the configuration as it
 was

---
 plasTeX/Context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index b4fc9ae..115ac1d 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -353,7 +353,7 @@ class Context(object):
         """
 
         if not self.languages:
-            files = document.config['document']['lang-terms']
+            files = list(document.config['document']['lang-terms'])
             files.append(os.path.join(os.path.dirname(__file__), 'i18n.xml'))
 
             LanguageParser(self.languages).parse(reversed(files))
-- 
2.43.0


From dc21104c3bd5b991fe36c282fe44d4bb16a19f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 81/85] fix: references to items have a target

---
 plasTeX/Renderers/HTML5/Lists.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Lists.zpts    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f387ee..23e9334 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -8,7 +8,7 @@ name: itemize
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li{% if item['@id'] and not item['@hasgenid'] %} id="{{ item.id }}"{% endif %}>{{ item }}</li>
 {% endfor %}
 </ol>
 
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 11c1d9c..1792148 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -5,7 +5,7 @@ name: itemize
 
 name: enumerate
 <ol class="enumerate">
-<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position"></li>
+<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position; id item/id"></li>
 </ol>
 
 name: description
-- 
2.43.0


From 47f43f884cc626176bee78e8c8af3bb0fd454397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 82/85] fix: references to the rows of a formula have a target
 in HTML5 pages

---
 plasTeX/Renderers/HTML5/Math.jinja2s | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Renderers/HTML5/Math.jinja2s b/plasTeX/Renderers/HTML5/Math.jinja2s
index 26cad1b..e878c7a 100644
--- a/plasTeX/Renderers/HTML5/Math.jinja2s
+++ b/plasTeX/Renderers/HTML5/Math.jinja2s
@@ -6,6 +6,9 @@ name: ensuremath
 
 name: displaymath equation* eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
 <div class="displaymath" id="{{ obj.id }}">
+{% for row in obj if row.ref and row.id != obj.id %}
+  <span id="{{ row.id }}"></span>
+{% endfor %}
   {{ obj.mathjax_source }}
 </div>
 
-- 
2.43.0


From cf3460391b423d2ad4f21ab3e0c8ffb0a7f39e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 83/85] fix: links to the index have a target, see entries of
 the index are no links

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 6 +++++-
 plasTeX/Renderers/XHTML/Index.zpts    | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 9a8523a..47ce775 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -1,6 +1,6 @@
 name: theindex printindex
 {% set groups = obj.groups %}
-<h1>{{ obj.title }}</h1>
+<h1 id="{{ obj.id }}">{{ obj.title }}</h1>
 
 <nav class="index-groups">
 {% for group in groups %}
@@ -19,7 +19,11 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
+    {% if page.normal %}
     <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    {% else %}
+    <span class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</span>
+    {% endif %}
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/XHTML/Index.zpts b/plasTeX/Renderers/XHTML/Index.zpts
index e3f5efd..a4f41c0 100644
--- a/plasTeX/Renderers/XHTML/Index.zpts
+++ b/plasTeX/Renderers/XHTML/Index.zpts
@@ -1,5 +1,5 @@
 name: theindex printindex
-<h1 tal:content="self/title"></h1>
+<h1 tal:content="self/title" tal:attributes="id self/id"></h1>
 
 <div tal:define="groups self/groups">
 
-- 
2.43.0


From 870b6c802a54d4dc46a1988ef5d34869e4392980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 84/85] fix: members that are not mixed in any more are
 forgotten

---
 plasTeX/Renderers/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 3d86fe5..b528bd9 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -66,6 +66,7 @@ def unmix(base, mix=None):
                     setattr(base, key, value[1])
                 else:
                     delattr(base, key)
+                del base._mixed_[key]
         if not base._mixed_:
             del base._mixed_
 
-- 
2.43.0


From 4629700f561d3422f2dabf7ada85118ded01402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 85/85] fix: column specifications do not attach the document
 to the Array class

---
 plasTeX/Base/LaTeX/Arrays.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 3cfb03e..d8d413f 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -524,11 +524,13 @@ class Array(Environment):
         before = None
         leftborder = None
 
-        tex.pushToken(Array)
+        # An instance, since tokens are given their place in the document
+        end = Array()
+        tex.pushToken(end)
         tex.pushTokens(colspec)
 
         for tok in tex.itertokens():
-            if tok is Array:
+            if tok is end:
                 break
 
             if tok.isElementContentWhitespace:
-- 
2.43.0

