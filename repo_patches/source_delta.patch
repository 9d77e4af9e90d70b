From 41765f70a0bd8e6c1500ec0fdcb05dbd292b7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 001/139] fix: ALL header rules see the header name as written
 in the message

---
 oa/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..a7cfb8f 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -141,6 +141,8 @@ class Message(oa.context.MessageContext):
         self.msg = email.message_from_string(self.raw_msg)
         self.headers = _Headers()
         self.raw_headers = _Headers()
+        # Maps the lower case header names to the name used in the message
+        self.header_names = dict()
         self.addr_headers = _Headers()
         self.name_headers = _Headers()
         self.mime_headers = _Headers()
@@ -315,8 +317,9 @@ class Message(oa.context.MessageContext):
         Yields strings like "<header_name>: <header_value>"
         """
         for header_name in self.raw_headers:
+            display_name = self.header_names.get(header_name, header_name)
             for value in self.get_decoded_header(header_name):
-                yield "%s: %s" % (header_name, value)
+                yield "%s: %s" % (display_name, value)
 
     def _create_plugin_tags(self, header):
         for key, value in header.items():
@@ -441,6 +444,7 @@ class Message(oa.context.MessageContext):
                 break
 
         for name, raw_value in self.msg._headers:
+            self.header_names.setdefault(name.lower(), name)
             self.raw_headers[name].append(raw_value)
 
         # XXX This is strange, but it's what SA does.
-- 
2.43.0


From b355dc7d922346f82335b0f88b7e9204278bf020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 002/139] fix: a four-value score whose first value is 0 does
 not disable the rule

---
 oa/rules/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index a36bdc2..b03c309 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -73,7 +73,7 @@ class BaseRule(object):
                 self.score = 0
                 return
 
-        if len(self._scores) != 4 or self.score == 0:
+        if len(self._scores) != 4:
             # Nothing to do
             return
         flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]
-- 
2.43.0


From 3ce185854f16ffeed127094a627140b0b58573fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 003/139] fix: meta negation binds like Perl's and invalid
 metas are rejected alone

---
 oa/rules/meta.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index d9e85ba..fbe5356 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -12,13 +12,38 @@ from oa.regex import Regex
 CONVERT = (
     ("&&", " and "),
     ("||", " or "),
-    ("!", " not "),
 )
 
 # Simple protection against recursion, or infinite loops with the meta rules.
 MAX_RECURSION = 10
 
 _SUBRULE_P = Regex(r"([_a-zA-Z]\w*)(?=\W|$)")
+_NOT_P = Regex(r"!(?!=)")
+# The operand of a negation: any further negations, then either the start of
+# a group or a single term.
+_OPERAND_P = Regex(r"[!\s]*(?:[\w.]+(?:\(msg\))?|\()")
+
+
+def _convert_not(rule):
+    """Replace the negations with the Python equivalent.
+
+    The Perl negation binds tighter than any arithmetic or comparison
+    operator, so the negated term is enclosed in parentheses.
+    """
+    negation = _NOT_P.search(rule)
+    if negation is None:
+        return rule
+    before, after = rule[:negation.start()], rule[negation.end():]
+    operand = _OPERAND_P.match(after)
+    if operand is None:
+        raise ValueError("nothing to negate in %r" % rule)
+    end = operand.end()
+    depth = 1 if after[end - 1] == "(" else 0
+    while depth and end < len(after):
+        depth += {"(": 1, ")": -1}.get(after[end], 0)
+        end += 1
+    return "%s(not %s)%s" % (before, _convert_not(after[:end]),
+                             _convert_not(after[end:]))
 
 
 class MetaRule(oa.rules.base.BaseRule):
@@ -49,10 +74,14 @@ class MetaRule(oa.rules.base.BaseRule):
         rule = _SUBRULE_P.sub(r"\1(msg)", self.rule)
         for operator, repl in CONVERT:
             rule = rule.replace(operator, repl)
-        rule_match = "match = lambda msg: %s" % rule
         # XXX we should check for potentially unsafe code or run it in
         # XXX RestrictedPython.
-        _code_obj = compile(rule_match, "<meta>", "exec")
+        try:
+            rule_match = "match = lambda msg: %s" % _convert_not(rule)
+            _code_obj = compile(rule_match, "<meta>", "exec")
+        except (SyntaxError, ValueError) as e:
+            raise oa.errors.InvalidRule(self.name, "Invalid meta rule %r: %s" %
+                                        (self.rule, e))
 
         oa.rules.base.BaseRule.postparsing(self, ruleset)
         for subrule_name in subrules:
-- 
2.43.0


From 5700c293944e52e3bba0a14d8c216d0a2a87f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 004/139] fix: header rules split on the first operator and
 reject unknown modifiers; mimeheader honours priority

---
 oa/rules/header.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 38c9a94..1b4f37e 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -5,6 +5,16 @@ import oa.errors
 import oa.rules.base
 
 
+def _get_match_op(value):
+    """Get the match operator of this rule value, or None if there isn't
+    one. The pattern itself might contain any of them too.
+    """
+    operators = [op for op in ("=~", "!~") if op in value]
+    if not operators:
+        return None
+    return min(operators, key=value.index)
+
+
 class MimeHeaderRule(oa.rules.base.BaseRule):
     """Abstract class for all MIME header rules."""
     _rule_type = "BODY: "
@@ -18,11 +28,8 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"].strip()
 
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-        else:
+        match_op = _get_match_op(value)
+        if match_op is None:
             raise oa.errors.InvalidRule(name, "Missing match operator")
 
         header_name, pattern = value.split(match_op, 1)
@@ -33,6 +40,7 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
             kwargs["header_name"] = header_name.strip()
             if mod == "raw":
                 return _PatternMimeRawHeaderRule(name, **kwargs)
+            raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
         else:
             kwargs["header_name"] = header_name.strip()
             return _PatternMimeHeaderRule(name, **kwargs)
@@ -46,7 +54,9 @@ class _PatternMimeHeaderRule(MimeHeaderRule):
     def __init__(self, name, pattern=None, header_name=None, score=None,
                  desc=None, priority=0, tflags=None):
         super(_PatternMimeHeaderRule, self).__init__(name, score=score,
-                                                     desc=desc, tflags=tflags)
+                                                     desc=desc,
+                                                     priority=priority,
+                                                     tflags=tflags)
         self._header_name = header_name
         self._pattern = pattern
 
@@ -82,12 +92,7 @@ class HeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"]
 
-        match_op = None
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-
+        match_op = _get_match_op(value)
         if match_op is not None:
             header_name, pattern = value.split(match_op, 1)
             header_name = header_name.strip()
@@ -108,12 +113,14 @@ class HeaderRule(oa.rules.base.BaseRule):
                     return _PatternAddrHeaderRule(name, **kwargs)
                 if mod == "name":
                     return _PatternNameHeaderRule(name, **kwargs)
+                raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
             else:
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
-            kwargs["header_name"] = value.lstrip("exists:").strip()
+            kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
+        raise oa.errors.InvalidRule(name, "Missing match operator")
 
 
 class _ExistsHeaderRule(HeaderRule):
-- 
2.43.0


From 72c795b95823b507b15714809fa5f539e0d4a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 005/139] fix: eval rule arguments may contain commas and bad
 ones only reject the rule

---
 oa/rules/eval_.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 0bba136..759c689 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -36,14 +36,13 @@ class EvalRule(oa.rules.base.BaseRule):
             eval_rule_name, eval_args = _EVAL_RULE_P.match(eval_rule).groups()
             self.eval_rule_name = eval_rule_name
             if eval_args:
-                self.eval_args = tuple(
-                        eval(arg) for arg in eval_args.split(","))
+                self.eval_args = eval("(%s,)" % eval_args)
             else:
                 self.eval_args = tuple()
         except (TypeError, ValueError, AttributeError):
             raise oa.errors.InvalidRule(self.name, "Invalid eval rule: %s" %
                                         eval_rule)
-        except SyntaxError:
+        except (SyntaxError, NameError, ArithmeticError, LookupError):
             err_msg = "Invalid arguments for eval rule: %s" % eval_rule
             raise oa.errors.InvalidRule(self.name, err_msg)
 
@@ -79,7 +78,10 @@ class EvalRule(oa.rules.base.BaseRule):
     @staticmethod
     def get_rule_kwargs(data):
         kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
-        kwargs["eval_rule"] = data['value'].lstrip('eval:').strip()
+        eval_rule = data['value']
+        if eval_rule.startswith('eval:'):
+            eval_rule = eval_rule[len('eval:'):]
+        kwargs["eval_rule"] = eval_rule.strip()
         if "target" in data:
             kwargs["target"] = data['target']
         return kwargs
-- 
2.43.0


From 5a8692f8056dc34629c7df8622fc3a6e858d0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 006/139] fix: uri_detail rules honour score, describe,
 priority, tflags, text and escaped slashes

---
 oa/plugins/uri_detail.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 5d530c1..cb50aca 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -11,11 +11,12 @@ except ImportError:
 
 import oa.regex
 import oa.rules.uri
+import oa.rules.base
 import oa.plugins.base
 import oa.html_parser
 
 URI_DRREG = oa.regex.Regex(
-        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+(?P<regex>/.*?/)")
+        r"(?P<key>\w+)\s+(?P<op>[=!]~)\s+(?P<regex>/(?:\\.|[^\\/])*/[a-z]*)")
 
 
 class URIDetailRule(oa.rules.uri.URIRule):
@@ -23,8 +24,11 @@ class URIDetailRule(oa.rules.uri.URIRule):
     """
     _rule_type = "uri_detail"
 
-    def __init__(self, name, pattern, score=None, desc=None):
-        super(URIDetailRule, self).__init__(name, pattern, score, desc)
+    def __init__(self, name, pattern, score=None, desc=None, priority=0,
+                 tflags=None):
+        super(URIDetailRule, self).__init__(name, pattern, score=score,
+                                            desc=desc, priority=priority,
+                                            tflags=tflags)
 
     def check_single_item(self, value):
         """Checks one item agains the patterns, return True if all
@@ -35,7 +39,11 @@ class URIDetailRule(oa.rules.uri.URIRule):
                 # Does not match...
                 return False
             data = value[key]
-            match = regex.match(data)
+            if isinstance(data, list):
+                # There can be more than one text for the same link.
+                match = any(regex.match(item) for item in data)
+            else:
+                match = regex.match(data)
             # All items should match to return True.
             if not match:
                 return False
@@ -53,13 +61,14 @@ class URIDetailRule(oa.rules.uri.URIRule):
 
     @staticmethod
     def get_rule_kwargs(data):
+        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
         rule_value = data["value"]
         checks = URI_DRREG.findall(rule_value)
         patterns = []
         for key, oper, regex in checks:
             pyregex = oa.regex.perl2re(regex, oper)
             patterns.append((key, pyregex))
-        kwargs = {"pattern": patterns}
+        kwargs["pattern"] = patterns
         return kwargs
 
 
-- 
2.43.0


From 8a0f553b2499aaaa51fc968465b8ff809a678241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 007/139] fix: the report of a short-circuited message
 describes the rule that stopped it

---
 oa/plugins/short_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..81e6dc3 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -37,6 +37,10 @@ class ShortCircuitRule(object):
         # Add the score of the current rule (this will
         # be skipped in the ruleset otherwise
         msg.rules_checked[self.rule.name] = result
+        if isinstance(result, str):
+            msg.rules_descriptions[self.rule.name] = result
+        else:
+            msg.rules_descriptions[self.rule.name] = self.rule.description
         msg.score += self.rule.score
 
         if self.stype == "spam":
-- 
2.43.0


From 8c0b4f12b054de7fbf8e7065bec45bea7f1f3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 008/139] fix: a malformed HTML part neither aborts the scan
 nor hides its trailing text

---
 oa/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index a7cfb8f..0d31148 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -187,7 +187,9 @@ class Message(oa.context.MessageContext):
         stripper = _ParseHTML(data)
         try:
             stripper.feed(payload)
-        except (UnicodeDecodeError, html.parser.HTMLParseError):
+            # Process any text after the last complete tag
+            stripper.close()
+        except (ValueError, AssertionError, NotImplementedError):
             # We can't parse the HTML, so just strip it.  This is still
             # better than including generic HTML/CSS text.
             pass
-- 
2.43.0


From 4bc5957c3327e29c0547e51467134dbd84772e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 009/139] fix: text parts are decoded the same way in every
 transfer encoding

---
 oa/message.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 0d31148..150a2db 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -54,6 +54,10 @@ IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
 STRICT_CHARSETS = frozenset(("quopri-codec", "quopri", "quoted-printable",
                              "quotedprintable"))
 
+# Transfer encodings that must be decoded to get the text.
+TRANSFER_ENCODINGS = frozenset(("quoted-printable", "base64", "x-uuencode",
+                                "uuencode", "uue", "x-uue"))
+
 
 class _ParseHTML(html.parser.HTMLParser):
     """Extract data from HTML parts."""
@@ -495,6 +499,22 @@ class Message(oa.context.MessageContext):
         for header in self.received_headers:
             self.hostname_with_ip.append((header["rdns"], header["ip"]))
 
+    @staticmethod
+    def _is_decoded(part, payload):
+        """Check if this payload, as found in the message, is the text itself.
+
+        The message is decoded as a whole, so the parts without any transfer
+        encoding that are not plain ASCII no longer have a charset.
+        """
+        encoding = str(part.get("Content-Transfer-Encoding", "")).lower()
+        if encoding.strip() in TRANSFER_ENCODINGS:
+            return False
+        try:
+            payload.encode("ascii")
+        except UnicodeError:
+            return True
+        return False
+
     @staticmethod
     def _iter_parts(msg):
         """Extract and decode the text parts from the parsed email message.
@@ -504,6 +524,10 @@ class Message(oa.context.MessageContext):
         """
         for part in msg.walk():
             if part.get_content_maintype() == "text":
+                raw_payload = part.get_payload()
+                if Message._is_decoded(part, raw_payload):
+                    yield raw_payload, part
+                    continue
                 payload = part.get_payload(decode=True)
 
                 charset = part.get_content_charset()
@@ -514,12 +538,12 @@ class Message(oa.context.MessageContext):
                     errors = "strict"
                 try:
                     payload = payload.decode(charset, errors)
-                except (LookupError, UnicodeError, AssertionError):
+                except (LookupError, ValueError, AssertionError):
                     try:
                         payload = payload.decode("ascii", "ignore")
                     except UnicodeError:
                         continue
-                yield payload, part
+                yield Message.translate_line_breaks(payload), part
             else:
                 yield None, part
 
-- 
2.43.0


From d18cf3d45181b95596a3940e3b21643cf4c723bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 010/139] fix: an undecodable header is used as is instead of
 aborting the scan

---
 oa/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 150a2db..99f24e5 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -208,13 +208,13 @@ class Message(oa.context.MessageContext):
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-            return
+            return str(header)
 
         for value, encoding in decoded_header:
             if encoding:
                 try:
                     parts.append(value.decode(encoding, "ignore"))
-                except (LookupError, UnicodeError, AssertionError):
+                except (LookupError, ValueError, AssertionError):
                     continue
             else:
                 try:
-- 
2.43.0


From 62dd60422e6a1290161a7d74e1703c22ef584171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 011/139] fix: an empty or oversized pattern only rejects its
 own rule

---
 oa/regex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index f7de36b..5ac3174 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -85,7 +85,7 @@ def perl2re(pattern, match_op="=~"):
     """Convert a Perl type regex to a Python one."""
     # We don't need to consider the pre-flags
     pattern = pattern.strip().lstrip("mgs")
-    delim = pattern[0]
+    delim = pattern[:1]
     try:
         rev_delim = DELIMS[delim]
     except KeyError:
@@ -107,7 +107,7 @@ def perl2re(pattern, match_op="=~"):
         if match_op == "=~":
             return MatchPattern(re.compile(pattern, flags))
         elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))
-    except re.error as e:
+    except (re.error, OverflowError, RuntimeError) as e:
         raise oa.errors.InvalidRegex("Invalid regex %r: %s" % (pattern, e))
 
 
-- 
2.43.0


From cf4235908585eeb602090f7aab444e18c5fb6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:01 +0000
Subject: [PATCH 012/139] fix: conditional blocks nest, end with their file and
 match whole keywords

---
 oa/rules/parser.py | 58 +++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..4888dfd 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -105,7 +105,14 @@ class PADParser(object):
         # XXX This could be a default OrderedDict
         self.results = collections.OrderedDict()
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
-        self._ignore = False
+        # One entry for every block that is open, True if the lines in the
+        # current branch of the block must be skipped.
+        self._blocks = []
+
+    @property
+    def _ignore(self):
+        """Check if the current line is in a block that must be skipped."""
+        return any(self._blocks)
 
     @contextlib.contextmanager
     def _paranoid(self, *exceptions):
@@ -125,6 +132,7 @@ class PADParser(object):
         if not os.path.isfile(filename):
             self.ctxt.log.warn("Ignoring %s, not a file", filename)
             return
+        open_blocks = len(self._blocks)
         with open(filename, "rb") as rulef:
             for line_no, line in enumerate(rulef):
                 try:
@@ -133,6 +141,8 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+        # A block can't extend past the end of the file
+        del self._blocks[open_blocks:]
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
@@ -147,23 +157,7 @@ class PADParser(object):
         #     self._ignore = True
         #     return
 
-        if line.startswith("endif"):
-            self._ignore = False
-            return
-
-        if line.startswith("else"):
-            if self._ignore:
-                self._ignore = False
-            else:
-                self._ignore = True
-            return
-
-        if line.startswith("require_version"):
-            # XXX We don't really have any use for this now
-            # XXX Just skip it.
-            return
-
-        if not line or line.startswith("#") or self._ignore:
+        if not line or line.startswith("#"):
             return
 
         # Remove any comments
@@ -175,14 +169,34 @@ class PADParser(object):
             # Some plugin might know how to handle this line
             rtype, value = line, ""
 
+        if rtype == "endif":
+            if self._blocks:
+                self._blocks.pop()
+            return
+
+        if rtype == "else":
+            if self._blocks:
+                self._blocks[-1] = not self._blocks[-1]
+            return
+
+        if rtype == "ifplugin":
+            self._handle_ifplugin(value)
+            return
+
+        if self._ignore:
+            return
+
+        if rtype == "require_version":
+            # XXX We don't really have any use for this now
+            # XXX Just skip it.
+            return
+
         if rtype == "include":
             dirname = None
             if os.path.isabs(filename):
                 dirname = os.path.dirname(filename)
             self._handle_include(value, line, line_no, _depth,
                                  dirname=dirname)
-        elif rtype == "ifplugin":
-            self._handle_ifplugin(value)
         elif rtype == "loadplugin":
             self._handle_loadplugin(value)
         elif rtype in KNOWN_2_RTYPE or rtype in self.ctxt.cmds:
@@ -268,7 +282,9 @@ class PADParser(object):
             pass
         if plugin_name not in self.ctxt.plugins:
             self.ctxt.log.debug("Plugin %s not loaded, skipping.", plugin_name)
-            self._ignore = True
+            self._blocks.append(True)
+        else:
+            self._blocks.append(False)
 
     def _handle_loadplugin(self, value):
         """Handles the 'loadplugin' keyword."""
-- 
2.43.0


From 785acf0f1ad3789837b049b07bb62b4ba9624857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 013/139] fix: network lists belong to their context and ignore
 entries that are not networks

---
 oa/networks.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..d514a66 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,28 +72,34 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
 
     def __init__(self):
         self.log = logging.getLogger("oa-logger")
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
 
     @property
     def configured(self):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if not match:
+            return "", None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
-            network = ipaddress.ip_network(clean_value)
+            network = ipaddress.ip_network(clean_value, strict=False)
         except ValueError:
             return excluded, None
         return excluded, network
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid trusted network: %s", network_str)
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -101,6 +107,9 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid internal network: %s", network_str)
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -109,5 +118,8 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid msa network: %s", network_str)
+            return
         self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From 8e7cab5fc599ea3c38f1c8bbeb17dfca1daa9bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 014/139] fix: dns_test_interval is applied

---
 oa/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..3ac9eb6 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -320,6 +320,11 @@ class GlobalContext(_Context):
                           cport)
             self.dns.namerservers = nameservers
             self.dns.port = int(cport)
+        try:
+            self.dns.test_interval = self.conf["dns_test_interval"]
+        except (ValueError, OverflowError):
+            self.err("Invalid value for dns_test_interval: %s",
+                     self.conf["dns_test_interval"])
         self.dns.available = self.conf['dns_available']
 
     def _add_networks(self):
-- 
2.43.0


From 2b80f5d9b6ca7525a92cc9cdd7ff7fdbfab232e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 015/139] fix: any resolver failure is no answer;
 dns_query_restriction compares names as DNS does and ignores bad lines

---
 oa/dns_interface.py | 9 +++++----
 oa/rules/ruleset.py | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..085ba19 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -7,6 +7,7 @@ import logging
 import datetime
 
 import dns
+import dns.exception
 import dns.resolver
 import dns.reversename
 
@@ -152,6 +153,7 @@ class DNSInterface(object):
         if not self.query_restrictions:
             return False
 
+        qname = qname.rstrip(".").lower()
         while True:
             if qname in self.query_restrictions:
                 self.log.debug(self.query_restrictions)
@@ -182,14 +184,13 @@ class DNSInterface(object):
 
     def _query(self, qname, qtype):
         self.log.debug("Querying %s %s", qname, qtype)
-        if qtype == "PTR":
-            qname = dns.reversename.from_address(qname)
         try:
+            if qtype == "PTR":
+                qname = dns.reversename.from_address(qname)
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
-        except (dns.resolver.NoAnswer, dns.resolver.NoNameservers,
-                dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
+        except (dns.exception.DNSException, EnvironmentError) as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
         except (ValueError, IndexError, struct.error) as e:
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..31f7e12 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -307,15 +307,17 @@ class RuleSet(object):
 
         for value in self.conf['dns_query_restriction']:
             try:
-                option, qname = value.split(" ", 1)
+                option, qname = value.split(None, 1)
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
+                continue
 
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
                 continue
+            qname = qname.rstrip(".").lower()
             self.ctxt.dns.query_restrictions[qname] = option == "deny"
         dns_options = {"edns": "edns=4096",
                        "rotate": "norotate",
-- 
2.43.0


From a73a0fe5a1c6966cc6d6db055fe691dac1bf01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 016/139] fix: lang lines load under any locale, handle every
 option and split tflags

---
 oa/rules/parser.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 4888dfd..20a2584 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -205,18 +205,19 @@ class PADParser(object):
             except ValueError:
                 raise oa.errors.InvalidSyntax(filename, line_no, line,
                                               "Missing argument")
-            if rtype == "tflags":
-                value = value.split()
-
             if rtype == "lang":
-                locale.setlocale(locale.LC_ALL, '')
-                locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
-                if not locale_language.startswith(name):
+                try:
+                    locale.setlocale(locale.LC_ALL, '')
+                    locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
+                except (locale.Error, ValueError):
+                    locale_language = None
+                if not (locale_language or "").startswith(name):
                     self.ctxt.log.debug("Lang argument does not"
                                         "correspond with locales")
                     return
 
-                if "report" in value:
+                rtype = value.split(None, 1)[0]
+                if rtype not in KNOWN_2_RTYPE and rtype not in self.ctxt.cmds:
                     try:
                         rtype, value = value.split(None, 1)
                     except ValueError:
@@ -235,6 +236,9 @@ class PADParser(object):
                     raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                   "Missing argument")
 
+            if rtype == "tflags":
+                value = value.split()
+
             if name not in self.results:
                 self.results[name] = dict()
 
-- 
2.43.0


From 1536ad1549299ef8ac62b8e6887ace82d5a7ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 017/139] fix: an invalid option value only rejects its own
 line

---
 oa/rules/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 20a2584..38b9a0e 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -141,6 +141,11 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+                except oa.errors.PluginError as e:
+                    # The value of an option is not valid
+                    with self._paranoid(oa.errors.InvalidSyntax):
+                        raise oa.errors.InvalidSyntax(filename, line_no + 1,
+                                                      line, str(e))
         # A block can't extend past the end of the file
         del self._blocks[open_blocks:]
 
-- 
2.43.0


From 03dcfa174db5d8fd9b193468f3ead6b72f8f6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 018/139] fix: option defaults are not shared between contexts

---
 oa/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/conf.py b/oa/conf.py
index f6b4daf..bd155c4 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -1,5 +1,7 @@
 """Manage configuration option parsing."""
 
+import copy
+
 import oa.errors
 
 from datetime import timedelta
@@ -38,7 +40,8 @@ class Conf(object):
         self._plugin_name = self.__class__.__name__
         if self.options:
             for key, (dummy, value) in self.options.items():
-                self.set_global(key, value)
+                # The value may be changed in place by the append options
+                self.set_global(key, copy.copy(value))
 
     def __setitem__(self, key, value):
         self.set_global(key, value)
-- 
2.43.0


From 252c584b5452317ef80f7fa26711fa5277531ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 019/139] fix: malformed header modifications only reject their
 own line

---
 oa/rules/ruleset.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 31f7e12..130b386 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -154,12 +154,16 @@ class RuleSet(object):
         instead of added.
         """
         self.ctxt.log.debug("Adding header rule: %s (%s)", value, remove)
+        try:
+            if not remove:
+                msg_status, header_name, header_value = value.split(None, 2)
+            else:
+                msg_status, header_name = value.split(None, 1)
+                header_value = None
+        except ValueError:
+            raise oa.errors.InvalidRule("add_header", value)
         if not remove:
-            msg_status, header_name, header_value = value.split(None, 2)
             header_value = self._convert_tags(header_value)
-        else:
-            msg_status, header_name = value.split(None, 1)
-            header_value = None
 
         msg_status = msg_status.lower()
         if msg_status not in self.header_mod:
@@ -300,10 +304,14 @@ class RuleSet(object):
             self._convert_tags(value)
             for value in self.conf["unsafe_report"]
         )
-        for value in self.conf["add_header"]:
-            self._add_header_rule(value, False)
-        for value in self.conf["remove_header"]:
-            self._add_header_rule(value, True)
+        for option, remove in (("add_header", False), ("remove_header", True)):
+            for value in self.conf[option]:
+                try:
+                    self._add_header_rule(value, remove)
+                except oa.errors.InvalidRule as e:
+                    self.ctxt.err(e)
+                    if self.ctxt.paranoid:
+                        raise
 
         for value in self.conf['dns_query_restriction']:
             try:
-- 
2.43.0


From 4972ce161034e1ae782536ce8faa60be6cfaf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:28 +0000
Subject: [PATCH 020/139] fix: numbers that are not finite are invalid scores
 and option values

---
 oa/conf.py       | 24 ++++++++++++++++++++----
 oa/rules/base.py |  5 ++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/oa/conf.py b/oa/conf.py
index bd155c4..560dc01 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -1,12 +1,24 @@
 """Manage configuration option parsing."""
 
 import copy
+import math
 
 import oa.errors
 
 from datetime import timedelta
 
 
+def parse_float(value):
+    """Convert the string to a finite number.
+
+    Raises ValueError if that's not possible.
+    """
+    result = float(value)
+    if math.isnan(result) or math.isinf(result):
+        raise ValueError("Not a finite number: %s" % value)
+    return result
+
+
 class Conf(object):
     """Parses and stores values for options in the global
     context. The options must be defined in the `options`
@@ -89,7 +101,7 @@ class Conf(object):
         """Parse and set a float option."""
         try:
             if value:
-                self.set_global(global_key, float(value))
+                self.set_global(global_key, parse_float(value))
         except ValueError:
             raise oa.errors.PluginError("Invalid value for %s: %s" %
                                         (global_key, value))
@@ -99,13 +111,13 @@ class Conf(object):
         unit = ""
         try:
             if value:
-                value = float(value)
+                value = parse_float(value)
         except ValueError:
             unit = value[-1:]
             value = value[:-1]
             try:
                 if value:
-                    value = float(value)
+                    value = parse_float(value)
             except ValueError:
                 raise oa.errors.PluginError("Invalid value for %s: %s" %
                                             (global_key, value))
@@ -184,7 +196,11 @@ class Conf(object):
         """
         if self.options and key in self.options:
             set_func = getattr(self, "set_%s_option" % self.options[key][0])
-            set_func(key, value)
+            try:
+                set_func(key, value)
+            except OverflowError:
+                raise oa.errors.PluginError("Invalid value for %s: %s" %
+                                            (key, value))
             self.inhibit_further_callbacks()
 
 
diff --git a/oa/rules/base.py b/oa/rules/base.py
index b03c309..758a9cd 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -110,9 +110,12 @@ class BaseRule(object):
         """
         kwargs = dict()
         try:
-            kwargs["score"] = list(map(float, data["score"].strip().split()))
+            kwargs["score"] = [oa.conf.parse_float(value)
+                               for value in data["score"].strip().split()]
         except KeyError:
             pass
+        except ValueError:
+            raise oa.errors.InvalidRule(data["score"], "Invalid score value")
         try:
             kwargs["desc"] = data["describe"].strip()
         except KeyError:
-- 
2.43.0


From 1b103e472ba86b222964edfacffe683fba2e5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 021/139] fix: report templates keep literal text and
 TESTSSCORES shows the scores

---
 oa/rules/ruleset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 130b386..2c80aef 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -18,7 +18,7 @@ import oa
 import oa.errors
 import oa.regex
 
-_TAG_RE = oa.regex.Regex(r"(_([A-Z_]*?)_)")
+_TAG_RE = oa.regex.Regex(r"(_([A-Z]+)_)")
 
 _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 [
@@ -89,7 +89,7 @@ class RuleSet(object):
                 data["TESTS"] = ",".join(matched_rules)
 
         if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, int(result))
+            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
                              for name, result in msg.rules_checked.items()
                              if result]
             if not matched_rules:
@@ -125,7 +125,7 @@ class RuleSet(object):
         text = text.strip("'\"")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
-        return _TAG_RE.sub(r"%(\2)s", text)
+        return _TAG_RE.sub(r"%(\2)s", text.replace("%", "%%"))
 
     def get_report(self, msg):
         """Get the Spam report for this message
-- 
2.43.0


From 6736adfd9a482679a51ca8bdb7841a157776df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 022/139] fix: multi-line header values stay in their header
 and X-Spam-Report marks only spam

---
 oa/rules/ruleset.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 2c80aef..39c570d 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -180,9 +180,9 @@ class RuleSet(object):
             newmsg = email.message_from_string(msg.raw_msg)
         else:
             newmsg = self._get_bounce_message(msg)
-        if self.conf["report_safe"] == 0:
+        if spam and self.conf["report_safe"] == 0:
             newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+                              self._fold(self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -206,7 +206,16 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                newmsg.add_header(name,
+                                  self._fold(self._interpolate(value, msg)))
+
+    @staticmethod
+    def _fold(value):
+        """Indent the lines of a multi-line value so that they can all be
+        stored in one header.
+        """
+        return "\n\t".join(line for line in value.strip().splitlines()
+                            if line.strip())
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From e57af5d8520b4727987f7a0b71063cc4fb8d5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 023/139] fix: a plugin that cannot be loaded is skipped and
 keeps the loaded one

---
 oa/context.py | 52 +++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 3ac9eb6..f135807 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -169,33 +169,37 @@ class GlobalContext(_Context):
     def load_plugin(self, name, path=None):
         """Load the specified plugin from the given path."""
         self.log.debug("Loading plugin %s from %s", name, path)
-        class_name = name.rsplit(".", 1)[-1]
-        if class_name in self.plugins:
-            self.log.warning("Redefining plugin %s.", class_name)
-            self.unload_plugin(class_name)
-
-        if path is None:
-            # The plugin should be sys.path already
-            module_name, class_name = name.rsplit(".", 1)
-            try:
+        module_name, dummy, class_name = name.rpartition(".")
+        try:
+            if path is None:
+                # The plugin should be sys.path already
                 module = importlib.import_module(module_name)
-            except ImportError as e:
-                raise oa.errors.PluginLoadError("Unable to load %s: %s" %
-                                                (module_name, e))
-        elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
-            # For Python 3.3+
-            module = self._load_module_py3(path)
-        else:
-            # For Python 2 and < 3.3
-            module = self._load_module_py2(path)
-
-        plugin_class = getattr(module, class_name)
+            elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
+                # For Python 3.3+
+                module = self._load_module_py3(path)
+            else:
+                # For Python 2 and < 3.3
+                module = self._load_module_py2(path)
+        except oa.errors.PluginLoadError:
+            raise
+        except Exception as e:
+            raise oa.errors.PluginLoadError("Unable to load %s: %s" %
+                                            (path or module_name, e))
+
+        plugin_class = getattr(module, class_name, None)
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
-        if not issubclass(plugin_class, oa.plugins.base.BasePlugin):
+        try:
+            is_plugin = issubclass(plugin_class, oa.plugins.base.BasePlugin)
+        except TypeError:
+            is_plugin = False
+        if not is_plugin:
             raise oa.errors.PluginLoadError("%s is not a subclass of "
                                              "BasePlugin" % class_name)
+        if class_name in self.plugins:
+            self.log.warning("Redefining plugin %s.", class_name)
+            self.unload_plugin(class_name)
         # Initialize the plugin and load any additional data
         plugin = plugin_class(self)
         self._load_cmds(plugin, class_name)
@@ -214,7 +218,7 @@ class GlobalContext(_Context):
             self.log.debug("Registering eval rule: %s.%s", class_name, rule)
             if rule in self.eval_rules:
                 self.log.warning("Redefining eval rule: %s", rule)
-            eval_rule = getattr(plugin, rule)
+            eval_rule = getattr(plugin, rule, None)
             if eval_rule is None:
                 raise oa.errors.PluginLoadError("Undefined eval rule %s in "
                                                  "%s" % (rule, class_name))
@@ -255,7 +259,7 @@ class GlobalContext(_Context):
     @staticmethod
     def _load_module_py3(path):
         """Load module in Python 3."""
-        modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
+        modulename = os.path.splitext(os.path.basename(path))[0]
 
         loader = importlib.machinery.SourceFileLoader(modulename, path)
         return loader.load_module()
@@ -263,7 +267,7 @@ class GlobalContext(_Context):
     @staticmethod
     def _load_module_py2(path):
         """Load module in Python 2."""
-        modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
+        modulename = os.path.splitext(os.path.basename(path))[0]
 
         for suffix, open_type, file_type in imp.get_suffixes():
             if path.endswith(suffix):
-- 
2.43.0


From a6e9e6164494c8d0d0e653fa7faab7b3ae0654f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 024/139] fix: SPF results belong to one message and a failing
 lookup is no answer

---
 oa/plugins/spf.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..0111c74 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -74,6 +74,11 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
     }
 
     def parsed_metadata(self, msg):
+        # The results belong to one message.
+        self.check_result = dict.fromkeys(self.check_result, 0)
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
         if self.get_global("ignore_received_spf_header"):
             # The plugin will ignore the spf headers and will perform
             # SPF check by itself by querying the dns
@@ -268,10 +273,12 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         self.ctxt.log.debug("SPF::Plugin %s",
                             "Querying the dns server(%s, %s, %s)..."
                             % (ip, mx, sender_address))
-        result, comment = spf.check2(i=str(ip), s=sender_address,
-                                     h=mx, timeout=timeout, querytime=timeout)
+        try:
+            result, comment = spf.check2(i=str(ip), s=sender_address, h=mx,
+                                         timeout=timeout, querytime=timeout)
+        except Exception as e:
+            # The lookup is done by external code; a failure is no answer.
+            self.ctxt.log.debug("SPF::Plugin query failed: %s", e)
+            return "temperror"
         return result
 
-
-
-
-- 
2.43.0


From 65d7fc05853bad8ccba89170505c461ef01793d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 025/139] fix: an empty uri_host list line does not abort scans

---
 oa/plugins/wlbl_eval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 263d9cf..6bcf89f 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -136,6 +136,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         parsed_list = defaultdict(list)
         for x in self['delist_uri_host']:
             uri_host_list = x.split()
+            if not uri_host_list:
+                continue
             if "(" in x:
                 key = uri_host_list[0].strip("( ").rstrip(" )")
                 for uri in uri_host_list[1:]:
@@ -180,6 +182,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         parsed_list = defaultdict(self.my_list)
         for x in self[list_name]:
             uri_host_list = x.split()
+            if not uri_host_list:
+                continue
             key = uri_host_list[0].strip("( ").rstrip(" )")
             self.add_in_dict(uri_host_list[1:], key, parsed_list)
 
-- 
2.43.0


From 4026bfb3ba64721373cf8235e63fc68170941937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 026/139] fix: bayes_token_sources lines are parsed instead of
 aborting the configuration

---
 oa/conf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oa/conf.py b/oa/conf.py
index 560dc01..3bf1e6e 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -155,6 +155,12 @@ class Conf(object):
         """Parse and set a list option."""
         self.set_global(global_key, value.split(separator))
 
+    def set_split_option(self, global_key, value, separator=None):
+        """Parse and set a list option, the values are separated by
+        whitespace.
+        """
+        self.set_global(global_key, value.split(separator))
+
     def set_append_option(self, key, value):
         """This option can be specified multiple times and the
         result are appended to the list.
-- 
2.43.0


From 0f2986d793d98afe431cb32e409da1ad3144310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:14 +0000
Subject: [PATCH 027/139] fix: TextCat gives the same message the same
 languages every time

---
 oa/plugins/textcat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/textcat.py b/oa/plugins/textcat.py
index 81e4be4..56cfbc5 100644
--- a/oa/plugins/textcat.py
+++ b/oa/plugins/textcat.py
@@ -21,6 +21,10 @@ except ImportError:
 
 import oa.plugins.base
 
+# The detection is random unless seeded and the same message must always get
+# the same result.
+langdetect.DetectorFactory.seed = 0
+
 
 class TextCatPlugin(oa.plugins.base.BasePlugin):
     """This plugin will detect the language of the
-- 
2.43.0


From aaff770672ceb0f6f481bf11302a8ab025cf8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 028/139] fix: a link that is not a valid URL does not abort
 the scan

---
 oa/html_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index d1baca5..99123ed 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -35,7 +35,7 @@ class HTML(HTMLParser):
             self.last_start_tag = tag
             for item in attrs:
                 prop, value = item
-                if prop not in ("href", "src"):
+                if prop not in ("href", "src") or not value:
                     continue
                 link = parse_link(value, tag)
                 if value in self.links:
@@ -66,10 +66,15 @@ def parse_link(value, linktype):
     link = {}
     link[linktype] = {}
     link[linktype]["raw"] = value
-    urlp = urlparse(value)
-    link[linktype]["scheme"] = urlp.scheme
+    try:
+        urlp = urlparse(value)
+        scheme, domain = urlp.scheme, urlp.netloc
+    except ValueError:
+        # Not a valid URL, e.g. an unbalanced bracket in the host.
+        scheme, domain = "", ""
+    link[linktype]["scheme"] = scheme
     link[linktype]["cleaned"] = unquote(value)
-    link[linktype]["domain"] = urlp.netloc
+    link[linktype]["domain"] = domain
     return link
 
 
-- 
2.43.0


From fd171d165657f2926162ecefc2153e3c02d0c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 029/139] fix: a damaged PDF attachment does not abort the scan

---
 oa/plugins/pdf_info.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 25c1c99..0c6d35d 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -301,6 +301,14 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         self._update_pdf_hashes(msg, pdf_id)
         pdffobject = BytesIO(payload)
         self._update_pdf_size(msg, incr=len(pdffobject.getvalue()))
+        try:
+            self._save_document_stats(msg, pdf_id, pdffobject)
+        except Exception as exc:
+            # The parser raises all sorts of errors for damaged files.
+            self.ctxt.log.info("Unable to parse PDF file: %r", exc)
+
+    def _save_document_stats(self, msg, pdf_id, pdffobject):
+        """Extracts and saves the stats that require parsing the PDF."""
         pdfobject = PyPDF2.PdfFileReader(pdffobject)
         self._update_is_encrypted(msg, pdfobject.isEncrypted)
         if pdfobject.isEncrypted:
-- 
2.43.0


From 805390babf564d9154c337de7dba22a20d68de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 030/139] fix: malformed MIME structure does not abort the
 MIMEEval metadata

---
 oa/plugins/mime_eval.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 79295c6..b764692 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -151,6 +151,9 @@ class MIMEEval(oa.plugins.base.BasePlugin):
                 self.set_local(msg, "mime_missing_boundary", True)
 
     def _update_mime_ma_non_text(self, msg, part):
+        if isinstance(part.get_payload(), str):
+            # Damaged multipart, without any boundary.
+            return
         if not self.get_local(msg, "mime_ma_non_text"):
             for ma_part in part.get_payload():
                 if(ma_part.get_content_maintype() != "text" and
@@ -194,7 +197,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             self.set_local(msg, "mime_body_html_count", html_count + 1)
             html_characters_count = self.get_local(msg, "html_characters_count")
             self.set_local(msg, "html_characters_count",
-                           html_characters_count + len(payload))
+                           html_characters_count + len(payload or ""))
 
         if part.get_content_type() == "text/plain":
             self._update_mime_text_info(msg, part.get_payload(), part, text)
@@ -204,11 +207,12 @@ class MIMEEval(oa.plugins.base.BasePlugin):
                                        content_disposition,
                                        charset)
 
-        if "base64" in content_transfer_encoding.lower():
-            self._update_base64_information(msg, part.get_payload())
+        if not isinstance(part.get_payload(), list):
+            if "base64" in content_transfer_encoding.lower():
+                self._update_base64_information(msg, part.get_payload())
 
-        if "quoted-printable" in content_transfer_encoding.lower():
-            self._update_quopri_stats(msg, part)
+            if "quoted-printable" in content_transfer_encoding.lower():
+                self._update_quopri_stats(msg, part)
 
         self._update_faraway_charset(msg, charset)
 
-- 
2.43.0


From 17cd4648e68bad162edfc1b36f32fa69700cb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 031/139] fix: text that only looks like an IP address is not a
 relay address

---
 oa/received_parser.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 1f4b26c..7c9b056 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -10,7 +10,10 @@ It extracts the following metadata:
 :auth
 """
 
+import ipaddress
 import re
+from builtins import str
+
 from oa.regex import Regex
 
 LOCALHOST = Regex(r"""
@@ -534,14 +537,22 @@ class ReceivedParser(object):
         :return: ip address if is found if not it returns an empty string
         """
         ip = ""
-        ips = IP_ADDRESS.findall(header.split(" by ")[0])
+        ips = list()
+        for item in IP_ADDRESS.findall(header.split(" by ")[0]):
+            clean_ip = item.strip("[ ]();\n")
+            clean_ip = clean_ip.lower().replace('ipv6:','')
+            if clean_ip.startswith('::ffff:') and '.' in clean_ip:
+                clean_ip = clean_ip.replace('::ffff:', '', 1)
+            try:
+                ipaddress.ip_address(str(clean_ip))
+            except ValueError:
+                # Looks like an address, but it's not valid
+                continue
+            ips.append(clean_ip)
         no_ips = len(ips)
         private_ips = list()
         count = 0
-        for item in ips:
-            clean_ip = item.strip("[ ]();\n")
-            clean_ip = clean_ip.lower().replace('ipv6:','')
-            clean_ip = clean_ip.lower().replace('::ffff:','')
+        for clean_ip in ips:
             if IP_PRIVATE.search(clean_ip):
                 count += 1
                 private_ips.append(clean_ip)
-- 
2.43.0


From e6b8d8d156c59ca15015f558acab5fbf44b81edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:23 +0000
Subject: [PATCH 032/139] fix: malformed HTML does not abort the link parser

---
 oa/html_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index 99123ed..c89c657 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -82,7 +82,12 @@ def parsed_metadata(msg, ctxt):
     """Goes through the URIs, parse them and store them locally in the
             message"""
     parser = HTML(ctxt.log)
-    parser.feed(msg.raw_text)
+    try:
+        parser.feed(msg.raw_text)
+        parser.close()
+    except (ValueError, AssertionError, NotImplementedError):
+        # Malformed HTML, use the links found before the error.
+        ctxt.log.debug("Unable to parse all the links of the message")
     for uri in msg.uri_list:
         if uri in parser.links:
             continue
-- 
2.43.0


From 22a76115369786ac9ae9944111fd4dd3508652ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 033/139] fix: DKIM results belong to one message

---
 oa/plugins/dkim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..8b8bd80 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,18 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.dkim_signed = 0
+        self.dkim_valid = 0
+        self.dkim_has_valid_author_sig = 0
+        self.dkim_signatures_dependable = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From 87197cb75f8ac619556d5e1a927c16ae10fb31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 034/139] fix: forged Received results belong to one message

---
 oa/plugins/relay_eval.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..a05a111 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -28,6 +28,11 @@ class RelayEval(oa.plugins.base.BasePlugin):
     )
     options = {}
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.set_global("mismatch_from", None)
+        self.set_global("mismatch_ip_helo", None)
+
     @staticmethod
     def hostname_to_domain(hostname):
         if not Regex(r"[a-zA-Z]").match(hostname):
-- 
2.43.0


From 7beef9b5e3e5cf063481f348db8185ec83f5597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 035/139] fix: the headers of a message without headers are not
 its body

---
 oa/rules/ruleset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 39c570d..78c8df1 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -189,7 +189,11 @@ class RuleSet(object):
         else:
             self._adjust_headers(msg, newmsg, self.header_mod["ham"])
         if header_only:
-            return newmsg.as_string().split("\n\n", 1)[0] + "\n\n"
+            text = newmsg.as_string()
+            if text[:1] == "\n":
+                # There are no headers, don't return the body instead.
+                return "\n\n"
+            return text.split("\n\n", 1)[0] + "\n\n"
         return newmsg.as_string()
 
     def _adjust_headers(self, msg, newmsg, rules):
-- 
2.43.0


From 1eb574792de711fe5b15be9712c03be5e51e2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 036/139] fix: LASTEXTERNAL tags describe the handover to the
 internal network

---
 oa/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 99f24e5..f45bf90 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -428,9 +428,9 @@ class Message(oa.context.MessageContext):
         }
         if self.external_relays:
             relays_tags.update({
-                "LASTEXTERNALIP": self.external_relays[-1]['ip'],
-                "LASTEXTERNALRDNS": self.external_relays[-1]['rdns'],
-                "LASTEXTERNALHELO": self.external_relays[-1]['helo']
+                "LASTEXTERNALIP": self.external_relays[0]['ip'],
+                "LASTEXTERNALRDNS": self.external_relays[0]['rdns'],
+                "LASTEXTERNALHELO": self.external_relays[0]['helo']
             })
 
         self._create_plugin_tags(relays_tags)
-- 
2.43.0


From 00500e520658b1a70cdc6b7ee413c9ab1366d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 037/139] fix: IPv6 relay addresses may be written in upper
 case

---
 oa/received_parser.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 7c9b056..75f7913 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -184,32 +184,32 @@ IP_ADDRESS = Regex(r"""
               # IPv6 addresses
               # don't use \b here, it hits on :'s
               (?:IPv6:    # with optional prefix
-                        | (?<![a-f0-9:])
+                        | (?<![a-fA-F0-9:])
                       )
               (?:
             # IPv4 mapped in IPv6
             # note the colon after the 12th byte in each here
             (?:
               # first 6 (12 bytes) non-zero
-              (?:[a-f0-9]{1,4}:){6}
+              (?:[a-fA-F0-9]{1,4}:){6}
               |
               # leading zeros omitted (note {0,5} not {1,5})
-              ::(?:[a-f0-9]{1,4}:){0,5}
+              ::(?:[a-fA-F0-9]{1,4}:){0,5}
               |
               # trailing zeros (in the first 6) omitted
-              (?:[a-f0-9]{1,4}:){1,5}:
+              (?:[a-fA-F0-9]{1,4}:){1,5}:
               |
               # 0000 in second up to (including) fifth omitted
-              [a-f0-9]{1,4}::(?:[a-f0-9]{1,4}:){1,4}
+              [a-fA-F0-9]{1,4}::(?:[a-fA-F0-9]{1,4}:){1,4}
               |
               # 0000 in third up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){2}:(?:[a-f0-9]{1,4}:){1,3}
+              (?:[a-fA-F0-9]{1,4}:){2}:(?:[a-fA-F0-9]{1,4}:){1,3}
               |
               # 0000 in fourth up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){3}:(?:[a-f0-9]{1,4}:){1,2}
+              (?:[a-fA-F0-9]{1,4}:){3}:(?:[a-fA-F0-9]{1,4}:){1,2}
               |
               # 0000 in fifth omitted
-              (?:[a-f0-9]{1,4}:){4}:[a-f0-9]{1,4}:
+              (?:[a-fA-F0-9]{1,4}:){4}:[a-fA-F0-9]{1,4}:
             )
             # and the IPv4 address appended to all of the 12 bytes above
             (?:1\d\d|2[0-4]\d|25[0-5]|\d\d|\d)\.
@@ -220,31 +220,31 @@ IP_ADDRESS = Regex(r"""
             | # or (separately) a pure IPv6 address
 
             # all 8 (16 bytes) of them present
-            (?:[a-f0-9]{1,4}:){7}[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){7}[a-fA-F0-9]{1,4}
             |
             # leading zeros omitted
-            :(?::[a-f0-9]{1,4}){1,7}
+            :(?::[a-fA-F0-9]{1,4}){1,7}
             |
             # trailing zeros omitted
-            (?:[a-f0-9]{1,4}:){1,7}:
+            (?:[a-fA-F0-9]{1,4}:){1,7}:
             |
             # 0000 in second up to (including) seventh omitted
-            [a-f0-9]{1,4}:(?::[a-f0-9]{1,4}){1,6}
+            [a-fA-F0-9]{1,4}:(?::[a-fA-F0-9]{1,4}){1,6}
             |
             # 0000 in third up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){2}(?::[a-f0-9]{1,4}){1,5}
+            (?:[a-fA-F0-9]{1,4}:){2}(?::[a-fA-F0-9]{1,4}){1,5}
             |
             # 0000 in fouth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){3}(?::[a-f0-9]{1,4}){1,4}
+            (?:[a-fA-F0-9]{1,4}:){3}(?::[a-fA-F0-9]{1,4}){1,4}
             |
             # 0000 in fifth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){4}(?::[a-f0-9]{1,4}){1,3}
+            (?:[a-fA-F0-9]{1,4}:){4}(?::[a-fA-F0-9]{1,4}){1,3}
             |
             # 0000 in sixth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){5}(?::[a-f0-9]{1,4}){1,2}
+            (?:[a-fA-F0-9]{1,4}:){5}(?::[a-fA-F0-9]{1,4}){1,2}
             |
             # 0000 in seventh omitted
-            (?:[a-f0-9]{1,4}:){6}:[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){6}:[a-fA-F0-9]{1,4}
             |
             # :: (the unspecified address 0:0:0:0:0:0:0:0)
             # dos: I don't expect to see this address in a header, and
@@ -252,7 +252,7 @@ IP_ADDRESS = Regex(r"""
             # include it for now since it is valid
             ::
               )
-              (?![a-f0-9:])
+              (?![a-fA-F0-9:])
             )""", re.X)
 
 IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
-- 
2.43.0


From 99b5ffad1219aaa2ed2fe4f2fbd7294bdcd5ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 038/139] fix: relay addresses in 172.16.0.0/12 are private

---
 oa/received_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 75f7913..8596a40 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -93,7 +93,8 @@ IP_PRIVATE = Regex(r"""
   (?:   # IPv4 addresses
     10|                    # 10.0.0.0/8      Private Use (5735, 1918)
     127|                            # 127.0.0.0/8     Host-local  (5735, 1122)
-    169\.254|                # 1690.0/12   Private Use (5735, 1918)
+    169\.254|                # 169.254.0.0/16  Link-local  (5735, 3927)
+    172\.(?:1[6-9]|2[0-9]|3[01])|  # 172.16.0.0/12   Private Use (5735, 1918)
     192\.168|                 # 192.168.0.0/16  Private Use (5735, 1918)
     100\.(?:6[4-9]|[7-9][0-9]|1[01][0-9]|12[0-7])  # 100.64.0.0/10 CGN (6598)
     )\..*
-- 
2.43.0


From 7165eb3559e04caa3d7cb65dcd87b3e2ee5b4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 039/139] fix: host names that only contain id or unknown keep
 Received fields intact

---
 oa/received_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 8596a40..625de80 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -346,7 +346,7 @@ HELO_RE9 = Regex(r"""
 """.format(IP_ADDRESS=IP_ADDRESS.pattern), re.X)
 IDENT_RE = Regex(r'.*ident=(\S+)\)')
 IDENT_RE2 = Regex(r'.*\((\S+)@')
-ID_RE = Regex(r'.*id (\S+)')
+ID_RE = Regex(r'.*\bid (\S+)')
 AUTH_RE = Regex(r"""
 .*?\swith\s((?:ES|L|UTF8S|UTF8L)MTPS?A|ASMTP|HTTPU?)(?:\s|;|$)""", re.X | re.I)
 AUTH_VC_RE = Regex(r'.*? \(version=([^ ]+) cipher=([^\)]+)\)')
@@ -525,7 +525,7 @@ class ReceivedParser(object):
                 rdns = UNKNOWN_RE_RDNS.match(header).groups()[1]
         if RDNS_IP_RE.match(rdns):
             rdns = ""
-        if 'unknown' in rdns or rdns == 'UnknownHost':
+        if rdns in ('unknown', 'UnknownHost') or rdns.startswith('<unknown'):
             rdns = ""
         rdns = rdns.strip("[]")
         return rdns
-- 
2.43.0


From 04cbda0f4101edbb69330d8702cf5a2ee9131033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 040/139] fix: default_dns_lifetime and default_dns_timeout are
 applied to the resolver

---
 oa/dns_interface.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 085ba19..523c45a 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -66,6 +66,24 @@ class DNSInterface(object):
     def port(self, port):
         self._resolver.port = port
 
+    @property
+    def lifetime(self):
+        """The time in seconds a query may take in total."""
+        return self._resolver.lifetime
+
+    @lifetime.setter
+    def lifetime(self, lifetime):
+        self._resolver.lifetime = lifetime
+
+    @property
+    def timeout(self):
+        """The time in seconds a single nameserver may take."""
+        return self._resolver.timeout
+
+    @timeout.setter
+    def timeout(self, timeout):
+        self._resolver.timeout = timeout
+
     @property
     def rotate_nameservers(self):
         return self._resolver.rotate
-- 
2.43.0


From d39a1f49b8ae8368ab7b5276db100c69d20e5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 041/139] fix: a relay without address does not hide the other
 relays from DNS lists

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index f45bf90..2f7000b 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -257,7 +257,8 @@ class Message(oa.context.MessageContext):
     def get_header_ips(self):
         values = list()
         for header in self.received_headers:
-            values.append(ipaddress.ip_address(header["ip"]))
+            if header["ip"]:
+                values.append(ipaddress.ip_address(header["ip"]))
         return values
 
     @_memoize("addr_headers")
-- 
2.43.0


From 2cf80e803c3996b401b9e4b0b2bbb804714629a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 042/139] fix: the daemon decodes a message only after all of
 it was read and decompressed

---
 oa/protocol/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..93d4187 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -67,12 +67,17 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
+        data = b"".join(message_chunks)
         if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+            try:
+                data = zlib.decompress(data)
+            except zlib.error:
+                raise oa.errors.InvalidOption("message is not compressed "
+                                              "with zlib")
+        return data.decode("utf8", "ignore")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
-- 
2.43.0


From 9559365fe260cd1fc822c34e9ab8cf25e0c1cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 043/139] fix: Content-length of daemon replies counts bytes

---
 oa/protocol/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..3ddb3ba 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(result.encode("utf8"))
         yield result
 
     def extra_details(self, msg, options):
-- 
2.43.0


From b15713d0db178086955be3c9c1789b5190cbc530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 044/139] fix: malformed request and header lines get an error
 reply

---
 oa/protocol/base.py |  5 ++++-
 oa/server.py        | 12 +++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 93d4187..7f48ca9 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -33,7 +33,10 @@ class BaseProtocol(object):
         """Get any options added to the command."""
         options = dict()
         while True:
-            line = self.rfile.readline().decode("utf8").strip()
+            try:
+                line = self.rfile.readline().decode("utf8").strip()
+            except UnicodeDecodeError:
+                raise oa.errors.InvalidOption("header is not valid UTF-8")
             if not line:
                 break
             self.log.debug("Got line: %s", line)
diff --git a/oa/server.py b/oa/server.py
index b7b4419..724f4f1 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -38,15 +38,17 @@ class RequestHandler(spoon.server.TCPGulp):
         """Get the command from the client and pass it to the
         correct handler.
         """
-        line = self.rfile.readline().decode("utf8").strip()
-        command, proto_version = line.split()
+        line = self.rfile.readline().decode("utf8", "replace").strip()
         try:
-            # Run the command handler
-            COMMANDS[command.upper()](self.rfile, self.wfile, self.server)
-        except KeyError:
+            command, proto_version = line.split()
+            handler = COMMANDS[command.upper()]
+        except (KeyError, ValueError):
             error_line = ("SPAMD/%s 76 Bad header line: %s\r\n" %
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
+            return
+        # Run the command handler
+        handler(self.rfile, self.wfile, self.server)
 
 
 class Server(spoon.server.TCPSpoon):
-- 
2.43.0


From 15929aa4e1723887db868e7d924c81d2d2dd750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 045/139] fix: targets of TELL may be separated by spaces and
 be capitalised

---
 oa/protocol/tell.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/protocol/tell.py b/oa/protocol/tell.py
index fb24035..3667022 100644
--- a/oa/protocol/tell.py
+++ b/oa/protocol/tell.py
@@ -6,6 +6,11 @@ import oa.protocol
 import oa.protocol.base
 
 
+def get_targets(value):
+    """Get the targets from a Set or Remove header."""
+    return [target.strip().lower() for target in value.split(",")]
+
+
 class TellCommand(oa.protocol.base.BaseProtocol):
     """Report of revoke spam/ham messages.
     """
@@ -16,13 +21,13 @@ class TellCommand(oa.protocol.base.BaseProtocol):
         spam = options.get("message-class", "spam").lower() == "spam"
         response = []
         if "set" in options:
-            targets = options.get("set").split(",")
+            targets = get_targets(options["set"])
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_report(msg, spam, local, remote)
             response.append("DidSet: %s\r\n" % options.get("set"))
         if "remove" in options:
-            targets = options.get("remove").split(",")
+            targets = get_targets(options["remove"])
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_revoke(msg, spam, local, remote)
-- 
2.43.0


From 2771f307212347710d28d77b06e627cf1b0b9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 046/139] fix: user preferences are applied on top of the
 site's settings and plugins

---
 oa/server.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index 724f4f1..198ec29 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -4,7 +4,6 @@ returns the result.
 from __future__ import absolute_import
 
 import os
-import copy
 
 import spoon.server
 
@@ -65,6 +64,7 @@ class Server(spoon.server.TCPSpoon):
         self._ruleset = None
         self._user_rulesets = {}
         self._parser_results = None
+        self._config_files = []
         self.sitepath = sitepath
         self.configpath = configpath
 
@@ -73,13 +73,13 @@ class Server(spoon.server.TCPSpoon):
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
         self._user_rulesets.clear()
+        self._config_files = list(
+            oa.config.get_config_files(self.configpath, self.sitepath))
         parser = oa.rules.parser.parse_pad_rules(
-            oa.config.get_config_files(self.configpath, self.sitepath),
+            self._config_files,
             paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
         )
         self._ruleset = parser.get_ruleset()
-        # Store a copy of the parser results to generate user
-        # settings later
         self._parser_results = parser.results
 
     def get_user_ruleset(self, user=None):
@@ -103,9 +103,11 @@ class Server(spoon.server.TCPSpoon):
                 self._ruleset.ctxt.paranoid,
                 self._ruleset.ctxt.ignore_unknown
             )
-            # Use the already parsed results and pass the user
-            # ones.
-            parser.results = copy.deepcopy(self._parser_results)
+            # The settings and the plugins are stored in the context of
+            # the parser, so parse the site files again and then the
+            # user's.
+            for config_file in self._config_files:
+                parser.parse_file(config_file)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
-- 
2.43.0


From 3dc705430d712eef277ac98860e94d0cd6ca6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 047/139] fix: a user name with path separators does not select
 other preferences

---
 oa/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 198ec29..6337f6a 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -95,6 +95,9 @@ class Server(spoon.server.TCPSpoon):
             if user in self._user_rulesets:
                 return self._user_rulesets[user]
 
+            if user in ("", os.curdir, os.pardir) or os.sep in user:
+                self.log.warn("Invalid user name: %s", user)
+                return self._ruleset
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
-- 
2.43.0


From 6dcd1fc874699c4349ca0f36dcc613cabddf4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 048/139] fix: the CLI reads message files as bytes, like its
 standard input

---
 scripts/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 9aaaada..9b4a2a6 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -97,7 +97,7 @@ def parse_arguments(args):
     parser.add_argument("-R", "--report-only", action="store_true",
                         default=False, help="Only print the report instead of "
                                             "the adjusted message.")
-    parser.add_argument("messages", type=MessageList(), nargs="*",
+    parser.add_argument("messages", type=MessageList("rb"), nargs="*",
                         metavar="path", help="Paths to messages or "
                                              "directories containing messages",
                         default=[[get_binary_stdin()]])
-- 
2.43.0


From c933444acc2c95b8082a5be9ba4827a11b083ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 049/139] fix: replace_start and replace_end are used to find
 the tags of a rule

---
 oa/plugins/replace_tags.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 9746ed2..57a763d 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -7,9 +7,6 @@ import oa.plugins.base
 
 from oa.regex import Regex
 
-# This splits value in the corresponding tags
-SPLIT_TAGS = Regex(r"(<[^<>]+>)")
-
 
 class ReplaceTags(oa.plugins.base.BasePlugin):
     """Replace tags in various rules."""
@@ -63,6 +60,13 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         # context.
         self["replace_%s" % which] = result
 
+    def get_splitter(self):
+        """Get the pattern that splits a value in the corresponding tags."""
+        start, end = self["replace_start"], self["replace_end"]
+        return Regex("(%s[^%s]+%s)" % (re.escape(start),
+                                       re.escape(start + end),
+                                       re.escape(end)))
+
     def get_metatags(self, rule_value, which):
         """Check the rule value for meta tags and return
         the value and the adjusted rule.
@@ -85,7 +89,7 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
 
         results = []
         replace_tags = self["replace_tag"]
-        splits = SPLIT_TAGS.split(rule_value)
+        splits = self.get_splitter().split(rule_value)
         for i, value in enumerate(splits):
             try:
                 replace_value = replace_tags[value]
-- 
2.43.0


From 0f2fc9885aa3e19d2bfe0443a854c6addbef0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 050/139] fix: replace_rules with an undefined rule does not
 stop the configuration from loading

---
 oa/plugins/replace_tags.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 57a763d..c96c1df 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -127,7 +127,10 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
             except KeyError:
                 self.ctxt.err("No such rule defined: %s", rule_name)
                 continue
-            rule_value = rule_results["value"]
+            rule_value = rule_results.get("value")
+            if rule_value is None:
+                self.ctxt.err("No value defined for rule: %s", rule_name)
+                continue
             new_rule_value = self.replace_tags(rule_value)
             self.ctxt.log.debug("Replaced %r with %r in %s", rule_value,
                                 new_rule_value, rule_name)
-- 
2.43.0


From 43416083ba054f3f17621c4dd26f121c4582ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 051/139] fix: replace_start and replace_end may contain a
 percent sign

---
 oa/plugins/replace_tags.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index c96c1df..9e197df 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -40,11 +40,6 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         extra = "%s " % which
         if which == "tag":
             extra = ""
-        template = "%s%s%%s%s" % (
-            self["replace_start"],
-            extra,
-            self["replace_end"]
-        )
         result = {}
         for config in self["replace_%s" % which]:
             try:
@@ -52,10 +47,11 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
             except ValueError:
                 self.ctxt.err("Invalid replace tag: %r", config)
                 continue
-            full_name = template % tag_name
+            full_name = "%s%s%s%s" % (self["replace_start"], extra, tag_name,
+                                      self["replace_end"])
             if full_name in result:
                 self.ctxt.err("Redefining replace tag: %r", full_name)
-            result[template % tag_name] = value
+            result[full_name] = value
         # Replace the list with a dictionary in the global
         # context.
         self["replace_%s" % which] = result
-- 
2.43.0


From fb34be58ef2b609af08ae3e1a7fcb2c1b4b2323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 052/139] fix: address lists match whole addresses and ignore
 case

---
 oa/plugins/wlbl_eval.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 6bcf89f..07b19f4 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -7,7 +7,6 @@ from collections import defaultdict
 import ipaddress
 
 import oa.plugins.base
-from oa.regex import Regex
 from oa.networks import _format_network_str
 
 
@@ -94,6 +93,10 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             'blacklist_uri_host')
         self['parsed_enlist_uri_host'] = self.parse_list_uri('enlist_uri_host')
 
+    def match_address(self, regex, address):
+        """Check if the whole address matches, whatever the case."""
+        return re.match("(?:%s)\\Z" % regex, address, re.I) is not None
+
     def check_input(self, address):
         characters = ["?", "@", ".", "*@"]
         return len([e for e in characters if e in address])
@@ -201,7 +204,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         param = "from_in_whitelist"
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_address(regex, address):
                     self.set_local(msg, param, 1)
                     return True
             wh = self.check_whitelist_rcvd(msg, "parsed_whitelist_from_rcvd",
@@ -218,7 +221,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_address(regex, address):
                     return True
         return False
 
@@ -401,12 +404,14 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         address = address.lower()
         found_forged = 0
         for white_addr in self[list_name]:
-            regexp = white_addr.replace("*", ".*")
+            regexp = re.sub(r"(?<!\.)\*", ".*", white_addr)
+            if "@" not in regexp:
+                regexp = ".*@" + regexp
+            if not self.match_address(regexp, address):
+                continue
             for domain in self[list_name][white_addr]:
-                if Regex(regexp).search(address):
-                    match = self.check_rcvd(domain, relays)
-                    if match == 1:
-                        return 1
+                if self.check_rcvd(domain, relays) == 1:
+                    return 1
                 found_forged = -1
         found_forged = self.check_found_forged(address, found_forged)
         return found_forged
@@ -437,7 +442,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         if found_forged:
             wlist = self['parsed_whitelist_allow_relays']
             for addr in wlist:
-                if Regex(addr).search(address):
+                if self.match_address(addr, address):
                     found_forged = 0
                     break
         return found_forged
-- 
2.43.0


From 292098c02565e384912f84ffb201b2ff9f9b47ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:23 +0000
Subject: [PATCH 053/139] fix: URI host lists compare the host of each URI

---
 oa/plugins/wlbl_eval.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 07b19f4..340811a 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -165,7 +165,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         delist = self['parsed_delist_uri_host']
         for item in list_name:
-            if item not in delist[key] and item not in delist['ALL']:
+            host = item.strip("!")
+            if host not in delist[key] and host not in delist['ALL']:
                 self.add_in_list(key, item, parsed_list)
 
     def parse_wlbl_uri(self, list_name):
@@ -447,16 +448,25 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
                     break
         return found_forged
 
+    def uri_host(self, uri):
+        """Get the host name of an URI, in lower case."""
+        host = re.sub(r"^[a-z][a-z0-9+.-]*://", "", uri, flags=re.I)
+        host = re.split(r"[/?#]", host, 1)[0].rsplit("@", 1)[-1]
+        return re.sub(r":\d*\Z", "", host).lower()
+
     def check_uri_host_listed(self, msg, list_name, target=None):
         """Check if the message has URIs that are listed
         in the specified hostname
         """
-        parsed_list = 'parsed_enlist_uri_host'
+        hosts = self['parsed_enlist_uri_host'][list_name]
+        not_in_list = [item.lower() for item in hosts['not_in_list']]
+        in_list = [item.lower() for item in hosts['in_list']]
         for uri in msg.uri_list:
-            if uri in self[parsed_list][list_name]['not_in_list']:
+            host = self.uri_host(uri)
+            if host in not_in_list:
                 continue
-            for _uri_list_name in self[parsed_list][list_name]['in_list']:
-                if uri.endswith(_uri_list_name):
+            for listed in in_list:
+                if host == listed or host.endswith("." + listed):
                     return True
         return False
 
-- 
2.43.0


From 497cdc158fb1b2aa7b926a7221bd663742461bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:36 +0000
Subject: [PATCH 054/139] fix: mail-from and relay domains match by whole
 labels

---
 oa/plugins/wlbl_eval.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 340811a..4654682 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -352,9 +352,10 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         address = msg.sender_address
         relays = []
-        if address:
-            domain = self.base_domain(address.split("@")[1])
-        else:
+        if not address:
+            return False
+        domain = self.base_domain(address.rsplit("@", 1)[-1].lower())
+        if not domain:
             return False
         if len(msg.untrusted_relays) > 0:
             relays.append(msg.untrusted_relays[0])
@@ -363,8 +364,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         else:
             return False
         for relay in relays:
-            relay_domain = relay["rdns"]
-            if relay_domain.endswith(domain):
+            relay_domain = relay["rdns"].lower()
+            if relay_domain == domain or relay_domain.endswith("." + domain):
                 return True
 
         return False
-- 
2.43.0


From 29a5e71f48e32f620767df3f01f1f7a728c90c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 055/139] fix: plugin options changed in place do not leak into
 other contexts

---
 oa/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/context.py b/oa/context.py
index f135807..877b661 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -13,6 +13,7 @@ except ImportError:
     pass
 
 import re
+import copy
 import os
 import imp
 import getpass
@@ -202,6 +203,9 @@ class GlobalContext(_Context):
             self.unload_plugin(class_name)
         # Initialize the plugin and load any additional data
         plugin = plugin_class(self)
+        # Options changed in place must not affect other contexts
+        if plugin.options:
+            plugin.options = copy.deepcopy(plugin.options)
         self._load_cmds(plugin, class_name)
         self._load_eval_rules(plugin, class_name)
         self.log.info("Plugin %s loaded", name)
-- 
2.43.0


From 61b664452b18c52ebc84ae7d0835a16d08def12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:20 +0000
Subject: [PATCH 056/139] fix: rcvd and URI host lists accumulate over
 configuration lines

---
 docs/pad.plugins.wlbl_eval.rst | 12 ++++++------
 oa/plugins/wlbl_eval.py        | 18 ++++++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/docs/pad.plugins.wlbl_eval.rst b/docs/pad.plugins.wlbl_eval.rst
index 0496964..06b8339 100644
--- a/docs/pad.plugins.wlbl_eval.rst
+++ b/docs/pad.plugins.wlbl_eval.rst
@@ -40,11 +40,11 @@ Options
 **blacklist_to** [] (type `append_split`)
     If the given address appears as a recipient in the message headers
     (Resent-To, To, Cc, obvious envelope recipient, etc.) the mail will be blacklisted.
-**def_whitelist_from_rcvd** [] (type `list`)
+**def_whitelist_from_rcvd** [] (type `append_list`)
     Same as whitelist_from_rcvd, but used for the default whitelist entries
     in the OrangeAssassin distribution. The whitelist score is lower, because these
     are often targets for spammer spoofing.
-**whitelist_from_rcvd** [] (type `list`)
+**whitelist_from_rcvd** [] (type `append_list`)
     Works similarly to whitelist_from, except that in addition to matching a sender
     address, a relay's rDNS name or its IP address must match too for the whitelisting
     rule to fire. The first parameter is a sender's e-mail address to whitelist,
@@ -52,13 +52,13 @@ Options
 **whitelist_allow_relays** [] (type `append_split`)
     Specify addresses which are in whitelist_from_rcvd that sometimes send through
     a mail relay other than the listed ones.
-**enlist_uri_host** [] (type `list`)
+**enlist_uri_host** [] (type `append_list`)
     Adds one or more host names or domain names to a named list of URI domains.
-**delist_uri_host** [] (type `list`)
+**delist_uri_host** [] (type `append_list`)
     Removes one or more specified host names from a named list of URI domains.
-**blacklist_uri_host** [] (type `list`)
+**blacklist_uri_host** [] (type `append_list`)
     Is a shorthand for a directive: enlist_uri_host (BLACK) host.
-**whitelist_uri_host** [] (type `list`)
+**whitelist_uri_host** [] (type `append_list`)
     Is a shorthand for a directive: enlist_uri_host (WHITE) host
 **util_rb_tld** [] (type `append_split`)
     This option maintains list of valid TLDs in the RegistryBoundaries code.
diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 4654682..6a25de5 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -32,15 +32,15 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         "all_spam_to": ("append_split", []),
         "more_spam_to": ("append_split", []),
 
-        "def_whitelist_from_rcvd": ("list", []),
-        "whitelist_from_rcvd": ("list", []),
+        "def_whitelist_from_rcvd": ("append_list", []),
+        "whitelist_from_rcvd": ("append_list", []),
 
         "whitelist_allow_relays": ("append_split", []),
 
-        "enlist_uri_host": ("list", []),
-        "delist_uri_host": ("list", []),
-        "blacklist_uri_host": ("list", []),
-        "whitelist_uri_host": ("list", []),
+        "enlist_uri_host": ("append_list", []),
+        "delist_uri_host": ("append_list", []),
+        "blacklist_uri_host": ("append_list", []),
+        "whitelist_uri_host": ("append_list", []),
         "util_rb_tld": ("append_split", []),
         "util_rb_2tld": ("append_split", []),
         "util_rb_3tld": ("append_split", [])
@@ -65,6 +65,12 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         "parsed_blacklist_uri_host": ("dict", {})
     }
 
+    def set_append_list_option(self, key, value):
+        """This option can be specified multiple times, each with values
+        separated by commas.
+        """
+        self.get_global(key).extend(value.split(","))
+
     def check_start(self, msg):
         """Parses all the required white and blacklists. Stores
         the results in the the "parsed" versions.
-- 
2.43.0


From 70b48ef7267c5539f0320f3103a358f6d18cd4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:15 +0000
Subject: [PATCH 057/139] fix: the case of a URL's scheme does not hide it from
 uri rules

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 2f7000b..83257f8 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -47,7 +47,7 @@ URL_RE = Regex(r"""
     )
     (?:[^\s<>"'\x7f-\xff]+)  # capture the guts
 )
-""", re.VERBOSE)
+""", re.VERBOSE | re.IGNORECASE)
 
 IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
 
-- 
2.43.0


From bbf41bdf65d5c7edc90fb04982c2d4f0381683ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:15 +0000
Subject: [PATCH 058/139] fix: punctuation after a URL does not hide its host
 from URI host lists

---
 oa/plugins/wlbl_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 6a25de5..76ae924 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -459,7 +459,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """Get the host name of an URI, in lower case."""
         host = re.sub(r"^[a-z][a-z0-9+.-]*://", "", uri, flags=re.I)
         host = re.split(r"[/?#]", host, 1)[0].rsplit("@", 1)[-1]
-        return re.sub(r":\d*\Z", "", host).lower()
+        return re.match(r"[\w.-]*", host).group().strip(".").lower()
 
     def check_uri_host_listed(self, msg, list_name, target=None):
         """Check if the message has URIs that are listed
-- 
2.43.0


From 6ca75962cfd4708ec6f08f45818939c0ec6664e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:10 +0000
Subject: [PATCH 059/139] fix: the text of elements inside an anchor belongs to
 the anchor

---
 oa/html_parser.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index c89c657..28745c4 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -24,15 +24,18 @@ class HTML(HTMLParser):
         self.last_start_tag = None
         self.last_link_details = {}
         self.current_link = None
+        # The texts of nested elements belong to the same anchor
+        self.in_anchor = False
         self.logger = logger
 
-
     def handle_starttag(self, tag, attrs):
         '''
         Handle the start of a tag.
         '''
         if tag in ('a', 'link'):
             self.last_start_tag = tag
+            self.current_link = None
+            self.in_anchor = False
             for item in attrs:
                 prop, value = item
                 if prop not in ("href", "src") or not value:
@@ -50,6 +53,9 @@ class HTML(HTMLParser):
                 self.current_link = value
 
     def handle_endtag(self, tag):
+        if self.last_start_tag == "a" and tag != "a":
+            # An element inside of the anchor
+            return
         self.last_start_tag = None
         self.current_link = None
 
@@ -58,8 +64,12 @@ class HTML(HTMLParser):
         if not all([data, self.last_start_tag, self.current_link]):
             return
         if self.last_start_tag in ("a", "link"):
-            self.links[self.current_link][self.last_start_tag]["text"].\
-                append(data)
+            texts = self.links[self.current_link][self.last_start_tag]["text"]
+            if self.in_anchor:
+                texts[-1] += data
+            else:
+                texts.append(data)
+                self.in_anchor = True
 
 def parse_link(value, linktype):
     """ Returns a dictionary with information for the link"""
-- 
2.43.0


From 86f3ca56ee9250f2d2c392409c8653721dbe3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:10 +0000
Subject: [PATCH 060/139] fix: check_https_ip_mismatch looks at every link of
 the message

---
 oa/plugins/uri_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/uri_eval.py b/oa/plugins/uri_eval.py
index bb3a755..75f5550 100644
--- a/oa/plugins/uri_eval.py
+++ b/oa/plugins/uri_eval.py
@@ -60,7 +60,7 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 try:
                     ipaddress.ip_address(str(domain))
                 except ValueError:
-                    return 0
+                    continue
                 value = a_tag.get("text", "")
                 uri_list = self.extract_url_from_text(value)
                 for uri in uri_list:
-- 
2.43.0


From cdfe7161cf201c24fc01d43cd313165fbb85d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:54 +0000
Subject: [PATCH 061/139] fix: check_blank_line_ratio counts every blank line

---
 oa/plugins/body_eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/body_eval.py b/oa/plugins/body_eval.py
index b0e6b25..64e543b 100644
--- a/oa/plugins/body_eval.py
+++ b/oa/plugins/body_eval.py
@@ -101,8 +101,10 @@ class BodyEval(oa.plugins.base.BasePlugin):
                             "diff=%.2f", len(text_tokens), len(html_tokens),
                             valid_count, diff)
 
-        self.set_local(msg, "line_count", msg.raw_text.count("\n"))
-        self.set_local(msg, "blank_line_count", msg.raw_text.count("\n\n"))
+        lines = msg.raw_text.split("\n")[:-1]
+        self.set_local(msg, "line_count", len(lines))
+        self.set_local(msg, "blank_line_count",
+                       sum(1 for line in lines if not line.strip()))
 
     def multipart_alternative_difference(self, msg, minr, maxr, target=None):
         """Check the difference between the text and html parts of
-- 
2.43.0


From 472090eecc4a3f25bfa1d37697c5a1183d3f4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 062/139] fix: dates of different time zones are compared by
 the time they denote

---
 oa/plugins/header_eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index eb863c5..00d9e1b 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -469,11 +469,11 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
     def _parse_rfc822_date(self, date):
         try:
-            parsed_date = email.utils.parsedate(date)
-            time_in_seconds = time.mktime(parsed_date)
+            parsed_date = email.utils.parsedate_tz(date)
+            time_in_seconds = email.utils.mktime_tz(parsed_date)
             date_time = datetime.datetime.utcfromtimestamp(
                 time_in_seconds)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             return
         return date_time
 
-- 
2.43.0


From 5540daf95448c9090f5f6cdc314904cc1d0346da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 063/139] fix: received_within_months counts whole years

---
 oa/plugins/header_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 00d9e1b..9b7b8be 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -789,7 +789,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             self._check_date_received(msg)
         )
 
-        number_months = (diff.year or 0) * 12 + (diff.months or 0)
+        number_months = (diff.years or 0) * 12 + (diff.months or 0)
 
         if ((not min or number_months >= min) and
                 (not max or number_months < max)):
-- 
2.43.0


From 69785f56aa7f8cc202ed0c5b0ebe8115d2ca96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 064/139] fix: check_illegal_chars no longer removes headers
 from the message

---
 oa/plugins/header_eval.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 9b7b8be..e273939 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -157,16 +157,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                   "invalid option: %s", count)
             return False
         if header == 'ALL':
-            raw_headers = msg.raw_headers
-            key_headers = []
-            for keys in raw_headers.keys():
-                key_headers.append(keys)
-            for key in key_headers:
-                if key.lower() in ("subject", "from"):
-                    try:
-                        del raw_headers[key]
-                    except KeyError:
-                        pass
+            raw_headers = {key: value
+                           for key, value in msg.raw_headers.items()
+                           if key.lower() not in ("subject", "from")}
         else:
             raw_headers = {header: msg.get_raw_header(header)}
 
-- 
2.43.0


From 8e5bee47b0cee0b87bd2119898100925bad49501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 065/139] fix: check_illegal_chars exempts only a single sign

---
 oa/plugins/header_eval.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index e273939..779444d 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -175,11 +175,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         clean_hdr = ''.join([i if ord(i) < 128 else '' for i in raw_str])
         illegal = len(raw_str) - len(clean_hdr)
         if illegal > 0 and header.lower() == "subject":
-            exempt = 0
             # only exempt a single cent sign, pound sign, or registered sign
-            for except_chr in (u'\xa2', u'\xa3', u'\xae'):
-                if except_chr in raw_str:
-                    exempt += 1
+            exempt = sum(raw_str.count(except_chr)
+                         for except_chr in (u'\xa2', u'\xa3', u'\xae'))
             if exempt == 1:
                 illegal -= exempt
         if raw_str:
-- 
2.43.0


From 27301da3965ff3a84d3882735e96d6e6714a281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 066/139] fix: similar_recipients with few recipients does not
 depend on rule order

---
 oa/plugins/header_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 779444d..b553742 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -382,7 +382,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         if not recipients:
             self.set_local(msg, "tocc_similar", 0)
             self.set_local(msg, "tocc_sorted", False)
-            return
+            return 0
 
         sorted_recipients = sorted(recipients)
         self.set_local(msg, "tocc_sorted", sorted_recipients == recipients)
@@ -395,7 +395,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
         if len(addresses) < self.tocc_similar_count:
             self.set_local(msg, "tocc_similar", 0)
-            return
+            return 0
 
         hits = 0
         combinations = 0
-- 
2.43.0


From 78c20405c918a2a0bdb94da68c015109fac82783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 067/139] fix: check_unresolved_template looks only at the
 headers

---
 oa/plugins/header_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index b553742..910c34a 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -645,7 +645,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         return int(minr) <= len(raw_headers) <= int(maxr)
 
     def check_unresolved_template(self, msg, target=None):
-        message = msg.raw_msg
+        message = msg.raw_msg.lstrip("\n").split("\n\n", 1)[0]
         headers = message.split("\n")
         for header in headers:
             if Regex(r"%[A-Z][A-Z_-]").search(header) and not \
-- 
2.43.0


From ff95e9a0d4bc4fe3ed8ef9b157a4dbba61d0ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 068/139] fix: check_ma_non_text accepts multipart/related and
 application/rtf

---
 oa/plugins/mime_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index b764692..0d62785 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -157,7 +157,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if not self.get_local(msg, "mime_ma_non_text"):
             for ma_part in part.get_payload():
                 if(ma_part.get_content_maintype() != "text" and
-                   ma_part.get_content_type not in (
+                   ma_part.get_content_type() not in (
                        "multipart/related", "application/rtf")):
                     self.set_local(msg, "mime_ma_non_text", True)
 
-- 
2.43.0


From 85ddab5f1ae634a29c40c1bc3d3bdae0c96c0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 069/139] fix: check_base64_length uses the longest line of all
 parts

---
 oa/plugins/mime_eval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 0d62785..272510d 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -61,7 +61,8 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if text:
             self.set_local(
                 msg, "base64_length",
-                base64_length + max(len(line) for line in text.splitlines()))
+                max(base64_length,
+                    max(len(line) for line in text.splitlines())))
 
         base64_count = self.get_local(msg, "mime_base64_count")
         self.set_local(msg, "mime_base64_count", base64_count + 1)
-- 
2.43.0


From 499195f9be41166d305275307219d3938f5b2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 070/139] fix: check_qp_ratio counts the encoded characters

---
 oa/plugins/mime_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 272510d..5a353c9 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -73,11 +73,11 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         qp_bytes = self.get_local(msg, "qp_bytes")
         qp_chars = self.get_local(msg, "qp_chars")
         quoted_printables = Regex(r"=(?:09|3[0-9ABCEF]|[2456][0-9A-F]|7["
-                                  r"0-9A-E])").search(part.get_payload())
+                                  r"0-9A-E])").findall(part.get_payload())
         qp_bytes += len(part.get_payload())
         self.set_local(msg, "qp_bytes", qp_bytes)
         if quoted_printables:
-            qp_chars += len(quoted_printables.groups())
+            qp_chars += len(quoted_printables)
             self.set_local(msg, "qp_chars", qp_chars)
         self.set_local(msg, "mime_qp_count", qp_count + 1)
         raw = msg.translate_line_breaks(part.as_string())
-- 
2.43.0


From 1e9c39099e9c1ac382a84cac991c9c507dd0f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 071/139] fix: check_abundant_unicode_ratio counts every
 encoded character

---
 oa/plugins/mime_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 5a353c9..4e4aa82 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -136,11 +136,11 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             ascii_count = self.get_local(msg, "ascii_count")
             ascii_count += len(text)
             self.set_local(msg, "ascii_count", ascii_count)
-            unicode_chars = Regex(r"(&\#x[0-9A-F]{4};)", re.X).search(text)
+            unicode_chars = Regex(r"(&\#x[0-9A-F]{4};)", re.X).findall(text)
             unicode_count = 0
             if unicode_chars:
                 unicode_count = self.get_local(msg, "unicode_count")
-                unicode_count += len(unicode_chars.groups())
+                unicode_count += len(unicode_chars)
                 self.set_local(msg, "unicode_count", unicode_count)
             # XXX This does not work properly anymore
             if not charset or charset == r"us-ascii":
-- 
2.43.0


From 3633e5907bcf9b58b63b5b882d2eb79d8ab392fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 072/139] fix: mime_qp_long_line looks at the lines of the body
 of the part

---
 oa/plugins/mime_eval.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 4e4aa82..26d6512 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -80,13 +80,11 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             qp_chars += len(quoted_printables)
             self.set_local(msg, "qp_chars", qp_chars)
         self.set_local(msg, "mime_qp_count", qp_count + 1)
-        raw = msg.translate_line_breaks(part.as_string())
         has_long_line = self.get_local(msg, "mime_qp_long_line")
         if not has_long_line:
             has_long_line = any(
-                len("".join(line.split(":")[1:])) > max_line_len and not
-                line.startswith("SPAM")
-                for line in raw.splitlines())
+                len(line) > max_line_len and not line.startswith("SPAM")
+                for line in part.get_payload().split("\n"))
             self.set_local(msg, "mime_qp_long_line", has_long_line)
 
     def _update_base64_text_stats(self, msg, content_type,
-- 
2.43.0


From 7e3892513cc34600abb0cdb04ab35e1bdd98cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 073/139] fix: truncated_headers measures the header values

---
 oa/plugins/mime_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 26d6512..5429e52 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -288,7 +288,10 @@ class MIMEEval(oa.plugins.base.BasePlugin):
 
         if flag == "truncated_headers":
             for key, value in msg.raw_headers.items():
-                if len(key) > MAX_HEADER_KEY or len(value)> MAX_HEADER_VALUE:
+                if isinstance(value, str):
+                    value = [value]
+                if (len(key) > MAX_HEADER_KEY or
+                        any(len(item) > MAX_HEADER_VALUE for item in value)):
                     return True
 
         if flag == 'mime_epilogue_exists':
-- 
2.43.0


From b854214f8fe65196548836fbe3961cc04a543df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 074/139] fix: tvd_vertical_words accepts quoted limits

---
 oa/plugins/body_eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/body_eval.py b/oa/plugins/body_eval.py
index 64e543b..610e2d9 100644
--- a/oa/plugins/body_eval.py
+++ b/oa/plugins/body_eval.py
@@ -192,6 +192,7 @@ class BodyEval(oa.plugins.base.BasePlugin):
           and False otherwise.
 
         """
+        minr, maxr = float(minr), float(maxr)
         if target == "rawbody":
             text = msg.raw_text
         else:
-- 
2.43.0


From fd67233380f7b676a37d4e90ae3f461a494044d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:06 +0000
Subject: [PATCH 075/139] fix: only 7-bit US-ASCII parts are checked for
 illegal ASCII text

---
 oa/plugins/mime_eval.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 5429e52..333a323 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -124,7 +124,6 @@ class MIMEEval(oa.plugins.base.BasePlugin):
                                    not ok_for_locale)
 
     def _update_mime_text_info(self, msg, payload, part, text):
-        charset = part.get_charset()
         text_count = self.get_local(msg, "mime_body_text_count")
         self.set_local(msg, "mime_body_text_count", text_count + 1)
         if part.get_content_subtype() == "plain":
@@ -140,12 +139,11 @@ class MIMEEval(oa.plugins.base.BasePlugin):
                 unicode_count = self.get_local(msg, "unicode_count")
                 unicode_count += len(unicode_chars)
                 self.set_local(msg, "unicode_count", unicode_count)
-            # XXX This does not work properly anymore
-            if not charset or charset == r"us-ascii":
-                try:
-                    payload.encode("ascii")
-                except (UnicodeEncodeError, UnicodeDecodeError):
-                    self.set_local(msg, "mime_ascii_text_illegal", True)
+            charset = part.get_content_charset() or "us-ascii"
+            encoding = part.get("Content-Transfer-Encoding", "7bit")
+            if (charset == "us-ascii" and encoding.strip().lower() == "7bit"
+                    and Regex(r"[^\t\n -~]").search(payload)):
+                self.set_local(msg, "mime_ascii_text_illegal", True)
             if len(re.split("--", msg.raw_msg)) <= 4:
                 self.set_local(msg, "mime_missing_boundary", True)
 
-- 
2.43.0


From 6f9fec841afbacfa9b1d11b0435b0311d4032f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 076/139] fix: image_name_regex is available as an eval rule

---
 oa/plugins/image_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index c485380..b826319 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -28,6 +28,7 @@ class BadImageFile(Exception):
 class ImageInfoPlugin(oa.plugins.base.BasePlugin):
     eval_rules = ("image_count",
                   "image_named",
+                  "image_name_regex",
                   "pixel_coverage",
                   "image_size_exact",
                   "image_size_range",
-- 
2.43.0


From 0526489ec793e31b54d129d2ad133743bc0b8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 077/139] fix: images without a name or named by
 Content-Disposition are handled by name rules

---
 oa/plugins/image_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index b826319..7ce6ea2 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -165,10 +165,11 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         if part.get_content_maintype() == "image":
 
-            name = part.get_param("name")
             subtype = part.get_content_subtype()
 
-            self._add_name(msg, name)
+            name = part.get_filename()
+            if name:
+                self._add_name(msg, name)
             self._update_counts(msg, subtype, by=1)
             self._save_stats(msg, part.get_payload(decode=True), subtype)
 
-- 
2.43.0


From 6358fd6c190c43df3ee5dac673aed758d4a23ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 078/139] fix: PDF files without a name or named by
 Content-Disposition are handled by name rules

---
 oa/plugins/pdf_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 0c6d35d..9247d0d 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -346,7 +346,8 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
     def extract_metadata(self, msg, payload, text, part):
         """Extend to extract the PDF metadata"""
         if part.get_content_type() == "application/pdf":
-            name = part.get_param("name")
-            self._add_name(msg, name)
+            name = part.get_filename()
+            if name:
+                self._add_name(msg, name)
             self._update_counts(msg, incr=1)
             self._save_stats(msg, part.get_payload(decode=True))
-- 
2.43.0


From 0a4dc43f69e0e69a7bb3fc7caec62e4939838e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 079/139] fix: an image attached under two types has a size for
 both

---
 oa/plugins/image_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index 7ce6ea2..f37ee94 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -137,6 +137,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         if image_id in sizes['all']:
             img = sizes['all'][image_id]
+            sizes[subtype][image_id] = img
             area = img['width'] * img['height']
             self._update_coverage(msg, subtype, area)
 
-- 
2.43.0


From d26b13c34cb44ab6c573644f7161cfcb4bda947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 080/139] fix: a maximum of 0 is a limit for the image rules

---
 oa/plugins/image_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index f37ee94..eb7cbb4 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -204,7 +204,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         count = self._get_count(msg, img_type)
         min_count = int(min_count)
-        if max_count:
+        if max_count is not None:
             max_count = int(max_count)
             return min_count <= count <= max_count
         else:
@@ -215,7 +215,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         """Determine the pixel coverage"""
         coverage = self._get_coverage(msg, img_type)
         min_coverage = int(min_coverage)
-        if max_coverage:
+        if max_coverage is not None:
             max_coverage = int(max_coverage)
             return min_coverage <= coverage <= max_coverage
         return min_coverage <= coverage
@@ -232,10 +232,10 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
             if img['height'] < int(min_height):
                 continue
 
-            if max_width and img['width'] > int(max_width):
+            if max_width is not None and img['width'] > int(max_width):
                 continue
 
-            if max_height and img['height'] > int(max_height):
+            if max_height is not None and img['height'] > int(max_height):
                 continue
 
             return True
@@ -256,7 +256,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         except ZeroDivisionError:
             ratio = text_len
         min_ratio = float(min_ratio)
-        if max_ratio:
+        if max_ratio is not None:
             max_ratio = float(max_ratio)
             return min_ratio <= ratio <= max_ratio
 
-- 
2.43.0


From 24a0226090123142089cb74ecf358e6ca6e28305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 081/139] fix: the PDF rules accept quoted limits and a maximum
 of 0

---
 oa/plugins/pdf_info.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 9247d0d..ee21867 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -51,6 +51,12 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         counts += incr
         self.set_local(msg, "counts", counts)
 
+    def _in_range(self, value, minimum, maximum):
+        """Check if the value is in the (possibly open) range."""
+        if value < int(minimum):
+            return False
+        return maximum is None or value <= int(maximum)
+
     def pdf_count(self, msg, minimum, maximum=None, target=None):
         """Check the number of pdf files in the message
 
@@ -62,7 +68,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
           'minimum' and less or equal than 'maximum' (if set)
         """
         count = self._get_count(msg)
-        return minimum <= count <= (maximum or float("inf"))
+        return self._in_range(count, minimum, maximum)
 
     def _get_image_count(self, msg):
         """Get the number of Images in PDF attachments"""
@@ -92,7 +98,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         less or equal than 'maximum'.
         """
         count = self._get_image_count(msg)
-        return minimum <= count <= (maximum or float("inf"))
+        return self._in_range(count, minimum, maximum)
 
     def _get_pixel_coverage(self, msg):
         """Return the cumulative pixel coverage"""
@@ -123,7 +129,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         'minimum' and less or equal to 'maximum'.
         """
         coverage = self._get_pixel_coverage(msg)
-        return minimum <= coverage <= (maximum or float("inf"))
+        return self._in_range(coverage, minimum, maximum)
 
     def _get_pdf_names(self, msg):
         try:
@@ -292,7 +298,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
             pdfbytes = self.get_local(msg, "pdf_bytes")
         except KeyError:
             return 0
-        return pdfbytes <= byts
+        return pdfbytes <= int(byts)
 
     def _save_stats(self, msg, payload):
         """Extracts and saves the PDF stats once per unique file"""
-- 
2.43.0


From 5e7d5db9522bac09c4f18bb9057da5b8698cfc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 082/139] fix: the digests of PDF rules are compared ignoring
 case

---
 oa/plugins/pdf_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index ee21867..e20d4e2 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -194,7 +194,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
 
         :return: True if the md5hash is in the PDF hashes
         """
-        return md5hash in self._get_pdf_hashes(msg)
+        return md5hash.lower() in self._get_pdf_hashes(msg)
 
     def _update_fuzzy_md5(self, msg, texthash):
         """Add a md5 hash for text in a PDF"""
@@ -220,7 +220,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         :return: True if the md5hash is in the list of fuzzy md5 hashes
         """
         hashes = self._get_fuzzy_md5(msg)
-        return md5hash in hashes
+        return md5hash.lower() in hashes
 
     def _update_details(self, msg, pdfid, detail, value):
         """Update the details for the PDF attachments"""
-- 
2.43.0


From 822ea874195873dd0da25d76c4d3afd12d5e1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 083/139] fix: pdf_match_fuzzy_md5 is available as an eval rule

---
 oa/plugins/pdf_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index e20d4e2..857fc50 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -29,6 +29,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         "pdf_named",
         "pdf_name_regex",
         "pdf_match_md5",
+        "pdf_match_fuzzy_md5",
         "pdf_match_details",
         "pdf_is_encrypted",
         "pdf_is_empty_body",
-- 
2.43.0


From 72558e8c23f85a7220151ef2446276f18469bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 084/139] fix: pdf_match_details looks only at the named detail

---
 oa/plugins/pdf_info.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 857fc50..9189cf2 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -254,11 +254,9 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         detail_re = oa.regex.perl2re(regex)
         # There might be several pdf files, dig in all of them
         for pdfid in details:
-            allpdfs = details[pdfid]
-            for pdf in allpdfs:
-                value = allpdfs[pdf]
-                if detail_re.match(value):
-                    return True
+            value = details[pdfid].get(detail)
+            if value is not None and detail_re.match(value):
+                return True
         return False
 
     def _update_is_encrypted(self, msg, enc):
-- 
2.43.0


From f16958fffc319941205f106f2e202461bfbcf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:01 +0000
Subject: [PATCH 085/139] fix: the ? wildcard of freemail_domains works alone
 and does not match a dot

---
 oa/plugins/free_mail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index a19f232..08a9fdf 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -65,9 +65,9 @@ class FreeMail(oa.plugins.base.BasePlugin):
                 freemail_domains.remove(domain)
                 self.ctxt.log.warn(
                     "FreeMail::Plugin Invalid freemail domain: %s", domain)
-            if '*' in domain:
+            elif '*' in domain or '?' in domain:
                 temp = domain.replace('.', '\.')
-                temp = temp.replace('?', '.')
+                temp = temp.replace('?', '[^.]')
                 temp = temp.replace('*', '[^.]*')
                 freemail_temp_wc.append(temp)
         if freemail_temp_wc:
-- 
2.43.0


From bdebee008334330e7f912239a304836c565a85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:01 +0000
Subject: [PATCH 086/139] fix: freemail rules compare addresses ignoring case

---
 oa/plugins/free_mail.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 08a9fdf..982732f 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -61,7 +61,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         freemail_domains = self.get_global('freemail_domains')
         freemail_temp_wc = []
         for domain in freemail_domains[:]:
-            if not domain_re.search(domain):
+            if not domain_re.search(domain.lower()):
                 freemail_domains.remove(domain)
                 self.ctxt.log.warn(
                     "FreeMail::Plugin Invalid freemail domain: %s", domain)
@@ -72,7 +72,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
                 freemail_temp_wc.append(temp)
         if freemail_temp_wc:
             wild_doms = r'\@(?:{0})$'.format('|'.join(freemail_temp_wc))
-            self.set_global('freemail_domains_re', Regex(wild_doms))
+            self.set_global('freemail_domains_re', Regex(wild_doms, re.I))
         self.set_global('freemail_domains', freemail_domains)
         valid_tlds = (self.get_global('util_rb_tld') +
                       self.get_global('util_rb_2tld') +
@@ -141,7 +141,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         from_email_frm = self._is_freemail(from_email)
         reply_to_frm = self._is_freemail(reply_to)
         if (from_email_frm and reply_to_frm and
-                from_email != reply_to):
+                from_email.lower() != reply_to.lower()):
             self.ctxt.log.warn(
                 "FreeMail::Plugin check_freemail_replyto "
                 "HIT! From and Reply-To are different freemails")
@@ -167,7 +167,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         reply = reply_to if reply_to_frm else from_email
         check = reply_to if option == 'replyto' else reply
         for email in get_global("freemail_body_emails"):
-            if email != check:
+            if email.lower() != check.lower():
                 self.ctxt.log.warn("FreeMail::Plugin check_freemail_replyto "
                                    "HIT! %s and %s are different freemails",
                                    check, email)
@@ -366,13 +366,16 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """
         if not email:
             return False
+        email = email.lower()
         email_domain = email.rsplit('@')[1]
         try:
             freemail_re = self.get_global('freemail_domains_re')
         except KeyError:
             freemail_re = None
-        freemail_whitelist = self.get_global('freemail_whitelist')
-        freemail_domains = self.get_global('freemail_domains')
+        freemail_whitelist = [
+            item.lower() for item in self.get_global('freemail_whitelist')]
+        freemail_domains = [
+            item.lower() for item in self.get_global('freemail_domains')]
 
         if email in freemail_whitelist:
             self.ctxt.log.warn(
-- 
2.43.0


From 751bdd6b8d06392817f9f941fb8b1e28bf7cdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:01 +0000
Subject: [PATCH 087/139] fix: a freemail that does not match the expression
 does not hide the others

---
 oa/plugins/free_mail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 982732f..0e68e83 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -213,7 +213,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         for email in header_emails:
             if self._is_freemail(email):
                 if check_re and not check_re.search(email):
-                    return False
+                    continue
                 elif check_re and check_re.search(email):
                     self.ctxt.log.debug(
                         "FreeMail::Plugin check_freemail_from"
@@ -266,7 +266,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         for email in header_emails:
             if self._is_freemail(email):
                 if check_re and not check_re.search(email):
-                    return False
+                    continue
                 elif check_re and check_re.search(email):
                     self.ctxt.log.debug(
                         "FreeMail::Plugin check_freemail_header"
-- 
2.43.0


From ade8563fb76645bfe1efe12bc57dc7bda0598b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:01 +0000
Subject: [PATCH 088/139] fix: check_freemail_replyto('reply') uses a freemail
 Reply-To when From is not freemail

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 0e68e83..30003e2 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -157,7 +157,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
                                    "Reply-To is defined but is not freemail, "
                                    "skipping check")
                 return False
-            elif not from_email_frm:
+            elif not reply_to and not from_email_frm:
                 self.ctxt.log.warn("FreeMail::Plugin check_freemail_replyto "
                                    "No Reply-To and From is not freemail, "
                                    "skipping check")
-- 
2.43.0


From 694eb869bfd60ce061db11d01573d295db3fd7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:01 +0000
Subject: [PATCH 089/139] fix: freemail addresses are searched in the decoded
 text of the body

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 30003e2..dd33899 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -99,7 +99,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         if part.get_content_type() in ("text/plain", "text/html"):
             get_global = self.get_global
             body_emails = get_global('body_emails')
-            for email in get_global('email_re').findall(part.get_payload()):
+            for email in get_global('email_re').findall(payload or ''):
                 body_emails.add(email)
             self.set_global('body_emails', body_emails)
 
-- 
2.43.0


From f9bf9d4235c6b132386cadbff87a2ffcc7dc8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:01 +0000
Subject: [PATCH 090/139] fix: dots of the configured TLDs are literal and may
 be leading in freemail rules

---
 oa/plugins/free_mail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index dd33899..4ed1cc7 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -77,7 +77,8 @@ class FreeMail(oa.plugins.base.BasePlugin):
         valid_tlds = (self.get_global('util_rb_tld') +
                       self.get_global('util_rb_2tld') +
                       self.get_global('util_rb_3tld'))
-        tlds_re = r'(?:{0})'.format("|".join(valid_tlds))
+        tlds_re = r'(?:{0})'.format(
+            "|".join(re.escape(tld.lstrip('.')) for tld in valid_tlds))
         email_re = Regex(r"""
               (?=.{{0,64}}\@)				# limit userpart to 64 chars (and speed up searching?)
               (?<![a-z0-9!#\$%&'*+\/=?^_`{{|}}~-])	# start boundary
-- 
2.43.0


From 0b993db31608afd6a020ab6b07576dcedc4585d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:40 +0000
Subject: [PATCH 091/139] fix: freemail rules accept sender addresses without a
 domain

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 4ed1cc7..6c84866 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -365,7 +365,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """Check if the email is in freemail_domains list
         If the email is whitelisted than we skip the check
         """
-        if not email:
+        if not email or '@' not in email:
             return False
         email = email.lower()
         email_domain = email.rsplit('@')[1]
-- 
2.43.0


From c77ba2d30000013c731879a7c1328624da0720b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:32 +0000
Subject: [PATCH 092/139] fix: host names that start with a digit are not taken
 for addresses

---
 oa/plugins/relay_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index a05a111..5afe941 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -35,7 +35,7 @@ class RelayEval(oa.plugins.base.BasePlugin):
 
     @staticmethod
     def hostname_to_domain(hostname):
-        if not Regex(r"[a-zA-Z]").match(hostname):
+        if not Regex(r"[a-zA-Z]").search(hostname):
             return hostname
         parts = hostname.split(".")
         if len(parts) > 1 and Regex(r"(?:\S{3,}|ie|fr|de)").match(parts[-1]):
-- 
2.43.0


From 4fe2bcd380236d533b08cd6fcb546512a96a5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:32 +0000
Subject: [PATCH 093/139] fix: check_for_from_domain_in_received_headers
 compares domains ignoring case

---
 oa/plugins/relay_eval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 5afe941..4c544fe 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -117,14 +117,15 @@ class RelayEval(oa.plugins.base.BasePlugin):
             - desired: 'true' or 'false' depends on the behavior
         """
         try:
-            if domain not in [addr.rsplit("@", 1)[-1]
-                              for addr in msg.get_addr_header("from")]:
+            if domain.lower() not in [addr.rsplit("@", 1)[-1].lower()
+                                      for addr in msg.get_addr_header("from")]:
                 return False
         except IndexError:
             return False
 
         for relay in msg.trusted_relays + msg.untrusted_relays:
-            if domain in relay.get("rdns") and domain in relay.get("by"):
+            if (domain.lower() in relay.get("rdns").lower() and
+                    domain.lower() in relay.get("by").lower()):
                 return desired == "true"
         return desired != "true"
 
-- 
2.43.0


From 24130217a5da789b6cd9cf37e39ef690dd1cff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:45 +0000
Subject: [PATCH 094/139] fix: an address given as HELO does not replace the
 recorded address of the relay

---
 oa/received_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 625de80..7b9e187 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -271,6 +271,10 @@ UNKNOWN_RE_RDNS = Regex(r"""
 ^(\S+)\s\((unknown)\s\[({IP_ADDRESS})\]\)\s\(
 """.format(IP_ADDRESS=IP_ADDRESS.pattern), re.X)
 
+RECORDED_IP_RE = Regex(r"""
+^\S+\s\((?:[^\s\[\]()]+\s)?(\[[a-fA-F0-9:.]+\]|\[IPv6:[a-fA-F0-9:.]+\])\)\sby\s
+""", re.X | re.I)
+
 # ================ check_for_skip regex ==================
 WITH_LOCAL_RE = Regex(r'\bwith local(?:-\S+)? ', re.I)
 BSMTP_RE = Regex(r'^\S+ by \S+ with BSMTP', re.I)
@@ -539,6 +543,11 @@ class ReceivedParser(object):
         """
         ip = ""
         ips = list()
+        recorded = RECORDED_IP_RE.match(header)
+        if recorded:
+            # The HELO of this form may be an address as well, but only
+            # the one in brackets was seen by the receiving host.
+            header = recorded.group(1)
         for item in IP_ADDRESS.findall(header.split(" by ")[0]):
             clean_ip = item.strip("[ ]();\n")
             clean_ip = clean_ip.lower().replace('ipv6:','')
-- 
2.43.0


From 04c74f506855bb91d0c583402af8d0056dfafa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 095/139] fix: SPF whitelist entries match the whole sender
 address, ignoring case

---
 oa/plugins/spf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 0111c74..dec8937 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -146,7 +146,7 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             if not self.check_for_spf_pass(msg):
                 return False
         for regex in parsed_list:
-            if re.match(regex, msg.sender_address):
+            if re.match(r"(?:%s)\Z" % regex, msg.sender_address, re.I):
                 return True
         return False
 
-- 
2.43.0


From 2a3c2bb37dba60812725912b73be57bfeb557049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 096/139] fix: SPF results and identities in headers are
 recognised ignoring case

---
 oa/plugins/spf.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index dec8937..22638f0 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -191,15 +191,15 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
                 self.ctxt.log.debug("PLUGIN::SPF: invalid Received_SPF "
                                     "header")
                 continue
-            result = match.group(1)
-            if match.group() == result:
+            result = match.group(1).lower()
+            if match.group() == match.group(1):
                 identity = ''
             elif match.group(2).lower() != 'none':
-                identity = match.group(2)
+                identity = match.group(2).lower()
             else:
                 continue
             if identity:
-                if identity.lower() in ('mfrom', 'mailfrom'):
+                if identity in ('mfrom', 'mailfrom'):
                     if self.spf_check:
                         continue
                     identity = ''
@@ -216,7 +216,6 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             if not identity:
                 self.no_valid_identity = True
 
-            result.replace("error", "temperror")
             if identity:
                 spf_identity = "check_spf_%s_%s" % (identity, result)
             else:
@@ -236,10 +235,11 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         if extract_spf:
             match = AUTHRES_RE.match(extract_spf.group(1))
         if match:
-            result = 'fail' if match.group(
-                1) == 'hardfail' else match.group(1)
-            identity = str(match.group(2))
-            if identity in ('mfrom', 'mailfrom', 'None'):
+            result = match.group(1).lower()
+            if result == 'hardfail':
+                result = 'fail'
+            identity = str(match.group(2)).lower()
+            if identity in ('mfrom', 'mailfrom', 'none'):
                 identity = ''
             elif identity == 'helo':
                 identity = 'helo'
-- 
2.43.0


From 02ad4f6cf6acd19b27e36fd2347679d0e0aac722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 097/139] fix: an SPF result found in a header is not queried
 again

---
 oa/plugins/spf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 22638f0..c49f22e 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -170,19 +170,16 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             received_spf_headers.reverse()
         if received_spf_headers:
             self.check_spf_received_header(received_spf_headers)
-            if not self.no_valid_identity:
-                self.received_headers(msg, '')
         elif authres_header:
             self.check_authres_header(authres_header)
 
         if msg.msg["received"]:
-            if not received_spf_headers:
+            # Only what the headers did not tell is queried.
+            if not self.spf_check_helo:
                 self.received_headers(msg, '')
-            if msg.sender_address:
-                if self.spf_check_helo:
-                    self.received_headers(msg, msg.sender_address)
-                else:
-                    self.received_headers(msg, '')
+            if (msg.sender_address and self.spf_check_helo and
+                    not self.spf_check):
+                self.received_headers(msg, msg.sender_address)
 
     def check_spf_received_header(self, received_spf_headers):
         for spf_header in received_spf_headers:
@@ -245,8 +242,11 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
                 identity = 'helo'
             if identity:
                 spf_identity = "check_spf_%s_%s" % (identity, result)
+                if identity == 'helo':
+                    self.spf_check_helo = True
             else:
                 spf_identity = "check_spf_%s" % result
+                self.spf_check = True
             self.check_result[spf_identity] = 1
 
     def received_headers(self, msg, sender):
-- 
2.43.0


From bb85e00e5b58a3ff13af864cd004af2214964f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:14 +0000
Subject: [PATCH 098/139] fix: the Bayes store counts the learned messages and
 tokens

---
 oa/db/bayes/mysql.py      | 38 +++++++++++++++-------
 oa/db/bayes/sqlalchemy.py | 68 +++++++++++++++++++++------------------
 2 files changed, 64 insertions(+), 42 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..28d6ebd 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -57,23 +57,26 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        result = cursor.fetchone()
         cursor.close()
-        return result
+        return result[0] if result else None
 
     def seen_delete(self, msgid):
+        """Forget the "seen" flag of the specified message."""
         cursor = self.conn.cursor()
         cursor.execute(
             "DELETE FROM bayes_seen WHERE msgid = %s",
             (msgid,)
         )
+        self.conn.commit()
         cursor.close()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         cursor = self.conn.cursor()
         cursor.execute(
-            "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
+            "REPLACE INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
+            (msgid, flag)
         )
         self.conn.commit()
         cursor.close()
@@ -90,24 +93,37 @@ class Store(object):
         )
         result = cursor.fetchone()
         cursor.close()
-        return result
+        return result or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Add to the spam and ham counts for the database."""
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
+        cursor.execute(
+            "INSERT IGNORE INTO bayes_vars (id, username) VALUES (1, '')")
+        cursor.execute("UPDATE bayes_vars "
+                       "SET spam_count=GREATEST(spam_count + %s, 0), "
+                       "ham_count=GREATEST(ham_count + %s, 0)",
                        (spam, ham))
         self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Add to the spam and ham counts of the specified tokens and update
+        their access time. Tokens that are not in any learned message any more
+        are removed."""
         cursor = self.conn.cursor()
-        for token in tokens:
+        for token, _ in tokens:
             cursor.execute(
-                "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
-                "WHERE token=%s", (spam, ham, msgatime, token))
+                "INSERT INTO bayes_token "
+                "(id, token, spam_count, ham_count, atime) "
+                "VALUES (0, %s, GREATEST(%s, 0), GREATEST(%s, 0), %s) "
+                "ON DUPLICATE KEY UPDATE "
+                "spam_count=GREATEST(spam_count + %s, 0), "
+                "ham_count=GREATEST(ham_count + %s, 0), "
+                "atime=GREATEST(atime, VALUES(atime))",
+                (token, spam, ham, int(msgatime), spam, ham))
+        cursor.execute("DELETE FROM bayes_token "
+                       "WHERE spam_count=0 AND ham_count=0")
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..6f80183 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -131,21 +131,18 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
-            "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+        result = self.conn.query(BayesSeen.flag).filter(
+            BayesSeen.msgid == msgid).first()
+        return result[0] if result else None
 
-    def seen_delete(self, id, msgid):
-        self.conn.execute(
-            "DELETE FROM bayes_seen WHERE msgid = :msgid",
-            {"msgid": msgid}
-        )
+    def seen_delete(self, msgid):
+        """Forget the "seen" flag of the specified message."""
+        self.conn.query(BayesSeen).filter(BayesSeen.msgid == msgid).delete()
+        self.conn.commit()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
-        self.conn.execute(
-            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
-            {"flag": flag, "msgid": msgid})
+        self.conn.merge(BayesSeen(id=0, msgid=msgid, flag=flag))
         self.conn.commit()
 
     def cleanup(self):
@@ -154,31 +151,40 @@ class Store(object):
 
     def nspam_nham_get(self):
         """Get the spam and ham counts for the database."""
-        return self.conn.execute(
-            "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
-        ).fetchone()
+        result = self.conn.query(
+            BayesVars.spam_count, BayesVars.ham_count).first()
+        return tuple(result) if result else (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
-            "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
-            {'spam_count': spam, 'ham_count': ham}
-        )
+        """Add to the spam and ham counts for the database."""
+        counts = self.conn.query(BayesVars).first()
+        if counts is None:
+            counts = BayesVars(
+                username="", spam_count=0, ham_count=0, token_count=0,
+                last_expire=0, last_atime_delta=0, last_expire_reduce=0,
+                newest_token_age=0)
+            self.conn.add(counts)
+        counts.spam_count = max(counts.spam_count + spam, 0)
+        counts.ham_count = max(counts.ham_count + ham, 0)
         self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
-        for token in tokens:
-            self.conn.execute(
-                "UPDATE bayes_token "
-                "SET spam_count=:spam_count, ham_count=:ham_count, "
-                "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
-            )
+        """Add to the spam and ham counts of the specified tokens and update
+        their access time. Tokens that are not in any learned message any more
+        are removed."""
+        for token, _ in tokens:
+            entry = self.conn.query(BayesToken).filter(
+                BayesToken.token == bytes(token)).first()
+            if entry is None:
+                entry = BayesToken(id=0, token=bytes(token), spam_count=0,
+                                   ham_count=0, atime=0)
+                self.conn.add(entry)
+            entry.spam_count = max(entry.spam_count + spam, 0)
+            entry.ham_count = max(entry.ham_count + ham, 0)
+            entry.atime = max(entry.atime, int(msgatime))
+            if not entry.spam_count and not entry.ham_count:
+                self.conn.flush()
+                self.conn.delete(entry)
         self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
-- 
2.43.0


From 23cf4f633cb38d13b810c47aa88a64d462f4550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:14 +0000
Subject: [PATCH 099/139] fix: addresses, host names and 8bit sequences of the
 body are made Bayes tokens

---
 oa/plugins/bayes.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..34d486a 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -844,16 +844,14 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
 
             # Are we in the body? If so, apply some body-specific breakouts.
             if region in (1, 2):
-                if CHEW_BODY_MAILADDRS and re.match(r"\S\@\S", token):
-                    rettokens.add(self._tokenise_mail_addrs(token))
-                elif CHEW_BODY_URIS and re.match(r"\S\.[a-z]", token, re.I):
+                if CHEW_BODY_MAILADDRS and re.search(r"\S\@\S", token):
+                    rettokens.update(self._tokenise_mail_addrs(token))
+                elif CHEW_BODY_URIS and re.search(r"\S\.[a-z]", token, re.I):
                     rettokens.add(u"UD:" + token)  # The full token.
-                    bit = token
-                    while True:
-                        bit = re.sub(r"^[^\.]+\.(.+)$", "\1", bit)
-                        if not bit:
-                            break
-                        rettokens.add("UD:" + bit)  # UD = URL domain
+                    bit = re.match(r"[^.]+\.(.+)$", token)
+                    while bit:
+                        rettokens.add(u"UD:" + bit.group(1))  # UD = URL domain
+                        bit = re.match(r"[^.]+\.(.+)$", bit.group(1))
 
             # Note: do not trim down overlong tokens if they contain '*'.
             # This is used as part of split tokens such as "HTo:D*net"
@@ -864,10 +862,10 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
                     # chracter ngrams, but I'm doing tuples to keep the dbs
                     # small(er)." Sounds like a plan to me! (jm)
                     while True:
-                        token = re.sub(r"^(..?)", "", token)
+                        rettokens.add("8:" + token[:2])
+                        token = token[2:]
                         if not token:
                             break
-                        rettokens.add("8:" + token)
                     continue
 
                 if (region == 0 and HEADERS_TOKENIZE_LONG_TOKENS_AS_SKIPS) or (region == 1 and BODY_TOKENIZE_LONG_TOKENS_AS_SKIPS) or (region == 2 and URIS_TOKENIZE_LONG_TOKENS_AS_SKIPS):
@@ -967,7 +965,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             # Replace all hex with literal "H".
             boundary = re.sub(r"[a-fA-F0-9]", "H", mo.groups()[0])
             # Break up blocks of separator chars so they become their own tokens.
-            boundary = re.sub(r"([-_\.=]+)", " \1 ", boundary)
+            boundary = re.sub(r"([-_\.=]+)", r" \1 ", boundary)
             val = val + boundary
         # Stop-list words for Content-Type header: these wind up totally grey.
         return re.sub(r"\b(?:text|charset)\b", "", val)
-- 
2.43.0


From e32eb0257786a381b472a54061d387699184829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 100/139] fix: the addresses of headers are made Bayes tokens

---
 oa/plugins/bayes.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 34d486a..e18d8ac 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1030,13 +1030,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         return val
 
     def find_all_addrs_in_line(self, line):
-        matches = re.search(
-            r"(?:mailto:)?\s([-a-z0-9_\+\:\=\!\#\$\%\&\*\^\?\{\}\|\~\/\.]+\@[-a-z0-9_\+\:\/]+)[-a-z0-9_\+\:\/]+",
-            line
+        return re.findall(
+            r"(?:mailto:)?([-a-z0-9_+:=!#$%&*^?{}|~/.]+"
+            r"@[-a-z0-9_+:/]+(?:\.[-a-z0-9_+:/]+)+)",
+            line, re.I
         )
-        if matches:
-            for match in matches.groups():
-                yield match[0]
 
     def _pre_chew_addr_header(self, val):
         addrs = []
-- 
2.43.0


From 2ef1b67073c4a43b058f95bb772fcc74c5de1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 101/139] fix: the Bayes score is computed from the most
 significant tokens

---
 oa/plugins/bayes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index e18d8ac..41236c6 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1087,7 +1087,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         """Compute the probability that a token is spammy for each
         token."""
         if not ns or not nn:
-            return
+            return []
 
         # Ignore low-freq tokens below this s+n threshold.
         threshold = 1
@@ -1150,7 +1150,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX This has a timer in SA.
         msgtokens = dict(t for t in self.tokenise(msg))
         tokensdata = list(d for d in self.store.tok_get_all(msgtokens) if d is not None)
-        probabilities_ref = (ref for ref in self._compute_prob_for_all_tokens(tokensdata, ns, nn) if ref is not None)
+        probabilities_ref = self._compute_prob_for_all_tokens(tokensdata, ns, nn)
         pw = {}
         for tokendata, prob in zip(tokensdata, probabilities_ref):
             if prob is None:
@@ -1190,7 +1190,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # Robinson's formula.
         pw_keys = pw.keys()
         # XXX This is really inefficient.
-        pw_keys = sorted(pw_keys, key=tok_strength.get)
+        pw_keys = sorted(pw_keys, key=tok_strength.get, reverse=True)
         # pw_keys.sort(cmp=lambda a, b: tok_strength(b) > tok_strength(a))
         pw_keys = pw_keys[:N_SIGNIFICANT_TOKENS]
 
@@ -1278,7 +1278,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         probabilities_ref = self._compute_prob_for_all_tokens(
             [[token, s, n, 0]], ns, nn
         )
-        return probabilities_ref[0]
+        return probabilities_ref[0] if probabilities_ref else None
 
     def _compute_declassification_distance(self, Ns, Nn, ns, nn, prob):
         """If a token is neither hammy nor spammy, return 0.
-- 
2.43.0


From 81af33200f9945ce954c61005e129bc18bfc73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 102/139] fix: check_bayes matches a score of 0 when the
 minimum is 0

---
 oa/plugins/bayes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 41236c6..719f1a0 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1067,7 +1067,8 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX SA has a timer here.
         bayes_score = self.scan(msg)
         self.set_local(msg, 'bayes_score', bayes_score)
-        if bayes_score and (min_score < bayes_score <= max_score):
+        if (bayes_score is not None and bayes_score <= max_score and
+                (not min_score or min_score < bayes_score)):
 
             # TODO: Find test_log implementation.
             if self["detailed_bayes_score"]:
-- 
2.43.0


From c5aec43ce68b6e5ec7c63547c8c561c9475145f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 103/139] fix: a message is learned from its own text

---
 oa/plugins/bayes.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 719f1a0..a3ae4a8 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -504,26 +504,29 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         self.set_local(msg, 'bayes_token_info_hammy', [])
         self.set_local(msg, 'bayes_token_info_spammy', [])
         self.set_local(msg, 'count', 0)
-        self['rendered'] = [msg.msg['subject'] or '\n']
-        self['visible_rendered'] = [msg.msg['subject'] or '\n']
-        self['invisible_rendered'] = []
+        subject = msg.msg['subject'] or '\n'
+        self.set_local(msg, 'rendered', [subject])
+        self.set_local(msg, 'visible_rendered', [subject])
+        self.set_local(msg, 'invisible_rendered', [])
 
     def extract_metadata(self, msg, payload, text, part):
         if part.get_content_type() == 'text/plain':
-            self['rendered'].append(text)
-            self['visible_rendered'].append(text)
+            self.get_local(msg, 'rendered').append(text)
+            self.get_local(msg, 'visible_rendered').append(text)
         if part.get_content_type() == 'text/html':
             # XXX SA parses these and checks for [in]visible content
             pass
 
     def parsed_metadata(self, msg):
-        self.ctxt.log.debug("rendered body %s", self['rendered'])
-        self.ctxt.log.debug("invisible body %s", self['invisible_rendered'])
-        self['rendered'] = "\n".join(self['rendered'])
-        self['invisible_rendered'] = "\n".join(self['invisible_rendered'])
-        self[u"bayes_token_body"] = self.get_body_text_array_common(self["rendered"])
-        self[u'bayes_token_inviz'] = self.get_body_text_array_common(self["invisible_rendered"])
-        self[u'bayes_token_uris'] = []  # self.get_uri_list()
+        rendered = "\n".join(self.get_local(msg, 'rendered'))
+        invisible = "\n".join(self.get_local(msg, 'invisible_rendered'))
+        self.ctxt.log.debug("rendered body %s", rendered)
+        self.ctxt.log.debug("invisible body %s", invisible)
+        self.set_local(msg, u"bayes_token_body",
+                       self.get_body_text_array_common(rendered))
+        self.set_local(msg, u"bayes_token_inviz",
+                       self.get_body_text_array_common(invisible))
+        self.set_local(msg, u"bayes_token_uris", [])  # self.get_uri_list()
 
     def finish_parsing_end(self, ruleset):
         super(BayesPlugin, self).finish_parsing_end(ruleset)
@@ -765,11 +768,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
     def tokenise(self, msg):
         """Convert the message to a sequence of tokens."""
         tokens = []
-        for line in self["bayes_token_body"]:
+        for line in self.get_local(msg, "bayes_token_body"):
             tokens.extend(self._tokenise_line(line, "", 1))
-        for line in self['bayes_token_uris']:
+        for line in self.get_local(msg, "bayes_token_uris"):
             tokens.extend(self._tokenise_line(line, "", 2))
-        for line in self['bayes_token_inviz']:
+        for line in self.get_local(msg, "bayes_token_inviz"):
             if ADD_INVIZ_TOKENS_I_PREFIX:
                 tokens.extend(self._tokenise_line(line, "I*:", 1))
             if ADD_INVIZ_TOKENS_NO_PREFIX:
-- 
2.43.0


From 0e79ecc15b6d0a832777ae8e54e7d377cc5af5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:56 +0000
Subject: [PATCH 104/139] fix: unusable dates of Received headers are skipped
 for the date of reception

---
 oa/message.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 83257f8..dd1afde 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -621,7 +621,12 @@ class Message(oa.context.MessageContext):
             except IndexError:
                 continue
             ts = email.utils.parsedate(ts)
-            return calendar.timegm(ts)
+            if ts is None:
+                continue
+            try:
+                return calendar.timegm(ts)
+            except (ValueError, OverflowError):
+                continue
         # SA will look in other headers too. Perhaps we should also?
         return time.time()
 
-- 
2.43.0


From 8d1403b1f3c8574d08cac70872733cdaaaa477a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:56 +0000
Subject: [PATCH 105/139] fix: messages without a body have an ID

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index dd1afde..c29d0f7 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -595,7 +595,7 @@ class Message(oa.context.MessageContext):
         # Use the hexdigest of a SHA1 hash of (Date: and top N bytes of
         # body), where N is min(1024 bytes, 1/2 of body length).
         date = self.msg[u"Date"] or u"None"
-        body = self.msg.as_string().split("\n\n", 1)[1]
+        body = self.msg.as_string().partition("\n\n")[2]
         if len(body) > 64:
             keep = 1024 if len(body) > 2048 else (len(body) // 2)
             body = body[:keep]
-- 
2.43.0


From 43e3f7962d6faa37a41f0e53724c04611191d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:02 +0000
Subject: [PATCH 106/139] fix: auto-learning looks at the rules that matched

---
 oa/plugins/auto_learn_threshold.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..90107d6 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -166,7 +166,9 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        tests = {name: ruleset.get_rule(name)
+                 for name, result in msg.rules_checked.items() if result}
+        self.prepare_learning_metadata(msg, tests=tests)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-- 
2.43.0


From 3e1bcd47cd481f7a95b0be7466e4ecd97f712d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:02 +0000
Subject: [PATCH 107/139] fix: messages below the threshold are learned as ham

---
 oa/plugins/auto_learn_threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 90107d6..f6da31c 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -172,5 +172,5 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
-- 
2.43.0


From 91ce8e8a9a1caca906ac2de9d90a3b83adc8a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:25 +0000
Subject: [PATCH 108/139] fix: the auto-whitelist works with current versions
 of SQLAlchemy

---
 oa/plugins/awl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..7056640 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -30,7 +30,7 @@ try:
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
     from sqlalchemy.sql.schema import PrimaryKeyConstraint
-    from sqlalchemy.ext.declarative.api import declarative_base
+    from sqlalchemy.ext.declarative import declarative_base
 
     Base = declarative_base()
     has_sqlalchemy = True
-- 
2.43.0


From 45ed098bfa63f2fd13832babfecfef3d0e832a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:25 +0000
Subject: [PATCH 109/139] fix: the auto-whitelist adjusts towards a mean of 0

---
 oa/plugins/awl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 7056640..c2af6aa 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -241,7 +241,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
@@ -291,7 +291,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
-- 
2.43.0


From 0bf30491f2a3c9a401bf9369d0aef6b424696acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 110/139] fix: a failing Pyzor server affects neither the other
 servers nor other plugins

---
 oa/plugins/pyzor.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/pyzor.py b/oa/plugins/pyzor.py
index 015f778..16507f0 100644
--- a/oa/plugins/pyzor.py
+++ b/oa/plugins/pyzor.py
@@ -42,9 +42,14 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         client = self["client"]
         self.ctxt.log.debug("Checking digest %s with Pyzor", digest)
         for server in self["pyzor_servers"]:
-            response = client.check(digest, server.rsplit(":", 1))
-            r_count = int(response["Count"])
-            wl_count = int(response["WL-Count"])
+            try:
+                response = client.check(digest, server.rsplit(":", 1))
+                r_count = int(response["Count"])
+                wl_count = int(response["WL-Count"])
+            except Exception as e:
+                self.ctxt.log.warning("Unable to check digest %s with Pyzor "
+                                      "server %s: %s", digest, server, e)
+                continue
             self.ctxt.log.debug("Response from %s: (%s, %s)", server, r_count,
                                 wl_count)
             msg.plugin_tags["PYZOR_COUNT"] = r_count
@@ -76,7 +81,11 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         self.ctxt.log.debug("Reporting digest %s with Pyzor (%s)", digest,
                             spam)
         for server in self["pyzor_servers"]:
-            if spam:
-                client.report(digest, server.rsplit(":", 1))
-            else:
-                client.whitelist(digest, server.rsplit(":", 1))
+            try:
+                if spam:
+                    client.report(digest, server.rsplit(":", 1))
+                else:
+                    client.whitelist(digest, server.rsplit(":", 1))
+            except Exception as e:
+                self.ctxt.log.warning("Unable to report digest %s to Pyzor "
+                                      "server %s: %s", digest, server, e)
-- 
2.43.0


From 33f897436e443ef6bee29de1cb9e138600211445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 111/139] fix: every Razor rule of a message has the result of
 the first one

---
 oa/plugins/razor2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 4c8827a..8ecde96 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -72,10 +72,10 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
         finally:
             my_timer.cancel()
 
-        if proc.returncode in (1, 0):
-            self.set_local(msg, "razor2_result", proc.returncode)
+        result = int(proc.returncode == 0)
+        self.set_local(msg, "razor2_result", result)
         self.ctxt.log.debug(proc.returncode)
-        return not proc.returncode
+        return result
 
     def launch_subprocess(self, msg, name):
         if not self["razor_config"]:
-- 
2.43.0


From df6b09fcadb2fd2a94e1cd3d6bb7362ebc3534a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 112/139] fix: nothing is reported to Razor unless use_razor2
 is set

---
 oa/plugins/razor2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 8ecde96..e2e0e72 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -107,10 +107,12 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
 
     def plugin_report(self, msg):
         """Report the message to razor server as spam."""
-
+        if not self["use_razor2"]:
+            return
         self.launch_subprocess(msg, "razor-report")
 
     def plugin_revoke(self, msg):
         """Report the message to razor server as ham."""
-
+        if not self["use_razor2"]:
+            return
         self.launch_subprocess(msg, "razor-revoke")
-- 
2.43.0


From 406dc642991cb2b783f4fad5dcf8c2380077afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 113/139] fix: dont_report_to_spamcop disables reporting to
 SpamCop

---
 oa/plugins/spam_cop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 068e4e6..7bd3996 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -86,6 +86,9 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
         message.
         :param msg:
         """
+        if self["dont_report_to_spamcop"]:
+            self.ctxt.log.debug("Not reporting to SpamCop")
+            return False
         if not re.match(".+@.+", self["spamcop_to_address"]):
             self.ctxt.log.warning("Missing required value")
             return False
-- 
2.43.0


From 15fc39e94ff729e7d25ceea28b3b8e29fe25bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 114/139] fix: messages without a usable date of reception are
 not reported to SpamCop

---
 oa/plugins/spam_cop.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 7bd3996..2e715d8 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -50,10 +50,12 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
         Get mail date in timestamp format.
         :param msg:
         """
-        received_header = msg.get_decoded_header("Received")[0]
-        time_mail = received_header.split(";")[1]
-        mail_date = time.mktime(email.utils.parsedate(time_mail))
-        return mail_date
+        try:
+            received_header = msg.get_decoded_header("Received")[0]
+            time_mail = received_header.split(";")[1]
+            return time.mktime(email.utils.parsedate(time_mail))
+        except (IndexError, TypeError, ValueError, OverflowError):
+            return None
 
     def send_mail_method(self, sender, receiver, message):
         """
-- 
2.43.0


From 350fb82d93db2620e4b4692d1721ed9885eb5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 115/139] fix: signatures that cannot be verified are not valid

---
 oa/plugins/dkim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 8b8bd80..513c078 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -87,6 +87,8 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """Return a TXT record associated with a DNS name."""
         try:
             a = self.ctxt.dns.query(name, dns.rdatatype.TXT)
+            if not a:
+                return None
             for r in a.response.answer:
                 if r.rdtype == dns.rdatatype.TXT:
                     return "".join(r.items[0].strings)
@@ -277,6 +279,16 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         self.dkim_valid = 1
         self.dkim_signatures_dependable = 1
         self.dkim_has_valid_author_sig = 1
+        try:
+            self._verify_signature(msg)
+        except Exception as e:
+            self.ctxt.log.info("Cannot verify the DKIM signature: %s", e)
+            self.is_valid = 0
+            self.dkim_valid = 0
+            self.dkim_has_valid_author_sig = 0
+            self.dkim_signatures_dependable = 0
+
+    def _verify_signature(self, msg):
         message = msg.raw_msg
 
         if not self.author_domains:
-- 
2.43.0


From 5778e497c9a68133e4892756bff0cee17c454852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 116/139] fix: DKIM rules accept only the given domains and
 their subdomains

---
 oa/plugins/dkim.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 513c078..2d84d94 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -264,12 +264,9 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             if signature_domain not in self.author_domains:
                 return False
 
-        parts = acceptable_domains.split('.')
-        if len(parts) > 1:
-            domain = ".".join(parts[-2:]).encode()
-            if domain == signature_domain or domain in signature_domain:
-                result = 1
-        elif acceptable_domains == signature_domain:
+        domain = acceptable_domains.lower().encode()
+        if signature_domain == domain or \
+                signature_domain.endswith(b"." + domain):
             result = 1
         return result
 
-- 
2.43.0


From 2bb9a9d753d1c6066ace9d1bd9fee7e37ecb836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 117/139] fix: the domains of DKIM signatures and authors are
 compared without regard to case

---
 oa/plugins/dkim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 2d84d94..c232442 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -243,7 +243,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             match_domain = Regex("@([^@]+?)[ \t]*$").search(header)
             if match_domain:
                 domain = match_domain.group(1)
-                self.author_domains.append(domain.encode())
+                self.author_domains.append(domain.lower().encode())
 
     def _check_dkim_signed_by(self, msg, must_be_valid,
                               must_be_author_domain_signature,
@@ -255,7 +255,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             if not self.is_valid:
                 return False
         try:
-            signature_domain = parsed_signature[b'd']
+            signature_domain = parsed_signature[b'd'].lower()
         except KeyError:
             return False
         if must_be_author_domain_signature:
@@ -295,7 +295,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             self.dkim_signed = 0
         parsed_signature = dkim.util.parse_tag_value(signature.encode())
         try:
-            if parsed_signature[b'd'] not in self.author_domains:
+            if parsed_signature[b'd'].lower() not in self.author_domains:
                 self.dkim_valid = 0
                 self.dkim_signed = 0
                 self.dkim_has_valid_author_sig = 0
-- 
2.43.0


From 58646d665babf20d67dcd0f0ab033e2f28c4a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 118/139] fix: entries of the DKIM whitelists match whole
 addresses

---
 oa/plugins/dkim.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index c232442..4f5b7cb 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -124,6 +124,14 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
                     parsed_list[line[0].encode().replace(b'*', b'.*')] = ""
         return parsed_list
 
+    @staticmethod
+    def _glob_match(pattern, value):
+        """Check if the whole value matches a pattern of the parsed lists,
+        only asterisks have a special meaning.
+        """
+        regex = b".*".join(re.escape(part) for part in pattern.split(b".*"))
+        return re.match(regex + br"\Z", value, re.I | re.S)
+
     def check_dkim_adsp(self, msg, adsp_char="", domains_list=None,
                         target=None):
         """Check Author Domain Signing Practices from any author domains or
@@ -230,10 +238,10 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         whitelist_address = self.parse_input(list_name)
         for author in self.author_addresses:
             for key, value in whitelist_address.items():
-                if re.match(key, author.encode()):
+                if self._glob_match(key, author.encode()):
                     if value == "":
                         return True
-                    elif value.encode() in self.author_domains:
+                    elif value.lower().encode() in self.author_domains:
                         return True
         return False
 
-- 
2.43.0


From 4254f488f4626fb1399947407eca622f0c9a527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 119/139] fix: ADSP rules follow the override of the author's
 domain

---
 oa/plugins/dkim.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 4f5b7cb..963d8ac 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -140,34 +140,36 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             self.check_dkim_signature(msg)
         if self.dkim_valid:
             return False
-        if len(self["adsp_override"]) > 3:
-            return False
+        overridden = False
         parsed_adsp_override = self.parse_input("adsp_override")
         for author in self.author_domains:
-            if domains_list and domains_list.encode() != author:
+            if domains_list and domains_list.lower().encode() != author:
                 continue
-            if not parsed_adsp_override[author]:
-                if adsp_char == 'D':
-                    self.match_adsp = 1
-                    return True
             if adsp_char == "*":
                 self.match_adsp = 1
                 return True
-            try:
-                for key in parsed_adsp_override.keys():
-                    if Regex(key).search(author) and parsed_adsp_override[key]:
-                        if self.adsp_options[adsp_char] == \
-                                parsed_adsp_override[key].lower():
-                            self.match_adsp = 1
-                            return True
-            except KeyError:
-                return False
-            except AttributeError:
-                continue
-        if not self.match_adsp and adsp_char == 'U':
+            practice = self._get_adsp_override(parsed_adsp_override, author)
+            if practice is not None:
+                overridden = True
+            # Discardable is the default
+            if (practice or "discardable") == self.adsp_options.get(adsp_char):
+                self.match_adsp = 1
+                return True
+        if not self.match_adsp and not overridden and adsp_char == 'U':
             return True
         return False
 
+    def _get_adsp_override(self, overrides, domain):
+        """Get the configured practice of the domain: an empty string if
+        it is overridden without one and None if it's not overridden.
+        """
+        if domain in overrides:
+            return overrides[domain].lower()
+        for pattern, practice in overrides.items():
+            if self._glob_match(pattern, domain):
+                return practice.lower()
+        return None
+
     def check_dkim_signed(self, msg, *args, **kwargs):
         """Check if message has a DKIM signature, not necessarily valid.
         """
-- 
2.43.0


From 43cd679ea4cc937d0c2272a190afabfea96b08c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 120/139] fix: alternatives of an unusable type are not text

---
 oa/plugins/mime_eval.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 333a323..239ab52 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -153,9 +153,14 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             return
         if not self.get_local(msg, "mime_ma_non_text"):
             for ma_part in part.get_payload():
-                if(ma_part.get_content_maintype() != "text" and
-                   ma_part.get_content_type() not in (
-                       "multipart/related", "application/rtf")):
+                content_type = ma_part.get_content_type()
+                # Unusable types are parsed as text/plain
+                declared = ma_part.get("Content-Type") or content_type
+                known = str(declared).strip().lower().startswith(content_type)
+                if not known or (
+                        ma_part.get_content_maintype() != "text" and
+                        content_type not in (
+                            "multipart/related", "application/rtf")):
                     self.set_local(msg, "mime_ma_non_text", True)
 
     def check_start(self, msg):
-- 
2.43.0


From ec559aa6d94c1b087422ad23036c3da9d4cf2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:16 +0000
Subject: [PATCH 121/139] fix: UCS charsets are fine in every locale

---
 oa/locales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/locales.py b/oa/locales.py
index 2c84662..4ad6087 100644
--- a/oa/locales.py
+++ b/oa/locales.py
@@ -38,7 +38,7 @@ ALWAYS_OK_CHARSETS_PATTERN = """
 ^ISO8859|
 ^ISO10646|
 ^UTF|
-^USC|
+^UCS|
 ^CP125|
 ^WINDOWS|
 ^UNICODE11UTF[78]|
-- 
2.43.0


From 0dbce5eeeada59318ba02d15012144e98aa8a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:16 +0000
Subject: [PATCH 122/139] fix: all may be given along with other locales

---
 oa/plugins/header_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 910c34a..e913887 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -80,7 +80,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         and not set to ALL.
         """
         ok_locales = self.ctxt.conf.get_global("ok_locales")
-        if not ok_locales or ok_locales.lower() == "all":
+        if not ok_locales or "all" in ok_locales.lower().split():
             return False
         ok_locales = ok_locales.split()
 
-- 
2.43.0


From bb352ed568175e2c457321ebf490c4bc1cf7c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:16 +0000
Subject: [PATCH 123/139] fix: check_for_faraway_charset needs a part with more
 non-ASCII characters

---
 oa/plugins/mime_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 239ab52..5c10940 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -180,8 +180,8 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         content = part.get_payload(decode=True)
         if content:
             low = len(content.decode("ascii", errors="ignore"))
-            high = len(content)
-            if high>low and high*2>3:
+            high = len(content) - low
+            if high > low:
                 self.set_local(msg, "more_high_bits_than_low", True)
 
         content_type = part.get_content_type()
-- 
2.43.0


From a0743bffd9d49852421516eff76712512f400ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:16 +0000
Subject: [PATCH 124/139] fix: the case of all does not matter in ok_locales

---
 oa/plugins/mime_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 5c10940..b181836 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -117,7 +117,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if charset and re.match("[a-z]", charset, re.IGNORECASE):
             faraway_charset = self.get_local(msg, "mime_faraway_charset")
             if not faraway_charset:
-                if "all" not in locales:
+                if "all" not in [loc.lower() for loc in locales]:
                     ok_for_locale = oa.locales.charset_ok_for_locales(charset,
                                                                       locales)
                     self.set_local(msg, "mime_faraway_charset",
-- 
2.43.0


From a23f30574207e0f3b85b6fe0af1f87e6d0da4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:19 +0000
Subject: [PATCH 125/139] fix: directories are not configuration files

---
 oa/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oa/config.py b/oa/config.py
index 479a0ea..4f50b56 100644
--- a/oa/config.py
+++ b/oa/config.py
@@ -97,8 +97,9 @@ def get_default_configs(site=False):
 def get_files_with_extension(path, extension):
     path = os.path.expanduser(path)
     for p in os.listdir(path):
-        if p.endswith(extension):
-            yield os.path.join(path, p)
+        full_path = os.path.join(path, p)
+        if p.endswith(extension) and os.path.isfile(full_path):
+            yield full_path
 
 
 def get_config_files(config_path, siteconfig_path, userpref_path=None):
@@ -115,7 +116,7 @@ def get_config_files(config_path, siteconfig_path, userpref_path=None):
             sorted(get_files_with_extension(siteconfig_path, ".cf")))
     if userpref_path is not None:
         userpref_path = os.path.expanduser(userpref_path)
-        if os.path.exists(userpref_path):
+        if os.path.isfile(userpref_path):
             config_files.append(userpref_path)
     return config_files
 
-- 
2.43.0


From f69e8b2b25d1d0ff0d4b8957da453cc7be1453b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:19 +0000
Subject: [PATCH 126/139] fix: the files of a directory are loaded once however
 its path is written

---
 oa/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/config.py b/oa/config.py
index 4f50b56..cce2a8a 100644
--- a/oa/config.py
+++ b/oa/config.py
@@ -107,7 +107,8 @@ def get_config_files(config_path, siteconfig_path, userpref_path=None):
     config_files = []
     config_files.extend(
             sorted(get_files_with_extension(siteconfig_path, ".pre")))
-    if siteconfig_path != config_path:
+    if (os.path.realpath(os.path.expanduser(siteconfig_path)) !=
+            os.path.realpath(os.path.expanduser(config_path))):
         config_files.extend(
                 sorted(get_files_with_extension(config_path, ".pre")))
         config_files.extend(
-- 
2.43.0


From 2517f08a23a7e5ba0d8c2f7b082ffae4a6ee6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 127/139] fix: unloading a plugin restores the rules it had
 redefined

---
 oa/context.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 877b661..05b6fab 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -251,14 +251,25 @@ class GlobalContext(_Context):
         if name not in self.plugins:
             raise oa.errors.PluginLoadError("Plugin %s not loaded." % name)
 
-        plugin = self.plugins[name]
-        # Delete any defined rules
+        plugin = self.plugins.pop(name)
+        self._unregister(plugin)
+        self.pop_plugin_data(name)
+
+    def _unregister(self, plugin):
+        """Remove the rules defined by this plugin and restore the ones of
+        the other plugins that it had redefined.
+        """
         for rule in plugin.eval_rules:
             self.eval_rules.pop(rule, None)
         for rule_type in plugin.cmds or ():
             self.cmds.pop(rule_type, None)
-        self.pop_plugin_data(name)
-        del self.plugins[name]
+        for other in self.plugins.values():
+            for rule in other.eval_rules:
+                if rule in plugin.eval_rules:
+                    self.eval_rules[rule] = getattr(other, rule)
+            for rule_type, rule_class in (other.cmds or {}).items():
+                if rule_type in (plugin.cmds or ()):
+                    self.cmds[rule_type] = rule_class
 
     @staticmethod
     def _load_module_py3(path):
-- 
2.43.0


From 9e1bf9828e09f399d15e8974df2138dcb5386728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 128/139] fix: nothing is registered for a plugin that can't be
 loaded

---
 oa/context.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 05b6fab..b5af13e 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -206,8 +206,14 @@ class GlobalContext(_Context):
         # Options changed in place must not affect other contexts
         if plugin.options:
             plugin.options = copy.deepcopy(plugin.options)
-        self._load_cmds(plugin, class_name)
-        self._load_eval_rules(plugin, class_name)
+        try:
+            self._load_cmds(plugin, class_name)
+            self._load_eval_rules(plugin, class_name)
+        except oa.errors.PluginLoadError:
+            # Don't leave behind a part of the plugin
+            self._unregister(plugin)
+            self.pop_plugin_data(class_name)
+            raise
         self.log.info("Plugin %s loaded", name)
         if path is not None:
             plugin.path_to_plugin = (name, path)
-- 
2.43.0


From d7d78088db7d58ef2f175e236a416cadbfe704a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:22 +0000
Subject: [PATCH 129/139] fix: loading a plugin from a file leaves the loaded
 modules unchanged

---
 oa/context.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oa/context.py b/oa/context.py
index b5af13e..8bbc2d2 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -283,7 +283,14 @@ class GlobalContext(_Context):
         modulename = os.path.splitext(os.path.basename(path))[0]
 
         loader = importlib.machinery.SourceFileLoader(modulename, path)
-        return loader.load_module()
+        # A module that has the same name would be executed again and its
+        # contents replaced, even if it's not a plugin
+        loaded = sys.modules.pop(modulename, None)
+        try:
+            return loader.load_module()
+        finally:
+            if loaded is not None:
+                sys.modules[modulename] = loaded
 
     @staticmethod
     def _load_module_py2(path):
-- 
2.43.0


From eae331237a88707f596a15c55fe3db2c49bcf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:27 +0000
Subject: [PATCH 130/139] fix: the workers of a preforked daemon reload too

---
 oa/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 6337f6a..55e8e62 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -72,6 +72,8 @@ class Server(spoon.server.TCPSpoon):
 
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
+        # Make any worker processes reload as well
+        super(Server, self).load_config()
         self._user_rulesets.clear()
         self._config_files = list(
             oa.config.get_config_files(self.configpath, self.sitepath))
-- 
2.43.0


From 3260721856161041661cdacd469df7109ed52c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:27 +0000
Subject: [PATCH 131/139] fix: reloading replaces the configuration at once

---
 oa/server.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index 55e8e62..6486956 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -4,6 +4,7 @@ returns the result.
 from __future__ import absolute_import
 
 import os
+import threading
 
 import spoon.server
 
@@ -63,6 +64,7 @@ class Server(spoon.server.TCPSpoon):
         self.ignore_unknown = ignore_unknown
         self._ruleset = None
         self._user_rulesets = {}
+        self._load_lock = threading.Lock()
         self._parser_results = None
         self._config_files = []
         self.sitepath = sitepath
@@ -74,15 +76,22 @@ class Server(spoon.server.TCPSpoon):
         """Reads the configuration files and reloads the ruleset."""
         # Make any worker processes reload as well
         super(Server, self).load_config()
-        self._user_rulesets.clear()
-        self._config_files = list(
-            oa.config.get_config_files(self.configpath, self.sitepath))
-        parser = oa.rules.parser.parse_pad_rules(
-            self._config_files,
-            paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
-        )
-        self._ruleset = parser.get_ruleset()
-        self._parser_results = parser.results
+        # Every reload has its own thread, the last one must win
+        with self._load_lock:
+            config_files = list(
+                oa.config.get_config_files(self.configpath, self.sitepath))
+            parser = oa.rules.parser.parse_pad_rules(
+                config_files,
+                paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
+            )
+            ruleset = parser.get_ruleset()
+            # Nothing is changed if the configuration can't be loaded
+            self._config_files = config_files
+            self._parser_results = parser.results
+            self._ruleset = ruleset
+            # Use a new dictionary as the request that is being handled may
+            # add a ruleset with the previous configuration to the old one
+            self._user_rulesets = {}
 
     def get_user_ruleset(self, user=None):
         """Get the corresponding ruleset for this user. If the
@@ -93,9 +102,10 @@ class Server(spoon.server.TCPSpoon):
           be returned.
         :return: a `oa.rules.ruleset.RuleSet` object
         """
+        user_rulesets = self._user_rulesets
         if user is not None and self._ruleset.conf["allow_user_rules"]:
-            if user in self._user_rulesets:
-                return self._user_rulesets[user]
+            if user in user_rulesets:
+                return user_rulesets[user]
 
             if user in ("", os.curdir, os.pardir) or os.sep in user:
                 self.log.warn("Invalid user name: %s", user)
@@ -117,7 +127,7 @@ class Server(spoon.server.TCPSpoon):
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
             # Cache the result
-            self._user_rulesets[user] = ruleset
+            user_rulesets[user] = ruleset
             return ruleset
         return self._ruleset
 
-- 
2.43.0


From db5da49cfd10bb7b0b53dbc2c2c0f2a27d6bfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:27 +0000
Subject: [PATCH 132/139] fix: preferences that include themselves don't stop
 the requests of the user

---
 oa/server.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index 6486956..58f3bbe 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -10,6 +10,7 @@ import spoon.server
 
 import oa
 import oa.config
+import oa.errors
 import oa.protocol
 import oa.rules.parser
 
@@ -121,10 +122,14 @@ class Server(spoon.server.TCPSpoon):
             # The settings and the plugins are stored in the context of
             # the parser, so parse the site files again and then the
             # user's.
-            for config_file in self._config_files:
-                parser.parse_file(config_file)
-            parser.parse_file(path)
-            ruleset = parser.get_ruleset()
+            try:
+                for config_file in self._config_files:
+                    parser.parse_file(config_file)
+                parser.parse_file(path)
+                ruleset = parser.get_ruleset()
+            except oa.errors.MaxRecursionDepthExceeded:
+                self.log.warn("Include loop in the preferences of %s", user)
+                return self._ruleset
             ruleset.ctxt.username = user
             # Cache the result
             user_rulesets[user] = ruleset
-- 
2.43.0


From 21ccc30083b085f2218a294ddda21487764396ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:05 +0000
Subject: [PATCH 133/139] fix: relative paths are fine for the daemon

---
 scripts/oad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/oad.py b/scripts/oad.py
index 82e23dd..1ee9b02 100755
--- a/scripts/oad.py
+++ b/scripts/oad.py
@@ -19,6 +19,10 @@ import oa.server
 def run_daemon(args):
     """Start the daemon."""
     if args.daemonize:
+        # The working directory changes
+        for name in ("pidfile", "sitepath", "configpath"):
+            path = os.path.expanduser(getattr(args, name))
+            setattr(args, name, os.path.abspath(path))
         spoon.daemon.detach(pidfile=args.pidfile)
     address = (args.listen, args.port)
     if args.prefork is not None:
-- 
2.43.0


From 7c12c8749582b20484a65e7827396b61bc63b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:48 +0000
Subject: [PATCH 134/139] fix: workers don't wait for a connection that another
 one has taken

---
 oa/server.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 58f3bbe..324c58d 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -143,3 +143,14 @@ class PreForkServer(Server, spoon.server.TCPSpork):
 
     The parent process will then wait for all his child process to complete.
     """
+
+    def server_activate(self):
+        super(PreForkServer, self).server_activate()
+        # All workers are notified of a connection, but only one gets it. The
+        # others must not wait for the next one.
+        self.socket.setblocking(False)
+
+    def get_request(self):
+        request, address = super(PreForkServer, self).get_request()
+        request.setblocking(True)
+        return request, address
-- 
2.43.0


From 62c7c1f6b228763457b7b328c603ad46ac144f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:24 +0000
Subject: [PATCH 135/139] fix: every message of a directory is counted as
 examined

---
 scripts/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 9b4a2a6..734b4d9 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -171,7 +171,7 @@ def main():
                 print(ruleset.get_adjusted_message(msg))
                 if options.test_mode:
                     print(ruleset.get_report(msg))
-        count += 1
+            count += 1
     if options.revoke or options.report:
         print("%s message(s) examined" % count)
 
-- 
2.43.0


From 733c5ca0fc4846a05d2cbb1d868dd30f184e4fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:24 +0000
Subject: [PATCH 136/139] fix: directories of messages may have subdirectories

---
 scripts/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 734b4d9..9245531 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -26,8 +26,10 @@ from future.utils import PY3
 class MessageList(argparse.FileType):
     def __call__(self, string):
         if os.path.isdir(string):
-            for x in os.listdir(string):
+            for x in sorted(os.listdir(string)):
                 path = os.path.join(string, x)
+                if not os.path.isfile(path):
+                    continue
                 msgf = super(MessageList, self).__call__(path)
                 yield msgf
         else:
-- 
2.43.0


From ca83bda3b1c32fea3bdad79020d7a93a831f84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:24 +0000
Subject: [PATCH 137/139] fix: - is the same message as the standard input

---
 scripts/match.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/match.py b/scripts/match.py
index 9245531..0e2c112 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -32,6 +32,8 @@ class MessageList(argparse.FileType):
                     continue
                 msgf = super(MessageList, self).__call__(path)
                 yield msgf
+        elif string == "-":
+            yield get_binary_stdin()
         else:
             yield super(MessageList, self).__call__(string)
 
-- 
2.43.0


From 9309a1fec5c7da407e01e58ae950ae8b723825ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 138/139] fix: geo databases that are damaged or of another
 kind don't stop the scan

---
 oa/plugins/relay_country.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/relay_country.py b/oa/plugins/relay_country.py
index 7928091..4819c5b 100644
--- a/oa/plugins/relay_country.py
+++ b/oa/plugins/relay_country.py
@@ -67,7 +67,11 @@ class RelayCountryPlugin(oa.plugins.base.BasePlugin):
         if not reader:
             self.ctxt.log.warning("Database not loaded.")
             return "XX"
-        response = reader.country_code_by_addr(str(ipaddr))
+        try:
+            response = reader.country_code_by_addr(str(ipaddr))
+        except (pygeoip.GeoIPError, IndexError) as exc:
+            self.ctxt.log.warning("Unable to use geo database: %r", exc)
+            return "XX"
         if not response:
             self.ctxt.log.info("Can't locate IP '%s' in database", ipaddr)
             # Cant locate the IP in database.
-- 
2.43.0


From 4f645eec6d8957d2fa32ae8353452f84be5be83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:56 +0000
Subject: [PATCH 139/139] fix: the originating IP headers are not Received
 headers for the rules

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index c29d0f7..13fc1ca 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -482,7 +482,8 @@ class Message(oa.context.MessageContext):
         self.text = " ".join(body)
         self.raw_text = "\n".join(raw_body)
 
-        received_headers = self.get_decoded_header("Received")
+        # The result is cached, it must not be changed
+        received_headers = list(self.get_decoded_header("Received"))
         for header in self.ctxt.conf["originating_ip_headers"]:
             headers = ["X-ORIGINATING-IP: %s" % x
                        for x in self.get_decoded_header(header)]
-- 
2.43.0

