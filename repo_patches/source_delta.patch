From 0c37c4a22ea7f01562c101ef2e7a885d118dc3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 01/52] fix: enforce multipleOf for integers

---
 pyswagger/primitives/_int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index a4a9eba..901b26a 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -1,10 +1,13 @@
 from __future__ import absolute_import
+from ..errs import ValidationError
 from .comm import min_max
 
 
 def validate_int(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
+    if obj.multipleOf and ret % obj.multipleOf != 0:
+        raise ValidationError('{0} should be multiple of {1}'.format(val, obj.multipleOf))
 
     return val
  
-- 
2.43.0


From e5b52e56d871784381a32614742c0afbcdded195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 02/52] fix: enforce maxLength of 0

---
 pyswagger/primitives/_str.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index a60b51b..768cef6 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -7,9 +7,9 @@ from validate_email import validate_email
 def validate_str(obj, ret, val, ctx):
     if obj.enum and ret not in obj.enum:
         raise ValidationError('{0} is not a valid enum for {1}'.format(ret, str(obj.enum)))
-    if obj.maxLength and len(ret) > obj.maxLength:
+    if obj.maxLength is not None and len(ret) > obj.maxLength:
         raise ValidationError('[{0}] is longer than {1} characters'.format(ret, str(obj.maxLength)))
-    if obj.minLength and len(ret) < obj.minLength:
+    if obj.minLength is not None and len(ret) < obj.minLength:
         raise ValidationError('[{0}] is shorter than {1} characters'.format(ret, str(obj.minLength)))
 
     # TODO: handle pattern
-- 
2.43.0


From 951351b91aa66acdd8904216e64fa5fde984115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 03/52] fix: enforce maxItems of 0

---
 pyswagger/primitives/_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..1d7a435 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -49,9 +49,9 @@ class Array(list):
             val = []
 
         # init array as list
-        if obj.minItems and len(self) < obj.minItems:
+        if obj.minItems is not None and len(self) < obj.minItems:
             raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems and len(self) > obj.maxItems:
+        if obj.maxItems is not None and len(self) > obj.maxItems:
             raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
 
         return val
-- 
2.43.0


From 65952cff1d5008651779cdda472a1d93f5b3ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 04/52] fix: keep the separator after leading empty items of an
 array

---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 1d7a435..eb675b1 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -64,10 +64,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join([str(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From 29321a6da8e4aa62f3a45a187cc96fba59a3745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 05/52] fix: keep the order of any sequence when removing
 duplicates

---
 pyswagger/primitives/_array.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index eb675b1..e03ac34 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -33,16 +33,12 @@ class Array(list):
 
         # remove duplication when uniqueItems == True
         if obj.uniqueItems:
-            if isinstance(val, (list, dict)):
-                seen = []
-                for e in val:
-                    if e in seen:
-                        continue
-                    seen.append(e)
-                val = seen
-            else:
-                # assume the type is hashable
-                val = set(val)
+            seen = []
+            for e in val:
+                if e in seen:
+                    continue
+                seen.append(e)
+            val = seen
 
         if obj.items and len(val):
             self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
-- 
2.43.0


From b07c141a9255ffbaba87978ef2997121492fabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 06/52] fix: apply every allOf member, whatever their order and
 the value

A falsy result (0, '', an empty model) was produced again by each member
instead of being validated, properties converted by earlier members were
overwritten with raw values, members of members were ignored, and required
keys were looked for before all members were applied. Values of untyped
schemas that are no mapping failed with AttributeError.
---
 pyswagger/primitives/__init__.py | 65 ++++++++++++++++++--------------
 pyswagger/primitives/_model.py   | 10 +++--
 2 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..4babba0 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+from ..errs import CycleDetectionError
 from ..utils import deref, CycleGuard
 from ._int import create_int, validate_int
 from ._str import create_str, validate_str, validate_email_
@@ -185,19 +186,28 @@ class Primitive(object):
         # cycle guard
         ctx['guard'].update(obj)
 
+        # the constraints of this object and those of all its allOf members
+        # have to be applied
+        members = self._members(obj, [])
+        typed = next((o for o in members if o.type), None)
+
         ret = None
-        if obj.type:
-            creater, _2nd = self.get(_type=obj.type, _format=obj.format)
+        if typed:
+            creater, _2nd = self.get(_type=typed.type, _format=typed.format)
             if not creater:
-                raise ValueError('Can\'t resolve type from:(' + str(obj.type) + ', ' + str(obj.format) + ')')
+                raise ValueError('Can\'t resolve type from:(' + str(typed.type) + ', ' + str(typed.format) + ')')
 
-            ret = creater(obj, val, ctx)
+            ret = creater(typed, val, ctx)
             if _2nd:
-                val = _2nd(obj, ret, val, ctx)
+                val = _2nd(typed, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties:
+        elif any(len(o.properties) for o in members):
+            ret = Model()
+        elif not isinstance(val, dict):
+            # neither type nor property is declared, any value is allowed
+            return val
+        elif any(o.additionalProperties for o in members):
             ret = Model()
-            val = ret.apply_with(obj, val, ctx)
 
         if isinstance(ret, (Date, Datetime, Byte, File)):
             # it's meanless to handle allOf for these types.
@@ -216,32 +226,29 @@ class Primitive(object):
                     c['2nd_pass'] = _2nd
             return v
 
-        # handle allOf for Schema Object
-        allOf = getattr(obj, 'allOf', None)
-        if allOf:
-            not_applied = []
-            for a in allOf:
-                a = deref(a)
-                if not ret:
-                    # try to find right type for this primitive.
-                    ret = self.produce(a, val, ctx)
-                    is_member = hasattr(ret, 'apply_with')
-                else:
-                    val = _apply(a, ret, val, ctx)
-
-                if not ret:
-                    # if we still can't determine the type,
-                    # keep this Schema object for later use.
-                    not_applied.append(a)
-            if ret:
-                for a in not_applied:
-                    val = _apply(a, ret, val, ctx)
-
-        if ret != None and hasattr(ret, 'cleanup'):
+        if ret is not None:
+            for o in members:
+                if o is not typed:
+                    val = _apply(o, ret, val, ctx)
+
+        if ret is not None and hasattr(ret, 'cleanup'):
             val = ret.cleanup(val, ctx)
 
         return ret
 
+    def _members(self, obj, path):
+        """ flatten a Schema Object and its allOf members, also nested ones
+        """
+        if any(obj is o for o in path):
+            raise CycleDetectionError('Cycle detected: {0}'.format(getattr(obj, '$ref', None)))
+
+        ret = [obj]
+        for a in getattr(obj, 'allOf', None) or []:
+            for m in self._members(deref(a), path + [obj]):
+                if not any(m is o for o in ret):
+                    ret.append(m)
+        return ret
+
     def is_primitive(self, _type):
         """ check if a given object refering to a primitive
         defined in spec.
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..f5e5c42 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,9 +44,9 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
-        if len(not_found):
-            raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
+        # a required key might be provided by another member of allOf,
+        # they are checked once all of them are applied.
+        ctx['required'] = ctx.get('required', []) + list(obj.required)
 
         # remove assigned properties to avoid duplicated
         # primitive creation
@@ -72,6 +72,10 @@ class Model(dict):
                 self[k] = ctx['factory'].produce(obj.additionalProperties, v)
             ctx['addp_schema'] = None
 
+        not_found = set(ctx.pop('required', [])) - set(six.iterkeys(self))
+        if len(not_found):
+            raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
+
         return {}
 
     def __eq__(self, other):
-- 
2.43.0


From 76f34c05ffbc5b1b18bc9a7c0ee87035d5f14cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 07/52] fix: reject nested read-only properties in write
 context

---
 pyswagger/primitives/_array.py | 3 +--
 pyswagger/primitives/_model.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e03ac34..a956c32 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -1,6 +1,5 @@
 from __future__ import absolute_import
 from ..errs import ValidationError, SchemaError
-import functools
 import six
 
 
@@ -41,7 +40,7 @@ class Array(list):
             val = seen
 
         if obj.items and len(val):
-            self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
+            self.extend([ctx['factory'].produce(obj.items, v, dict(read=ctx['read'])) for v in val])
             val = []
 
         # init array as list
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index f5e5c42..e005f9c 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -26,7 +26,7 @@ class Model(dict):
                 if pobj.readOnly == True and ctx['read'] == False:
                     raise Exception('read-only property is set in write context.')
 
-                self[k] = ctx['factory'].produce(pobj, v)
+                self[k] = ctx['factory'].produce(pobj, v, dict(read=ctx['read']))
 
             # TODO: patternProperties here
             # TODO: fix bug, everything would not go into additionalProperties, instead of recursive
@@ -42,7 +42,7 @@ class Model(dict):
         for k in other_prop:
             p = obj.properties[k]
             if p.is_set("default"):
-                self[k] = ctx['factory'].produce(p, p.default)
+                self[k] = ctx['factory'].produce(p, p.default, dict(read=ctx['read']))
 
         # a required key might be provided by another member of allOf,
         # they are checked once all of them are applied.
@@ -69,7 +69,7 @@ class Model(dict):
         elif ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
-                self[k] = ctx['factory'].produce(obj.additionalProperties, v)
+                self[k] = ctx['factory'].produce(obj.additionalProperties, v, dict(read=ctx['read']))
             ctx['addp_schema'] = None
 
         not_found = set(ctx.pop('required', [])) - set(six.iterkeys(self))
-- 
2.43.0


From 34f5c533cc549947475536e5c6be86d0409205e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 08/52] fix: take date-time texts as a whole

Everything after the part that could be read was ignored: an offset after
more than six digits of a fraction, a time after a space or 't', garbage.
---
 pyswagger/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..f2b1d13 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -127,12 +127,13 @@ class FixedTZ(datetime.tzinfo):
         return datetime.timedelta(0)
 
 _iso8601_fmt = re.compile(''.join([
-    '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
-    'T', # T
-    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
-    '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
+    '(?P<year>[0-9]{4})-(?P<month>[0-9]{2})-(?P<day>[0-9]{2})', # YYYY-MM-DD
+    '[Tt ]', # T
+    '(?P<hour>[0-9]{2}):(?P<minute>[0-9]{2})', # hh:mm
+    '(:(?P<second>[0-9]{1,2})(\.(?P<microsecond>[0-9]{1,6})[0-9]*)?)?', # :ss.ms
+    '(?P<tz>[Zz]|[+-]([01][0-9]|2[0-3]):[0-5][0-9])?\Z' # Z or +/-hh:mm
 ]))
-_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
+_iso8601_fmt_date = re.compile('(?P<year>[0-9]{4})-(?P<month>[0-9]{2})-(?P<day>[0-9]{2})\Z') # YYYY-MM-DD
 
 def from_iso8601(s):
     """ convert iso8601 string to datetime object.
@@ -186,7 +187,7 @@ def from_iso8601(s):
 
         negtive = hh = mm = 0
 
-        if tz_s != 'Z':
+        if tz_s not in ('Z', 'z'):
             negtive = -1 if tz_s[0] == '-' else 1
             hh = int(tz_s[1:3])
             mm = int(tz_s[4:6]) if len(tz_s) > 5 else 0
-- 
2.43.0


From a8832e749b43d817b0fade8d9a289c37046b5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 09/52] fix: send only the date of a datetime given for a date

---
 pyswagger/primitives/_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 31063aa..517eb40 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -30,6 +30,8 @@ class Date(Time):
         self.v = None
         if isinstance(v, float):
             self.v = datetime.date.fromtimestamp(v)
+        elif isinstance(v, datetime.datetime):
+            self.v = v.date()
         elif isinstance(v, datetime.date):
             self.v = v
         elif isinstance(v, six.string_types):
-- 
2.43.0


From a5e3bb51b7601c23a98ff5e5a28370fec43171d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 10/52] fix: percent-encode path arguments and fill names with
 any character

A space was sent as '+', which is a plus sign in a path. Names with a dot,
colon, bracket or digits only were taken as python format expressions.
---
 pyswagger/io.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..8680746 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -7,6 +7,7 @@ import six
 import io, codecs
 import collections
 import logging
+import re
 
 
 logger = logging.getLogger(__name__)
@@ -171,6 +172,15 @@ class Request(object):
 
             logger.info('patching url: [{0}]'.format(self.__url))
 
+    @staticmethod
+    def _fill(template, path_params):
+        """ private function to replace each {name} in a path template,
+        any character but braces and '/' is allowed in names.
+        """
+        tokens = re.split(r'\{([^{}/]*)\}', template)
+        tokens[1::2] = [path_params[name] for name in tokens[1::2]]
+        return ''.join(tokens)
+
     def prepare(self, scheme='http', handle_files=True, encoding='utf-8'):
         """ make this request ready for Clients
 
@@ -192,15 +202,14 @@ class Request(object):
             raise ValueError('"scheme" should be a list or string')
 
         # combine path parameters into path
-        # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
-        self.__path = self.__path.format(**path_params)
+        self.__path = self._fill(self.__path, path_params)
 
         # combine path parameters into url
-        self.__url = ''.join([scheme, ':', self.__url.format(**path_params)])
+        self.__url = ''.join([scheme, ':', self._fill(self.__url, path_params)])
 
         # header parameters
         self.__header.update(self.__p['header'])
-- 
2.43.0


From 3766d94c63c5bdd8420ca16a26908837b780f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 11/52] fix: keep quotes and line breaks of names inside
 multipart headers

---
 pyswagger/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 8680746..bbfa1fe 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -100,11 +100,15 @@ class Request(object):
         body = io.BytesIO()
         w = codecs.getwriter(encoding)
 
+        def quoted(name):
+            # keep a name inside of its quotes, in the way browsers do
+            return '"{0}"'.format(name.replace('"', '%22').replace('\r', '%0D').replace('\n', '%0A'))
+
         def append(name, obj):
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
             # header
-            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(name, obj.filename))
+            w(body).write('Content-Disposition: form-data; name={0}; filename={1}'.format(quoted(name), quoted(obj.filename)))
             body.write(six.b('\r\n'))
             if 'Content-Type' in obj.header:
                 w(body).write('Content-Type: {0}'.format(obj.header['Content-Type']))
@@ -130,7 +134,7 @@ class Request(object):
         for k, v in self.__p['formData']:
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
-            w(body).write('Content-Disposition: form-data; name="{0}"'.format(k))
+            w(body).write('Content-Disposition: form-data; name={0}'.format(quoted(k)))
             body.write(six.b('\r\n'))
             body.write(six.b('\r\n'))
 
-- 
2.43.0


From 2b54790c8fe25aacd7f9b59f05a994972f3ce5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 12/52] fix: leave headers and options given to compose_headers
 as they are

---
 pyswagger/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..1791191 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -577,10 +577,10 @@ class BaseClient(object):
             return list(req.header.items()) if not as_dict else req.header
 
         opt = opt or {}
-        join_headers = opt.pop(BaseClient.join_headers, None)
+        join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From 3c11300450e6a0e01b44cdb6ef1f93f222c3a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 13/52] fix: leave the list of schemes given to prepare as it
 is

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index bbfa1fe..5ea5b3c 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -196,7 +196,7 @@ class Request(object):
 
         if isinstance(scheme, list):
             if self.__scheme is None:
-                scheme = scheme.pop()
+                scheme = scheme[-1]
             else:
                 if self.__scheme in scheme:
                     scheme = self.__scheme
-- 
2.43.0


From 1cd18140fda12c471f07509e422749688a882239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 14/52] fix: leave the options given to a client as they are

---
 pyswagger/contrib/client/flask.py    | 2 +-
 pyswagger/contrib/client/requests.py | 2 +-
 pyswagger/contrib/client/tornado.py  | 2 +-
 pyswagger/contrib/client/webapp2.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 24cee92..49310be 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -28,7 +28,7 @@ class FlaskTestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(FlaskTestClient, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index a7bce1d..15ff8c4 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -32,7 +32,7 @@ class Client(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(Client, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4acac00..4da0643 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -28,7 +28,7 @@ class TornadoClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(TornadoClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
diff --git a/pyswagger/contrib/client/webapp2.py b/pyswagger/contrib/client/webapp2.py
index c733542..df691b9 100644
--- a/pyswagger/contrib/client/webapp2.py
+++ b/pyswagger/contrib/client/webapp2.py
@@ -40,7 +40,7 @@ class Webapp2TestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(Webapp2TestClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
-- 
2.43.0


From 02e3709cb4aa9c6cdd2865c2b6b51530a1964b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 15/52] fix: keep a scheme patched before the preparation of a
 request

---
 pyswagger/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 5ea5b3c..19c6226 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -39,9 +39,11 @@ class Request(object):
         self.__consume = None
         self.__produce = None
         self.__scheme = None
+        self.__patched_scheme = None
 
     def reset(self):
         self.__url = self.__op.url
+        self.__patched_scheme = None
         self.__path = self.__op.path
         self.__header = CaseInsensitiveDict()
         self.__data = None
@@ -165,6 +167,10 @@ class Request(object):
         opt_scheme = opt.pop(Request.opt_url_scheme, None)
         if opt_netloc or opt_scheme:
             scheme, netloc, path, params, query, fragment = six.moves.urllib.parse.urlparse(self.__url)
+            if opt_scheme and not scheme:
+                # not prepared yet, the scheme is added when preparing
+                self.__patched_scheme, opt_scheme = opt_scheme, None
+
             self.__url = six.moves.urllib.parse.urlunparse((
                 opt_scheme or scheme,
                 opt_netloc or netloc,
@@ -213,7 +219,7 @@ class Request(object):
         self.__path = self._fill(self.__path, path_params)
 
         # combine path parameters into url
-        self.__url = ''.join([scheme, ':', self._fill(self.__url, path_params)])
+        self.__url = ''.join([self.__patched_scheme or scheme, ':', self._fill(self.__url, path_params)])
 
         # header parameters
         self.__header.update(self.__p['header'])
-- 
2.43.0


From 2324a0f1af488d9f3c86b9cac0021fa2669ce2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 16/52] fix: match declared response headers whatever their
 capitalisation

---
 pyswagger/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 19c6226..f7657e9 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -382,8 +382,11 @@ class Response(object):
         self.__url = self.__op.url
 
     def _convert_header(self, resp, k, v):
-        if resp and resp.headers and k in resp.headers:
-            v = resp.headers[k]._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+        for name, spec in six.iteritems((resp and resp.headers) or {}):
+            # names of headers are case-insensitive
+            if name.lower() == k.lower():
+                v = spec._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+                break
 
         if k in self.__header:
             self.__header[k].append(v)
-- 
2.43.0


From 4622577a4e74980234918872b30c2a153ef493a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 17/52] fix: keep network-path and absolute-path references out
 of the folder of the referring document

---
 pyswagger/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index f2b1d13..39aafe1 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -387,8 +387,13 @@ def normalize_jr(jr, url=None):
         p = six.moves.urllib.parse.urlparse(path)
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            if path.startswith('//'):
+                # it's relative to the scheme only
+                path = ':'.join([p.scheme, path])
+            else:
+                # it's the path of relative file, a leading slash means it starts from the root.
+                path = path if path.startswith('/') else p.path[:p.path.rfind('/')+1] + path
+                path = six.moves.urllib.parse.urlunparse(p[:2]+(path,)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
@@ -396,7 +401,7 @@ def normalize_jr(jr, url=None):
     if path:
         return ''.join([path, '#', jp]) if jp else path
     else:
-        return '#' + jp
+        return '#' + (jp or '')
 
 def _fullmatch(regex, chunk):
     m = re.match(regex, chunk)
-- 
2.43.0


From 4966c161a2a88ea1f3710ff91f6d37f35fbca68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 18/52] fix: match cached sub-documents by complete pointer
 tokens

---
 pyswagger/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1791191..b8b66cb 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -399,7 +399,8 @@ class App(object):
                 obj = o.resolve(utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
-                    if jp.startswith(k):
+                    # 'k' should match complete tokens
+                    if jp == k or jp.startswith(k + '/'):
                         obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
                         break
             else:
-- 
2.43.0


From 9a00fda397904e46bc0e1172e32d290f6be93c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 19/52] fix: resolve references into a document of which
 another part, or the whole, was used before

---
 pyswagger/core.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index b8b66cb..84e0f3d 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -223,7 +223,7 @@ class App(object):
                 self.__objs[url] = {jp: obj}
         else:
             if not isinstance(self.__objs[url], dict):
-                raise Exception('it should be able to resolve with BaseObj')
+                self.__objs[url] = {'#': self.__objs[url]}
             self.__objs[url].update({jp: obj})
 
         # pre resolve Schema Object
@@ -396,16 +396,21 @@ class App(object):
         o = self.__objs.get(url, None)
         if o:
             if isinstance(o, BaseObj):
-                obj = o.resolve(utils.jp_split(jp)[1:])
-            elif isinstance(o, dict):
-                for k, v in six.iteritems(o):
-                    # 'k' should match complete tokens
-                    if jp == k or jp.startswith(k + '/'):
-                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
-                        break
-            else:
+                o = {'#': o}
+            if not isinstance(o, dict):
                 raise Exception('Unknown Cached Object: {0}'.format(str(type(o))))
 
+            for k, v in six.iteritems(o):
+                # 'k' should match complete tokens
+                if jp == k or jp.startswith(k + '/'):
+                    try:
+                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                    except (AttributeError, LookupError, ValueError):
+                        # it might be a part of the document that
+                        # is not a part of this object.
+                        continue
+                    break
+
         # this object is not found in cache
         if obj == None:
             if url:
-- 
2.43.0


From 894f4098e393f2b3cb393333e820be238d7a4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 20/52] fix: match complete tokens only when looking up a scope

---
 pyswagger/utils.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 39aafe1..45347d5 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -72,22 +72,14 @@ class ScopeDict(dict):
         try:
             return super(ScopeDict, self).__getitem__(k)
         except KeyError as e:
-            ret = []
-            for ik in self.keys():
-                if ik.endswith(k):
-                    ret.append(ik)
+            # only complete tokens are matched, ex. when accessing with 'get'
+            #  - a!##!get
+            # should be found, but not
+            #  - b!##!something-get
+            ret = [ik for ik in self.keys() if ik.endswith(self.__sep + k)]
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
-                # special case for the last token:
-                #  - a!##!get
-                #  - b!##!something-get
-                #  and access with 'get'
-                last_k = k.rsplit(self.__sep, 1)[-1]
-                matched = [r for r in ret if r.rsplit(self.__sep, 1)[-1] == last_k]
-                if len(matched) == 1:
-                    return super(ScopeDict, self).__getitem__(matched[0])
-
                 raise ValueError('Multiple occurrence of key: {0}'.format(k))
 
             raise e
-- 
2.43.0


From 4cabcb719659aa8a5b8b18d0444ecb5a3324bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 21/52] fix: make operations accessible via each of their tags

---
 pyswagger/scanner/type_reducer.py | 13 +++++++------
 pyswagger/utils.py                |  8 +++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyswagger/scanner/type_reducer.py b/pyswagger/scanner/type_reducer.py
index 9f07c5c..1084287 100644
--- a/pyswagger/scanner/type_reducer.py
+++ b/pyswagger/scanner/type_reducer.py
@@ -17,7 +17,6 @@ class TypeReduce(object):
 
     @Disp.register([Operation])
     def _op(self, path, obj, _):
-        scope = obj.tags[0] if obj.tags and len(obj.tags) > 0 else None
         name = obj.operationId if obj.operationId else None
 
         # in swagger 2.0, both 'operationId' and 'tags' are optional.
@@ -26,10 +25,12 @@ class TypeReduce(object):
         if not name:
             return
 
-        new_scope = scope_compose(scope, name, sep=self.__sep)
-        if new_scope:
-            if new_scope in self.op.keys():
-                raise SchemaError('duplicated key found: ' + new_scope)
+        # an operation can be accessed via each one of its tags
+        for scope in (obj.tags or [None]):
+            new_scope = scope_compose(scope, name, sep=self.__sep)
+            if new_scope:
+                if self.op.get(new_scope, obj) is not obj:
+                    raise SchemaError('duplicated key found: ' + new_scope)
 
-            self.op[new_scope] = obj
+                self.op[new_scope] = obj
 
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 45347d5..6c604e5 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -77,9 +77,11 @@ class ScopeDict(dict):
             # should be found, but not
             #  - b!##!something-get
             ret = [ik for ik in self.keys() if ik.endswith(self.__sep + k)]
-            if len(ret) == 1:
-                return super(ScopeDict, self).__getitem__(ret[0])
-            elif len(ret) > 1:
+            if len(ret) > 0:
+                v = super(ScopeDict, self).__getitem__(ret[0])
+                # the same object might be accessed via several scopes
+                if all(super(ScopeDict, self).__getitem__(r) is v for r in ret):
+                    return v
                 raise ValueError('Multiple occurrence of key: {0}'.format(k))
 
             raise e
-- 
2.43.0


From 326cafd6868c643cf4310e7fc8b4c871a73e3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 22/52] fix: use the separator of the App to name upgraded
 models

---
 pyswagger/core.py                   | 2 +-
 pyswagger/scanner/v2_0/patch_obj.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 84e0f3d..26192a0 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -327,7 +327,7 @@ class App(object):
 
         s = Scanner(self)
         s.scan(root=self.__root, route=[Merge()])
-        s.scan(root=self.__root, route=[PatchObject()])
+        s.scan(root=self.__root, route=[PatchObject(self.__sep)])
         s.scan(root=self.__root, route=[Aggregate()])
 
         # reducer for Operation
diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index e4b1d2b..6b962f2 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...spec.v2_0.objects import PathItem, Operation, Schema, Swagger
 from ...spec.v2_0.parser import PathItemContext
+from ...consts import private
 from ...utils import jp_split, scope_split, final
 import six
 import copy
@@ -16,6 +17,9 @@ class PatchObject(object):
 
     class Disp(Dispatcher): pass
 
+    def __init__(self, sep=private.SCOPE_SEPARATOR):
+        self.__sep = sep
+
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         """
@@ -90,7 +94,7 @@ class PatchObject(object):
         if path.startswith('#/definitions'):
             last_token = jp_split(path)[-1]
             if app.version == '1.2':
-                obj.update_field('name', scope_split(last_token)[-1])
+                obj.update_field('name', scope_split(last_token, sep=self.__sep)[-1])
             else:
                 obj.update_field('name', last_token)
 
-- 
2.43.0


From 1e3dbec550794fea4715e6c070ac43e28440038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 23/52] fix: an operation may clear the document's
 consumes/produces with an empty list

---
 pyswagger/scanner/v2_0/merge.py     | 24 +++++++++++++++++++++---
 pyswagger/scanner/v2_0/patch_obj.py |  6 +++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyswagger/scanner/v2_0/merge.py b/pyswagger/scanner/v2_0/merge.py
index 107153f..bf4f25e 100644
--- a/pyswagger/scanner/v2_0/merge.py
+++ b/pyswagger/scanner/v2_0/merge.py
@@ -10,17 +10,35 @@ from ...spec.v2_0.objects import (
     Parameter,
     Response,
     PathItem,
+    Operation,
     )
 from ...spec.base import NullContext
 from ...utils import CycleGuard
 
 
+def _merge_into(target, source, parser):
+    """ merge source to target. An operation might declare an empty list
+    to clear the consumes/produces of Swagger object, keep that for the
+    operations copied from source.
+    """
+    copied = [
+        name for name in parser.__swagger_child__
+        if isinstance(getattr(source, name), Operation) and getattr(target, name) is None
+    ]
+    target.merge(source, parser)
+
+    for name in copied:
+        src, dst = getattr(source, name), getattr(target, name)
+        for field in ('consumes', 'produces'):
+            if src.is_set(field):
+                dst.update_field(field, getattr(src, field))
+
 def _merge(obj, app, creator, parser):
     """ resolve $ref, and inject/merge referenced object to self.
     This operation should be carried in a cascade manner.
     """
     result = creator(NullContext())
-    result.merge(obj, parser)
+    _merge_into(result, obj, parser)
 
     guard = CycleGuard()
     guard.update(obj)
@@ -37,7 +55,7 @@ def _merge(obj, app, creator, parser):
             # cycle detection has a dedicated scanner.
             break
 
-        result.merge(ro, parser)
+        _merge_into(result, ro, parser)
         r = getattr(ro, '$ref')
     return result
 
@@ -56,5 +74,5 @@ class Merge(object):
 
     @Disp.register([PathItem])
     def _path_item(self, _, obj, app):
-        obj.merge(_merge(obj, app, PathItem, PathItemContext), PathItemContext)
+        _merge_into(obj, _merge(obj, app, PathItem, PathItemContext), PathItemContext)
 
diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 6b962f2..61a3871 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -25,9 +25,9 @@ class PatchObject(object):
         """
         """
         if isinstance(app.root, Swagger):
-            # produces/consumes
-            obj.update_field('produces', app.root.produces if len(obj.produces) == 0 else obj.produces)
-            obj.update_field('consumes', app.root.consumes if len(obj.consumes) == 0 else obj.consumes)
+            # produces/consumes, an empty list means to clear those of Swagger object
+            obj.update_field('produces', obj.produces if obj.is_set('produces') else app.root.produces)
+            obj.update_field('consumes', obj.consumes if obj.is_set('consumes') else app.root.consumes)
 
         # combine parameters from PathItem
         if obj._parent_:
-- 
2.43.0


From 95eccc199db287848dfd9f29014939f5838ce84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 24/52] fix: keep path item parameters of one name in several
 locations also for operations with parameters

---
 pyswagger/scanner/v2_0/patch_obj.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 61a3871..c34a68b 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -32,12 +32,10 @@ class PatchObject(object):
         # combine parameters from PathItem
         if obj._parent_:
             if obj.parameters:
+                # names declared by this operation
+                names = [final(p).name for p in obj.parameters]
                 for p in obj._parent_.parameters:
-                    p_final = final(p)
-                    for pp in obj.parameters:
-                        if p_final.name == final(pp).name:
-                            break
-                    else:
+                    if final(p).name not in names:
                         obj.parameters.append(p)
             else:
                 obj.update_field('parameters', copy.copy(obj._parent_.parameters))
-- 
2.43.0


From 59bca3a93bd5b8e1a3a3220792ac6a1af660a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 25/52] fix: render numbers, texts and enumerations within the
 limits of their definition

---
 pyswagger/primitives/render.py | 116 +++++++++++++++++++++++----------
 1 file changed, 81 insertions(+), 35 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..7419377 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ..spec.v2_0.objects import Parameter, Operation, Schema
 from ..utils import deref, final, from_iso8601
 from decimal import Decimal
+import math
 import random
 import six
 import sys
@@ -17,58 +18,103 @@ import time
 # TODO: enum of object, array
 
 # min/max of integer
-maxInt32 = 1 << 31 - 1
+maxInt32 = (1 << 31) - 1
 minInt32 = -maxInt32
-maxInt64 = 1 << 63 - 1
+maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
+# multiples of 'multipleOf' for number are not picked from more candidates than this,
+# to make sure they can be represented precisely.
+max_multiples = 1 << 31
+
 def _int_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
-    max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
-    max_ = max_-1 if obj.exclusiveMaximum else max_
-
-    min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
-    min_ = min_+1 if obj.exclusiveMinimum else min_
-
-    out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    is_int32 = getattr(obj, 'format') in ['int32', None]
+    max_ = maxInt32 if is_int32 else maxInt64
+    min_ = minInt32 if is_int32 else minInt64
+
+    # limits might not be integers, and might exceed those of 'format'
+    if obj.maximum is not None:
+        max_ = _floor(obj.maximum)
+        if obj.exclusiveMaximum and max_ == obj.maximum:
+            max_ = max_-1
+        min_ = min(min_, max_)
+    if obj.minimum is not None:
+        min_ = -_floor(-obj.minimum)
+        if obj.exclusiveMinimum and min_ == obj.minimum:
+            min_ = min_+1
+        if obj.maximum is None:
+            max_ = max(max_, min_)
+
+    # the smallest integer that is a multiple of multipleOf
+    step = obj.multipleOf or 1
+    while step != _floor(step):
+        step = step*2
+    step = _floor(step)
+
+    # make room for a multiple when only one limit is given
+    if obj.maximum is None:
+        max_ = max(max_, min_+step-1)
+    elif obj.minimum is None:
+        min_ = min(min_, max_-step+1)
+
+    return random.randint(-(-min_ // step), max_ // step) * step
 
 def _float_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
-
-    out = None
-    while out == None:
-        out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-        if out <= min_ and obj.exclusiveMinimum:
-            out = None
-    return float(out)
+    def _too_low(v):
+        return obj.minimum is not None and (v <= obj.minimum if obj.exclusiveMinimum else v < obj.minimum)
+
+    def _too_high(v):
+        return obj.maximum is not None and (v >= obj.maximum if obj.exclusiveMaximum else v > obj.maximum)
+
+    if obj.multipleOf:
+        first = last = None
+        if obj.minimum is not None:
+            first = -_floor(-obj.minimum / obj.multipleOf)
+            first = first+1 if _too_low(first * obj.multipleOf) else first
+        if obj.maximum is not None:
+            last = _floor(obj.maximum / obj.multipleOf)
+            last = last-1 if _too_high(last * obj.multipleOf) else last
+        if first is None:
+            first = 0 if last is None else last - max_multiples
+        last = first + max_multiples if last is None else min(last, first + max_multiples)
+        return float(random.randint(first, last) * obj.multipleOf)
+
+    max_ = obj.maximum if obj.maximum is not None else sys.float_info.max
+    min_ = obj.minimum
+    if min_ is None:
+        min_ = sys.float_info.min if max_ > sys.float_info.min else -sys.float_info.max
+
+    while True:
+        ratio = random.random()
+        # the difference of max_ and min_ might exceed the range of float
+        out = min(max(min_ * (1 - ratio) + max_ * ratio, min_), max_)
+        if not (_too_low(out) or _too_high(out)):
+            return float(out)
+
+def _floor(val):
+    return int(math.floor(val))
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val is not None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
-    min_ = obj.minLength if obj.minLength else 0
+    min_ = obj.minLength or 0
+    max_ = obj.maxLength if obj.maxLength is not None else max(opt['max_str_length'], min_)
 
     # note: length is 0~100, characters are limited to ASCII
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val is not None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
-    return uuid.UUID(val) if val else uuid.uuid4()
+    return uuid.UUID(val) if val is not None else uuid.uuid4()
 
 names = list(string.ascii_letters) + ['_', '-'] + list(string.digits)
 def _email_name_():
@@ -77,7 +123,7 @@ def _email_name_():
     + random.choice(string.ascii_letters)
 
 def _email_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     host_length = random.randint(2, 100)
@@ -91,21 +137,21 @@ def _email_(obj, _, val=None):
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
 def _byte_(obj, opt, val=None):
-    return val if val else base64.b64encode(
+    return val if val is not None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
     )
 
 max_date = time.mktime(datetime.date(2038, 1, 19).timetuple())
 min_date = time.mktime(datetime.date(1970, 1, 2).timetuple())
 def _date_(obj, _, val=None):
-    return from_iso8601(val).date() if val else datetime.date.fromtimestamp(
+    return from_iso8601(val).date() if val is not None else datetime.date.fromtimestamp(
         random.uniform(min_date, max_date)
     )
 
 max_datetime = time.mktime(datetime.datetime(2038, 1, 19).utctimetuple())
 min_datetime = time.mktime(datetime.datetime(1970, 1, 2).utctimetuple())
 def _date_time_(obj, _, val=None):
-    return from_iso8601(val) if val else datetime.datetime.utcfromtimestamp(
+    return from_iso8601(val) if val is not None else datetime.datetime.utcfromtimestamp(
         random.uniform(min_datetime, max_datetime)
     )
 
-- 
2.43.0


From 293d67c6cb373eb3a7d95987e0480ac7be24db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 26/52] fix: render arrays and objects of an allowed size, with
 unique items where needed

---
 pyswagger/primitives/render.py | 67 ++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 7419377..0da7a34 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -23,6 +23,9 @@ minInt32 = -maxInt32
 maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
+# try this many times to find an item that is not in the array
+max_tries = 1000
+
 # multiples of 'multipleOf' for number are not picked from more candidates than this,
 # to make sure they can be represented precisely.
 max_multiples = 1 << 31
@@ -216,7 +219,7 @@ class Renderer(object):
         r = self._map.get(_type, None)
         return None if r == None else r.get(_format, None)
 
-    def _generate(self, obj, opt):
+    def _generate(self, obj, opt, read=True):
         obj = final(deref(obj))
         type_ = getattr(obj, 'type', None)
         template = opt['object_template']
@@ -224,40 +227,64 @@ class Renderer(object):
         if type_ == 'object':
             max_p = opt['max_property']
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
-            count = 0
-            for name, prop in six.iteritems(obj.properties or {}):
-                if name in template:
-                    out[name] = template[name]
+            min_ = obj.minProperties or 0
+            max_ = obj.maxProperties if obj.maxProperties is not None else max(opt['max_prop_count'], min_)
+
+            # TODO: additionalProperties == True is not handled
+            props = obj.properties or {}
+            addp = obj.additionalProperties if isinstance(obj.additionalProperties, Schema) else None
+
+            # required properties first, others are subject to maxProperties
+            names = [n for n in obj.required if n in props or addp is not None]
+            names.extend([n for n in props if n not in obj.required])
+            skipped = []
+            for name in names:
+                prop = props.get(name, addp)
+                if not read and name in props and prop.readOnly:
                     continue
-                if not max_p and not name in obj.required:
-                    if random.randint(0, 1) == 0 or opt['minimal_property']:
+                if not name in obj.required:
+                    if obj.maxProperties is not None and len(out) >= max_:
                         continue
-                out[name] = self._generate(prop, opt)
-                count = count + 1
-
-            if isinstance(obj.additionalProperties, Schema):
-                # TODO: additionalProperties == True is not handled
+                    if not name in template and not max_p:
+                        if random.randint(0, 1) == 0 or opt['minimal_property']:
+                            skipped.append(name)
+                            continue
+                out[name] = template[name] if name in template else self._generate(prop, opt, read)
 
+            if addp is not None:
                 # generate random properties
-                more = random.randint(min_, max_) - count
+                more = random.randint(min_, max_) - len(out)
                 if more > 0:
                     # generate a random string as property-name
                     for _ in six.moves.xrange(more):
                         while True:
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
-                                out[name] = self._generate(obj.additionalProperties, opt)
+                            if name not in out and name not in names:
+                                out[name] = self._generate(addp, opt, read)
                                 break
 
+            # make sure there are enough properties
+            for name in skipped[:max(min_ - len(out), 0)]:
+                out[name] = self._generate(props[name], opt, read)
+
         elif type_ == 'array':
-            min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
+            min_ = obj.minItems or 0
+            max_ = obj.maxItems if obj.maxItems is not None else max(opt['max_array_length'], min_)
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
-                out.append(self._generate(obj.items, opt))
+                v = self._generate(obj.items, opt, read)
+                if obj.uniqueItems:
+                    # there might be not enough different values to reach the length we want.
+                    tries = 0
+                    while v in out and tries < max_tries:
+                        v = self._generate(obj.items, opt, read)
+                        tries = tries + 1
+                    if v in out:
+                        if len(out) < min_:
+                            raise Exception('Unable to generate unique items: {0}'.format(obj))
+                        break
+                out.append(v)
 
         elif type_ != None:
             out = None
-- 
2.43.0


From 455857a97b988123652f14120e808cc5b7b075f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 27/52] fix: render parameters given by reference, and no
 read-only properties for a body

---
 pyswagger/primitives/render.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 0da7a34..9926f23 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -349,8 +349,10 @@ class Renderer(object):
             raise ValueError('Not a dict: {0}'.format(opt))
 
         if isinstance(obj, Parameter):
+            obj = final(obj)
             if getattr(obj, 'in', None) == 'body':
-                return self._generate(obj.schema, opt)
+                # read-only properties are not accepted in a request
+                return self._generate(obj.schema, opt, read=False)
             return self._generate(obj, opt=opt)
         elif isinstance(obj, Schema):
             return self._generate(obj, opt)
@@ -375,6 +377,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(p)
             if p.name in exclude:
                 continue
             if p.name in template:
-- 
2.43.0


From 20b6b771c162db457903a5b255006468e98e668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 28/52] fix: keep limits of 0 and those beyond the precision of
 float when upgrading

---
 pyswagger/scanner/v1_2/upgrade.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..3075828 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -30,11 +30,14 @@ def update_type_and_ref(dst, src, scope, sep, app):
 def convert_min_max(dst, src):
     def _from_str(name):
         v = getattr(src, name, None)
-        if v:
+        if v is not None and v != '':
             if src.type == 'integer':
+                try:
+                    v = int(v) if isinstance(v, six.string_types) else v
+                except ValueError:
+                    v = float(v)
                 # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst.update_field(name, int(float(v)))
+                dst.update_field(name, int(v) if v == int(v) else v)
             elif src.type == 'number':
                 dst.update_field(name, float(v))
             else:
-- 
2.43.0


From 4db075af6b9e69862cc5da805d5134d9b7a33db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 29/52] fix: keep limits of the items when upgrading a
 parameter with allowMultiple

---
 pyswagger/scanner/v1_2/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 3075828..cc943f9 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -234,6 +234,7 @@ class Upgrade(object):
                 o.update_field('collectionFormat', 'csv')
                 o.update_field('uniqueItems', obj.uniqueItems)
                 o.update_field('items', convert_items(obj, app))
+                convert_min_max(o.items, obj)
                 if obj.is_set("defaultValue"):
                     o.update_field('default', [obj.defaultValue])
                 o.items.update_field('enum', obj.enum)
-- 
2.43.0


From b3d825e1710a9cd4c0d17e2eb24aa3c86e7c48b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 30/52] fix: upgrade a resource list without info

---
 pyswagger/scanner/v1_2/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index cc943f9..d1fac9d 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -101,12 +101,12 @@ class Upgrade(object):
         info.update_field('description', get_or_none(obj, 'info', 'description'))
         info.update_field('termsOfService', get_or_none(obj, 'info', 'termsOfServiceUrl'))
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact = objects.Contact(NullContext())
             contact.update_field('email', get_or_none(obj, 'info', 'contact'))
             info.update_field('contact', contact)
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(obj, 'info', 'licenseUrl'):
             license = objects.License(NullContext())
             license.update_field('name', get_or_none(obj, 'info', 'license'))
             license.update_field('url', get_or_none(obj, 'info', 'licenseUrl'))
-- 
2.43.0


From bc1dbbfd8d9f10b4901e2168a0b99cab7a9b4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 31/52] fix: upgrade a description without any operation

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index d1fac9d..71657fe 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -299,7 +299,7 @@ class Upgrade(object):
         common_path = os.path.commonprefix(list(self.__swagger.paths))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[-1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith('/') else common_path
 
         if len(common_path) > 0:
             p = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From 54451544644ce833e2ba137798712f18e548b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 32/52] fix: escape names of models in references when
 upgrading

---
 pyswagger/scanner/v1_2/upgrade.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 71657fe..dce1ff6 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, get_or_none
+from ...utils import scope_compose, jp_compose, get_or_none
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -20,12 +20,12 @@ import six
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, ref, sep=sep))
+        dst.update_field('$ref', jp_compose(scope_compose(scope, ref, sep=sep), '#/definitions'))
 
     if app.prim_factory.is_primitive(getattr(src, 'type', None)):
         dst.update_field('type', src.type.lower())
     elif src.type:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, src.type, sep=sep))
+        dst.update_field('$ref', jp_compose(scope_compose(scope, src.type, sep=sep), '#/definitions'))
 
 def convert_min_max(dst, src):
     def _from_str(name):
@@ -285,7 +285,7 @@ class Upgrade(object):
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
-            new_ref.update_field('$ref', '#/definitions/' + s)
+            new_ref.update_field('$ref', jp_compose(s, '#/definitions'))
             sub_o.allOf.append(new_ref)
 
     @property
-- 
2.43.0


From ce7feb211dc4590be9d948e6b905143f6034b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 33/52] fix: keep names of resources and authorizations with
 special characters when upgrading

---
 pyswagger/scanner/v1_2/upgrade.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index dce1ff6..c3ac217 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, jp_compose, get_or_none
+from ...utils import scope_compose, jp_compose, jp_split, get_or_none
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -17,6 +17,12 @@ import os
 import six
 
 
+def name_in_path(path):
+    """ name of the Resource or Authorization in a path like
+    '#/apis/{name}/...' or '#/authorizations/{name}/...'
+    """
+    return jp_split(path)[2]
+
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
@@ -135,7 +141,7 @@ class Upgrade(object):
 
     @Disp.register([Resource])
     def _resource(self, path, obj, app):
-        name = obj.get_name(path)
+        name = name_in_path(path)
         for t in self.__swagger.tags:
             if t.name == name:
                 break
@@ -147,7 +153,7 @@ class Upgrade(object):
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         o = objects.Operation(NullContext())
-        scope = obj._parent_.get_name(path)
+        scope = name_in_path(path)
 
         o.update_field('tags', [scope])
         o.update_field('operationId', obj.nickname)
@@ -207,12 +213,12 @@ class Upgrade(object):
             o.update_field('name', obj.keyname)
             o.update_field('in', obj.passAs)
 
-        self.__swagger.securityDefinitions[obj.get_name(path)] = o
+        self.__swagger.securityDefinitions[name_in_path(path)] = o
 
     @Disp.register([Parameter])
     def _parameter(self, path, obj, app):
         o = objects.Parameter(NullContext())
-        scope = obj._parent_._parent_.get_name(path)
+        scope = name_in_path(path)
 
         o.update_field('name', obj.name)
         o.update_field('required', obj.required)
@@ -258,7 +264,7 @@ class Upgrade(object):
 
     @Disp.register([Model])
     def _model(self, path, obj, app):
-        scope = obj._parent_.get_name(path)
+        scope = name_in_path(path)
 
         s = scope_compose(scope, obj.get_name(path), sep=self.__sep)
         o = self.__swagger.definitions.get(s, None)
-- 
2.43.0


From a741c665d7fb289351f92cab0d29bc0436fe3105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 34/52] fix: upgrade authorizations required by a resource

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index c3ac217..ebb3f26 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -174,7 +174,7 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes or []]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From bda4dd0252ad7a6df510c4dcdce78346c51563cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 35/52] fix: load a file in a folder whose name ends with
 another extension

---
 pyswagger/utils.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 6c604e5..d0bbfcc 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -573,21 +573,13 @@ def get_or_none(obj, *a):
     return ret
 
 def patch_path(base_path, path):
-    # try to get extension from base_path
-    _, ext = os.path.splitext(base_path)
-    if ext not in private.VALID_FILE_EXT:
-        ext = ''
-
-    # try to get extension from path
-    _, ext = os.path.splitext(path) if ext == '' else (None, ext)
-    if ext not in private.VALID_FILE_EXT:
-        ext = ''
-
-    # .json is default extension to try
-    ext = '.json' if ext == '' else ext
     # make sure we get .json or .yaml files
-    if not path.endswith(ext):
-        path = path + ext
+    _, ext = os.path.splitext(path)
+    if ext not in private.VALID_FILE_EXT:
+        # try to get extension from base_path
+        _, ext = os.path.splitext(base_path)
+        # .json is default extension to try
+        path = path + (ext if ext in private.VALID_FILE_EXT else '.json')
 
     # trim the leading slash, which is invalid on Windows
     if os.name == 'nt' and path.startswith('/'):
-- 
2.43.0


From c489b96ccf4bfad08befd1660a38da1b212871e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 36/52] fix: an extension only ending with "json" is not the
 one of a description

---
 pyswagger/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index abdc8fb..7d19010 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -90,7 +90,7 @@ class LocalGetter(Getter):
             #   extension is either 'json' or 'yaml'.
             _, ext = os.path.splitext(path)
             for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML, private.FILE_EXT_YML]:
-                if ext.endswith(e):
+                if ext == '.' + e:
                     self.base_path = os.path.dirname(path)
                     self.urls = [path]
                     break
-- 
2.43.0


From 9074b1a75ee5089fe9ed4277e7c7600b1280c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 37/52] fix: locate the resources beside a resource list of any
 supported extension

---
 pyswagger/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index d0bbfcc..298537a 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -328,13 +328,13 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML]:
-        if p.path.endswith(e):
-            return six.moves.urllib.parse.urlunparse(
-                p[:2]+
-                (os.path.dirname(p.path),)+
-                p[3:]
-            )
+    _, ext = os.path.splitext(p.path)
+    if ext in private.VALID_FILE_EXT:
+        return six.moves.urllib.parse.urlunparse(
+            p[:2]+
+            (os.path.dirname(p.path),)+
+            p[3:]
+        )
     return url
 
 def url_join(url, path):
-- 
2.43.0


From c84dc19bce14acada84d3cbb02144cd9b4fa0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 38/52] fix: load local files whose path is percent-encoded in
 the URL

---
 pyswagger/getter.py  | 4 ++--
 pyswagger/resolve.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 7d19010..5725f62 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -66,8 +66,8 @@ class LocalGetter(Getter):
         super(LocalGetter, self).__init__(path)
 
         if path.startswith('file://'):
-            parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            parsed = six.moves.urllib.parse.urlsplit(path)
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..775a62c 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -49,9 +49,9 @@ class Resolver(object):
             # load that object
             if not getter:
                 getter = self.__default_getter or UrlGetter
-                p = six.moves.urllib.parse.urlparse(local_url)
+                p = six.moves.urllib.parse.urlsplit(local_url)
                 if p.scheme == 'file' and p.path:
-                    getter = LocalGetter(os.path.join(p.netloc, p.path))
+                    getter = LocalGetter(os.path.join(p.netloc, six.moves.urllib.parse.unquote(p.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From c346ae497ee968abe0336fd991e3b76583ce0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 39/52] fix: report an unknown authorization instead of failing

---
 pyswagger/scanner/v1_2/validate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ea1d80a..a66d303 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -131,8 +131,7 @@ class Validate(object):
         for k, v in six.iteritems(obj.authorizations or {}):
             if k not in app.raw.authorizations:
                 errs.append('auth {0} not found in resource list'.format(k))
-
-            if app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
+            elif app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
                 errs.append('auth {0} should be an empty list'.format(k))
 
         return path, obj.__class__.__name__, errs
-- 
2.43.0


From bd8ec165315188630d05256d20e90d4c82c9623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 40/52] fix: validate File parameters of operations without
 consumes

---
 pyswagger/scanner/v1_2/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index a66d303..7440363 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -66,7 +66,9 @@ class Validate(object):
         if obj.type == 'File':
             if obj.paramType != 'form':
                 errs.append('File parameter should be form type: {0}'.format(obj.name))
-            if 'multipart/form-data' not in obj._parent_.consumes:
+            # those of the API declaration apply when the operation has none
+            op = obj._parent_
+            if 'multipart/form-data' not in (op.consumes or op._parent_.consumes or []):
                 errs.append('File parameter should consume multipart/form-data: {0}'.format(obj.name))
 
         if obj.type == 'void':
-- 
2.43.0


From bb3497c14b5e8993051f32a582b4fad4830b1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 41/52] fix: name the version in the error for an unsupported
 one

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 26192a0..a577044 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -284,7 +284,7 @@ class App(object):
         app = kls(url, url_load_hook=url_load_hook, sep=sep, prim=prim, mime_codec=mime_codec, resolver=resolver)
         app.__raw, app.__version = app.load_obj(url, getter=getter, parser=parser)
         if app.__version not in ['1.2', '2.0']:
-            raise NotImplementedError('Unsupported Version: {0}'.format(self.__version))
+            raise NotImplementedError('Unsupported Version: {0}'.format(app.__version))
 
         # update scheme if any
         p = six.moves.urllib.parse.urlparse(url)
-- 
2.43.0


From 5326b35cf43db380207607273673eb5d4130dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 42/52] fix: report the errors of a 1.2 description before the
 failure they cause when upgrading

---
 pyswagger/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index a577044..3092694 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -315,8 +315,12 @@ class App(object):
         :param bool strict: when in strict mode, exception would be raised if not valid.
         """
 
+        # upgrading an invalid description may fail, report the errors before
+        if self.version == '1.2':
+            self.validate(strict=strict)
         self.__root = self.prepare_obj(self.raw, self.__url)
-        self.validate(strict=strict)
+        if self.version != '1.2':
+            self.validate(strict=strict)
 
         if hasattr(self.__root, 'schemes') and self.__root.schemes:
             if len(self.__root.schemes) > 0:
-- 
2.43.0


From c6d84be1767425eb68b343317b527e0b9990f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 43/52] fix: names in YAML are texts, also those looking like
 numbers or booleans

---
 pyswagger/getter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 5725f62..2060536 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -12,6 +12,19 @@ import re
 logger = logging.getLogger(__name__)
 
 
+class _YamlLoader(yaml.SafeLoader):
+    """ loader of descriptions in YAML: gives what the same description
+    in JSON would give, where names are always texts.
+    """
+    def construct_mapping(self, node, deep=False):
+        if isinstance(node, yaml.MappingNode):
+            self.flatten_mapping(node)
+            for key, _ in node.value:
+                if isinstance(key, yaml.ScalarNode):
+                    key.tag = 'tag:yaml.org,2002:str'
+        return super(_YamlLoader, self).construct_mapping(node, deep)
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -45,7 +58,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = yaml.load(obj, Loader=_YamlLoader)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(obj[:10]))
 
-- 
2.43.0


From e56e2c1b5ca241971bdff3cab1ed54ddad76e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 44/52] fix: dates in YAML are texts, as they are in JSON

---
 pyswagger/getter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 2060536..be2b3e7 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -25,6 +25,13 @@ class _YamlLoader(yaml.SafeLoader):
         return super(_YamlLoader, self).construct_mapping(node, deep)
 
 
+# there are no dates in JSON, they are texts
+_YamlLoader.yaml_implicit_resolvers = dict(
+    (c, [r for r in rs if r[0] != 'tag:yaml.org,2002:timestamp'])
+    for c, rs in six.iteritems(yaml.SafeLoader.yaml_implicit_resolvers)
+)
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
-- 
2.43.0


From 19b57ab1f75db5c620eec1ad55b3e1613df9b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 45/52] fix: FlaskTestClient sends all values of a form, files
 by their name and their media types

---
 pyswagger/contrib/client/flask.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 49310be..9949a49 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -40,27 +40,27 @@ class FlaskTestClient(BaseClient):
         # prepare data, flask's data is composed of form and file
         if req.files:
             data = {}
-            # form
-            data.update(req._p['formData'])
+            # form, there might be several values for one name
+            for k, v in req._p['formData']:
+                data.setdefault(k, []).append(v)
             # file
+            def append(name, obj):
+                data.setdefault(name, []).append(FileStorage(
+                    name=name,
+                    filename=obj.filename,
+                    stream=obj.data or open(obj.filename, 'rb'),
+                    content_type=obj.header.get('Content-Type', None)
+                ))
+
             for k, v in six.iteritems(req.files):
                 if isinstance(v, list):
-                    data[k] = []
                     for vv in v:
-                        data[k].append(FileStorage(
-                            name=k,
-                            filename=vv.filename,
-                            stream=vv.data
-                        ))
+                        append(k, vv)
                 else:
-                    data[k] = FileStorage(
-                        name=k,
-                        filename=v.filename,
-                        stream=v.data
-                    )
+                    append(k, v)
 
         else:
-            data = req.data if req._p['body'] else req._p['formData']
+            data = req.data
 
         r = self.__client.open(
             path=req.url,
-- 
2.43.0


From d0120131b125d120dc08574c147f3bff4c7a733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:10 +0000
Subject: [PATCH 46/52] fix: plain text in a response given as bytes is decoded
 to text

---
 pyswagger/primitives/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 1fa261f..b8bb26a 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -40,6 +40,10 @@ class PlainCodec:
         return value
 
     def unmarshal(self, data, **kwargs):
+        # bytes are kept only for those types that expect them
+        _type, _format = kwargs.get('_type', None), kwargs.get('_format', None)
+        if isinstance(data, six.binary_type) and _type not in (None, 'file') and _format not in ('byte', 'binary'):
+            data = data.decode('utf-8')
         return data
 
 
-- 
2.43.0


From 736864c0bf1b19326dc99aef1ed945b65e2653e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:18 +0000
Subject: [PATCH 47/52] fix: resolve references to parameters and responses
 inside of referenced path items

---
 pyswagger/scanner/v2_0/merge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/merge.py b/pyswagger/scanner/v2_0/merge.py
index bf4f25e..060fd59 100644
--- a/pyswagger/scanner/v2_0/merge.py
+++ b/pyswagger/scanner/v2_0/merge.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 from ...errs import CycleDetectionError
-from ...scan import Dispatcher
+from ...scan import Dispatcher, Scanner
 from ...spec.v2_0.parser import (
     ParameterContext,
     ResponseContext,
@@ -14,6 +14,7 @@ from ...spec.v2_0.objects import (
     )
 from ...spec.base import NullContext
 from ...utils import CycleGuard
+import six
 
 
 def _merge_into(target, source, parser):
@@ -76,3 +77,9 @@ class Merge(object):
     def _path_item(self, _, obj, app):
         _merge_into(obj, _merge(obj, app, PathItem, PathItemContext), PathItemContext)
 
+        # what was copied from a referenced object might contain '$ref', too
+        if getattr(obj, '$ref'):
+            s = Scanner(app)
+            for child in six.itervalues(obj._children_):
+                s.scan(root=child, route=[self])
+
-- 
2.43.0


From b0503661f76fdc76a12d671504c43ed2420d003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 48/52] fix: refuse formats unknown to a registered type
 properly

---
 pyswagger/primitives/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 4babba0..ca2ae50 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -95,7 +95,7 @@ class Primitive(object):
             return (None, None)
         if _format in r:
             return r.get(_format)
-        return r.get(None)
+        return r.get(None, (None, None))
 
     def register(self, _type, _format, creater, _2nd_pass=None):
         """ register a type/format handler when producing primitives
-- 
2.43.0


From 06126f77bf45b4e0c75fbb32a8a4076db5d3de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:05 +0000
Subject: [PATCH 49/52] fix: do not hand out the default values of the
 description itself

---
 pyswagger/primitives/__init__.py | 3 ++-
 pyswagger/primitives/_model.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index ca2ae50..731d6fb 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -14,6 +14,7 @@ from ._uuid import UUID
 from .comm import create_obj, _2nd_pass_obj
 from .render import Renderer
 from .codec import MimeCodec
+import copy
 import functools
 
 # TODO: enum is suitable for all types, not only string
@@ -157,7 +158,7 @@ class Primitive(object):
 
         :return: the created primitive
         """
-        val = obj.default if val == None else val
+        val = copy.deepcopy(obj.default) if val == None else val
         if val == None:
             return None
 
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index e005f9c..8de724a 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+import copy
 import six
 
 class Model(dict):
@@ -42,7 +43,7 @@ class Model(dict):
         for k in other_prop:
             p = obj.properties[k]
             if p.is_set("default"):
-                self[k] = ctx['factory'].produce(p, p.default, dict(read=ctx['read']))
+                self[k] = ctx['factory'].produce(p, copy.deepcopy(p.default), dict(read=ctx['read']))
 
         # a required key might be provided by another member of allOf,
         # they are checked once all of them are applied.
-- 
2.43.0


From 07498625cb1aa1fce2f2040ca384e68f504fc671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:40 +0000
Subject: [PATCH 50/52] fix: models can be copied and pickled

---
 pyswagger/primitives/_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 8de724a..543f1c6 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -7,9 +7,15 @@ class Model(dict):
     """
 
     # access dict like object
-    __getattr__ = dict.__getitem__
     __setattr__ = dict.__setitem__
 
+    def __getattr__(self, name):
+        # special names are looked up by copy, pickle, ...etc,
+        # they expect AttributeError for those not supported.
+        if name not in self and name.startswith('__') and name.endswith('__'):
+            raise AttributeError(name)
+        return self[name]
+
     def __init__(self):
         """ constructor
         """
-- 
2.43.0


From bb60bfe511265a4e2a66a346bd20179b054d3e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:40 +0000
Subject: [PATCH 51/52] fix: a model is not equal to what is no dict, instead
 of failing

---
 pyswagger/primitives/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 543f1c6..6dcff32 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -92,7 +92,7 @@ class Model(dict):
         :param other: another model
         :type other: primitives.Model or dict
         """
-        if other == None:
+        if not isinstance(other, dict):
             return False
 
         for k, v in six.iteritems(self):
-- 
2.43.0


From 8d2353da31f9d2c0b0050120dfc097f3c3ae23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:07 +0000
Subject: [PATCH 52/52] fix: DictGetter does not consume the list of URLs it is
 given

---
 pyswagger/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index be2b3e7..7e2214f 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -184,7 +184,7 @@ class DictGetter(Getter):
     """
     def __init__(self, urls, path2dict):
         super(DictGetter, self).__init__(urls[0])
-        self.urls = urls
+        self.urls = list(urls) # the list would be consumed
         self._path2dict = path2dict or {}
 
     def load(self, path):
-- 
2.43.0

