From f68584fddb98240c59efbfbfc8146360c5c2400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 001/104] fix: tokens, UUIDs and e-mail addresses must not
 accept a trailing newline

---
 scheme/fields/email.py | 6 +++---
 scheme/fields/token.py | 2 +-
 scheme/fields/uuid.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 0fc5c53..7f9c368 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -12,10 +12,10 @@ EMAIL_EXPR = (
     r'|"([\001-\010\013\014\016-\037!#-\[\]-\177]|\\[\001-\011\013\014\016-\177])*"'
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
-EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
+EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?\Z' % EMAIL_EXPR)
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
-EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?$' % (EMAIL_EXPR, EMAIL_EXPR))
+EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
 SEPARATOR_EXPR = re.compile(r'[\s,;:]+')
 SEPARATORS = whitespace + ',;:'
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index 7ac89a3..ff9c97c 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,7 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
-    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
+    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a valid token')
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index 57f3713..fd6feaf 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -11,7 +11,7 @@ class UUID(Field):
     """A field for UUID values."""
 
     basetype = 'text'
-    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$')
+    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a UUID')
-- 
2.43.0


From 94ea4eb40f03852b8445fc714401c87c55b08365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 002/104] fix: a decimal NaN must be refused with a validation
 error when bounds are declared

---
 scheme/fields/decimal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index d9ef58d..246dbee 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -80,20 +80,29 @@ class Decimal(Field):
             return value
 
         try:
-            return decimal(value)
+            unserialized = decimal(value)
         except Exception:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        if unserialized.is_snan():
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+        return unserialized
+
     def _validate_value(self, value, ancestry):
         if not isinstance(value, decimal):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
+        maximum = self.maximum
+
+        # nan cannot be compared to anything
+        if value.is_nan() and not (minimum is None and maximum is None):
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
-        maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
-- 
2.43.0


From b2d03481fabd5ded1bdb68ceb5f9c76c32aee686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 003/104] fix: a datetime given to a date field must not leak
 TypeError when bounds are declared

---
 scheme/fields/date.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..44ecc0f 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 
-from datetime import date
+from datetime import date, datetime
 from time import strptime
 
 from scheme.exceptions import *
@@ -66,7 +66,9 @@ class Date(Field):
         return value.strftime(self.pattern)
 
     def _unserialize_value(self, value, ancestry=None):
-        if isinstance(value, date):
+        if isinstance(value, datetime):
+            return value.date()
+        elif isinstance(value, date):
             return value
 
         try:
@@ -75,7 +77,9 @@ class Date(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
-        if not isinstance(value, date):
+        if isinstance(value, datetime):
+            value = value.date()
+        elif not isinstance(value, date):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
@@ -87,3 +91,5 @@ class Date(Field):
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum.strftime(self.pattern))
+
+        return value
-- 
2.43.0


From 7fabf95bce1855abc6e96b022b13c918c38c40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 004/104] fix: malformed base64 must be refused with a
 validation error

---
 scheme/fields/binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/binary.py b/scheme/fields/binary.py
index 2824acc..d77d4a4 100644
--- a/scheme/fields/binary.py
+++ b/scheme/fields/binary.py
@@ -48,7 +48,10 @@ class Binary(Field):
         if not isinstance(value, bytes):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        return urlsafe_b64decode(value)
+        try:
+            return urlsafe_b64decode(value)
+        except Exception:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, bytes):
-- 
2.43.0


From 5502d787cf5c7c870807bcd28317ef5ac1135e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 005/104] fix: dates and datetimes before the year 1000 must
 serialize to a form that can be read back

---
 scheme/fields/date.py     | 15 ++++++++-------
 scheme/fields/datetime.py | 15 ++++++++-------
 scheme/util.py            |  6 ++++++
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 44ecc0f..53dc657 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -5,6 +5,7 @@ from time import strptime
 
 from scheme.exceptions import *
 from scheme.field import *
+from scheme.util import format_date
 
 __all__ = ('Date',)
 
@@ -48,22 +49,22 @@ class Date(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % format_date(self.minimum, self.pattern))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % format_date(self.maximum, self.pattern))
         return super(Date, self).__repr__(aspects)
 
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = format_date(self.maximum, self.pattern)
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = format_date(self.minimum, self.pattern)
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        return format_date(value, self.pattern)
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
@@ -85,11 +86,11 @@ class Date(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=format_date(minimum, self.pattern))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=format_date(maximum, self.pattern))
 
         return value
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..0a6d97b 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -6,6 +6,7 @@ from time import strptime
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.timezone import *
+from scheme.util import format_date
 
 __all__ = ('DateTime',)
 
@@ -51,9 +52,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % format_date(self.minimum, self.pattern))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % format_date(self.maximum, self.pattern))
         if self.utc:
             aspects.append('utc=True')
 
@@ -62,9 +63,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = format_date(self.maximum, self.pattern)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = format_date(self.minimum, self.pattern)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -81,7 +82,7 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        return format_date(value, self.pattern)
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
@@ -102,11 +103,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=format_date(minimum, self.pattern))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=format_date(maximum, self.pattern))
 
         return value
diff --git a/scheme/util.py b/scheme/util.py
index 207c1e3..20e2905 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -37,6 +37,12 @@ def abbreviate_string(value, maxlength=0):
 
     return '%s...%s' % (left, right)
 
+def format_date(value, pattern):
+    """Formats a date or datetime value, always with four digits for the year, which strftime()
+    itself doesn't guarantee for years before 1000."""
+
+    return value.strftime(pattern.replace('%Y', '%04d' % value.year))
+
 def getitem(obj, key, default=NODEFAULT):
     if default is not NODEFAULT:
         return obj.get(key, default)
-- 
2.43.0


From 7cefefeb8c7c97f62f5f878a8f88629fcac595df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 006/104] fix: an enumeration with a constant must refuse other
 values with a validation error

---
 scheme/field.py              | 11 +++++++++--
 scheme/fields/enumeration.py |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..5cb23cb 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -457,10 +457,11 @@ class Field(object):
                 value = self.preprocessor(value)
             except Exception:
                 raise InvalidTypeError(identity=ancestry, field=self,
-                    value=value).construct('invalid').capture()
+                    value=value).construct('invalid', **self._invalid_params()).capture()
 
         if self.constant is not None and value != self.constant:
-            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
+                **self._invalid_params())
 
         candidate = self._validate_value(value, ancestry)
         if candidate is not None:
@@ -571,6 +572,12 @@ class Field(object):
         else:
             raise CannotDescribeError(parameter)
 
+    def _invalid_params(self):
+        """Returns the parameters required, beyond the field itself, to format the message of the
+        ``invalid`` error of this field."""
+
+        return {}
+
     def _is_null(self, value, ancestry):
         if value is None:
             if self.nonnull:
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..065a1c5 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -66,6 +66,9 @@ class Enumeration(Field):
         self.enumeration = list(set(baseline + enumeration))
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
+    def _invalid_params(self):
+        return {'values': self.representation}
+
     def _is_null(self, value, ancestry):
         ignored_values = self.ignored_values
         if ignored_values and value in ignored_values:
@@ -76,4 +79,4 @@ class Enumeration(Field):
     def _validate_value(self, value, ancestry):
         if value not in self.enumeration:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
-                values=self.representation)
+                **self._invalid_params())
-- 
2.43.0


From d02b08fb5d2d7a014ede70b2435dbf7c5a4bdda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 007/104] fix: reconstructing a field must not modify the
 specification it is given

---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 5cb23cb..0654c79 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = dict(specification)
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From 14dc30e7f4ec308c908dd8db2191211393674606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 008/104] fix: a serialized structural error must unserialize
 to an equivalent error

---
 scheme/exceptions.py   | 29 +++++++++++++++++++++++++++--
 scheme/fields/error.py | 14 +++++++++-----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..7b4cffd 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -1,6 +1,6 @@
 from traceback import format_exc
 
-from scheme.util import format_structure, indent
+from scheme.util import format_structure, indent, string
 
 __all__ = ('CannotDescribeError', 'CannotExtractError', 'CannotFilterError',
     'CannotInterpolateError', 'FieldExcludedError', 'InvalidTypeError', 'StructuralError',
@@ -128,7 +128,7 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*errors, **{'structure': structure})
+        return cls(*(errors or ()), **{'structure': cls._unserialize_structure(structure)})
 
     def _format_errors(self, errors):
         field = self.field
@@ -200,6 +200,31 @@ class StructuralError(SchemeError):
             else:
                 return errors
 
+    @classmethod
+    def _unserialize_item(cls, item):
+        if item is None:
+            return None
+        if isinstance(item, (list, tuple)) and item:
+            for error in item:
+                if not (isinstance(error, dict) and (isinstance(error.get('token'), string)
+                        or isinstance(error.get('message'), string))):
+                    break
+            else:
+                return StructuralError(*item)
+
+        return StructuralError(structure=cls._unserialize_structure(item))
+
+    @classmethod
+    def _unserialize_structure(cls, structure):
+        if structure is None:
+            return None
+        elif isinstance(structure, dict):
+            return dict((attr, cls._unserialize_item(item)) for attr, item in structure.items())
+        elif isinstance(structure, (list, tuple)):
+            return [cls._unserialize_item(item) for item in structure]
+        else:
+            raise TypeError(structure)
+
 class ValidationError(StructuralError):
     """Raised when field validation fails."""
 
diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 31787b9..95e4fe8 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -18,11 +18,15 @@ class Error(Field):
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, StructuralError):
             return value
-        elif isinstance(value, tuple) and len(value) == 2:
-            return StructuralError.unserialize(value)
-        else:
-            raise InvalidTypeError(identity=ancestry, field=self,
-                value=value).construct('invalid')
+
+        try:
+            if isinstance(value, (list, tuple)):
+                return StructuralError.unserialize(value)
+        except Exception:
+            pass
+
+        raise InvalidTypeError(identity=ancestry, field=self,
+            value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, StructuralError):
-- 
2.43.0


From 88c6e7c08c5a66b0e408506bfa36d62e0bffd156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 009/104] fix: a key order must be usable with a polymorphic
 structure

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..29c7c41 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -397,7 +397,7 @@ class Structure(Field):
         if self.key_order:
             structure = OrderedDict()
             if identity:
-                key_order = self.key_order[identity]
+                key_order = [name for name in self.key_order if name in definition]
             else:
                 key_order = self.key_order
         else:
-- 
2.43.0


From 48a16e7344d7aaeabc2f50da3fd2e1845fd4bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 010/104] fix: a unique sequence must support items which are
 not hashable

---
 scheme/fields/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..92f9d32 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -203,7 +203,7 @@ class Sequence(Field):
 
         if not valid:
             raise ValidationError(identity=ancestry, field=self, value=value, structure=sequence)
-        elif self.unique and len(set(sequence)) != len(sequence):
+        elif self.unique and self._has_duplicates(sequence):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('duplicate')
         else:
             return sequence
@@ -224,6 +224,12 @@ class Sequence(Field):
     def _define_undefined_field(self, field):
         self.item = field
 
+    def _has_duplicates(self, sequence):
+        try:
+            return len(set(sequence)) != len(sequence)
+        except TypeError:
+            return any(item in sequence[:i] for i, item in enumerate(sequence))
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'item': callback(specification['item'])}
-- 
2.43.0


From 46da3734e6c5c5fd465afc731356da750fd32c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 011/104] fix: the required keys of a map must be recognised
 when the keys are serialized

---
 scheme/fields/map.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..c7be959 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -193,7 +193,10 @@ class Map(Field):
         value_field = self.value
 
         map = {}
+        names = set()
         for name, subvalue in value.items():
+            if phase == OUTBOUND:
+                names.add(name)
             if key_field:
                 try:
                     name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
@@ -201,6 +204,8 @@ class Map(Field):
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
+            if phase == INBOUND:
+                names.add(name)
 
             try:
                 map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
@@ -215,7 +220,7 @@ class Map(Field):
 
         if self.required_keys:
             for name in self.required_keys:
-                if name not in map:
+                if name not in names:
                     valid = False
                     map[name] = ValidationError(identity=ancestry, field=self).construct(
                         'required', name=name)
-- 
2.43.0


From 6ffed38d353fa0c8f1f137ffcdeffdcea73a7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 012/104] fix: an error about a tuple value must be renderable
 as text

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 7b4cffd..410483b 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -144,7 +144,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From b016e92592ab2c764ee37e2d8559675fad4dcddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 013/104] fix: a datetime which cannot be expressed in the zone
 of its field must be refused with a validation error

---
 scheme/fields/datetime.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 0a6d97b..870b5a9 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -95,11 +95,14 @@ class DateTime(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
-        if isinstance(value, datetime):
-            value = self._normalize_value(value)
-        else:
+        if not isinstance(value, datetime):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        try:
+            value = self._normalize_value(value)
+        except OverflowError:
+            raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
+
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-- 
2.43.0


From 0bed666a2b2be35b9a30673016f76d9050289483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 014/104] fix: a failing preprocessor of a sequence, map or
 tuple must be reported as a validation error

---
 scheme/fields/map.py      | 6 +++++-
 scheme/fields/sequence.py | 6 +++++-
 scheme/fields/tuple.py    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index c7be959..f656872 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -186,7 +186,11 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 92f9d32..adc4628 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -173,7 +173,11 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..f383fc5 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -169,7 +169,11 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From 8724a33798289602be3d60df0d2fd8b47079ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 015/104] fix: surrogates must know their implementation on
 Python 3

---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From ccafa39ff9ad719fd230eae15f9308d21f0bf1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 016/104] fix: the valid surrogates of a surrogate field must
 be enforced with a validation error

---
 scheme/fields/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 3cd584d..4232d29 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -62,6 +62,6 @@ class Surrogate(Field):
         if not isinstance(value, surrogate):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        if self.valid_surrogates and value.identity not in self.valid_surrogates:
+        if self.valid_surrogates and value.surrogate not in self.valid_surrogates:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'invalid-surrogate', surrogates=', '.join(sorted(self.valid_surrogates)))
+                'invalid-surrogate', surrogate=', '.join(sorted(self.valid_surrogates)))
-- 
2.43.0


From 37f9b442615e3e51b6becd2d3568027d83346b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 017/104] fix: malformed surrogate data must be refused with a
 validation error and surrogates kept as they are

---
 scheme/fields/surrogate.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 4232d29..30c1e71 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -50,13 +50,19 @@ class Surrogate(Field):
         return value.serialize()
 
     def _unserialize_value(self, value, ancestry):
-        if isinstance(value, dict):
-            return surrogate.unserialize(value, ancestry)
-        elif isinstance(value, surrogate):
+        if isinstance(value, surrogate):
             return value
-        else:
-            raise InvalidTypeError(identity=ancestry, field=self,
-                value=value).construct('invalid')
+
+        if isinstance(value, dict):
+            try:
+                return surrogate.unserialize(value, ancestry)
+            except StructuralError:
+                raise
+            except Exception:
+                pass
+
+        raise InvalidTypeError(identity=ancestry, field=self,
+            value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, surrogate):
-- 
2.43.0


From 0755984efb83a9ef17da0388165d3f6a8a2f1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 018/104] fix: a surrogate version must only select the schema
 it names

---
 scheme/surrogate.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index a6d769e..1eb6536 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -72,8 +72,8 @@ class surrogate(dict):
             if version is None:
                 version = len(impl.schemas)
             try:
-                effective_schema = impl.schemas[version - 1]
-            except IndexError:
+                effective_schema = impl._get_schema(version)
+            except ValueError:
                 raise Exception('invalid surrogate version')
 
         if value is not None:
@@ -157,6 +157,12 @@ class surrogate(dict):
         cls.cache[token] = impl
         return impl
 
+    @classmethod
+    def _get_schema(cls, version):
+        if not 1 <= version <= len(cls.schemas):
+            raise ValueError(version)
+        return cls.schemas[version - 1]
+
     @classmethod
     def _interpolate_dynamic_surrogate(cls, value, parameters, interpolator):
         schema = scheme.Field.reconstruct(deepcopy(value.pop('__schema__')))
@@ -173,11 +179,7 @@ class surrogate(dict):
         if version is None:
             version = len(cls.schemas)
 
-        try:
-            schema = cls.schemas[version - 1]
-        except IndexError:
-            raise ValueError(value)
-
+        schema = cls._get_schema(version)
         value = schema.interpolate(value, parameters, interpolator)
         cls.contribute(value, version)
         return cls(value, version=version)
@@ -198,10 +200,6 @@ class surrogate(dict):
     @classmethod
     def _unserialize_versioned_surrogate(cls, value, ancestry=None):
         version = value.pop('__version__', 1)
-        try:
-            schema = cls.schemas[version - 1]
-        except IndexError:
-            raise ValueError(value)
-
+        schema = cls._get_schema(version)
         value = schema.unserialize(value, ancestry=ancestry)
         return cls(value, version=version)
-- 
2.43.0


From 49933619f4e64ed924379a5e2ae62cd517f09337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 019/104] fix: an object which is not a surrogate must be
 refused as the implementation of one

---
 scheme/surrogate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index 1eb6536..38c57f2 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -153,6 +153,8 @@ class surrogate(dict):
             impl = import_object(token)
         except ImportError:
             impl = surrogate
+        if not (isinstance(impl, type) and issubclass(impl, surrogate)):
+            raise ValueError(token)
 
         cls.cache[token] = impl
         return impl
-- 
2.43.0


From fb1aad71db84285e11c50f485f2816b80e1bf6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 020/104] fix: an unhashable polymorphic identity must be
 refused as unrecognized

---
 scheme/fields/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 29c7c41..284f51b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -389,7 +389,10 @@ class Structure(Field):
             identity = polymorphic_on.process(identity, phase, serialized,
                 ancestry + ['.' + polymorphic_on.name])
 
-            definition = self.structure.get(identity)
+            try:
+                definition = self.structure.get(identity)
+            except TypeError:
+                definition = None
             if not definition:
                 raise ValidationError(identity=ancestry, field=self,
                     value=identity).construct('unrecognized')
-- 
2.43.0


From db197da7d3fe0adbe5785884e061c72146e88ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 021/104] fix: a map must support keys which are tuples

---
 scheme/fields/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index f656872..f353c31 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -203,7 +203,7 @@ class Map(Field):
                 names.add(name)
             if key_field:
                 try:
-                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
+                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % (name,)])
                 except StructuralError as exception:
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
@@ -212,7 +212,7 @@ class Map(Field):
                 names.add(name)
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % (name,)])
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From df90a6d40e5071b91aec07d1eb5d9ffdd6e4d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 022/104] fix: a structure must not share or alter the dict it
 is declared with

---
 scheme/fields/structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 284f51b..de673d0 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -67,7 +67,11 @@ class Structure(Field):
         if not isinstance(structure, dict):
             raise TypeError("argument 'structure' must be a dict value")
 
+        structure = structure.copy()
         if polymorphic_on:
+            for identity, candidate in structure.items():
+                if isinstance(candidate, dict):
+                    structure[identity] = candidate.copy()
             if '*' in structure:
                 common = structure.pop('*')
                 for value in structure.values():
-- 
2.43.0


From 5df151e6a6d1d6dd44354f3e3daed0a52ed469b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 023/104] fix: a default value must not be shared between
 processed structures

---
 scheme/fields/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index de673d0..7a34ab2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
@@ -419,7 +421,7 @@ class Structure(Field):
             elif partial:
                 continue
             elif phase == INBOUND and field.default is not None:
-                field_value = field.default
+                field_value = deepcopy(field.default)
             elif field.required:
                 valid = False
                 structure[name] = ValidationError(identity=ancestry, field=self).construct(
-- 
2.43.0


From 99fd96aaf7a195c1a59c32bef8137fe3461f41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 024/104] fix: a field must not share or alter the aspects it
 is declared with

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 0654c79..10bc924 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -187,7 +187,7 @@ class Field(object):
         if extractor:
             extractor = getattr(extractor, '__extract__', extractor)
 
-        self.aspects = aspects or {}
+        self.aspects = dict(aspects or {})
         self.constant = constant
         self.default = default
         self.description = description
-- 
2.43.0


From effeeff9666779ab11dc305af6970c103f8b3403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 025/104] fix: merging must skip only the fields which are
 already present

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 7a34ab2..5f9eb6a 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -357,7 +357,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From d9e8ad9fd683e804f5400a20f0beab42290315eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 026/104] fix: extending or replacing must not rename the given
 fields in place

---
 scheme/fields/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5f9eb6a..b08b8f9 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -182,7 +182,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if field.name != name:
-                field.name = name
+                field = field.clone(name=name)
             extension.structure[name] = field
 
         return extension
@@ -481,7 +481,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError(field)
             if field.name != name:
-                field.name = name
+                field = field.clone(name=name)
             if name in replacement.structure:
                 replacement.structure[name] = field
 
-- 
2.43.0


From e046dd8ebc9b200f0ab06de37960f32069ad3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 027/104] fix: interpolation of a union must not raise
 NameError

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From fafd9d99593a2e8fcc9c7ebec1fe617e3e5e445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 028/104] fix: filtering a structure must remove exactly the
 fields which do not match

---
 scheme/fields/map.py       |  2 +-
 scheme/fields/structure.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index f353c31..2f7535e 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -123,7 +123,7 @@ class Map(Field):
         if not super(Map, self).filter(all, **params):
             return None
 
-        value = self.value.filter(self.value, **params)
+        value = self.value.filter(all, **params)
         if value is self.value:
             return self
         elif value:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b08b8f9..2739d01 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -239,14 +239,14 @@ class Structure(Field):
             structure = {}
             for identity, substructure in self.structure.items():
                 candidate = self._filter_structure(substructure, all, params)
-                if candidate:
+                if candidate is not None:
                     structure[identity] = candidate
                     filtered = True
                 else:
                     structure[identity] = substructure
         else:
             structure = self._filter_structure(self.structure, all, params)
-            if structure:
+            if structure is not None:
                 filtered = True
 
         if filtered:
@@ -529,7 +529,11 @@ class Structure(Field):
         candidates = {}
 
         for name, field in structure.items():
-            candidate = field.filter(all, **params)
+            if self.polymorphic_on and name == self.polymorphic_on.name:
+                candidates[name] = field
+                continue
+
+            candidate = field.filter(exclusive, **params)
             if candidate:
                 candidates[name] = candidate
                 if candidate is not field:
-- 
2.43.0


From 6bd34e87632a5945b8b871e78e68e8a7e8baef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 029/104] fix: a polymorphic structure must be transformed in
 all of its variants

---
 scheme/fields/structure.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 2739d01..d146606 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -495,15 +495,17 @@ class Structure(Field):
             return self
 
         transformed = False
-        candidates = {}
-
-        for name, field in self.structure.items():
-            candidate = field.transform(transformer)
-            if candidate is not field:
-                candidates[name] = candidate
+        if self.polymorphic_on:
+            candidates = {}
+            for identity, structure in self.structure.items():
+                candidate = self._transform_structure(structure, transformer)
+                if candidate is not structure:
+                    transformed = True
+                candidates[identity] = candidate
+        else:
+            candidates = self._transform_structure(self.structure, transformer)
+            if candidates is not self.structure:
                 transformed = True
-            else:
-                candidates[name] = field
 
         if transformed:
             return self.clone(structure=candidates)
@@ -585,6 +587,23 @@ class Structure(Field):
             if not field.name:
                 field.name = name
 
+    def _transform_structure(self, structure, transformer):
+        transformed = False
+        candidates = {}
+
+        for name, field in structure.items():
+            candidate = field
+            if not (self.polymorphic_on and name == self.polymorphic_on.name):
+                candidate = field.transform(transformer)
+            if candidate is not field:
+                transformed = True
+            candidates[name] = candidate
+
+        if transformed:
+            return candidates
+        else:
+            return structure
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From a55bc9491879c5b0e7e5d378e2268ac24eec9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 030/104] fix: the default of a container must be described in
 serialized form, even when empty

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/sequence.py  | 2 +-
 scheme/fields/structure.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 2f7535e..6ac257e 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -76,7 +76,7 @@ class Map(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for key, value in self.default.items():
                 default[key] = self.value.process(value, OUTBOUND, True)
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index adc4628..8992908 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -72,7 +72,7 @@ class Sequence(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = [self.item.process(value, OUTBOUND, True) for value in self.default]
 
         return super(Sequence, self).describe(parameters, verbose,
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d146606..99df088 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -165,10 +165,10 @@ class Structure(Field):
             structure = self._describe_structure(self.structure, parameters, verbose)
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name]._serialize_value(value)
+                default[name] = default_structure[name].process(value, OUTBOUND, True)
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
-- 
2.43.0


From 5c318a09416c5a308fb82bee1e79a351ab6dc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 031/104] fix: descriptions must include token segments,
 ignored values and key order

---
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/structure.py   | 2 +-
 scheme/fields/token.py       | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 065a1c5..8076297 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -9,7 +9,7 @@ class Enumeration(Field):
     """A field for enumerated values."""
 
     basetype = 'enumeration'
-    parameters = {'enumeration': None}
+    parameters = {'enumeration': None, 'ignored_values': None}
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 99df088..923cafa 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -52,7 +52,7 @@ class Structure(Field):
     """
 
     basetype = 'structure'
-    parameters = {'strict': True}
+    parameters = {'key_order': None, 'strict': True}
     structural = True
 
     errors = [
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index ff9c97c..d13d745 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,6 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
+    parameters = {'segments': None}
     pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
-- 
2.43.0


From 9d255d0d8890fd6ef456116df1ddd11e01e090c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 032/104] fix: the bounds of a datetime field must be described
 in UTC

---
 scheme/fields/datetime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 870b5a9..00863f8 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -52,9 +52,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % format_date(self.minimum, self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % format_date(self.maximum, self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         if self.utc:
             aspects.append('utc=True')
 
@@ -63,9 +63,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = format_date(self.maximum, self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum:
-            params['minimum'] = format_date(self.minimum, self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -106,11 +106,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=format_date(minimum, self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=format_date(maximum, self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
 
         return value
-- 
2.43.0


From 01c55a33d81061b58eb4452a088d706ad7ac268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 033/104] fix: generated defaults must not alias the defaults
 of the fields

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 923cafa..462d854 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -553,7 +553,7 @@ class Structure(Field):
             if value is None:
                 value = field.constant
             if not sparse or value is not None:
-                default[name] = value
+                default[name] = deepcopy(value)
 
         return default
 
-- 
2.43.0


From f42a716963817405e84645ce5e74e1bd9dd1b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 034/104] fix: elements must not share default values

---
 scheme/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index a1e110d..15a8893 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from scheme.fields import *
 from scheme.util import with_metaclass
 
@@ -77,7 +79,7 @@ class Element(object):
             defaults = self.__attrs__
 
         for attr, default in defaults.items():
-            setattr(self, attr, params.get(attr, default))
+            setattr(self, attr, params[attr] if attr in params else deepcopy(default))
 
     def __repr__(self):
         aspects = []
-- 
2.43.0


From 7bb964f8817e8f40e887b558f9f4587105324b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 035/104] fix: an error about a field with a tuple default must
 be renderable

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 10bc924..2ba51b3 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -221,7 +221,7 @@ class Field(object):
         if self.constant:
             aspects.append('constant=True')
         if self.default is not None:
-            aspects.append('default=%r' % self.default)
+            aspects.append('default=%r' % (self.default,))
         if self.nonnull:
             aspects.append('nonnull=True')
         if self.required:
-- 
2.43.0


From 803f1688bdc41aee572d5be15091671f82770bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 036/104] fix: an error about a recursive schema must be
 renderable

---
 scheme/fields/map.py       |  3 ++-
 scheme/fields/sequence.py  |  3 ++-
 scheme/fields/structure.py |  3 ++-
 scheme/fields/tuple.py     |  3 ++-
 scheme/fields/union.py     |  3 ++-
 scheme/util.py             | 23 +++++++++++++++++++++++
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 6ac257e..193333d 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Map',)
 
@@ -63,6 +63,7 @@ class Map(Field):
         self.required_keys = required_keys
         self.value = value
 
+    @recursive_repr()
     def __repr__(self):
         aspects = []
         if self.key:
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 8992908..8432512 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import pluralize, string
+from scheme.util import pluralize, recursive_repr, string
 
 __all__ = ('Sequence',)
 
@@ -60,6 +60,7 @@ class Sequence(Field):
         self.min_length = min_length
         self.unique = unique
 
+    @recursive_repr()
     def __repr__(self):
         aspects = ['item=%r' % self.item]
         if self.min_length is not None:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 462d854..53662d2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -4,7 +4,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import getitem, string
+from scheme.util import getitem, recursive_repr, string
 
 __all__ = ('Structure',)
 
@@ -118,6 +118,7 @@ class Structure(Field):
             else:
                 raise ValueError('generate_default must be boolean')
 
+    @recursive_repr()
     def __repr__(self):
         aspects = ['structure=%r' % self.structure]
         if self.polymorphic_on:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index f383fc5..a12a985 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Tuple',)
 
@@ -47,6 +47,7 @@ class Tuple(Field):
 
         self.values = tuple(stack)
 
+    @recursive_repr()
     def __repr__(self):
         return super(Tuple, self).__repr__(['values=%r' % (self.values,)])
 
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..ecb5cb1 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 class Union(Field):
     """A field composed of a union of two or more other fields, which attempts to process values
@@ -41,6 +41,7 @@ class Union(Field):
 
         self.fields = tuple(stack)
 
+    @recursive_repr()
     def __repr__(self):
         return super(Union, self).__repr__(['fields=%r' % (self.fields,)])
 
diff --git a/scheme/util.py b/scheme/util.py
index 20e2905..295f3ac 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -20,6 +20,29 @@ except NameError:
 
 NODEFAULT = object()
 
+try:
+    from reprlib import recursive_repr
+except ImportError:
+    try:
+        from thread import get_ident
+    except ImportError:
+        from _thread import get_ident
+
+    def recursive_repr(fillvalue='...'):
+        def decorator(function):
+            running = set()
+            def wrapper(self):
+                key = (id(self), get_ident())
+                if key in running:
+                    return fillvalue
+                running.add(key)
+                try:
+                    return function(self)
+                finally:
+                    running.discard(key)
+            return wrapper
+        return decorator
+
 def abbreviate_string(value, maxlength=0):
     maxlength = max(maxlength, 4)
     if len(value) <= maxlength:
-- 
2.43.0


From 44b848d54dc0e381bf308b77f5b93dc885e974ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 037/104] fix: fields with errors of their own must be clonable

---
 scheme/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 2ba51b3..239a26e 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -204,6 +204,8 @@ class Field(object):
             self.preprocessor = preprocessor
 
         if errors:
+            if isinstance(errors, dict):
+                errors = errors.values()
             self.errors = self.errors.copy()
             for error in errors:
                 self.errors[error.token] = error
-- 
2.43.0


From 4011b0869ac683c33e1bb52bd31f77a939a8033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 038/104] fix: text in YAML must be quoted, escaped and wrapped
 so that it reads back

---
 scheme/formats/yaml.py | 109 +++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 38 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f662160..6f3f930 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -2,7 +2,6 @@ from __future__ import absolute_import
 
 import re
 from datetime import date, datetime
-from textwrap import TextWrapper
 
 try:
     from collections import OrderedDict
@@ -27,9 +26,13 @@ class Yaml(Format):
     line_width = 100
     mimetype = 'application/x-yaml'
     name = 'yaml'
+    key_length = 500
+    nonprintable = re.compile(u'[^\x20-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe'
+        u'\uff00-\ufffd\U00010000-\U0010ffff]')
     requires_escape = (': ', ' #')
-    requires_quotes = ('null', '~', 'true', 'false')
-    whitespace = re.compile(r'^\s*$')
+    requires_quotes = ('null', 'true', 'false', 'yes', 'no', 'on', 'off')
+    scalar_prefixes = '0123456789+.=<~'
+    word_boundary = re.compile(r'(?<=[^ ]) (?=[^ ])')
 
     @classmethod
     def serialize(cls, value, schema=None):
@@ -44,17 +47,14 @@ class Yaml(Format):
 
     @classmethod
     def _is_literal_text(cls, value):
-        if '\n' not in value:
-            return False
+        """Whether ``value`` can be written as a literal block, as opposed to a quoted scalar."""
 
-        whitespace = cls.whitespace
-        for line in value.split('\n'):
-            if not line or whitespace.match(line):
-                continue
-            if line[0] in ' \t\v\f':
-                return True
-        else:
+        lines = value.split('\n')
+        if len(lines) == 1 or lines[0][:1] in ('', ' '):
+            return False
+        if value.endswith('\n\n'):
             return False
+        return not cls.nonprintable.search(value.replace('\n', ''))
 
     @classmethod
     def _is_simple_sequence(cls, value):
@@ -66,7 +66,11 @@ class Yaml(Format):
 
     @classmethod
     def _requires_escaping(cls, value):
-        if value[0] in cls.indicators:
+        if value.lower() in cls.requires_quotes:
+            return True
+        if value[0] in cls.indicators or value[0] in cls.scalar_prefixes:
+            return True
+        if value[0] == ' ' or value[-1] in ' :':
             return True
 
         for token in cls.requires_escape:
@@ -75,6 +79,30 @@ class Yaml(Format):
         else:
             return False
 
+    @classmethod
+    def _serialize_character(cls, match):
+        value = ord(match.group(0))
+        if value <= 0xff:
+            return '\\x%02x' % value
+        elif value <= 0xffff:
+            return '\\u%04x' % value
+        else:
+            return '\\U%08x' % value
+
+    @classmethod
+    def _serialize_scalar(cls, value):
+        """Serializes the string ``value`` on a single line."""
+
+        if not value:
+            return "''"
+        elif cls.nonprintable.search(value):
+            value = value.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+            return '"%s"' % cls.nonprintable.sub(cls._serialize_character, value)
+        elif cls._requires_escaping(value):
+            return "'%s'" % value.replace("'", "''")
+        else:
+            return value
+
     @classmethod
     def _serialize_sequence(cls, value, level):
         if not value:
@@ -108,7 +136,12 @@ class Yaml(Format):
 
         lines = []
         for k, v in items:
-            key = '%s%s:' % (cls.indent * level, k)
+            key = '%s%s:' % (cls.indent * level, cls._serialize_scalar(k)
+                if isinstance(k, string) else k)
+            if len(key) > cls.key_length:
+                lines.append('%s? %s' % (cls.indent * level, key.lstrip()[:-1]))
+                key = '%s:' % (cls.indent * level)
+
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
@@ -128,38 +161,38 @@ class Yaml(Format):
 
     @classmethod
     def _serialize_string(cls, value, level):
-        length = len(value)
-        if length == 0:
-            return "''"
-        elif length <= 5 and value.lower() in cls.requires_quotes:
-            return "'%s'" % value
-
-        indent = cls.indent * level
-        if '\n' in value:
-            lines = ['|']
+        indent = cls.indent * max(level, 1)
+        if cls._is_literal_text(value):
+            lines = ['|' if value.endswith('\n') else '|-']
             for line in value.split('\n'):
                 if line:
                     lines.append(indent + line)
                 else:
                     lines.append('')
             return lines
-        elif length + len(indent) <= cls.line_width:
-            if cls._requires_escaping(value):
-                return "'%s'" % value.replace("'", "''")
-            else:
-                return value
-        else:
-            if cls._requires_escaping(value):
-                value = "'%s'" % value.replace("'", "''")
 
-            wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
-                subsequent_indent=indent, break_long_words=False,
-                replace_whitespace=False, drop_whitespace=False)
+        content = cls._serialize_scalar(value)
+        if len(indent) + len(content) <= cls.line_width or content[0] == '"':
+            return content
+        elif content[0] != "'":
+            content = "'%s'" % content.replace("'", "''")
 
-            lines = []
-            for line in value.splitlines():
-                lines.extend(wrapper.wrap(line))
-            return lines
+        # a line break within a quoted scalar is read as the single blank it replaces
+        lines = []
+        line = None
+        for word in cls.word_boundary.split(content):
+            if line is None:
+                line = word
+            elif len(indent) + len(line) + len(word) < cls.line_width:
+                line = '%s %s' % (line, word)
+            else:
+                lines.append(indent + line)
+                line = word
+
+        lines.append(indent + line)
+        if level == 0:
+            lines[0] = lines[0].lstrip()
+        return lines
 
     @classmethod
     def _serialize_value(cls, value, level):
-- 
2.43.0


From 6da08340307f7fc6898d0cda03b481937b86329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 039/104] fix: floats in YAML must read back as floats

---
 scheme/formats/yaml.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 6f3f930..03c6e25 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -89,6 +89,15 @@ class Yaml(Format):
         else:
             return '\\U%08x' % value
 
+    @classmethod
+    def _serialize_float(cls, value):
+        content = repr(value)
+        if content[-3:] in ('inf', 'nan'):
+            return '%s.%s' % (content[:-3], content[-3:])
+        elif '.' not in content:
+            content = content.replace('e', '.0e')
+        return content
+
     @classmethod
     def _serialize_scalar(cls, value):
         """Serializes the string ``value`` on a single line."""
@@ -213,7 +222,9 @@ class Yaml(Format):
             return value.strftime('%Y-%m-%d %H:%M:%S')
         elif isinstance(value, date):
             return value.strftime('%Y-%m-%d')
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, float):
+            return cls._serialize_float(value)
+        elif isinstance(value, int):
             return str(value)
         else:
             raise ValueError(value)
-- 
2.43.0


From 63ba88f89728b9b882df3431bacea137ce565232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 040/104] fix: dates and datetimes in YAML must keep century,
 microseconds and offset

---
 scheme/formats/yaml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 03c6e25..533a015 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -15,6 +15,7 @@ except ImportError:
     yaml = None
 
 from scheme.format import *
+from scheme.timezone import UTC
 from scheme.util import string
 
 __all__ = ('Yaml',)
@@ -219,9 +220,12 @@ class Yaml(Format):
             else:
                 return 'false'
         elif isinstance(value, datetime):
-            return value.strftime('%Y-%m-%d %H:%M:%S')
+            offset = value.utcoffset()
+            if offset and offset.total_seconds() % 60:
+                value = value.astimezone(UTC)
+            return value.isoformat(' ')
         elif isinstance(value, date):
-            return value.strftime('%Y-%m-%d')
+            return value.isoformat()
         elif isinstance(value, float):
             return cls._serialize_float(value)
         elif isinstance(value, int):
-- 
2.43.0


From b2134d7b1fcfba63831b66ff9b2b50d67d76cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 041/104] fix: brackets, backslashes and placeholders in
 structured text must read back

---
 scheme/formats/structuredtext.py | 87 +++++++++++++++-----------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index c015ad9..ca3dcac 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -9,11 +9,10 @@ class StructuredText(Format):
     mimetype = 'text/plain'
     name = 'structuredtext'
 
-    STRUCTURE_EXPR = re.compile(
-        r'(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
-    )
     STRUCTURE_TOKENS_EXPR = re.compile(r'([{}\[\]])')
     ESCAPED_TOKENS_EXPR = re.compile(r'\\([{}\[\]])')
+    KEY_EXPR = re.compile(r'((?:\\[{}\[\]]|[^:,{}\[\]])*):')
+    VALUE_EXPR = re.compile(r'((?:\\[{}\[\]]|[^,{}\[\]])*)')
 
     @classmethod
     def serialize(cls, value, schema=None):
@@ -50,54 +49,48 @@ class StructuredText(Format):
             return str(content)
 
     @classmethod
-    def _unserialize_structure(cls, text, structures, parse_numbers=False):
-        if text[0] == '{':
-            tokens = text[1:-1]
-            if tokens:
-                pairs = []
-                for pair in tokens.split(','):
-                    key, value = pair.split(':', 1)
-                    try:
-                        if value in structures:
-                            value = structures[value]
-                        else:
-                            value = cls._unserialize_simple_value(value, parse_numbers)
-                        pairs.append((key, value))
-                    except Exception:
-                        raise ValueError(value)
-
-                return dict(pairs)
-            else:
-                return {}
-        else:
-            tokens = text[1:-1]
-            if tokens:
-                values = []
-                for value in tokens.split(','):
-                    if value in structures:
-                        value = structures[value]
-                    else:
-                        value = cls._unserialize_simple_value(value, parse_numbers)
-                    values.append(value)
-                return values
-            else:
-                return []
+    def _unserialize_structure(cls, text, position, parse_numbers=False):
+        """Unserializes the structure which opens at ``position`` within ``text``, returning
+        both the structure and the position which follows it."""
 
-    @classmethod
-    def _unserialize_structured_value(cls, text, parse_numbers=False):
-        expr = cls.STRUCTURE_EXPR
-        structures = {}
+        mapping = (text[position] == '{')
+        terminator = '}' if mapping else ']'
 
-        def replace(match):
-            token = '||%d||' % len(structures)
-            structures[token] = cls._unserialize_structure(match.group(0),
-                structures, parse_numbers)
-            return token
+        items = []
+        position += 1
+        if text[position:position + 1] == terminator:
+            return ({} if mapping else []), position + 1
 
         while True:
-            text, count = expr.subn(replace, text)
-            if count == 0:
-                return structures[text]
+            if mapping:
+                match = cls.KEY_EXPR.match(text, position)
+                if not match:
+                    raise ValueError(text)
+                key = match.group(1)
+                position = match.end()
+
+            if text[position:position + 1] in ('{', '['):
+                value, position = cls._unserialize_structure(text, position, parse_numbers)
+            else:
+                match = cls.VALUE_EXPR.match(text, position)
+                value = cls._unserialize_simple_value(match.group(1), parse_numbers)
+                position = match.end()
+
+            items.append((key, value) if mapping else value)
+            token = text[position:position + 1]
+            position += 1
+
+            if token == terminator:
+                return (dict(items) if mapping else items), position
+            elif token != ',':
+                raise ValueError(text)
+
+    @classmethod
+    def _unserialize_structured_value(cls, text, parse_numbers=False):
+        value, position = cls._unserialize_structure(text, 0, parse_numbers)
+        if position != len(text):
+            raise ValueError(text)
+        return value
 
     @classmethod
     def _unserialize_simple_value(cls, value, parse_numbers=False):
-- 
2.43.0


From 097a5777e389afd9380cb40b7096c18ec38504b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 042/104] fix: empty text must read back from structured text
 and forms

---
 scheme/formats/structuredtext.py | 2 +-
 scheme/formats/urlencoded.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index ca3dcac..0e7dae4 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -22,7 +22,7 @@ class StructuredText(Format):
     def unserialize(cls, value, schema=None, parse_numbers=False):
         if not isinstance(value, string):
             raise ValueError(value)
-        if value[0] in ('{', '['):
+        if value[:1] in ('{', '['):
             return cls._unserialize_structured_value(value, parse_numbers)
         else:
             return cls._unserialize_simple_value(value, parse_numbers)
diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..c1f0c9e 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -34,8 +34,8 @@ class UrlEncoded(StructuredText):
             raise ValueError(content)
 
         data = {}
-        for name, value in parse_qsl(content):
-            if value[0] in ('{', '['):
+        for name, value in parse_qsl(content, keep_blank_values=True):
+            if value[:1] in ('{', '['):
                 value = cls._unserialize_structured_value(value)
             else:
                 value = cls._unserialize_simple_value(value)
-- 
2.43.0


From 0311eab6c3f9c5b3b78481bf4178b77844e07bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 043/104] fix: brackets must be unescaped when numbers are
 parsed

---
 scheme/formats/structuredtext.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 0e7dae4..f31e7e8 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -101,16 +101,11 @@ class StructuredText(Format):
             return False
         elif candidate == 'null':
             return None
-        elif not parse_numbers:
-            return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
 
-        if '.' in value:
+        if parse_numbers:
             try:
-                return float(value)
+                return float(value) if '.' in value else int(value)
             except (TypeError, ValueError):
                 pass
 
-        try:
-            return int(value)
-        except (TypeError, ValueError):
-            return value
+        return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
-- 
2.43.0


From 9f6a472ac447f2b039789e6021441711f61c61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 044/104] fix: forms must be usable through a schema

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index c1f0c9e..58f476a 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,7 +29,7 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
-- 
2.43.0


From 9d1c71148c5a7402907ac31b9745d2626a0f0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 045/104] fix: polymorphic identities such as 0 must select
 their structure

---
 scheme/fields/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 53662d2..920947a 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -406,7 +406,7 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if identity:
+            if polymorphic_on:
                 key_order = [name for name in self.key_order if name in definition]
             else:
                 key_order = self.key_order
@@ -560,7 +560,7 @@ class Structure(Field):
 
     def _get_definition(self, value, getter=getitem):
         identity = self._get_polymorphic_identity(value, getter)
-        if identity:
+        if self.polymorphic_on:
             return self.structure[identity]
         else:
             return self.structure
-- 
2.43.0


From fb666324c2c7c6e0d04d732c60dd95f3d397e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 046/104] fix: polymorphic structures must be usable in XML

---
 scheme/formats/xml.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index f250867..6104d0e 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -2,7 +2,8 @@ from __future__ import absolute_import
 
 import xml.etree.cElementTree as etree
 
-from scheme.field import Field
+from scheme.exceptions import ValidationError
+from scheme.field import Field, INBOUND
 from scheme.format import Format
 
 __all__ = ('Xml',)
@@ -38,6 +39,15 @@ class Xml(Format):
         attr, value = cls._unserialize_element(root, schema)
         return value
 
+    @classmethod
+    def _get_structure(cls, field, content):
+        polymorphic_on = field.polymorphic_on
+        if polymorphic_on:
+            identity = content[polymorphic_on.name]
+            return field.structure[polymorphic_on.process(identity, INBOUND, True)]
+        else:
+            return field.structure
+
     @classmethod
     def _serialize_content(cls, content, element, field):
         if content is None:
@@ -49,9 +59,10 @@ class Xml(Format):
                 element.text = 'false'
         elif field.type == 'structure':
             if content:
+                structure = cls._get_structure(field, content)
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
-                    cls._serialize_content(value, subelement, field.structure[key])
+                    cls._serialize_content(value, subelement, structure[key])
         elif field.type == 'map':
             if content:
                 for key, value in sorted(content.items()):
@@ -89,8 +100,7 @@ class Xml(Format):
         elif field.type == 'sequence':
             return attr, [cls._unserialize_element(v, field.item)[1] for v in element]
         elif field.type == 'structure':
-            return attr, dict(cls._unserialize_element(v, field.structure[v.tag])
-                for v in element)
+            return attr, cls._unserialize_structure(element, field)
         elif field.type == 'tuple':
             return attr, tuple(cls._unserialize_element(v, field.values[i])[1]
                 for i, v in enumerate(element))
@@ -98,3 +108,16 @@ class Xml(Format):
             raise NotImplementedError()
         else:
             return attr, element.text
+
+    @classmethod
+    def _unserialize_structure(cls, element, field):
+        structure = field.structure
+        if field.polymorphic_on:
+            content = dict(cls._unserialize_element(v, field.polymorphic_on)
+                for v in element if v.tag == field.polymorphic_on.name)
+            try:
+                structure = cls._get_structure(field, content)
+            except (KeyError, ValidationError):
+                return content
+
+        return dict(cls._unserialize_element(v, structure[v.tag]) for v in element)
-- 
2.43.0


From 7650e3505bc206780237bf29bda9f94a41d9b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 047/104] fix: empty text in XML must read back as empty text,
 not as null

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 6104d0e..7b7e78a 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -107,7 +107,7 @@ class Xml(Format):
         elif field.type == 'union':
             raise NotImplementedError()
         else:
-            return attr, element.text
+            return attr, element.text or ''
 
     @classmethod
     def _unserialize_structure(cls, element, field):
-- 
2.43.0


From acd9369fe0c20886354d8ffa572ad2a3d3175084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 048/104] fix: XML must keep carriage returns and refuse text
 it cannot express

---
 scheme/formats/xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 7b7e78a..117ae69 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 
+import re
 import xml.etree.cElementTree as etree
 
 from scheme.exceptions import ValidationError
@@ -14,6 +15,7 @@ class Xml(Format):
     name = 'xml'
 
     default_root = 'root'
+    invalid_text = re.compile(u'[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
     preamble = '<?xml version="1.0"?>'
 
     @classmethod
@@ -24,7 +26,8 @@ class Xml(Format):
         element = etree.Element(schema.name or cls.default_root)
         cls._serialize_content(value, element, schema)
 
-        serialized = etree.tostring(element).decode('us-ascii')
+        # a parser reads an unescaped carriage return as a newline
+        serialized = etree.tostring(element).decode('us-ascii').replace('\r', '&#13;')
         if preamble:
             serialized = cls.preamble + serialized
 
@@ -83,6 +86,8 @@ class Xml(Format):
             raise NotImplementedError()
         else:
             element.text = str(content)
+            if cls.invalid_text.search(element.text):
+                raise ValueError(content)
 
     @classmethod
     def _unserialize_element(cls, element, field):
-- 
2.43.0


From daae6863129320c2160a4724a54b4f545f7207c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 049/104] fix: reading CSV must not print the cells

---
 scheme/formats/csv.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..3bbe736 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From 50162520685467239744cd530af8da0e16318b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 050/104] fix: CSV cells may hold line breaks and rows may end
 in a newline

---
 scheme/formats/csv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 3bbe736..73f58d7 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 
+import re
 from csv import QUOTE_ALL, Dialect, reader as Reader, writer as Writer
 
 try:
@@ -18,6 +19,8 @@ class Csv(Format):
     mimetype = 'application/csv'
     name = 'csv'
 
+    line_expr = re.compile(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+')
+
     class Dialect(Dialect):
         delimiter = ','
         doublequote = True
@@ -89,7 +92,7 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        reader = Reader(cls.line_expr.findall(value.strip('\r\n')), cls.Dialect)
         columns = next(reader)
 
         cells = []
-- 
2.43.0


From 8c0d612e79b421e894bcee06478f308c587c471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 051/104] fix: enumerated numbers and booleans must read back
 from XML and CSV

---
 scheme/fields/enumeration.py | 9 +++++++++
 scheme/formats/csv.py        | 2 ++
 scheme/formats/xml.py        | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 8076297..35427cd 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -53,6 +53,15 @@ class Enumeration(Field):
         else:
             raise CannotInterpolateError('subject must be a value in this enumeration')
 
+    def parse(self, text):
+        """Returns the enumerated value which ``text`` is the text of, otherwise ``text``."""
+
+        for value in self.enumeration:
+            if str(value) == text:
+                return value
+        else:
+            return text
+
     def redefine(self, enumeration, strategy='append'):
         if isinstance(enumeration, string):
             enumeration = enumeration.split(' ')
diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 73f58d7..9846262 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -105,6 +105,8 @@ class Csv(Format):
                     cells.append((i, column, float))
                 elif field.type == 'integer':
                     cells.append((i, column, int))
+                elif field.type == 'enumeration':
+                    cells.append((i, column, field.parse))
                 else:
                     cells.append((i, column, None))
             else:
diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 117ae69..7e33990 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -100,6 +100,8 @@ class Xml(Format):
             return attr, float(element.text)
         elif field.type == 'integer':
             return attr, int(element.text)
+        elif field.type == 'enumeration':
+            return attr, field.parse(element.text or '')
         elif field.type == 'map':
             return attr, dict(cls._unserialize_element(v, field.value) for v in element)
         elif field.type == 'sequence':
-- 
2.43.0


From 047c33d68acb68445555b8b9219ac83772e1d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 052/104] fix: a value that cannot be serialized must not
 truncate the file

---
 scheme/format.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheme/format.py b/scheme/format.py
index fda8db8..a6806f1 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -81,5 +81,7 @@ class Format(object):
             else:
                 raise ValueError(format)
 
+        # a value which can't be serialized must leave any existing file untouched
+        content = format.serialize(value, schema, **params)
         with open(path, 'w+') as openfile:
-            openfile.write(format.serialize(value, schema, **params))
+            openfile.write(content)
-- 
2.43.0


From 5a06f7221f6e928667597183b202f2ef62cbe397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 053/104] fix: files must be read exactly as written, whatever
 the locale and line endings

---
 scheme/format.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scheme/format.py b/scheme/format.py
index a6806f1..cf5baff 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -54,8 +54,12 @@ class Format(object):
             else:
                 raise ValueError(format)
 
-        with open(path) as openfile:
-            return format.unserialize(openfile.read(), schema, **params)
+        with open(path, 'rb') as openfile:
+            content = openfile.read()
+
+        if not isinstance(content, str):
+            content = content.decode('utf-8')
+        return format.unserialize(content, schema, **params)
 
     @classmethod
     def serialize(cls, value, format, schema=None, **params):
@@ -83,5 +87,7 @@ class Format(object):
 
         # a value which can't be serialized must leave any existing file untouched
         content = format.serialize(value, schema, **params)
-        with open(path, 'w+') as openfile:
+        if not isinstance(content, bytes):
+            content = content.encode('utf-8')
+        with open(path, 'wb') as openfile:
             openfile.write(content)
-- 
2.43.0


From ec4660a4f57d92c371081227e17b642f2b3a4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 054/104] fix: a quiet read of a missing file through a schema
 must return false

---
 scheme/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 239a26e..57cbe3b 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -1,3 +1,4 @@
+import os
 import re
 from copy import deepcopy
 
@@ -478,9 +479,12 @@ class Field(object):
 
         return value
 
-    def read(self, path, format=None, **params):
+    def read(self, path, format=None, quiet=False, **params):
         """Reads the content of the file at ``path``, unserializes it, then processes it as an
-        inbound value for this field."""
+        inbound value for this field. If ``quiet``, returns ``False`` when there's no such file."""
+
+        if quiet and not (path and os.path.exists(path)):
+            return False
 
         data = Format.read(path, format, self, **params)
         return self.process(data, INBOUND, True)
-- 
2.43.0


From 9185a2b913908ce3d80c19e5beda35d641c27113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 055/104] fix: a polymorphic structure on dates and the like
 must be serializable

---
 scheme/fields/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 920947a..44a0787 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -393,7 +393,8 @@ class Structure(Field):
                 raise ValidationError(identity=ancestry, field=self).construct('required',
                     name=polymorphic_on.name)
 
-            identity = polymorphic_on.process(identity, phase, serialized,
+            # the structures are keyed by native values, so don't serialize an outbound identity
+            identity = polymorphic_on.process(identity, phase, serialized and phase == INBOUND,
                 ancestry + ['.' + polymorphic_on.name])
 
             try:
-- 
2.43.0


From c1483605bce015942df4dcfcb5dcfc577c969125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 056/104] fix: XML element names need not be ASCII

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 7e33990..0c7d4e4 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -27,7 +27,7 @@ class Xml(Format):
         cls._serialize_content(value, element, schema)
 
         # a parser reads an unescaped carriage return as a newline
-        serialized = etree.tostring(element).decode('us-ascii').replace('\r', '&#13;')
+        serialized = etree.tostring(element, 'utf-8').decode('utf-8').replace('\r', '&#13;')
         if preamble:
             serialized = cls.preamble + serialized
 
-- 
2.43.0


From 69e10a98f9586c56a19046edb4d21f607afd2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 057/104] fix: interpolation must keep the line endings of
 plain text

---
 scheme/interpolation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 522396a..ea371d4 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -24,7 +24,8 @@ class Interpolator(object):
     def __init__(self, filters=None, globals=None):
         self.environment = jinja2.Environment(
             variable_start_string='${',
-            variable_end_string='}')
+            variable_end_string='}',
+            keep_trailing_newline=True)
 
         for filter in self.standard_filters:
             self.environment.filters[filter.__name__] = filter
@@ -54,7 +55,15 @@ class Interpolator(object):
             return value
 
     def interpolate(self, subject, parameters):
-        template = self.environment.from_string(subject)
+        environment = self.environment
+        for token in (environment.variable_start_string, environment.block_start_string,
+                environment.comment_start_string):
+            if token in subject:
+                break
+        else:
+            return subject
+
+        template = environment.from_string(subject)
         return template.render(parameters)
 
 def interpolate_parameters(subject, parameters, simple=False, interpolator=None):
-- 
2.43.0


From a896e4f3bca797adaa94b76e79b2c011e2225a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 058/104] fix: an attribute of an undefined parameter within
 text is an undefined parameter

---
 scheme/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index ea371d4..956af5e 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -64,7 +64,10 @@ class Interpolator(object):
             return subject
 
         template = environment.from_string(subject)
-        return template.render(parameters)
+        try:
+            return template.render(parameters)
+        except jinja2.UndefinedError:
+            raise UndefinedParameterError()
 
 def interpolate_parameters(subject, parameters, simple=False, interpolator=None):
     """Interpolates ``subject``, a template string, using ``parameters``. If ``subject`` is empty,
-- 
2.43.0


From a3f148e16394c3ccca90f6c924bdc74a49ddfdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 059/104] fix: a union must interpolate a value some of its
 fields cannot take

---
 scheme/fields/decimal.py     |  7 ++++++-
 scheme/fields/enumeration.py |  4 +++-
 scheme/fields/float.py       | 16 ++++++++++++----
 scheme/fields/integer.py     | 16 ++++++++++++----
 scheme/fields/text.py        |  2 ++
 scheme/fields/token.py       |  2 ++
 scheme/fields/uuid.py        |  2 ++
 7 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index 246dbee..8dafb2a 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -69,8 +69,13 @@ class Decimal(Field):
             return None
         elif isinstance(subject, decimal):
             return subject
-        else:
+        elif not isinstance(subject, string):
+            raise CannotInterpolateError('interpolation candidate must be a decimal value')
+
+        try:
             return decimal(interpolate_parameters(subject, parameters, True, interpolator))
+        except (InvalidOperation, TypeError, ValueError):
+            raise CannotInterpolateError('interpolation candidate must be a decimal value')
 
     def _serialize_value(self, value):
         return str(value)
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 35427cd..0ac6f1d 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -47,7 +47,9 @@ class Enumeration(Field):
         if subject is None or subject in self.enumeration:
             return subject
 
-        value = interpolate_parameters(subject, parameters, True, interpolator)
+        value = subject
+        if isinstance(subject, string):
+            value = interpolate_parameters(subject, parameters, True, interpolator)
         if value in self.enumeration:
             return value
         else:
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index 2d7d075..95bb20d 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import numbers
+from scheme.util import numbers, string
 
 __all__ = ('Float',)
 
@@ -38,10 +38,18 @@ class Float(Field):
     def interpolate(self, subject, parameters, interpolator=None):
         if subject is None:
             return None
-        elif isinstance(subject, numbers):
-            return float(subject)
+
+        if isinstance(subject, string):
+            candidate = interpolate_parameters(subject, parameters, True, interpolator)
+        elif isinstance(subject, numbers) and not isinstance(subject, bool):
+            candidate = subject
         else:
-            return float(interpolate_parameters(subject, parameters, True, interpolator))
+            raise CannotInterpolateError('interpolation candidate must be a float value')
+
+        try:
+            return float(candidate)
+        except (OverflowError, TypeError, ValueError):
+            raise CannotInterpolateError('interpolation candidate must be a float value')
 
     def _unserialize_value(self, value, ancestry):
         try:
diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index bbbdf08..854c3f0 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import integers, numbers
+from scheme.util import integers, numbers, string
 
 __all__ = ('Integer',)
 
@@ -38,10 +38,18 @@ class Integer(Field):
     def interpolate(self, subject, parameters, interpolator=None):
         if subject is None:
             return None
-        elif isinstance(subject, numbers):
-            return int(subject)
+
+        if isinstance(subject, string):
+            candidate = interpolate_parameters(subject, parameters, True, interpolator)
+        elif isinstance(subject, numbers) and not isinstance(subject, bool) and subject % 1 == 0:
+            candidate = subject
         else:
-            return int(interpolate_parameters(subject, parameters, True, interpolator))
+            raise CannotInterpolateError('interpolation candidate must be an integer value')
+
+        try:
+            return int(candidate)
+        except (OverflowError, TypeError, ValueError):
+            raise CannotInterpolateError('interpolation candidate must be an integer value')
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
diff --git a/scheme/fields/text.py b/scheme/fields/text.py
index d15fb99..b343d9e 100644
--- a/scheme/fields/text.py
+++ b/scheme/fields/text.py
@@ -59,6 +59,8 @@ class Text(Field):
     def interpolate(self, subject, parameters, interpolator=None):
         if subject is None:
             return None
+        elif not isinstance(subject, string):
+            raise CannotInterpolateError('interpolation candidate must be a string value')
         else:
             return interpolate_parameters(subject, parameters, interpolator=interpolator)
 
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index d13d745..ecbb717 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -31,6 +31,8 @@ class Token(Field):
     def interpolate(self, subject, parameters, interpolator=None):
         if subject is None:
             return subject
+        elif not isinstance(subject, string):
+            raise CannotInterpolateError('interpolation candidate must be a string value')
         else:
             return interpolate_parameters(subject, parameters, interpolator=interpolator)
 
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index fd6feaf..a084ffb 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -23,6 +23,8 @@ class UUID(Field):
     def interpolate(self, subject, parameters, interpolator=None):
         if subject is None:
             return subject
+        elif not isinstance(subject, string):
+            raise CannotInterpolateError('interpolation candidate must be a string value')
         else:
             return interpolate_parameters(subject, parameters, True, interpolator)
 
-- 
2.43.0


From 801d985c529fea57494ab82d09ca8fc5ff96d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 060/104] fix: a reference to a null parameter must be null

---
 scheme/fields/decimal.py     | 6 +++++-
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/float.py       | 2 ++
 scheme/fields/integer.py     | 2 ++
 scheme/fields/map.py         | 2 ++
 scheme/fields/sequence.py    | 2 ++
 scheme/fields/structure.py   | 2 ++
 scheme/fields/tuple.py       | 2 ++
 scheme/fields/union.py       | 2 ++
 9 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index 8dafb2a..6a040e6 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -72,8 +72,12 @@ class Decimal(Field):
         elif not isinstance(subject, string):
             raise CannotInterpolateError('interpolation candidate must be a decimal value')
 
+        candidate = interpolate_parameters(subject, parameters, True, interpolator)
+        if candidate is None:
+            return None
+
         try:
-            return decimal(interpolate_parameters(subject, parameters, True, interpolator))
+            return decimal(candidate)
         except (InvalidOperation, TypeError, ValueError):
             raise CannotInterpolateError('interpolation candidate must be a decimal value')
 
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 0ac6f1d..d38112f 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -50,7 +50,7 @@ class Enumeration(Field):
         value = subject
         if isinstance(subject, string):
             value = interpolate_parameters(subject, parameters, True, interpolator)
-        if value in self.enumeration:
+        if value is None or value in self.enumeration:
             return value
         else:
             raise CannotInterpolateError('subject must be a value in this enumeration')
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index 95bb20d..284108c 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -41,6 +41,8 @@ class Float(Field):
 
         if isinstance(subject, string):
             candidate = interpolate_parameters(subject, parameters, True, interpolator)
+            if candidate is None:
+                return None
         elif isinstance(subject, numbers) and not isinstance(subject, bool):
             candidate = subject
         else:
diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index 854c3f0..65f8915 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -41,6 +41,8 @@ class Integer(Field):
 
         if isinstance(subject, string):
             candidate = interpolate_parameters(subject, parameters, True, interpolator)
+            if candidate is None:
+                return None
         elif isinstance(subject, numbers) and not isinstance(subject, bool) and subject % 1 == 0:
             candidate = subject
         else:
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 193333d..994ae5e 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -156,6 +156,8 @@ class Map(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 8432512..76e635a 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -145,6 +145,8 @@ class Sequence(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple value')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 44a0787..4a03190 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -319,6 +319,8 @@ class Structure(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index a12a985..671ad9b 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -145,6 +145,8 @@ class Tuple(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index ecb5cb1..94b0315 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -82,6 +82,8 @@ class Union(Field):
             return None
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         for field in self.fields:
             try:
-- 
2.43.0


From a86b5a1778544d55dc3b87b863a64cc5a3a4f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 061/104] fix: interpolation must return native values as they
 are

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 57cbe3b..d0475f4 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -414,7 +414,7 @@ class Field(object):
         ``parameters``."""
 
         equivalent = self.equivalent
-        if subject is None or (equivalent and isinstance(subject, equivalent)):
+        if not isinstance(subject, string) or (equivalent and isinstance(subject, equivalent)):
             return subject
         else:
             return interpolate_parameters(subject, parameters, True, interpolator)
-- 
2.43.0


From 7e89b231a4bbeb68793833b5b9b180deaff1299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 062/104] fix: a polymorphic identity may be a reference when
 interpolating

---
 scheme/fields/structure.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 4a03190..2edf8a5 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -325,7 +325,16 @@ class Structure(Field):
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
 
-        definition = self._get_definition(subject)
+        definition = self.structure
+        polymorphic_on = self.polymorphic_on
+        if polymorphic_on:
+            identity = polymorphic_on.interpolate(subject.get(polymorphic_on.name), parameters,
+                interpolator)
+            definition = self.structure.get(identity)
+            if definition is None:
+                raise CannotInterpolateError('interpolation candidate must have a recognized'
+                    ' polymorphic identity')
+
         interpolation = {}
 
         for name, field in definition.items():
-- 
2.43.0


From d13ccbe7408db18823320dd426db1736121f6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 063/104] fix: interpolation must refuse native values of
 another type

---
 scheme/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index d0475f4..35d9bfb 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -414,10 +414,14 @@ class Field(object):
         ``parameters``."""
 
         equivalent = self.equivalent
-        if not isinstance(subject, string) or (equivalent and isinstance(subject, equivalent)):
+        if subject is None or (equivalent and isinstance(subject, equivalent)):
             return subject
-        else:
+        elif isinstance(subject, string):
             return interpolate_parameters(subject, parameters, True, interpolator)
+        elif equivalent:
+            raise CannotInterpolateError('interpolation candidate must be a %s value' % self.type)
+        else:
+            return subject
 
     def process(self, value, phase=INBOUND, serialized=False, ancestry=None):
         """Processes ``value`` as a candidate value for this field, serializing or unserializing
-- 
2.43.0


From 368430aea7103963184c545631d600dadac6f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 064/104] fix: a failing extractor of a union must be an
 extraction error

---
 scheme/fields/union.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 94b0315..fd5d30f 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -59,7 +59,10 @@ class Union(Field):
         if subject is None:
             return None
         if self.extractor:
-            subject = self.extractor(self, subject)
+            try:
+                subject = self.extractor(self, subject)
+            except Exception:
+                raise CannotExtractError('extractor raised exception')
 
         for field in self.fields:
             try:
-- 
2.43.0


From 3e670cf84597086ec12f7a7b4717397a52a1c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 065/104] fix: extracting a tuple from too few values must be
 an extraction error

---
 scheme/fields/tuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 671ad9b..fa8aa70 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -81,6 +81,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
+        if len(subject) < len(self.values):
+            raise CannotExtractError('extraction candidate has too few values')
 
         extraction = []
         for i, definition in enumerate(self.values):
-- 
2.43.0


From 6247b74ba7fd75c9e0127c67640ae838b11d9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 066/104] fix: extracting without a recognized polymorphic
 identity must be an extraction error

---
 scheme/fields/structure.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 2edf8a5..d1235b6 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -208,7 +208,15 @@ class Structure(Field):
         else:
             raise CannotExtractError('extraction candidate must be a dict value')
 
-        definition = self._get_definition(subject, getter)
+        definition = self.structure
+        if self.polymorphic_on:
+            try:
+                identity = getter(subject, self.polymorphic_on.name)
+                definition = self.structure[self.polymorphic_on.extract(identity, strict)]
+            except (AttributeError, KeyError, TypeError):
+                raise CannotExtractError('extraction candidate must have a recognized'
+                    ' polymorphic identity')
+
         extraction = {}
 
         for name, field in definition.items():
-- 
2.43.0


From 0c5923d3680e9dcc9126672fe7731ce3167fcb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 067/104] fix: an element may have a polymorphic identity such
 as 0

---
 scheme/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index 15a8893..1b22c64 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -8,7 +8,7 @@ __all__ = ('Element',)
 class ElementMeta(type):
     def __new__(metatype, name, bases, namespace):
         element = type.__new__(metatype, name, bases, namespace)
-        if element.polymorphic_identity:
+        if element.polymorphic_identity is not None:
             base = bases[0]
             if getattr(base, '__polymorphic_on__', None):
                 base.__polymorphic_impl__[element.polymorphic_identity] = element
-- 
2.43.0


From e570d92dd427048a5ed15b3fd0f535eff0570be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 068/104] fix: inheriting from an element must not take over
 its schema

---
 scheme/element.py | 6 +++++-
 scheme/field.py   | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index 1b22c64..bdcd84c 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,4 +1,4 @@
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from scheme.fields import *
 from scheme.util import with_metaclass
@@ -23,6 +23,10 @@ class ElementMeta(type):
         element.__polymorphic_on__ = None
         schema = element.schema
 
+        # an inherited schema still belongs to the class which declared it
+        if 'schema' not in namespace and isinstance(schema, Field):
+            schema = element.schema = copy(schema)
+
         if isinstance(schema, Structure):
             element.__attrs__ = schema.generate_defaults(sparse=False)
             if schema.polymorphic:
diff --git a/scheme/field.py b/scheme/field.py
index 35d9bfb..3721600 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -235,6 +235,11 @@ class Field(object):
             aspects.append('title=%r' % self.title)
         return '%s(%s)' % (type(self).__name__, ', '.join(aspects))
 
+    def __copy__(self):
+        copy = object.__new__(type(self))
+        copy.__dict__.update(self.__dict__)
+        return copy
+
     def __deepcopy__(self, memo):
         return self.clone()
 
-- 
2.43.0


From fb1474f50c50f6d7ad54b7ff26b7fd1e60f6c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 069/104] fix: the field of a value element may be renamed by a
 structure

---
 scheme/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/element.py b/scheme/element.py
index bdcd84c..be560dd 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -99,7 +99,7 @@ class Element(object):
         if isinstance(field, Structure):
             return subject.__dict__
         else:
-            return getattr(subject, field.name)
+            return getattr(subject, cls.schema.name)
 
     @classmethod
     def instantiate(cls, field, value, key=None):
@@ -114,7 +114,7 @@ class Element(object):
             if instance is None:
                 instance = cls(**value)
         else:
-            instance = cls(**{field.name: value})
+            instance = cls(**{cls.schema.name: value})
 
         if key is not None and cls.key_attr:
             setattr(instance, cls.key_attr, key)
-- 
2.43.0


From 18e00f3bdf75e8be811ae29d219f5939e8b3d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 070/104] fix: the schema of an element may hold a placeholder
 defined later

---
 scheme/element.py          | 12 ++++++------
 scheme/fields/structure.py | 10 +++++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/scheme/element.py b/scheme/element.py
index be560dd..5d2bc89 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -28,14 +28,11 @@ class ElementMeta(type):
             schema = element.schema = copy(schema)
 
         if isinstance(schema, Structure):
-            element.__attrs__ = schema.generate_defaults(sparse=False)
             if schema.polymorphic:
                 element.__polymorphic_on__ = schema.polymorphic_on.name
                 element.__polymorphic_impl__ = {}
         elif isinstance(schema, Field):
-            if schema.name:
-                element.__attrs__ = {schema.name: schema.default}
-            else:
+            if not schema.name:
                 raise ValueError("class attribute 'schema' must have a valid 'name' attribute")
         else:
             raise TypeError("class attribute 'schema' must be either None or a Field instance")
@@ -76,11 +73,14 @@ class Element(object):
     schema = None
 
     def __init__(self, **params):
+        schema = self.__class__.schema
         polymorphic_on = self.__polymorphic_on__
         if polymorphic_on:
-            defaults = self.__attrs__[params[polymorphic_on]]
+            defaults = schema.generate_defaults(sparse=False)[params[polymorphic_on]]
+        elif isinstance(schema, Structure):
+            defaults = schema.generate_defaults(sparse=False)
         else:
-            defaults = self.__attrs__
+            defaults = {schema.name: schema.default}
 
         for attr, default in defaults.items():
             setattr(self, attr, params[attr] if attr in params else deepcopy(default))
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d1235b6..8c4cd6a 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -570,9 +570,13 @@ class Structure(Field):
     def _generate_default_values(self, structure, sparse=False):
         default = {}
         for name, field in structure.items():
-            value = field.default
-            if value is None:
-                value = field.constant
+            if isinstance(field, Undefined):
+                value = None
+            else:
+                value = field.default
+                if value is None:
+                    value = field.constant
+
             if not sparse or value is not None:
                 default[name] = deepcopy(value)
 
-- 
2.43.0


From 80e1235a9e2e5f4a1762eda0616a0d3128b8d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 071/104] fix: a structure may be defined as a key of itself

---
 scheme/fields/structure.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 8c4cd6a..276aa42 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -1,4 +1,4 @@
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from scheme.exceptions import *
 from scheme.field import *
@@ -535,10 +535,15 @@ class Structure(Field):
 
     def _define_undefined_field(self, field, name):
         identity, name = name
+        if not field.name:
+            # a shallow copy, so that the field may contain this very structure
+            field = copy(field)
+            field.name = name
+
         if self.polymorphic_on:
-            self.structure[identity][name] = field.clone(name=name)
+            self.structure[identity][name] = field
         else:
-            self.structure[name] = field.clone(name=name)
+            self.structure[name] = field
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
-- 
2.43.0


From 0274bc3e8ef6739fc7e5b19c618a4150197f4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 072/104] fix: the default of a nested element must be an
 element

---
 scheme/element.py      | 15 +++++++++++++--
 scheme/fields/union.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/scheme/element.py b/scheme/element.py
index 5d2bc89..2f979e3 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -77,13 +77,24 @@ class Element(object):
         polymorphic_on = self.__polymorphic_on__
         if polymorphic_on:
             defaults = schema.generate_defaults(sparse=False)[params[polymorphic_on]]
+            definition = schema.structure[params[polymorphic_on]]
         elif isinstance(schema, Structure):
             defaults = schema.generate_defaults(sparse=False)
+            definition = schema.structure
         else:
-            defaults = {schema.name: schema.default}
+            defaults, definition = {schema.name: schema.default}, {}
 
         for attr, default in defaults.items():
-            setattr(self, attr, params[attr] if attr in params else deepcopy(default))
+            if attr in params:
+                value = params[attr]
+            else:
+                value = deepcopy(default)
+                if value is not None and attr in definition:
+                    try:
+                        value = definition[attr].instantiate(value, attr)
+                    except NotImplementedError:
+                        pass
+            setattr(self, attr, value)
 
     def __repr__(self):
         aspects = []
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index fd5d30f..8c8e275 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -77,7 +77,7 @@ class Union(Field):
         else:
             raise CannotExtractError('union extraction failed')
 
-    def instantiate(self, value):
+    def instantiate(self, value, key=None):
         raise NotImplementedError()
 
     def interpolate(self, subject, parameters, interpolator=None):
-- 
2.43.0


From 7895d7413594a8377ac50bcb1ef4249e5631e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 073/104] fix: a copy made before a placeholder is defined must
 be defined as well

---
 scheme/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 3721600..a40e1df 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -648,6 +648,10 @@ class Undefined(object):
         self.callbacks = []
         self.field = field
 
+    def __deepcopy__(self, memo):
+        # a copy of a field waiting for this placeholder waits for it as well
+        return self
+
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
-- 
2.43.0


From 0e5284a2b017c9954ff083a373b4a72954919f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 074/104] fix: an absent key does not reach an undefined
 placeholder

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 276aa42..5065483 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -439,7 +439,7 @@ class Structure(Field):
             if name in names:
                 names.remove(name)
                 field_value = value[name]
-            elif partial:
+            elif partial or isinstance(field, Undefined):
                 continue
             elif phase == INBOUND and field.default is not None:
                 field_value = deepcopy(field.default)
-- 
2.43.0


From 0e534f4414dc6d51d35535b4356178b1e37b7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 075/104] fix: an extractor of a container may return null

---
 scheme/fields/map.py       | 2 ++
 scheme/fields/sequence.py  | 2 ++
 scheme/fields/structure.py | 2 ++
 scheme/fields/tuple.py     | 2 ++
 scheme/fields/union.py     | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 994ae5e..e92d130 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -100,6 +100,8 @@ class Map(Field):
                 subject = self.extractor(self, subject)
             except Exception:
                 raise CannotExtractError('extractor raised exception')
+            if subject is None:
+                return None
 
         if not isinstance(subject, dict):
             raise CannotExtractError('extraction candidate must be a dict value')
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 76e635a..77f2736 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -91,6 +91,8 @@ class Sequence(Field):
                 subject = self.extractor(self, subject)
             except Exception:
                 raise CannotExtractError('extractor failed to return list or tuple value')
+            if subject is None:
+                return None
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5065483..76f3410 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -200,6 +200,8 @@ class Structure(Field):
                 subject = self.extractor(self, subject)
             except Exception:
                 raise CannotExtractError('extractor raised exception')
+            if subject is None:
+                return None
 
         if isinstance(subject, dict):
             getter = getitem
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index fa8aa70..5d57901 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -78,6 +78,8 @@ class Tuple(Field):
                 subject = self.extractor(self, subject)
             except Exception:
                 raise CannotExtractError("extractor raised exception")
+            if subject is None:
+                return None
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8c8e275..bd84749 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -63,6 +63,8 @@ class Union(Field):
                 subject = self.extractor(self, subject)
             except Exception:
                 raise CannotExtractError('extractor raised exception')
+            if subject is None:
+                return None
 
         for field in self.fields:
             try:
-- 
2.43.0


From e7035a4b630b371d74cdea640cb382163b27ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 076/104] fix: a structure must not rename the field of a
 shared placeholder

---
 scheme/fields/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 76f3410..eb981bc 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -609,6 +609,9 @@ class Structure(Field):
             if isinstance(field, Undefined):
                 if field.field:
                     field = field.field
+                    if not field.name:
+                        # other users of the placeholder may know it by another name
+                        field = copy(field)
                     structure[name] = field
                 else:
                     field.register(self._define_undefined_field, (identity, name))
-- 
2.43.0


From df53c665e6ffeb5520a93cff230967bd9e409e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 077/104] fix: a removed or replaced key must not return when
 its placeholder is defined

---
 scheme/fields/structure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index eb981bc..b99d582 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -536,16 +536,17 @@ class Structure(Field):
             return self
 
     def _define_undefined_field(self, field, name):
-        identity, name = name
+        identity, name, placeholder = occupant = name
+        definition = self.structure.get(identity, {}) if self.polymorphic_on else self.structure
+        if definition.get(name) is not placeholder:
+            return
+
         if not field.name:
             # a shallow copy, so that the field may contain this very structure
             field = copy(field)
             field.name = name
 
-        if self.polymorphic_on:
-            self.structure[identity][name] = field
-        else:
-            self.structure[name] = field
+        definition[name] = occupant[2] = field
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
@@ -614,7 +615,7 @@ class Structure(Field):
                         field = copy(field)
                     structure[name] = field
                 else:
-                    field.register(self._define_undefined_field, (identity, name))
+                    field.register(self._define_undefined_field, [identity, name, field])
                     continue
 
             if not isinstance(field, Field):
-- 
2.43.0


From 8207555dff5a5be8843151964ec6a25163165376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 078/104] fix: a named copy of a field waiting for a
 placeholder is given its definition too

---
 scheme/field.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index a40e1df..f36021d 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -238,6 +238,10 @@ class Field(object):
     def __copy__(self):
         copy = object.__new__(type(self))
         copy.__dict__.update(self.__dict__)
+        for value in self.__dict__.values():
+            for candidate in (value if isinstance(value, tuple) else (value,)):
+                if isinstance(candidate, Undefined):
+                    candidate.share(self, copy)
         return copy
 
     def __deepcopy__(self, memo):
@@ -659,3 +663,10 @@ class Undefined(object):
 
     def register(self, callback, *args):
         self.callbacks.append((callback, args))
+
+    def share(self, field, copy):
+        """Lets ``copy``, a shallow copy of ``field``, wait for this placeholder as ``field`` does."""
+
+        for callback, args in list(self.callbacks):
+            if getattr(callback, '__self__', None) is field:
+                self.register(getattr(copy, callback.__name__), *args)
-- 
2.43.0


From 8c81c26dd79c071c984bd68259a805d103550e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 079/104] fix: local datetimes must follow the offsets the
 local zone had at the time

---
 scheme/timezone.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 000e173..f4ab1db 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -1,3 +1,4 @@
+from calendar import timegm
 from datetime import datetime, timedelta, tzinfo
 import time
 
@@ -57,19 +58,29 @@ class LocalTimezone(tzinfo):
         else:
             return ZERO
 
+    def fromutc(self, value):
+        return value + self._offset(timegm((value.year, value.month, value.day, value.hour,
+            value.minute, value.second)))
+
     def tzname(self, value):
         return time.tzname[self._isdst(value)]
 
     def utcoffset(self, value):
-        if self._isdst(value):
-            return DST_OFFSET
-        else:
-            return STD_OFFSET
+        return self._offset(self._timestamp(value))
 
     def _isdst(self, v):
-        timestamp = time.mktime((v.year, v.month, v.day, v.hour, v.minute,
-            v.second, v.weekday(), 0, -1))
-        return (time.localtime(timestamp).tm_isdst > 0)
+        return (time.localtime(self._timestamp(v)).tm_isdst > 0)
+
+    def _offset(self, timestamp):
+        # the offset of the zone, and not only whether it's on summer time, changes over the years
+        try:
+            return timedelta(seconds=timegm(time.localtime(timestamp)) - timestamp)
+        except ValueError:
+            raise OverflowError('local time out of range')
+
+    def _timestamp(self, v):
+        return int(time.mktime((v.year, v.month, v.day, v.hour, v.minute,
+            v.second, v.weekday(), 0, -1)))
 
 LOCAL = LocalTimezone()
 UTC = FixedOffsetTimezone(0, 'UTC')
-- 
2.43.0


From c6d31bc92180a7c040c3b1a938ebfe9b4e13be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 080/104] fix: a surrogate of a versioned implementation must
 have a version

---
 scheme/surrogate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index 38c57f2..d974351 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -31,6 +31,9 @@ class surrogate(dict):
 
     def __init__(self, value, schema=None, version=None):
         super(surrogate, self).__init__(value)
+        if version is None and schema is None and self.schemas:
+            version = len(self.schemas)
+
         self.schema = schema
         self.version = version
 
-- 
2.43.0


From 58c622527286df6a78f8f1c66a00f4d315498d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 081/104] fix: a key order only has to name the preferred keys,
 so that edited or filtered ordered structures still process

---
 scheme/fields/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b99d582..9a47da2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -428,10 +428,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if polymorphic_on:
-                key_order = [name for name in self.key_order if name in definition]
-            else:
-                key_order = self.key_order
+            key_order = [name for name in self.key_order if name in definition]
+            key_order.extend(name for name in definition if name not in self.key_order)
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From 05cbc8401d43dc9c389f8d5cb538ae658dd47046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:36 +0000
Subject: [PATCH 082/104] fix: a reference to a null parameter in place of a
 surrogate must interpolate to null

---
 scheme/fields/surrogate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 30c1e71..16affc5 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -38,6 +38,8 @@ class Surrogate(Field):
             return subject
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return subject
 
         if isinstance(subject, surrogate):
             return subject
-- 
2.43.0


From 790d9a0c456416a64d9e921fd0de6a0fa869e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 083/104] fix: yaml keys beginning with unicode blanks must
 survive within sequences

---
 scheme/formats/yaml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 533a015..3764db0 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -127,7 +127,7 @@ class Yaml(Format):
         for v in value:
             content = cls._serialize_value(v, level + 1)
             if isinstance(content, list):
-                lines.append('%s %s' % (prefix, content[0].lstrip()))
+                lines.append('%s %s' % (prefix, content[0].lstrip(' ')))
                 lines.extend(content[1:])
             else:
                 lines.append('%s %s' % (prefix, content))
@@ -149,13 +149,13 @@ class Yaml(Format):
             key = '%s%s:' % (cls.indent * level, cls._serialize_scalar(k)
                 if isinstance(k, string) else k)
             if len(key) > cls.key_length:
-                lines.append('%s? %s' % (cls.indent * level, key.lstrip()[:-1]))
+                lines.append('%s? %s' % (cls.indent * level, key.lstrip(' ')[:-1]))
                 key = '%s:' % (cls.indent * level)
 
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
-                    lines.append('%s %s' % (key, content[0].lstrip()))
+                    lines.append('%s %s' % (key, content[0].lstrip(' ')))
                     lines.extend(content[1:])
                 else:
                     lines.append('%s %s' % (key, content))
@@ -201,7 +201,7 @@ class Yaml(Format):
 
         lines.append(indent + line)
         if level == 0:
-            lines[0] = lines[0].lstrip()
+            lines[0] = lines[0].lstrip(' ')
         return lines
 
     @classmethod
-- 
2.43.0


From b4492a4bfc249a05d59caec5f7e9081c2f75eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 084/104] fix: xml and csv must treat instances of subclasses
 of fields as such

---
 scheme/formats/csv.py |  8 ++++----
 scheme/formats/xml.py | 27 ++++++++++++++-------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 9846262..213bbf4 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -8,7 +8,7 @@ try:
 except ImportError:
     from io import StringIO
 
-from scheme.fields import Sequence, Structure
+from scheme.fields import Boolean, Enumeration, Sequence, Structure
 from scheme.format import Format
 from scheme.util import string, traverse_to_key
 
@@ -71,7 +71,7 @@ class Csv(Format):
                 candidate = item.get(column)
                 if candidate is None:
                     row.append('')
-                elif field.type == 'boolean':
+                elif isinstance(field, Boolean):
                     if candidate:
                         row.append('true')
                     else:
@@ -99,13 +99,13 @@ class Csv(Format):
         for i, column in enumerate(columns):
             field = structure.get(column)
             if field and not field.structural:
-                if field.type == 'boolean':
+                if isinstance(field, Boolean):
                     cells.append((i, column, lambda v: (v == 'true')))
                 elif field.type == 'float':
                     cells.append((i, column, float))
                 elif field.type == 'integer':
                     cells.append((i, column, int))
-                elif field.type == 'enumeration':
+                elif isinstance(field, Enumeration):
                     cells.append((i, column, field.parse))
                 else:
                     cells.append((i, column, None))
diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 0c7d4e4..a89b096 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -5,6 +5,7 @@ import xml.etree.cElementTree as etree
 
 from scheme.exceptions import ValidationError
 from scheme.field import Field, INBOUND
+from scheme.fields import Boolean, Enumeration, Map, Sequence, Structure, Tuple, Union
 from scheme.format import Format
 
 __all__ = ('Xml',)
@@ -55,34 +56,34 @@ class Xml(Format):
     def _serialize_content(cls, content, element, field):
         if content is None:
             element.set('null', 'true')
-        elif field.type == 'boolean':
+        elif isinstance(field, Boolean):
             if content:
                 element.text = 'true'
             else:
                 element.text = 'false'
-        elif field.type == 'structure':
+        elif isinstance(field, Structure):
             if content:
                 structure = cls._get_structure(field, content)
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
                     cls._serialize_content(value, subelement, structure[key])
-        elif field.type == 'map':
+        elif isinstance(field, Map):
             if content:
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
                     cls._serialize_content(value, subelement, field.value)
-        elif field.type == 'sequence':
+        elif isinstance(field, Sequence):
             if content:
                 title = field.item.name or 'item'
                 for value in content:
                     subelement = etree.SubElement(element, title)
                     cls._serialize_content(value, subelement, field.item)
-        elif field.type == 'tuple':
+        elif isinstance(field, Tuple):
             if content:
                 for subfield, value in zip(field.values, content):
                     subelement = etree.SubElement(element, subfield.name or 'value')
                     cls._serialize_content(value, subelement, subfield)
-        elif field.type == 'union':
+        elif isinstance(field, Union):
             raise NotImplementedError()
         else:
             element.text = str(content)
@@ -94,24 +95,24 @@ class Xml(Format):
         attr = element.tag
         if element.get('null', False):
             return attr, None
-        elif field.type == 'boolean':
+        elif isinstance(field, Boolean):
             return attr, (element.text.lower() == 'true')
         elif field.type == 'float':
             return attr, float(element.text)
         elif field.type == 'integer':
             return attr, int(element.text)
-        elif field.type == 'enumeration':
+        elif isinstance(field, Enumeration):
             return attr, field.parse(element.text or '')
-        elif field.type == 'map':
+        elif isinstance(field, Map):
             return attr, dict(cls._unserialize_element(v, field.value) for v in element)
-        elif field.type == 'sequence':
+        elif isinstance(field, Sequence):
             return attr, [cls._unserialize_element(v, field.item)[1] for v in element]
-        elif field.type == 'structure':
+        elif isinstance(field, Structure):
             return attr, cls._unserialize_structure(element, field)
-        elif field.type == 'tuple':
+        elif isinstance(field, Tuple):
             return attr, tuple(cls._unserialize_element(v, field.values[i])[1]
                 for i, v in enumerate(element))
-        elif field.type == 'union':
+        elif isinstance(field, Union):
             raise NotImplementedError()
         else:
             return attr, element.text or ''
-- 
2.43.0


From e9d1ef70780f6b0d376df2f9abcb29a213d65c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 085/104] fix: redefining an enumeration must keep its values
 in order and accept any kind of value

---
 scheme/fields/enumeration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index d38112f..a23eedf 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -74,7 +74,13 @@ class Enumeration(Field):
         else:
             raise ValueError("argument 'strategy' must be either 'append' or 'replace'")
 
-        self.enumeration = list(set(baseline + enumeration))
+        # the values stay in order, whether or not they're hashable
+        redefined = list(baseline)
+        for value in enumeration:
+            if value not in redefined:
+                redefined.append(value)
+
+        self.enumeration = redefined
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
     def _invalid_params(self):
-- 
2.43.0


From 7a85505edffc61e09736224057b9a07f15e1d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 086/104] fix: a value which is not a surrogate must not break
 the interpolation of unions

---
 scheme/fields/surrogate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 16affc5..d675285 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -44,9 +44,14 @@ class Surrogate(Field):
         if isinstance(subject, surrogate):
             return subject
         elif isinstance(subject, dict):
-            return surrogate.interpolate(subject, parameters, interpolator)
+            try:
+                return surrogate.interpolate(subject, parameters, interpolator)
+            except (CannotInterpolateError, UndefinedFieldError, UndefinedParameterError):
+                raise
+            except Exception:
+                raise CannotInterpolateError('interpolation candidate must be a valid surrogate')
         else:
-            raise ValueError(subject)
+            raise CannotInterpolateError('interpolation candidate must be a surrogate or dict value')
 
     def _serialize_value(self, value):
         return value.serialize()
-- 
2.43.0


From 80f716ad77f965ba4da423d9ee9e8296588d40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 087/104] fix: a decimal NaN must be refused as the bound of a
 decimal field

---
 scheme/fields/decimal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index 6a040e6..a875770 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -30,7 +30,7 @@ class Decimal(Field):
             except InvalidOperation:
                 raise TypeError("argument 'minimum' must be either None, a decimal.Decimal value,"
                     " or a string representing a valid decimal value")
-        if not (minimum is None or isinstance(minimum, decimal)):
+        if not (minimum is None or (isinstance(minimum, decimal) and not minimum.is_nan())):
             raise TypeError("argument 'minimum' must be either None, a decimal.Decimal value,"
                 " or a string representing a valid decimal value")
 
@@ -40,7 +40,7 @@ class Decimal(Field):
             except InvalidOperation:
                 raise TypeError("argument 'maximum' must be either None, a decimal.Decimal value,"
                     " or a string representing a valid decimal value")
-        if not (maximum is None or isinstance(maximum, decimal)):
+        if not (maximum is None or (isinstance(maximum, decimal) and not maximum.is_nan())):
             raise TypeError("argument 'maximum' must be either None, a decimal.Decimal value,"
                 " or a string representing a valid decimal value")
 
-- 
2.43.0


From 90365da12f4530a98d94a4f7c869aa8e3447d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 088/104] fix: a text pattern which is not a regular expression
 must be refused

---
 scheme/fields/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/fields/text.py b/scheme/fields/text.py
index b343d9e..f90baa9 100644
--- a/scheme/fields/text.py
+++ b/scheme/fields/text.py
@@ -35,6 +35,10 @@ class Text(Field):
         if isinstance(pattern, string):
             pattern = re.compile(pattern)
 
+        if not (pattern is None or (callable(getattr(pattern, 'match', None)) and
+                isinstance(getattr(pattern, 'pattern', None), string))):
+            raise TypeError("argument 'pattern' must be either None, a string, or a compiled"
+                " regular expression")
         if not (min_length is None or (isinstance(min_length, int) and min_length >= 0)):
             raise TypeError("argument 'min_length' must be either None or an integer >= 0")
         if not (max_length is None or (isinstance(max_length, int) and max_length >= 0)):
-- 
2.43.0


From 5ed57c0ee26ef4efb936d554a114990c67050d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 089/104] fix: malformed variants next to common fields must be
 refused with TypeError

---
 scheme/fields/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 9a47da2..1529a30 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -76,6 +76,9 @@ class Structure(Field):
                     structure[identity] = candidate.copy()
             if '*' in structure:
                 common = structure.pop('*')
+                for candidate in [common] + list(structure.values()):
+                    if not isinstance(candidate, dict):
+                        raise TypeError("argument 'structure' must be a dict instance")
                 for value in structure.values():
                     value.update(common)
             if isinstance(polymorphic_on, string):
-- 
2.43.0


From c9617e4ee4700679a565f1cc3f435f2f8e8d821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 090/104] fix: an enumeration given as a set, dict or iterator
 must be usable

---
 scheme/fields/enumeration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index a23eedf..1cd6976 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -19,6 +19,8 @@ class Enumeration(Field):
         super(Enumeration, self).__init__(**params)
         if isinstance(enumeration, string):
             enumeration = enumeration.split(' ')
+        elif not isinstance(enumeration, (list, tuple)):
+            enumeration = list(enumeration)
 
         for value in enumeration:
             if not isinstance(value, NATIVELY_SERIALIZABLE):
-- 
2.43.0


From 07f23a52ba2f53cf139615782fe49354d3c89899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 091/104] fix: a number of token segments which is not a number
 must be refused

---
 scheme/fields/token.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index ecbb717..ede4c36 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -20,6 +20,9 @@ class Token(Field):
 
     def __init__(self, segments=None, **params):
         super(Token, self).__init__(**params)
+        if not (segments is None or (isinstance(segments, int) and segments >= 0)):
+            raise TypeError("argument 'segments' must be either None or an integer >= 0")
+
         self.segments = segments
 
     def __repr__(self):
-- 
2.43.0


From 9e602c459e8390b1e31874bbb5585195c3ce5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 092/104] fix: fixed offset zones must be named and shown by
 their offset

---
 scheme/timezone.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index f4ab1db..021d69a 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -27,7 +27,8 @@ class FixedOffsetTimezone(tzinfo):
     def __repr__(self):
         if self.name:
             return self.name
-        return 'FixedOffsetTimezone(%r)' % self.offset.seconds
+        seconds = self.offset.seconds + (self.offset.days * 86400)
+        return 'FixedOffsetTimezone(%r)' % (seconds // 60)
 
     def dst(self, value):
         return ZERO
@@ -36,14 +37,14 @@ class FixedOffsetTimezone(tzinfo):
         if self.name is not None:
             return self.name
 
+        # negative offsets aren't rounded down to the hour
         seconds = self.offset.seconds + (self.offset.days * 86400)
-        hours, seconds = divmod(seconds, 3600)
+        hours, minutes = divmod(abs(seconds) // 60, 60)
 
-        minutes = seconds / 60
+        name = '%s%02d' % ('-' if seconds < 0 else '+', hours)
         if minutes:
-            return '%+03d:%d' % (hours, minutes)
-        else:
-            return '%+03d' % hours
+            name += ':%02d' % minutes
+        return name
 
     def utcoffset(self, value=None):
         return self.offset
-- 
2.43.0


From 70d235455e519f22293eafca7411fe07735e5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 093/104] fix: the local zone must be named as it was at the
 time

---
 scheme/timezone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 021d69a..cb77815 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -64,7 +64,8 @@ class LocalTimezone(tzinfo):
             value.minute, value.second)))
 
     def tzname(self, value):
-        return time.tzname[self._isdst(value)]
+        # the names of the zone, as its offset, change over the years
+        return time.strftime('%Z', time.localtime(self._timestamp(value)))
 
     def utcoffset(self, value):
         return self._offset(self._timestamp(value))
-- 
2.43.0


From 7c73c2fa48e2345d3479f148325cd2acaafc7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 094/104] fix: a refused tuple or union must not be defined
 along with its placeholders

---
 scheme/fields/tuple.py | 11 +++++++----
 scheme/fields/union.py |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 5d57901..43c8a53 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -31,6 +31,12 @@ class Tuple(Field):
             raise TypeError("argument 'values' must be a list or tuple value containing"
                 " at least one Field instance")
 
+        # placeholders mustn't be waited for by a field which can't be constructed
+        for field in values:
+            if not isinstance(field, (Field, Undefined)):
+                raise TypeError("argument 'values' must be a list or tuple value containing"
+                    " at least one Field instance")
+
         stack = []
         for i, field in enumerate(values):
             if isinstance(field, Undefined):
@@ -39,11 +45,8 @@ class Tuple(Field):
                 else:
                     field.register(self._define_undefined_field, i)
                     stack.append(field)
-            elif isinstance(field, Field):
-                stack.append(field)
             else:
-                raise TypeError("argument 'values' must be a list or tuple value containing"
-                    " at least one Field instance")
+                stack.append(field)
 
         self.values = tuple(stack)
 
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index bd84749..87ce552 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -26,6 +26,11 @@ class Union(Field):
         if not (isinstance(fields, (list, tuple)) and fields):
             raise TypeError('at least one field must be specified for the union')
 
+        # placeholders mustn't be waited for by a field which can't be constructed
+        for field in fields:
+            if not isinstance(field, (Field, Undefined)):
+                raise TypeError("fields must be Field instances")
+
         stack = []
         for i, field in enumerate(fields):
             if isinstance(field, Undefined):
@@ -34,10 +39,8 @@ class Union(Field):
                 else:
                     field.register(self._define_undefined_field, i)
                     stack.append(field)
-            elif isinstance(field, Field):
-                stack.append(field)
             else:
-                raise TypeError("fields must be Field instances")
+                stack.append(field)
 
         self.fields = tuple(stack)
 
-- 
2.43.0


From 1893ff27563dd1de37b352367dfb048f36b482b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 095/104] fix: a refused merge must leave the structure
 unchanged

---
 scheme/fields/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 1529a30..08fbf42 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -378,9 +378,12 @@ class Structure(Field):
             ``structure``. By default, such pairs are ignored.
         """
 
-        for name, field in structure.items():
+        # either all fields are merged, or none is
+        for field in structure.values():
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
+
+        for name, field in structure.items():
             if name in self.structure and not prefer:
                 continue
             if field.name != name:
-- 
2.43.0


From ef02d654ccd31b8b1a7fbdc3288eaa0fb181837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:33 +0000
Subject: [PATCH 096/104] fix: abbreviating a string must not fail

---
 scheme/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 295f3ac..d99a884 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -48,14 +48,14 @@ def abbreviate_string(value, maxlength=0):
     if len(value) <= maxlength:
         return value
 
-    half = (maxlength - 3) / 2
+    half = (maxlength - 3) // 2
 
     left = value[:half]
-    while not left[-1].isalnum():
+    while left and not left[-1].isalnum():
         left = left[:-1]
 
-    right = value[-half:]
-    while not right[0].isalnum():
+    right = value[len(value) - half:]
+    while right and not right[0].isalnum():
         right = right[1:]
 
     return '%s...%s' % (left, right)
-- 
2.43.0


From 362f30306f689f79cadfd431b286dd4cee2bf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 097/104] fix: formatting a structure must accept keys of any
 types

---
 scheme/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index d99a884..1ac84ce 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -194,7 +194,13 @@ class StructureFormatter(object):
         inner_indent = self.indent * (level + 1)
         singles, multiples = [], []
 
-        for k, v in sorted(value.items()):
+        try:
+            items = sorted(value.items(), key=lambda item: item[0])
+        except TypeError:
+            # keys of several types aren't ordered
+            items = sorted(value.items(), key=lambda item: (type(item[0]).__name__, repr(item[0])))
+
+        for k, v in items:
             try:
                 k = str(k)
             except Exception:
-- 
2.43.0


From d9bd515f10ace138d1a7c9ae9094569121e19de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 098/104] fix: formatting a structure must show a tuple of one
 item as such

---
 scheme/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index 1ac84ce..862bcfc 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -234,7 +234,11 @@ class StructureFormatter(object):
                 lines.append('%s%s,' % (inner_indent, description))
 
         if single_line:
-            single_line = tokens[0] + ', '.join(l.strip().rstrip(',') for l in lines) + tokens[1]
+            items = ', '.join(l.strip().rstrip(',') for l in lines)
+            if tokens == '()' and len(lines) == 1:
+                # it isn't a tuple otherwise
+                items += ','
+            single_line = tokens[0] + items + tokens[1]
             if len(single_line) <= 60:
                 return single_line
 
-- 
2.43.0


From d3c7fec555720c93a67445fe5ab1baf41943fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:09 +0000
Subject: [PATCH 099/104] fix: the refusal of a boolean by an integer field
 carries the value, as all others do

---
 scheme/fields/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index 65f8915..4441290 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -55,7 +55,7 @@ class Integer(Field):
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-            raise InvalidTypeError(identity=ancestry, field=self, valid=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
             return int(value)
-- 
2.43.0


From dc1164ac5e114ce68282fd929b851daa154e5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:23 +0000
Subject: [PATCH 100/104] fix: a constant which is false is represented as any
 other

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index f36021d..01abb15 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -221,7 +221,7 @@ class Field(object):
             aspects.append('name=%r' % self.name)
         if params:
             aspects.extend(params)
-        if self.constant:
+        if self.constant is not None:
             aspects.append('constant=True')
         if self.default is not None:
             aspects.append('default=%r' % (self.default,))
-- 
2.43.0


From c1b79c3341588901ffabbc83dfb12d4b44e07a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 101/104] fix: errors of values which cannot be serialized are
 placed at their full path

---
 scheme/exceptions.py | 18 ++++++++++++++++++
 scheme/field.py      |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 410483b..53248ef 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -105,6 +105,24 @@ class StructuralError(SchemeError):
         self.errors.extend(exception.errors)
         return self
 
+    def relocate(self, identity):
+        """Moves this error, and the errors of its structure, to the location ``identity``, when
+        they are identified relative to another one."""
+
+        if isinstance(self.identity, list):
+            self.identity = identity + self.identity[1:]
+        else:
+            self.identity = identity
+
+        structure = self.structure
+        if isinstance(structure, dict):
+            structure = structure.values()
+
+        for item in structure or ():
+            if isinstance(item, StructuralError):
+                item.relocate(identity)
+        return self
+
     def serialize(self, force=False):
         if not force:
             try:
diff --git a/scheme/field.py b/scheme/field.py
index 01abb15..c337283 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -489,6 +489,9 @@ class Field(object):
                 value = self._serialize_value(value)
             except OverflowError:
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
+            except StructuralError as exception:
+                # the value is serialized without knowledge of where it is
+                raise exception.relocate(ancestry)
 
         return value
 
-- 
2.43.0


From 20cf2e99aac255965836ca1a79496e34d9f6d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:46 +0000
Subject: [PATCH 102/104] fix: errors declared for an e-mail field or by its
 class are used

---
 scheme/fields/email.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 7f9c368..f61f856 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -31,19 +31,29 @@ class Email(Text):
             strip=None, errors=None, **params):
 
         if multiple:
-            errors = self.multiple_errors
+            default_errors = list(self.multiple_errors)
             if not extended:
                 pattern = EMAIL_LIST_EXPR
             else:
                 raise ValueError("argument 'extended' cannot be True when argument"
                     " 'multiple' is True")
         else:
-            errors = self.single_errors
+            default_errors = list(self.single_errors)
             if extended:
                 pattern = EXTENDED_EMAIL_ADDRESS_EXPR
             else:
                 pattern = EMAIL_ADDRESS_EXPR
 
+        # errors declared for this field or by its class are preferred, unless they're those which
+        # another field, being cloned as this one, had by default
+        if isinstance(errors, dict):
+            errors = errors.values()
+        messages = [error.message for error in
+            list(self.single_errors) + list(self.multiple_errors)]
+        errors = [error for error in errors or () if error.message not in messages]
+        if self.errors['pattern'] is Text.errors['pattern']:
+            errors = default_errors + errors
+
         super(Email, self).__init__(errors=errors, strip=False, pattern=pattern, **params)
         self.extended = extended
         self.multiple = multiple
-- 
2.43.0


From 6c2f4881006b70d1be792676185437f293cd914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:35 +0000
Subject: [PATCH 103/104] fix: interpolating a tuple from too few values is an
 interpolation error

---
 scheme/fields/tuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 43c8a53..56e0e9d 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -157,6 +157,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
+        if len(subject) < len(self.values):
+            raise CannotInterpolateError('interpolation candidate has too few values')
 
         interpolation = []
         for i, definition in enumerate(self.values):
-- 
2.43.0


From 90af3652c8d570b0f2b10ea3066943e1af2ad78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:48 +0000
Subject: [PATCH 104/104] fix: a structure told apart by dates, times or the
 like can be reconstructed from its description

---
 scheme/fields/structure.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 08fbf42..e14bac3 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -151,6 +151,23 @@ class Structure(Field):
 
         return (self.polymorphic_on is not None)
 
+    @classmethod
+    def construct(cls, **specification):
+        params = cls._construct_parameter(specification)
+
+        # the identities of a polymorphic structure are described in serialized form
+        polymorphic_on, structure = params.get('polymorphic_on'), params.get('structure')
+        if isinstance(polymorphic_on, Field) and isinstance(structure, dict):
+            params['structure'] = candidates = {}
+            for identity, candidate in structure.items():
+                try:
+                    identity = polymorphic_on.process(identity, INBOUND, True)
+                except StructuralError:
+                    pass
+                candidates[identity] = candidate
+
+        return cls(**params)
+
     def describe(self, parameters=None, verbose=False):
         default_structure = self.structure
         
-- 
2.43.0

