From 100313d8428de1b0e46f536c5b75c6f2daeb35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 01/47] fix: escape a field that is added to an empty path

path.prepend('', 'a.b') and path.append('', 'a.b') returned the field
as it is, so the resulting path split into other fields ('a' and 'b').
---
 marsh/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From 0e278a8ef52734b197b45ff538a407e636e2f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 02/47] fix: combine values on nested paths

override(..., combine=True) (`path.to.field+=value`) combined the values
only for the empty path and silently replaced them on every other path.
---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From 823ef6ac181546e000228e1a4b741792f38a0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 03/47] fix: treat a path of only delimiters as the root path

The path '.' is documented to be the same as the empty path, but select,
override and remove looked up the key '' of a mapping instead.
---
 marsh/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..fb87f79 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -73,7 +73,7 @@ def iterative_select(
         path='',
         remaining_path=path,
     )
-    if not path:
+    if not marsh.path.split(path):
         return
     field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_mapping(element):
@@ -219,7 +219,7 @@ def override(
     Returns:
         A copy of the element with a new value set for the specified path.
     """
-    if not path:
+    if not marsh.path.split(path):
         if combine:
             if (
                 marsh.utils.is_mapping(element)
@@ -293,7 +293,7 @@ def remove(
     Returns:
         A copy of the element with the value for the specified path removed.
     """
-    if not path:
+    if not marsh.path.split(path):
         raise ValueError('no path specified')
     field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_mapping(element):
-- 
2.43.0


From 35fce1f8b619640a059f6456b9f895a52a2d9308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 04/47] fix: escape the field in the error path of remove

---
 marsh/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index fb87f79..200bb31 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -311,7 +311,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[field] = remove(
@@ -342,7 +342,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[index] = remove(
-- 
2.43.0


From 9ab9a33153cb9d809d32393ca815227e1c14e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 05/47] fix: parse integers exactly

The text of an integer was parsed as a float first, which changed integers
that a float can not represent.
---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..f93789b 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,10 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From ba78f3d261f8f47b7f27357b7bd13abb10246072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 06/47] fix: report a missing closing quote as a parse error

The end of the input inside quotes raised ValueError (can not pop from
empty source).
---
 marsh/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index f93789b..37cc9fb 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -356,6 +356,8 @@ def string(
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
         while (char := peek(source)) not in terminal_chars or quote:
+            if not char:
+                break
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From c223b97c82852d39278b3a84a0afc7b56d575439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 07/47] fix: cast_primitive raises ValueError when a number is
 too large

---
 marsh/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..806e355 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2095,7 +2095,10 @@ def cast_primitive(
         return str_to_int(value)
     if issubclass(type_, int) and isinstance(value, float):
         return float_to_int(value)
-    return type_(value)
+    try:
+        return type_(value)
+    except OverflowError as err:
+        raise ValueError(str(err)) from err
 
 
 def cast_literal(
-- 
2.43.0


From 7f48be42df7f38bdbff64551e84a773c3259d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 08/47] fix: find the closest match among candidates that are
 not strings

---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 806e355..bd68b07 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2356,8 +2356,8 @@ def get_closest(
         The closest candidate. :data:`None` if no candidate is close.
     """
     close = difflib.get_close_matches(
-        value,
-        candidates,
+        str(value),
+        map(str, candidates),
         n=1,
     )
     if close:
-- 
2.43.0


From f495e018dcb821d156a6922a9714b6a5eceed864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 09/47] fix: do not share cached schemas between types or
 defaults that are equal but not the same

---
 marsh/schema/core/unmarshal.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..3bc9931 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -9,6 +9,7 @@ from typing import (
     ForwardRef,
     Generic,
     Iterable,
+    Literal,
     Mapping,
     NamedTuple,
     Optional,
@@ -16,6 +17,7 @@ from typing import (
     Type,
     TypeVar,
     Union,
+    get_args,
     get_origin,
     overload,
 )
@@ -106,6 +108,27 @@ def resolve_type(
     return value
 
 
+def depends_on_order(
+    value: Any,
+) -> bool:
+    """Evaluate if a type contains a type with members of which
+    the order is significant but not part of its equality.
+
+    Schemas of such types, like those of values that are equal but
+    not the same (e.g. the defaults ``1`` and ``True``), can not be
+    shared through a cache.
+
+    Arguments:
+        value: The type to evaluate.
+
+    Returns:
+        ``True`` if the type is or contains a union or literal.
+    """
+    if get_origin(value) in (Union, Literal):
+        return True
+    return any(map(depends_on_order, get_args(value)))
+
+
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
     def cache_clear(
@@ -229,7 +252,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
+        if args or kwargs or depends_on_order(value):
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From d6569f7deff4abddecb1c97d878d4228a0f4c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 10/47] fix: bind the parameters in front of variadic
 positional ones

---
 marsh/schema/template/callable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..90df2c2 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -37,6 +37,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         except Exception:
             annotations = {}
         positional = {}
+        positional_or_keyword = {}
         keyword = {}
         var_positional = None
         var_keyword = None
@@ -56,16 +57,21 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             if param.kind == param.POSITIONAL_ONLY:
                 positional[name] = schema
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
-                keyword[name] = schema
+                positional_or_keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
                 keyword[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
                 var_positional = (name, schema)
             elif param.kind == param.VAR_KEYWORD:
                 var_keyword = (name, schema)
+        if var_positional:
+            # arguments can only precede the variadic ones by position
+            positional.update(positional_or_keyword)
+            positional_or_keyword = {}
         self.positional = tuple(positional)
         schemas = {}
         schemas.update(positional)
+        schemas.update(positional_or_keyword)
         if var_positional:
             name, schema = var_positional
             schemas[f'*{name}'] = schema
-- 
2.43.0


From cb0e5817dbe67bc4a38b05fcc5d65d661fd5d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 11/47] fix: do not pass a default for an argument that is
 given by position

---
 marsh/schema/template/structured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..2bcc5e5 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -206,6 +206,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     if element_list:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
                         if default_args:
                             value = default_args.pop(0)
-- 
2.43.0


From 91940b55231b8e17999a20a9cdb94bd0b5387742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 12/47] fix: bind the fields and init variables of a dataclass
 in the order of their definition

---
 marsh/schema/types/dataclass.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..dc4d9e1 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -20,9 +20,10 @@ _FIELDS = getattr(dataclasses, '_FIELDS', '__dataclass_fields__')
 _INITVAR_SENTINEL = dataclasses._FIELD_INITVAR  # type: ignore
 
 
-def get_init_var_fields(
+def get_init_fields(
     dataclass: Any,
 ) -> Tuple[dataclasses.Field, ...]:
+    fields = dataclasses.fields(dataclass)
     return tuple(
         field
         for field
@@ -30,7 +31,7 @@ def get_init_var_fields(
             dataclass,
             _FIELDS,
         ).values()
-        if field._field_type is _INITVAR_SENTINEL
+        if field in fields or field._field_type is _INITVAR_SENTINEL
     )
 
 
@@ -125,10 +126,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
-        ):
+        for field in get_init_fields(self.value):
             if not field.init:
                 continue
             with marsh.errors.prepend(field.name):
-- 
2.43.0


From dcb1f8ec45265b160f4d44bc249345a02915ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:35 +0000
Subject: [PATCH 13/47] fix: do not bind keyword-only arguments by position

---
 marsh/schema/template/callable.py   | 1 +
 marsh/schema/template/structured.py | 4 +++-
 marsh/schema/types/dataclass.py     | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 90df2c2..2e7038e 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -69,6 +69,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             positional.update(positional_or_keyword)
             positional_or_keyword = {}
         self.positional = tuple(positional)
+        self.keyword = tuple(keyword)
         schemas = {}
         schemas.update(positional)
         schemas.update(positional_or_keyword)
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 2bcc5e5..611d5ac 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -30,6 +30,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
 
     positional: Sequence[str] = ()
     """Names of attributes that can only be used as positional arguments."""
+    keyword: Sequence[str] = ()
+    """Names of attributes that can only be used as keyword arguments."""
 
     def __str__(
         self,
@@ -203,7 +205,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     args.extend(default_args)
                     default_args = []
                 else:
-                    if element_list:
+                    if element_list and name not in self.keyword:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
                         default_kwargs.pop(name, None)
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index dc4d9e1..f6b8172 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -145,6 +145,11 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                     ),
                 )
         self.schemas = types.MappingProxyType(schemas)
+        self.keyword = tuple(
+            field.name
+            for field in get_init_fields(self.value)
+            if getattr(field, 'kw_only', False)
+        )
 
     @classmethod
     def match(
-- 
2.43.0


From 8d103054cf27774c06c2062fad3fa1df209224fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:11 +0000
Subject: [PATCH 14/47] fix: pass every item of a tuple by position

---
 marsh/schema/types/tuple.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..11a1b33 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -23,6 +23,7 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
                 if arg != ()  # empty tuple type
             )
         }
+        self.positional = tuple(self.schemas)
 
     @classmethod
     def match(
-- 
2.43.0


From 33cd53ba340d6001c7f379bbaa461786a7b7c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:16 +0000
Subject: [PATCH 15/47] fix: bind the items of a typed dict in the order of
 their schemas

---
 marsh/schema/types/typeddict.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..7bfea40 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -101,14 +101,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = dict(zip(self.schemas, args), **kwargs)
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From 75f4b312fc5e20848b3c119f54e2f0665f561914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 16/47] fix: allow the whitespace that the slice syntax allows

---
 marsh/schema/types/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..f282664 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -115,7 +115,7 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                     type=self.value,
                 )
             args = tuple(
-                int(index) if index else None
+                int(''.join(index.split())) if index.strip() else None
                 for index
                 in element.split(':')
             )
-- 
2.43.0


From fc6b99a59439f88318ee593e067013009281e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 17/47] fix: use the default of a datetime

---
 marsh/schema/types/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
-- 
2.43.0


From b85bc1969ee8f474e19a232c385cb3169a8f83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:31 +0000
Subject: [PATCH 18/47] fix: report a timestamp that is out of range as an
 unmarshal error

---
 marsh/schema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..e481aec 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From 2466eeb76fbd29f8581baa619455bf63727dbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 19/47] fix: use the default of a protocol

---
 marsh/schema/types/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..e16fa81 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,6 +90,8 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
-- 
2.43.0


From 2d563330a71faf2276f283f7218793aefbf0507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 20/47] fix: report a failure to construct an empty container
 as an unmarshal error

---
 marsh/schema/template/mapping.py  | 2 +-
 marsh/schema/template/sequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index c07ad22..74d5040 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -54,7 +54,7 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct({})
+            element = {}
         if not marsh.utils.is_mapping(element):
             raise marsh.errors.UnmarshalError(
                 (
diff --git a/marsh/schema/template/sequence.py b/marsh/schema/template/sequence.py
index 91825ce..9ae249d 100644
--- a/marsh/schema/template/sequence.py
+++ b/marsh/schema/template/sequence.py
@@ -47,7 +47,7 @@ class SequenceUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct(())
+            element = ()
         if not marsh.utils.is_sequence(element):
             raise marsh.errors.UnmarshalError(
                 (
-- 
2.43.0


From 96a0afb4316c3ff6f8fac54d8d8dc8c160f6c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 21/47] fix: do not count keyword-only arguments among those
 given by position

---
 marsh/schema/template/structured.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 611d5ac..dcaeaaf 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -60,8 +60,10 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         kwargs: Optional[Mapping[str, Any]] = None,
     ) -> None:
         if args and kwargs:
-            for i, name in enumerate(self.schemas):
-                if i < len(args) and name in kwargs:
+            for name, _ in zip(self.schemas, args):
+                if name.startswith('*') or name in self.keyword:
+                    break
+                if name in kwargs:
                     raise TypeError(
                         'received the same argument twice '
                         'through `default_args` and '
-- 
2.43.0


From 17c9930d3497bbe4272dc71b7fbab62d40cf7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 22/47] fix: tell cached hash keys apart that only share their
 hash

---
 marsh/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index bd68b07..eb331b8 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -492,6 +492,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        super().__init__(value)
         self._hash = hash(value)
 
     def __hash__(self):
-- 
2.43.0


From 694315d75f29c179168ca5236df7d4bb5c75b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 23/47] fix: replace the value of an unhashable key instead of
 adding the key again

---
 marsh/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index eb331b8..9ecebe5 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -590,7 +590,8 @@ class SafeDict(MutableMapping[_K, _V]):
                 self._order = [(True, i) for i in range(len(self._hashable_cache))]
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
-                    self._unhashable_cache[-i] = (key, value)
+                    self._unhashable_cache[-i] = (k, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
-- 
2.43.0


From fac1c72794b3d71cc2e316dc10e6f1972c6192bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 24/47] fix: keep the order of the remaining keys when one is
 deleted

---
 marsh/utils.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 9ecebe5..1e1f67b 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -607,25 +607,32 @@ class SafeDict(MutableMapping[_K, _V]):
                 # already kept by the underlying dict.
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
-                        if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                        if k is key or k == key:
+                            self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    key_idx = len(self._unhashable_cache) - i
+                    self._unhashable_cache.pop(key_idx)
+                    self._remove_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        # the keys behind the removed one move up by one index
+        self._order = [
+            (is_hashable, idx - (is_hashable == hashable and idx > index))
+            for is_hashable, idx in self._order
+            if (is_hashable, idx) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 2cb16350c292dff363c0e8ea308bf01bc9cbfc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 25/47] fix: detect a value that is added to a priority order
 twice

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 1e1f67b..f0fdd0f 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1264,7 +1264,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
             # does the value to be added already exist?
             for i in range(len(self._values)):
-                if self._values[i] == wrapped:
+                if self._values[i].value == value:
                     if replace:
                         del self._values[i]
                         break
-- 
2.43.0


From 74dd91d80b9f5ca139cafa0274a84a2c2184a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 26/47] fix: keep the relative priorities of values when a
 priority order is reloaded

---
 marsh/utils.py | 49 ++++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index f0fdd0f..b93725b 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1214,12 +1214,26 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         values = sorted(self._values, key=lambda x: x.index)
         del self._values[:]
         for value in values:
-            self.add(
-                value=value.value,
-                priority=value.priority,
-                lower_priority=value.relative_priority.lower,
-                higher_priority=value.relative_priority.higher,
-            )
+            self._values.insert(self._find_index(value, self._values), value)
+
+    @staticmethod
+    def _find_index(
+        wrapped: _WrappedValue,
+        values: Sequence[_WrappedValue],
+    ) -> int:
+        # find insertion index for value based on priorities.
+        # circular priorities with a length larger than 1 do
+        # not raise an error.
+        idx = 0
+        for i, position in enumerate(values):
+            if wrapped.relative_priority > position.relative_priority:
+                break
+            if (
+                wrapped.relative_priority < position.relative_priority
+                or wrapped.priority < position.priority
+            ):
+                idx = i + 1
+        return idx
 
     @overload
     def add(
@@ -1263,28 +1277,17 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             )
 
             # does the value to be added already exist?
-            for i in range(len(self._values)):
-                if self._values[i].value == value:
+            values = list(self._values)
+            for i in range(len(values)):
+                if values[i].value == value:
                     if replace:
-                        del self._values[i]
+                        del values[i]
                         break
                     raise ValueError(
                         f'{wrapped} already exists.',
                     )
-
-            # find insertion index for value based on priorities.
-            # circular priorities with a length larger than 1 do
-            # not raise an error.
-            idx = 0
-            for i, position in enumerate(self._values):
-                if wrapped.relative_priority > position.relative_priority:
-                    break
-                if (
-                    wrapped.relative_priority < position.relative_priority
-                    or wrapped.priority < position.priority
-                ):
-                    idx = i + 1
-            self._values.insert(idx, wrapped)
+            values.insert(self._find_index(wrapped, values), wrapped)
+            self._values = values
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From e4798061ba9a2e6a3567ee445bca94002ecaf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 27/47] fix: give every item to every iteration when iterations
 are interleaved

---
 marsh/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index b93725b..1b88b28 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -985,10 +985,16 @@ class IterableFromIterator(Generic[_T]):
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        i = 0
+        while True:
+            if i == len(self._cache):
+                try:
+                    item = next(self._iter)
+                except StopIteration:
+                    return
+                self._cache.append(item)
+            yield self._cache[i]
+            i += 1
 
     def __bool__(
         self,
-- 
2.43.0


From 893542ef7384b237c5306a99799a0320f04f49ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 28/47] fix: restore the working directory when the entry point
 fails

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..79f11f5 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -229,9 +229,11 @@ class EntryPoint:
             with marsh.errors.maybe_handle_error(handle_create_dir_error):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From 4b6dcdffa0e2692681bbd7d4be89bec598820575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 29/47] fix: find named configs in the working directory

---
 marsh/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..b185465 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -185,7 +185,7 @@ def find_config(
             )
         return target
     dpath = os.path.dirname(target)
-    if not os.path.isdir(dpath):
+    if not os.path.isdir(dpath or os.curdir):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
             f'for named config "{target}"',
@@ -193,7 +193,7 @@ def find_config(
     name = os.path.basename(target)
     names = []
     paths = []
-    for candidate_fname in os.listdir(dpath):
+    for candidate_fname in os.listdir(dpath or os.curdir):
         path = os.path.join(dpath, candidate_fname)
         if not os.path.isfile(path):
             continue
-- 
2.43.0


From 836eb1a1de33f5a9a337c39b604a9aa90035985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 30/47] fix: marshal the keyword arguments of unmarshal only
 once

---
 marsh/_functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/_functional.py b/marsh/_functional.py
index d7923d2..99de96b 100644
--- a/marsh/_functional.py
+++ b/marsh/_functional.py
@@ -77,7 +77,7 @@ def unmarshal(
         marsh.schema.UnmarshalSchema(type_)
     if kwargs:
         if marsh.utils.is_missing(element):
-            element = marshal(kwargs)
+            element = {}
         if not marsh.utils.is_mapping(element):
             raise TypeError(
                 'additional keyword arguments may only '
-- 
2.43.0


From 9854d1e23d82ca9468b7fc3be7b89388af27d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 31/47] fix: marshal members of string enums to their string
 value

---
 marsh/schema/types/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index e8566e6..fe355c3 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -44,7 +44,7 @@ class PrimitiveMarshalSchema(marsh.schema.MarshalSchema):
         elif isinstance(self.value, float):
             return float(self.value)
         else:
-            return str(self.value)
+            return str.__str__(self.value)
 
 
 @marsh.schema.register
-- 
2.43.0


From 90917b1e5d88973b98a61baa8f00f6a8c1653a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 32/47] fix: marshal enum and bytes keys of mappings like
 values

---
 marsh/schema/types/generic.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index d021ff9..31527af 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -1,3 +1,4 @@
+import enum
 import inspect
 from typing import (
     Any,
@@ -45,10 +46,14 @@ class GenericMappingMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> dict:
-        return {
-            str(key): marsh.marshal(self.value[key])
-            for key in self.value.keys()
-        }
+        element = {}
+        for key in self.value.keys():
+            value = marsh.marshal(self.value[key])
+            if isinstance(key, (enum.Enum, bytes)):
+                # str() does not give what these are unmarshaled from
+                key = marsh.marshal(key)
+            element[str(key)] = value
+        return element
 
 
 @marsh.schema.register(priority=GENERIC_PRIORITY)
-- 
2.43.0


From d3d6f47480cd1a6e99f37e4bb58d094a06391ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 33/47] fix: unmarshal text to subclasses of int

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 1b88b28..0b3671b 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2110,9 +2110,9 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
-    if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        value = str_to_int(value)
+    elif issubclass(type_, int) and isinstance(value, float):
+        value = float_to_int(value)
     try:
         return type_(value)
     except OverflowError as err:
-- 
2.43.0


From 5e9b9d198cdc87b1d901deae9c3508866f2c17a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 34/47] fix: resolve forward references in the module of a type

---
 marsh/schema/core/unmarshal.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 3bc9931..80a5d2d 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -55,10 +55,7 @@ def resolve_forward_ref(
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
-                vars(importlib.import_module(mod)),
-                None,
-            )
+            return vars(importlib.import_module(mod))[name]
         except Exception:
             pass
     for type_ in cache:
@@ -66,14 +63,12 @@ def resolve_forward_ref(
             return type_
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
-                    vars(
-                        importlib.import_module(
-                            type_.__module__ + (f'.{mod}' if mod else ''),
-                        ),
+                namespace = vars(
+                    importlib.import_module(
+                        type_.__module__ + (f'.{mod}' if mod else ''),
                     ),
-                    None,
                 )
+                return namespace[name] if mod else eval(ref.__forward_code__, namespace)
             except Exception:
                 pass
     raise marsh.errors.MarshError(f'could not resolve forward reference to a type: {ref}')
-- 
2.43.0


From c7b7067f16328b86692541d4c240c0689c21442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 35/47] fix: keep annotated types and resolve nested forward
 references in structured types

---
 marsh/schema/template/callable.py | 10 +++---
 marsh/schema/types/dataclass.py   | 12 ++++---
 marsh/schema/types/namedtuple.py  |  3 +-
 marsh/schema/types/typeddict.py   |  2 +-
 marsh/utils.py                    | 52 +++++++++++++++++++++++++++++++
 5 files changed, 66 insertions(+), 13 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 2e7038e..c54b0ad 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -2,9 +2,7 @@ import inspect
 import types
 from typing import (
     Any,
-    ForwardRef,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -31,9 +29,9 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             )
         try:
             if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
+                annotations = marsh.utils.get_type_annotations(self.value.__init__)
             else:
-                annotations = get_type_hints(self.value)
+                annotations = marsh.utils.get_type_annotations(self.value)
         except Exception:
             annotations = {}
         positional = {}
@@ -44,9 +42,11 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         for name, param in sig.parameters.items():
             if (
                 param.annotation is param.empty
-                or isinstance(param.annotation, (str, ForwardRef))
+                or isinstance(param.annotation, str)
             ):
                 type_ = annotations.get(name, Any)
+            elif marsh.utils.has_forward_ref(param.annotation):
+                type_ = annotations.get(name, param.annotation)
             else:
                 type_ = param.annotation
             default = marsh.MISSING
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index f6b8172..8315a9c 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -3,11 +3,9 @@ import re
 import types
 from typing import (
     Any,
-    ForwardRef,
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -95,7 +93,9 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = marsh.utils.get_type_annotations(
+                marsh.utils.get_type(self.value),
+            )
         except Exception:
             annotations = {}
         schemas = {}
@@ -104,8 +104,10 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             type_: Any,
         ) -> Any:
             try:
-                if isinstance(type_, (str, ForwardRef)):
-                    type_ = annotations.get(field.name, type_)
+                if marsh.utils.has_forward_ref(type_):
+                    annotation = annotations.get(field.name, type_)
+                    if not isinstance(annotation, dataclasses.InitVar):
+                        type_ = annotation
             except Exception:
                 pass
             type_is_str = False
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..8620d28 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -73,7 +72,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.get_type_annotations(self.value)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 7bfea40..8e34597 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -58,7 +58,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.get_type_annotations(self.value)
         self.schemas = types.MappingProxyType(
             {
                 **{
diff --git a/marsh/utils.py b/marsh/utils.py
index 0b3671b..6c8b979 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -20,6 +20,7 @@ from typing import (
     DefaultDict,
     Dict,
     Final,
+    ForwardRef,
     Generic,
     Iterable,
     Iterator,
@@ -59,6 +60,7 @@ _LiteralTypes: list = []
 _LiteralStringTypes: list = []
 _TypeAliasTypes: list = []
 _IsTypedDict: list = []
+_TypeQualifiers: list = []
 
 
 for module in (typing, typing_extensions):
@@ -69,6 +71,9 @@ for module in (typing, typing_extensions):
         ('LiteralString', _LiteralStringTypes),
         ('TypeAlias', _TypeAliasTypes),
         ('is_typeddict', _IsTypedDict),
+        ('Required', _TypeQualifiers),
+        ('NotRequired', _TypeQualifiers),
+        ('ReadOnly', _TypeQualifiers),
     ):
         try:
             container.append(getattr(module, attr))
@@ -1603,6 +1608,53 @@ def is_namedtuple_type(
     return False
 
 
+def get_type_annotations(
+    value: Any,
+) -> Dict[str, Any]:
+    """Get the annotations of a class or function, with any
+    forward references resolved.
+
+    Unlike :func:`~typing.get_type_hints`, annotated types are kept.
+
+    Arguments:
+        value: The class or function.
+
+    Returns:
+        The types, by the name of the attribute or parameter.
+    """
+    annotations = typing_extensions.get_type_hints(
+        value,
+        # forward references are shared through the caches of typing
+        # and remember the type they were last evaluated to unless
+        # there is a local namespace
+        localns=None if inspect.isclass(value) else {},
+        include_extras=True,
+    )
+    for name, type_ in annotations.items():
+        while typing_extensions.get_origin(type_) in _TypeQualifiers:
+            type_ = get_args(type_)[0]
+        annotations[name] = type_
+    return annotations
+
+
+def has_forward_ref(
+    value: Any,
+) -> bool:
+    """Determine if a type contains any forward references.
+
+    Arguments:
+        value: The type to evaluate.
+
+    Returns:
+        ``True`` if there are any forward references.
+    """
+    if isinstance(value, (str, ForwardRef)):
+        return True
+    if get_origin(value) in _LiteralTypes:
+        return False
+    return any(map(has_forward_ref, get_args(value)))
+
+
 def is_typed_namedtuple(
     value: Any,
 ) -> TypeGuard[NamedTupleProtocol]:
-- 
2.43.0


From 6daf04cd215295c3e5be1ed9739a8a524ce3008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 36/47] fix: a schema that is registered applies to types that
 are used already

---
 marsh/schema/core/unmarshal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 80a5d2d..9caf7cc 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -176,6 +176,10 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
     ]:
         def wrapper(_schema):
             self.cache_clear()
+            # schemas that are built already may
+            # have to make way for the new one
+            UnmarshalSchemaMeta._cached_build.cache_clear()  # type: ignore
+            UnmarshalSchemaMeta._recursive_cache.clear()
             return self.priority.add(
                 _schema,
                 priority=priority,
-- 
2.43.0


From 64caf6fa492c38f98c874d2b61f7111450bddc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 37/47] fix: creating or deleting a namespace applies to types
 that are used already

---
 marsh/schema/namespace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..82ca5f0 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self.cache_clear()
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +226,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self.cache_clear()
+        marsh.schema.UnmarshalSchema.cache_clear()
         return namespace
 
     def cache_clear(
-- 
2.43.0


From 67d929a91138ca94f12ddaf677539a8ed1d09744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 38/47] fix: a config schema that is registered applies to
 files that were looked at already

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index b185465..e4b9d13 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -223,7 +223,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From aa585891754d2fb2a6e6c2c8ea0f5a6ab03a8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 39/47] fix: a config that is written to the standard output
 can be loaded again

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index e4b9d13..3408c1e 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -342,7 +342,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From 33565ab7b6851b3909a3cec192480d5bedd47363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 40/47] fix: unmarshal a component of a namespace by its
 current schema

---
 marsh/schema/namespace.py | 45 +++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 82ca5f0..f7476d4 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -383,7 +383,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self.name = name
         self.base = base
         self.components = {}
-        self._schemas: Dict[str, core.unmarshal.UnmarshalSchema[_T]] = {}
         # when wrapping functions on an instance the `self`
         # argument is not included until the most inner
         # wrapped function is called which means that we
@@ -411,23 +410,21 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     key='name',
                 ),
             )
-        if name not in self._schemas:
-            # instead of picking out the matched
-            # schema types we need to run the normal
-            # constructor so that the type is cached.
-            # If not, the recursive tests for namespace
-            # components fail.
-            schema = marsh.schema.UnmarshalSchema[_T](
-                self.components[name],
-            )
-            # extract inner schema
-            while isinstance(
-                schema,
-                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
-            ):
-                schema = schema.schema
-            self._schemas[name] = schema
-        return self._schemas[name]
+        # instead of picking out the matched
+        # schema types we need to run the normal
+        # constructor so that the type is cached.
+        # If not, the recursive tests for namespace
+        # components fail.
+        schema = marsh.schema.UnmarshalSchema[_T](
+            self.components[name],
+        )
+        # extract inner schema
+        while isinstance(
+            schema,
+            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+        ):
+            schema = schema.schema
+        return schema
 
     def __iter__(
         self,
@@ -560,13 +557,11 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             A decorator for registering the type if no
             type was given else the type itself.
         """
-        if name in self:
-            if not replace:
-                raise marsh.errors.MarshError(
-                    f'a component with the name "{name}" '
-                    'already exists',
-                )
-            self._schemas.pop(name, None)
+        if name in self and not replace:
+            raise marsh.errors.MarshError(
+                f'a component with the name "{name}" '
+                'already exists',
+            )
 
         def _register(
             component: Type[_T],
-- 
2.43.0


From 55144f253fb9c46d063808301c039fdad907768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 41/47] fix: report that the output directory could not be
 created

---
 marsh/entry_point.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 79f11f5..d312c55 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -226,7 +226,10 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(
+                handle_create_dir_error,
+                OSError,
+            ):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
         try:
-- 
2.43.0


From ab64d9d6229206d9af72e81fe0f23cec80e2b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 42/47] fix: reject not-a-number where a signed number is
 required

---
 marsh/annotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/annotation.py b/marsh/annotation.py
index 227dd11..d11c3fd 100644
--- a/marsh/annotation.py
+++ b/marsh/annotation.py
@@ -91,7 +91,7 @@ class Positive(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value <= 0:  # type: ignore
+        if not value > 0:  # type: ignore
             raise ValueError(
                 f'positive value required, got {value}',
             )
@@ -105,7 +105,7 @@ class Negative(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value >= 0:  # type: ignore
+        if not value < 0:  # type: ignore
             raise ValueError(
                 f'negative value required, got {value}',
             )
@@ -119,7 +119,7 @@ class Unsigned(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value < 0:  # type: ignore
+        if not value >= 0:  # type: ignore
             raise ValueError(
                 f'unsigned value required, got {value}',
             )
-- 
2.43.0


From 2a5cf8a75cc6128e9ae22707235b39683f0831ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 43/47] fix: resolve quoted forward references of typed dicts
 in their own module

---
 marsh/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 6c8b979..90c7263 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1627,7 +1627,11 @@ def get_type_annotations(
         # forward references are shared through the caches of typing
         # and remember the type they were last evaluated to unless
         # there is a local namespace
-        localns=None if inspect.isclass(value) else {},
+        localns=(
+            None
+            if inspect.isclass(value) and not is_typeddict_type(value)
+            else {}
+        ),
         include_extras=True,
     )
     for name, type_ in annotations.items():
-- 
2.43.0


From b44c327a9d34736fcd697b36c83563bcee798fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 44/47] fix: do not modify the cached selection of schemas

---
 marsh/schema/core/unmarshal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 9caf7cc..37dffeb 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -280,10 +280,12 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
                 return recursive_cache[value].build(value, *args, **kwargs)
             except KeyError:
                 pass
+        # the selection is shared through the cache of
+        # the registry and must not be modified
         result = cls.registry.match(value)
-        result.insert(0, RecursiveReferenceUnmarshalSchema)
-        recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        recursive_cache[value] = \
+            base.SchemaSelection([RecursiveReferenceUnmarshalSchema]) + result
+        return result.build(value, *args, **kwargs)
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From 3a6bc04c6b07585181021d2a8ecf96e56af3ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 45/47] fix: the name of an enum member takes precedence over
 the values of the others

---
 marsh/schema/types/enum.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index c07abf6..25d8752 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -22,6 +22,24 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
         super().__init__(*args, **kwargs)
         self.schemas = tuple(map(EnumValueUnmarshalSchema, self.value))
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+    ) -> _E:
+        # An enum is marshaled into the name of the member, a name
+        # takes precedence over a value of some other member.
+        if (
+            not marsh.utils.is_missing(element)
+            and marsh.utils.is_primitive(element)
+        ):
+            for schema in self.schemas:
+                try:
+                    marsh.utils.cast_literal(schema.value.name, element)
+                    return schema.value
+                except ValueError:
+                    pass
+        return super().unmarshal(element)
+
     @classmethod
     def match(
         cls,
-- 
2.43.0


From ddfaf3bc3844f6d590a5b18f9616418f6200ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 46/47] fix: do not recurse forever for subclasses of
 typing.Generic

---
 marsh/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 90c7263..d0b52df 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1423,7 +1423,9 @@ def is_sequence_type(
     Returns:
         ``True`` if value is a sequence type, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    origin = get_origin(value)
+    if origin is not None and origin is not value:
+        # the origin of typing.Generic is typing.Generic
         return is_sequence_type(origin)
     try:
         return (
@@ -1520,7 +1522,9 @@ def is_mapping_type(
     Returns:
         ``True`` if value is a mapping, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    origin = get_origin(value)
+    if origin is not None and origin is not value:
+        # the origin of typing.Generic is typing.Generic
         return is_mapping_type(origin)
     try:
         return (
@@ -1933,7 +1937,9 @@ def get_type(
     Returns:
         The type.
     """
-    if (origin := get_origin(value)) is not None:
+    origin = get_origin(value)
+    if origin is not None and origin is not value:
+        # the origin of typing.Generic is typing.Generic
         return get_type(origin)
     if is_typing_alias(value):
         return value
-- 
2.43.0


From 7eed234a84a5ece5c710c16d114afd9ae12061af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 47/47] fix: accept unions written with the | operator

---
 marsh/schema/core/unmarshal.py |  2 +-
 marsh/schema/types/union.py    |  4 +---
 marsh/utils.py                 | 17 ++++++++++++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 37dffeb..3181819 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -119,7 +119,7 @@ def depends_on_order(
     Returns:
         ``True`` if the type is or contains a union or literal.
     """
-    if get_origin(value) in (Union, Literal):
+    if marsh.utils.is_union(value) or get_origin(value) is Literal:
         return True
     return any(map(depends_on_order, get_args(value)))
 
diff --git a/marsh/schema/types/union.py b/marsh/schema/types/union.py
index b030b08..36ddb98 100644
--- a/marsh/schema/types/union.py
+++ b/marsh/schema/types/union.py
@@ -1,9 +1,7 @@
 from typing import (
     Any,
     TypeVar,
-    Union,
     get_args,
-    get_origin,
 )
 
 import marsh
@@ -36,7 +34,7 @@ class UnionUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         value: Any,
     ) -> bool:
         return bool(
-            get_origin(value) is Union
+            marsh.utils.is_union(value)
             and get_args(value),
         )
 
diff --git a/marsh/utils.py b/marsh/utils.py
index d0b52df..dd9ca7f 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1899,6 +1899,21 @@ def is_typing_alias(
     )
 
 
+def is_union(
+    type_: Any,
+) -> bool:
+    """Evaluate if a type variable is a union of types, written
+    as ``typing.Union`` or with the ``|`` operator.
+
+    Arguments:
+        type_: The type to evaluate.
+
+    Returns:
+        ``True`` if the type is a union, else ``False``.
+    """
+    return get_origin(type_) in (Union, getattr(types, 'UnionType', Union))
+
+
 def is_optional(
     type_: Any,
 ) -> bool:
@@ -1913,7 +1928,7 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+    return is_union(type_) \
         and type(None) in get_args(type_)
 
 
-- 
2.43.0

