From 9247db8066050c1860da8dd13efd4f4918bc0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 01/49] fix: reject JSON booleans for int and float types

---
 strong_typing/deserializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..373145e 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -117,7 +117,8 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        # type `bool` is a subclass of `int`
+        if not isinstance(data, int) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -126,7 +127,8 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
+        # type `bool` is a subclass of `int`
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
         return float(data)
 
-- 
2.43.0


From 01a3c6cbb3a566b39e7d13529f2402c4f820c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:10 +0000
Subject: [PATCH 02/49] fix: raise Json errors instead of leaking parser
 exceptions when data is malformed

---
 strong_typing/deserializer.py | 102 +++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 32 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 373145e..8bb8ac7 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -130,7 +130,10 @@ class FloatDeserializer(Deserializer[float]):
         # type `bool` is a subclass of `int`
         if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        try:
+            return float(data)
+        except OverflowError as e:
+            raise JsonValueError(f"`float` type expects a number within the range of `float` but received: {data}") from e
 
 
 class StringDeserializer(Deserializer[str]):
@@ -148,7 +151,10 @@ class BytesDeserializer(Deserializer[bytes]):
     def parse(self, data: JsonType) -> bytes:
         if not isinstance(data, str):
             raise JsonTypeError(f"`bytes` type expects JSON `string` data but instead received: {data}")
-        return base64.b64decode(data, validate=True)
+        try:
+            return base64.b64decode(data, validate=True)
+        except ValueError as e:
+            raise JsonValueError(f"`bytes` type expects a Base64-encoded string but received: {data}") from e
 
 
 class DateTimeDeserializer(Deserializer[datetime.datetime]):
@@ -160,7 +166,10 @@ class DateTimeDeserializer(Deserializer[datetime.datetime]):
 
         if data.endswith("Z"):
             data = f"{data[:-1]}+00:00"  # Python's isoformat() does not support military time zones like "Zulu" for UTC
-        timestamp = datetime.datetime.fromisoformat(data)
+        try:
+            timestamp = datetime.datetime.fromisoformat(data)
+        except ValueError as e:
+            raise JsonValueError(f"`datetime` type expects ISO 8601 timestamp string but received: {data}") from e
         if timestamp.tzinfo is None:
             raise JsonValueError(f"timestamp lacks explicit time zone designator: {data}")
         return timestamp
@@ -173,7 +182,10 @@ class DateDeserializer(Deserializer[datetime.date]):
         if not isinstance(data, str):
             raise JsonTypeError(f"`date` type expects JSON `string` data but instead received: {data}")
 
-        return datetime.date.fromisoformat(data)
+        try:
+            return datetime.date.fromisoformat(data)
+        except ValueError as e:
+            raise JsonValueError(f"`date` type expects ISO 8601 date string but received: {data}") from e
 
 
 class TimeDeserializer(Deserializer[datetime.time]):
@@ -183,7 +195,10 @@ class TimeDeserializer(Deserializer[datetime.time]):
         if not isinstance(data, str):
             raise JsonTypeError(f"`time` type expects JSON `string` data but instead received: {data}")
 
-        return datetime.time.fromisoformat(data)
+        try:
+            return datetime.time.fromisoformat(data)
+        except ValueError as e:
+            raise JsonValueError(f"`time` type expects ISO 8601 time string but received: {data}") from e
 
 
 class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
@@ -219,25 +234,28 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
 
         parts = match.groupdict()
 
-        # day component
-        weeks = int(parts["weeks"]) if parts["weeks"] else 0
-        days = int(parts["days"]) if parts["days"] else 0
-
-        # time component
-        hours = int(parts["hours"]) if parts["hours"] else 0
-        minutes = int(parts["minutes"]) if parts["minutes"] else 0
-        seconds = int(parts["seconds"]) if parts["seconds"] else 0
-
-        # sub-second component
-        nanoseconds = int(parts["fractional"].ljust(9, "0")) if parts["fractional"] else 0
-        if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
-            raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
-
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        try:
+            # day component
+            weeks = int(parts["weeks"]) if parts["weeks"] else 0
+            days = int(parts["days"]) if parts["days"] else 0
+
+            # time component
+            hours = int(parts["hours"]) if parts["hours"] else 0
+            minutes = int(parts["minutes"]) if parts["minutes"] else 0
+            seconds = int(parts["seconds"]) if parts["seconds"] else 0
+
+            # sub-second component
+            nanoseconds = int(parts["fractional"].ljust(9, "0")) if parts["fractional"] else 0
+            if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
+                raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
+
+            return datetime.timedelta(
+                days=7 * weeks + days,
+                seconds=3600 * hours + 60 * minutes + seconds,
+                microseconds=nanoseconds // 1000,
+            )
+        except (OverflowError, ValueError) as e:
+            raise JsonValueError(f"`timedelta` type expects a duration within range but received: {data}") from e
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
@@ -246,7 +264,10 @@ class UUIDDeserializer(Deserializer[uuid.UUID]):
     def parse(self, data: JsonType) -> uuid.UUID:
         if not isinstance(data, str):
             raise JsonTypeError(f"`UUID` type expects JSON `string` data but instead received: {data}")
-        return uuid.UUID(data)
+        try:
+            return uuid.UUID(data)
+        except ValueError as e:
+            raise JsonValueError(f"`UUID` type expects UUID string but received: {data}") from e
 
 
 class IPv4Deserializer(Deserializer[ipaddress.IPv4Address]):
@@ -255,7 +276,10 @@ class IPv4Deserializer(Deserializer[ipaddress.IPv4Address]):
     def parse(self, data: JsonType) -> ipaddress.IPv4Address:
         if not isinstance(data, str):
             raise JsonTypeError(f"`IPv4Address` type expects JSON `string` data but instead received: {data}")
-        return ipaddress.IPv4Address(data)
+        try:
+            return ipaddress.IPv4Address(data)
+        except ValueError as e:
+            raise JsonValueError(f"`IPv4Address` type expects IPv4 address string but received: {data}") from e
 
 
 class IPv6Deserializer(Deserializer[ipaddress.IPv6Address]):
@@ -264,7 +288,10 @@ class IPv6Deserializer(Deserializer[ipaddress.IPv6Address]):
     def parse(self, data: JsonType) -> ipaddress.IPv6Address:
         if not isinstance(data, str):
             raise JsonTypeError(f"`IPv6Address` type expects JSON `string` data but instead received: {data}")
-        return ipaddress.IPv6Address(data)
+        try:
+            return ipaddress.IPv6Address(data)
+        except ValueError as e:
+            raise JsonValueError(f"`IPv6Address` type expects IPv6 address string but received: {data}") from e
 
 
 class ListDeserializer(RecursiveDeserializer[list[T]]):
@@ -339,10 +366,13 @@ class DictDeserializer(RecursiveDeserializer[dict[K, V]]):
                 f"`type `{self.container_type}` expects JSON `object` data but instead received: {data}"
             )
 
-        return dict(
-            (self.key_type(key), self.value_parser.parse(value))  # type: ignore[call-arg]
-            for key, value in data.items()
-        )
+        return dict((self._parse_key(key), self.value_parser.parse(value)) for key, value in data.items())
+
+    def _parse_key(self, key: str) -> K:
+        try:
+            return self.key_type(key)  # type: ignore[call-arg]
+        except ValueError as e:
+            raise JsonValueError(f"`type `{self.container_type}` received an invalid key: {key}") from e
 
 
 class SetDeserializer(RecursiveDeserializer[set[T]]):
@@ -495,6 +525,11 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
+            if isinstance(disambiguating_value, (dict, list)):
+                raise JsonTypeError(
+                    f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
+                )
+
             member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
@@ -547,7 +582,10 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        return self.enum_type(data)
+        try:
+            return self.enum_type(data)
+        except ValueError as e:
+            raise JsonValueError(f"`{self.enum_type.__name__}` type expects a member value but received: {data}") from e
 
 
 class CustomDeserializer(Deserializer[T]):
-- 
2.43.0


From 9d463234681459008f69616d0a6c86ea5c67318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 03/49] fix: try next member of a union when a member rejects
 the value

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 8bb8ac7..b49c456 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -448,9 +448,11 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
+                # the data has an invalid value for the expected type
+                # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
                 continue
 
-- 
2.43.0


From ccd2af6234c35d298e47c630129efc8a4452f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 04/49] fix: honor name mapping, optional types and default
 values when reading named tuples

---
 strong_typing/deserializer.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index b49c456..b1c1998 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -740,14 +740,31 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults", {})
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            is_optional = is_type_optional(field_type)
+
+            if is_optional:
+                required_type: type[Any] = unwrap_optional_type(field_type)
+            else:
+                required_type = field_type
+
+            parser = self.get_deserializer(required_type, context)
+
+            if field_name in field_defaults:
+                field_parser: FieldDeserializer = DefaultFieldDeserializer(
+                    property_name, field_name, parser, field_defaults[field_name]
+                )
+            elif is_optional:
+                field_parser = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From db8bfd7c17dc666b0681b1531af4bfdb941734a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 05/49] fix: dispatch tagged unions on the JSON property name

---
 strong_typing/deserializer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index b1c1998..49832e6 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -30,7 +30,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -461,10 +460,12 @@ class UnionDeserializer(RecursiveDeserializer):
 
 
 def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+    "Returns the names of all JSON properties for a class that are of a literal type."
 
     return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
+        python_field_to_json_property(field_name, field_type)
+        for field_name, field_type in get_class_properties(typ)
+        if is_type_literal(field_type)
     )
 
 
@@ -497,9 +498,11 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         self.member_parsers = {}
         for member_type in self.member_types:
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
-                if not literal_type:
-                    continue
+                literal_type = next(
+                    field_type
+                    for field_name, field_type in get_class_properties(member_type)
+                    if python_field_to_json_property(field_name, field_type) == property_name
+                )
 
                 for literal_value in unwrap_literal_values(literal_type):
                     tpl = (property_name, literal_value)
-- 
2.43.0


From b439d491b6c6209b53bf9b21e577f4a0248f7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 06/49] fix: use the mapped JSON property name in generated
 schemas

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..32ba2f5 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # rename property if an alias name is specified, or if the Python field name clashes with a reserved keyword
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From af370a917e9e1cd20ea11fbe3bd62d8cdc05ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 07/49] fix: resolve postponed annotations of data class fields
 when listing class properties

---
 strong_typing/inspection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..a98ea78 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -559,7 +559,15 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
     if is_dataclass_type(typ):
-        return ((field.name, field.type) for field in dataclasses.fields(typ))
+        fields = dataclasses.fields(typ)
+        resolved_hints: dict[str, Any] = {}
+        if any(isinstance(field.type, str) for field in fields):
+            # type annotations are strings in a module with postponed evaluation
+            try:
+                resolved_hints = get_resolved_hints(typ)
+            except NameError:
+                pass  # leave annotations as they are if a name is not available at run time
+        return ((field.name, resolved_hints.get(field.name, field.type)) for field in fields)
     else:
         resolved_hints = get_resolved_hints(typ)
         return resolved_hints.items()
-- 
2.43.0


From 98b486f0ac6256ab88ec7a47f92b635a1ce531ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:48 +0000
Subject: [PATCH 08/49] fix: honor from_json defined on enumerations and named
 tuples

---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 49832e6..d2703b0 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -1015,17 +1015,17 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # check if object has custom serialization method
+    convert_func = getattr(typ, "from_json", None)
+    if callable(convert_func):
+        return CustomDeserializer(convert_func)
+
     if issubclass(typ, enum.Enum):
         return EnumDeserializer(typ)
 
     if is_named_tuple_type(typ):
         return NamedTupleDeserializer(typ, options)
 
-    # check if object has custom serialization method
-    convert_func = getattr(typ, "from_json", None)
-    if callable(convert_func):
-        return CustomDeserializer(convert_func)
-
     if is_dataclass_type(typ):
         dataclass_params = getattr(typ, "__dataclass_params__", None)
         if dataclass_params is not None and dataclass_params.frozen:
-- 
2.43.0


From c606e763f391131c90f8619a4d2492bd099de5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 09/49] fix: key cached deserializers on type identity and
 options, never expose incomplete ones

---
 strong_typing/deserializer.py | 52 +++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index d2703b0..5c28741 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -15,6 +15,7 @@ import inspect
 import ipaddress
 import re
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -887,17 +888,24 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        # engines are shared, do not let them refer to an object that the caller may change
+        options = dataclasses.replace(options)
 
     return _get_deserializer(typ, context, options)
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+# maps a type (or a named type alias) and the options to the engine that was built for them
+_CACHE: dict[tuple[Any, ...], Deserializer] = {}
+
+# held while engines are built such that other threads never see an engine that is incomplete
+_CACHE_LOCK = threading.RLock()
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    cache_key: Optional[tuple[Any, ...]] = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
@@ -905,32 +913,40 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
         if isinstance(typ, str):
             if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
+                cache_key = (context, typ, *dataclasses.astuple(options))
         elif isinstance(typ, typing.ForwardRef):
             if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
+                cache_key = (context, typ.__forward_arg__, *dataclasses.astuple(options))
 
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        cache_key = (typ, *dataclasses.astuple(options))
 
     if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
-        if deserializer is None:
-            deserializer = _create_deserializer(typ, options)
-
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
-
-            if isinstance(typ, type):
-                # use type's own module as context for evaluating member types
-                context = sys.modules[typ.__module__]
-
-            # create any de-serializers this de-serializer is depending on
-            deserializer.build(context)
+        with _CACHE_LOCK:
+            deserializer = _CACHE.get(cache_key)
+            if deserializer is None:
+                deserializer = _create_deserializer(typ, options)
+
+                # store de-serializer immediately in cache to avoid stack overflow for recursive types
+                cache_size = len(_CACHE)
+                _CACHE[cache_key] = deserializer
+
+                if isinstance(typ, type):
+                    # use type's own module as context for evaluating member types
+                    context = sys.modules[typ.__module__]
+
+                try:
+                    # create any de-serializers this de-serializer is depending on
+                    deserializer.build(context)
+                except BaseException:
+                    # discard incomplete de-serializer, and any de-serializers that may be referring to it
+                    while len(_CACHE) > cache_size:
+                        _CACHE.popitem()
+                    raise
     else:
         # special forms are not always hashable, create a new de-serializer every time
         deserializer = _create_deserializer(typ, options)
-- 
2.43.0


From a0c6f7d3d692ee44b81458162bdc384a2031cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 10/49] fix: create serializers for self-referencing classes
 without infinite recursion

---
 strong_typing/serializer.py | 39 +++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..8297e73 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -10,10 +10,10 @@ import abc
 import base64
 import datetime
 import enum
-import functools
 import inspect
 import ipaddress
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -420,10 +420,41 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         return _create_serializer(typ, context)
 
 
-@functools.lru_cache(maxsize=None)
+class SerializerReference(Serializer):
+    "Stands for the serializer of a class while that serializer is being created, e.g. when a class refers to itself."
+
+    target: Serializer
+
+    def generate(self, data: Any) -> JsonType:
+        return self.target.generate(data)
+
+
+_CACHE: dict[type, Serializer] = {}
+
+# held while serializers are created such that other threads never see a reference without a target
+_CACHE_LOCK = threading.RLock()
+
+
 def _fetch_serializer(typ: type) -> Serializer:
-    context = sys.modules[typ.__module__]
-    return _create_serializer(typ, context)
+    with _CACHE_LOCK:
+        serializer = _CACHE.get(typ)
+        if serializer is None:
+            # store a reference immediately in cache to avoid stack overflow for recursive types
+            cache_size = len(_CACHE)
+            reference = SerializerReference()
+            _CACHE[typ] = reference
+
+            try:
+                serializer = _create_serializer(typ, sys.modules[typ.__module__])
+            except BaseException:
+                # discard reference, and any serializers that may have been created with it
+                while len(_CACHE) > cache_size:
+                    _CACHE.popitem()
+                raise
+
+            reference.target = serializer
+            _CACHE[typ] = serializer
+    return serializer
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From 1ed8546cd97556866a06351f5392ac83489410fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:01 +0000
Subject: [PATCH 11/49] fix: keep the evaluation context when creating a
 serializer for an annotated type

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8297e73..545ab1c 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -521,7 +521,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From 2bf866c037de8f3d934a682582a9290d741688ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 12/49] fix: resolve forward references between classes in
 generated schemas

---
 strong_typing/inspection.py | 12 +++++-------
 strong_typing/schema.py     | 23 ++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index a98ea78..57043ba 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -560,13 +560,11 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
 
     if is_dataclass_type(typ):
         fields = dataclasses.fields(typ)
-        resolved_hints: dict[str, Any] = {}
-        if any(isinstance(field.type, str) for field in fields):
-            # type annotations are strings in a module with postponed evaluation
-            try:
-                resolved_hints = get_resolved_hints(typ)
-            except NameError:
-                pass  # leave annotations as they are if a name is not available at run time
+        try:
+            # evaluate forward references and postponed annotations in the context of the defining class
+            resolved_hints = get_resolved_hints(typ)
+        except NameError:
+            resolved_hints = {}  # leave annotations as they are if a name is not available at run time
         return ((field.name, resolved_hints.get(field.name, field.type)) for field in fields)
     else:
         resolved_hints = get_resolved_hints(typ)
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 32ba2f5..d5e842e 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -185,6 +185,7 @@ class JsonSchemaGenerator:
     type_catalog: ClassVar[TypeCatalog] = TypeCatalog()
     types_used: dict[str, TypeLike]
     options: SchemaOptions
+    _types_nested: list[TypeLike]
 
     def __init__(self, options: Optional[SchemaOptions] = None):
         if options is None:
@@ -192,6 +193,7 @@ class JsonSchemaGenerator:
         else:
             self.options = options
         self.types_used = {}
+        self._types_nested = []
 
     @functools.singledispatchmethod
     def _metadata_to_schema(self, arg: object) -> Schema:
@@ -424,6 +426,21 @@ class JsonSchemaGenerator:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
             return {"const": self.type_to_schema(concrete_type, force_expand=True)}
 
+        # class that refers to itself without being registered
+        if typ in self._types_nested:
+            identifier = id_from_ref(typ)
+            self.types_used.setdefault(identifier, typ)
+            return {"$ref": f"{self.options.definitions_path}{identifier}"}
+
+        self._types_nested.append(typ)
+        try:
+            return self._class_to_schema(typ)
+        finally:
+            self._types_nested.pop()
+
+    def _class_to_schema(self, typ: Any) -> Schema:
+        "Returns the JSON schema associated with a class with properties."
+
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
@@ -470,7 +487,7 @@ class JsonSchemaGenerator:
 
             properties[output_name] = property_def
 
-        schema = {"type": "object"}
+        schema: Schema = {"type": "object"}
         if len(properties) > 0:
             schema["properties"] = typing.cast(JsonType, properties)
             schema["additionalProperties"] = False
@@ -488,6 +505,10 @@ class JsonSchemaGenerator:
         :returns: The JSON schema associated with the type.
         """
 
+        if data_type not in JsonSchemaGenerator.type_catalog:
+            # class that refers to itself without being registered
+            return self.type_to_schema(data_type)
+
         entry = JsonSchemaGenerator.type_catalog.get(data_type)
         if entry.schema is None:
             type_schema = self.type_to_schema(data_type, force_expand=True)
-- 
2.43.0


From 5e986a320e9e228638074cdf37da726b9206145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 13/49] fix: reference registered types in schemas when they
 are annotated

---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index d5e842e..087e98c 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -320,6 +320,10 @@ class JsonSchemaGenerator:
                 else:
                     return self._with_metadata(schema, metadata)
 
+            if not force_expand and typ in type_catalog:
+                # annotated user-defined type
+                return self.type_to_schema(typ)
+
         else:
             # type is a regular type
             typ = data_type
-- 
2.43.0


From 7ef7d7f229308c698956281cf8da2f24e19b6e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 14/49] fix: generate schemas for optional types outside of
 class properties

---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 087e98c..ce57e6f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -377,6 +377,10 @@ class JsonSchemaGenerator:
         if is_type_union(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
+        if is_type_optional(typ):
+            # optional type in a position where it cannot be expressed as a property that is not required
+            return {"oneOf": [self.type_to_schema(member_type) for member_type in typing.get_args(typ)]}
+
         origin_type = typing.get_origin(typ)
         if origin_type is list:
             (list_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From a9f012d32e20da9ad98d03a5222cc15016b89556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 15/49] fix: generate schemas for literal types with several
 values

---
 strong_typing/schema.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index ce57e6f..f50172a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -29,6 +29,7 @@ from .inspection import (
     is_type_like,
     is_type_optional,
     is_type_union,
+    unwrap_literal_values,
     unwrap_optional_type,
     unwrap_union_types,
 )
@@ -426,9 +427,13 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_values = unwrap_literal_values(typ)
+            (literal_type,) = set(type(value) for value in literal_values)  # values must be of the same type
+            schema = self.type_to_schema(literal_type)
+            if len(literal_values) == 1:
+                schema["const"] = literal_values[0]
+            else:
+                schema["enum"] = list(literal_values)
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From 7e0223d075890362bdc034a367cffdb87ea315fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 16/49] fix: generate schemas for IP address types

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index f50172a..31d162c 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -263,6 +264,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From c1c8f6e44a18e551a2f2285a0d32fc699535fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 17/49] fix: escape enumeration values in property name
 patterns

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 31d162c..e3bdbfc 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -404,7 +405,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(value) for value in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From c0a7358c459b96e63128651cb6886bffeebe5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 18/49] fix: do not share mutable objects between schemas and
 the type catalog

---
 strong_typing/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index e3bdbfc..af111b4 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -410,7 +410,7 @@ class JsonSchemaGenerator:
                     }
                 else:
                     dict_schema = {
-                        "properties": {value: value_schema for value in enum_values},
+                        "properties": {value: deepcopy(value_schema) for value in enum_values},
                         "additionalProperties": False,
                     }
             else:
@@ -543,7 +543,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From 75f4046937efe1e2ea41843b1dc91b79cbc3699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:42 +0000
Subject: [PATCH 19/49] fix: evaluate types passed to json_to_object in the
 module of the caller

---
 strong_typing/serialization.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/strong_typing/serialization.py b/strong_typing/serialization.py
index 218781c..86501c0 100644
--- a/strong_typing/serialization.py
+++ b/strong_typing/serialization.py
@@ -20,6 +20,23 @@ from .serializer import create_serializer
 T = TypeVar("T")
 
 
+def _get_caller_module() -> Optional[ModuleType]:
+    "The module of the code that called the function from which this function is called."
+
+    frame = inspect.currentframe()
+    try:
+        # skip this function and the function that is interested in its caller
+        for _ in range(2):
+            if frame is not None:
+                frame = frame.f_back
+
+        if frame is None:
+            return None
+        return sys.modules.get(frame.f_globals.get("__name__", ""))
+    finally:
+        del frame
+
+
 def object_to_json(obj: Any) -> JsonType:
     """
     Converts a Python object to a representation that can be exported to JSON.
@@ -65,6 +82,10 @@ def json_to_object(
     :raises JsonTypeError: Deserialization for data has failed due to a type mismatch.
     """
 
+    # use caller context for evaluating types if no context is supplied
+    if context is None:
+        context = _get_caller_module()
+
     return typing.cast(T, json_to_generic(typ, data, context=context, options=options))
 
 
@@ -84,16 +105,7 @@ def json_to_generic(
 
     # use caller context for evaluating types if no context is supplied
     if context is None:
-        this_frame = inspect.currentframe()
-        if this_frame is not None:
-            caller_frame = this_frame.f_back
-            del this_frame
-
-            if caller_frame is not None:
-                try:
-                    context = sys.modules[caller_frame.f_globals["__name__"]]
-                finally:
-                    del caller_frame
+        context = _get_caller_module()
 
     parser = create_deserializer(typ, context, options=options)
     return parser.parse(data)
-- 
2.43.0


From bac558aa91e497b385030f0a8932379bb1cdca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:04 +0000
Subject: [PATCH 20/49] fix: evaluate forward references in annotated types
 when de-serializing

---
 strong_typing/deserializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 5c28741..48beb50 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -907,6 +907,10 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
     cache_key: Optional[tuple[Any, ...]] = None
 
+    # an annotated type may wrap a forward reference, e.g. `Annotated["MyType", "annotation"]`
+    if is_type_annotated(typ):
+        typ = unwrap_annotated_type(typ)
+
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
-- 
2.43.0


From 426e43abe0b1ab8d7b5cc4e96efe9aef254cad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 21/49] fix: recognize annotated named tuple types

---
 strong_typing/inspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 57043ba..275d335 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -188,11 +188,11 @@ def is_named_tuple_type(typ: Any) -> TypeGuard[type[NamedTuple]]:
     with a member named `_fields` that is a tuple whose items are all strings.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if not isinstance(typ, type):
         return False
 
-    typ = unwrap_annotated_type(typ)
-
     b = getattr(typ, "__bases__", None)
     if b is None:
         return False
-- 
2.43.0


From b0d556c0bd8466cce583fb77b6ce2580eee595c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 22/49] fix: extract member types of annotated union types

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 275d335..f5e1c2d 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -342,7 +342,7 @@ def unwrap_union_types(typ: object) -> tuple[object, ...]:
     :returns: The inner types `T1`, `T2`, etc.
     """
 
-    return _unwrap_union_types(typ)
+    return _unwrap_union_types(unwrap_annotated_type(typ))
 
 
 def _unwrap_union_types(typ: object) -> tuple[object, ...]:
-- 
2.43.0


From 7fb7826da8a700d1e41612148ac256bc7bb68025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 23/49] fix: collect references of inherited fields in the
 context of the defining class

---
 strong_typing/inspection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index f5e1c2d..46d9b96 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -703,8 +703,9 @@ class TypeCollector:
         if is_dataclass_type(typ) or is_type_enum(typ) or isinstance(typ, type):
             context = sys.modules[typ.__module__]
             if is_dataclass_type(typ):
-                for field in dataclass_fields(typ):
-                    self.run(field.type, typ, context)
+                # evaluates inherited fields in the context of the class in which they are defined
+                for _, field_type in get_class_properties(typ):
+                    self.run(field_type, typ, context)
             else:
                 for _, field_type in get_resolved_hints(typ).items():
                     self.run(field_type, typ, context)
-- 
2.43.0


From 3a43531752e01aec62d2c472308ff64fbf5b2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 24/49] fix: support unions, literals, annotated types and
 tuple length in is_generic_instance

---
 strong_typing/inspection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 46d9b96..ab9d2ba 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -843,6 +843,8 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         else:
             return False
 
+    typ = unwrap_annotated_type(typ)
+
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
@@ -867,7 +869,7 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         set_obj: set = obj
         return all(is_generic_instance(item, set_member_type) for item in set_obj)
     elif origin_type is tuple:
-        if not isinstance(obj, tuple):
+        if not isinstance(obj, tuple) or len(obj) != len(typing.get_args(typ)):
             return False
         return all(
             is_generic_instance(item, tuple_item_type)
@@ -876,8 +878,10 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
                 (item for item in obj),
             )
         )
-    elif origin_type is Union:
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
+    elif origin_type is Literal:
+        return any(type(obj) is type(value) and obj == value for value in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
     else:
-- 
2.43.0


From 8b5fce18ad31ea0e25d9e561615db63c10b70497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:20 +0000
Subject: [PATCH 25/49] fix: check members with union, literal, annotated and
 IP address types recursively

---
 strong_typing/inspection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index ab9d2ba..97475f6 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -13,6 +13,7 @@ import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -915,6 +916,8 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        typ = unwrap_annotated_type(typ)
+
         # check for well-known types
         if (
             typ is type(None)
@@ -928,6 +931,8 @@ class RecursiveChecker:
             or typ is datetime.time
             or typ is datetime.timedelta
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
         ):
             return self.pred(typing.cast(type, typ), obj)
 
@@ -961,7 +966,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif origin_type is Union:
+        elif _is_union_like(typ) or origin_type is Literal:
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 7db6cf6d7f2c622bb6c7a4e2a3faf296f2f6bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 26/49] fix: accept iterators in type_topological_sort

---
 strong_typing/topological.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..62ad27f 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -65,6 +65,7 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)  # may be an iterator that can be consumed only once
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
-- 
2.43.0


From 314f5d22b90d88e7618ebe8eb645be5ef3fb0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:15 +0000
Subject: [PATCH 27/49] fix: retain references and follow dependencies in
 type_topological_sort

---
 strong_typing/topological.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 62ad27f..78c564c 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -74,12 +74,21 @@ def type_topological_sort(
     graph = collector.graph
 
     if dependency_fn:
-        new_types: set[type] = set()
-        for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
-            references.update(dependent_types)
-            new_types.update(dependent_types)
-        for new_type in new_types:
-            graph[new_type] = set()
+        visited: set[type] = set([_ROOT])
+        while len(visited) < len(graph):
+            new_types: set[type] = set()
+            for source_type, references in graph.items():
+                if source_type in visited:
+                    continue
+                visited.add(source_type)
+                dependent_types = list(dependency_fn(source_type))
+                references.update(dependent_types)
+                new_types.update(dependent_types)
+
+            # collect references of dependencies, retain references of types that are already in the graph
+            collector.traverse_all(new_types)
+
+    # omit the placeholder to which types passed as an argument are attached
+    del graph[_ROOT]
 
     return topological_sort(graph)
-- 
2.43.0


From cc15988d8db1c6a7bf754171e66b88220af8053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 28/49] fix: use unbounded integer type for ranges that exceed
 64 bits

---
 strong_typing/classdef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..0f2baec 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -134,8 +134,10 @@ def integer_range_to_type(min_value: float, max_value: float) -> type:
         return int16
     elif min_value >= -(2**31) and max_value < 2**31:
         return int32
-    else:
+    elif min_value >= -(2**63) and max_value < 2**63:
         return int64
+    else:
+        return int
 
 
 def enum_safe_name(name: str) -> str:
-- 
2.43.0


From 4d8cd3216bb423cb30038b01bc954c76ee39d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 29/49] fix: do not assign a module to types not created by
 schema_to_type

---
 strong_typing/classdef.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 0f2baec..6fc6080 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -182,7 +182,6 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
-- 
2.43.0


From ea98f3d78e0adcad59e73df4694f81f3dfc8f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 30/49] fix: allow references to definitions that come later in
 a schema

---
 strong_typing/classdef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 6fc6080..f85f978 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -207,6 +207,9 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             raise ValueError(f"invalid reference: {node.ref}")
 
         type_name = match_obj.group(1)
+        if not hasattr(module, type_name):
+            # type is defined later, or refers to itself
+            return TypeDef(typing.ForwardRef(type_name), dataclasses.MISSING)
         return TypeDef(getattr(module, type_name), dataclasses.MISSING)
 
     elif isinstance(node, JsonSchemaBoolean):
-- 
2.43.0


From 090268b206350822f0ec3c72d2efebc1b528c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 31/49] fix: retain all values when creating an enumeration
 from a schema

---
 strong_typing/classdef.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index f85f978..51f9f13 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -144,11 +144,24 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    is_invalid = name in ["", "mro"]
+    if is_dunder or is_sunder or is_invalid:  # provide an alternative for dunder, sunder and reserved names
         name = f"v{name}"
     return name
 
 
+def enum_safe_members(values: list[str]) -> dict[str, str]:
+    "Assigns a unique name to each value of an enumeration."
+
+    members: dict[str, str] = {}
+    for value in values:
+        name = enum_safe_name(value)
+        while name in members:  # different values may map to the same name
+            name = f"v{name}"
+        members[name] = value
+    return members
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -301,7 +314,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_safe_members(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From a666d938d094834b58f99b5a9a2e6c7cd6f4181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 32/49] fix: print the long description of a docstring without
 short description

---
 strong_typing/docstring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 8871b93..ad14978 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -134,6 +134,8 @@ class Docstring:
             return f"{self.short_description}\n\n{self.long_description}"
         elif self.short_description:
             return self.short_description
+        elif self.long_description:
+            return self.long_description
         else:
             return None
 
@@ -150,6 +152,8 @@ class Docstring:
                 output.write(self.long_description)
             elif self.short_description:
                 output.write(self.short_description)
+            elif self.long_description:
+                output.write(self.long_description)
 
         if has_blocks:
             if has_description:
-- 
2.43.0


From 920de72381d84106905dc9874dc7857ea6ff5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 33/49] fix: produce names for nested composite types when
 forced

---
 strong_typing/name.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..75d1c83 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -240,7 +240,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     if metadata is not None:
         # type is Annotated[T, ...]
         arg = typing.get_args(data_type)[0]
-        return python_type_to_name(arg)
+        return python_type_to_name(arg, force=force)
 
     if force:
         # generic types
@@ -250,34 +250,36 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
 
             if origin is dict:  # dict[K, V]
                 (key_type, value_type) = data_type_args
-                key_name = python_type_to_name(key_type)
-                value_name = python_type_to_name(value_type)
+                key_name = python_type_to_name(key_type, force=force)
+                value_name = python_type_to_name(value_type, force=force)
                 return f"Dict__{key_name}__{value_name}"
             elif origin is list:  # list[T]
                 (list_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(list_type)
+                item_name = python_type_to_name(list_type, force=force)
                 return f"List__{item_name}"
             elif origin is set:  # set[T]
                 (set_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(set_type)
+                item_name = python_type_to_name(set_type, force=force)
                 return f"Set__{item_name}"
             elif origin is frozenset:  # frozenset[T]
                 (set_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(set_type)
+                item_name = python_type_to_name(set_type, force=force)
                 return f"FrozenSet__{item_name}"
             elif origin is tuple:  # tuple[T]
-                member_names = "__".join(python_type_to_name(member_type) for member_type in data_type_args)
+                member_names = "__".join(
+                    python_type_to_name(member_type, force=force) for member_type in data_type_args
+                )
                 return f"Tuple__{member_names}"
             elif origin is type:  # type[T]
                 (type_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(type_type)
+                item_name = python_type_to_name(type_type, force=force)
                 return f"Type__{item_name}"
             elif is_type_optional(data_type, strict=True):
-                inner_name = python_type_to_name(unwrap_optional_type(data_type))
+                inner_name = python_type_to_name(unwrap_optional_type(data_type), force=force)
                 return f"Optional__{inner_name}"
             elif is_type_union(data_type):
                 member_types = unwrap_union_types(data_type)
-                member_names = "__".join(python_type_to_name(member_type) for member_type in member_types)
+                member_names = "__".join(python_type_to_name(member_type, force=force) for member_type in member_types)
                 return f"Union__{member_names}"
 
     # named system or user-defined type
-- 
2.43.0


From d141e27903aa9c69126b0b54c12ba47474dc6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 34/49] fix: no stray comma when an auxiliary type has its
 annotations reordered or repeated

---
 strong_typing/name.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 75d1c83..638b8c4 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -201,6 +201,9 @@ class TypeFormatter:
                 if metaset.issuperset(auxiliary_metatuple):
                     # type is an auxiliary type with extra annotations
                     auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                    if not auxiliary_args:
+                        # same annotations, in a different order or repeated
+                        return auxiliary_name
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
-- 
2.43.0


From c6e65469743001e5e9e0c2248c020d1db752e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 35/49] fix: accept annotations that are not hashable when
 generating schemas and type names

---
 strong_typing/auxiliary.py | 6 +++++-
 strong_typing/name.py      | 9 ++++-----
 strong_typing/schema.py    | 6 +++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index f112c8e..8456f20 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -211,4 +211,8 @@ for var in dir(module):
 def get_auxiliary_format(data_type: object) -> Optional[str]:
     "Returns the JSON format string corresponding to an auxiliary type."
 
-    return _auxiliary_types.get(data_type)
+    try:
+        return _auxiliary_types.get(data_type)
+    except TypeError:
+        # type has annotations that are not hashable
+        return None
diff --git a/strong_typing/name.py b/strong_typing/name.py
index 638b8c4..1e6119b 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -9,7 +9,7 @@ import typing
 from types import ModuleType
 from typing import Any, Callable, Literal, Optional
 
-from .auxiliary import ParamSpec, _auxiliary_types
+from .auxiliary import ParamSpec, _auxiliary_types, get_auxiliary_format
 from .inspection import (
     TypeLike,
     evaluate_type,
@@ -177,7 +177,7 @@ class TypeFormatter:
             return f"[{items}]"
 
         # use compact name for alias types
-        name = _auxiliary_types.get(data_type)
+        name = get_auxiliary_format(data_type)
         if name is not None:
             return name
 
@@ -188,7 +188,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -198,7 +197,7 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
+                if all(m in metatuple for m in auxiliary_metatuple):
                     # type is an auxiliary type with extra annotations
                     auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
                     if not auxiliary_args:
@@ -234,7 +233,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     """
 
     # use compact name for alias types
-    name = _auxiliary_types.get(data_type)
+    name = get_auxiliary_format(data_type)
     if name is not None:
         return name
 
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index af111b4..784c5bc 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -143,7 +143,11 @@ class TypeCatalog:
             name = fwd.__forward_arg__
             return name in self._by_name
         else:
-            return data_type in self._by_type
+            try:
+                return data_type in self._by_type
+            except TypeError:
+                # type has annotations that are not hashable
+                return False
 
     def add(
         self,
-- 
2.43.0


From d1862c33c9d328d647070745be43ca3f8ecdcc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 36/49] fix: print annotated None and annotated Any like None
 and Any

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 1e6119b..fdfd732 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -207,7 +207,7 @@ class TypeFormatter:
 
             # type is an annotated type
             args = ", ".join(repr(m) for m in metatuple)
-            return f"Annotated[{self.plain_type_to_str(arg)}, {args}]"
+            return f"Annotated[{self.python_type_to_str(arg)}, {args}]"
         else:
             # type is a regular type
             return self.plain_type_to_str(data_type)
-- 
2.43.0


From d6184907c6755ff84e52993882a7b96d214d002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 37/49] fix: recognize annotated classes as members of a tagged
 union

---
 strong_typing/deserializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 48beb50..1191fe7 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -473,6 +473,7 @@ def get_literal_properties(typ: type) -> set[str]:
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
     "Returns a set of properties with literal type that are common across all specified classes."
 
+    types = tuple(unwrap_annotated_type(typ) for typ in types)
     if not types or not all(isinstance(typ, type) for typ in types):
         return set()
 
@@ -501,7 +502,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             for property_name in self.disambiguating_properties:
                 literal_type = next(
                     field_type
-                    for field_name, field_type in get_class_properties(member_type)
+                    for field_name, field_type in get_class_properties(unwrap_annotated_type(member_type))
                     if python_field_to_json_property(field_name, field_type) == property_name
                 )
 
-- 
2.43.0


From e6fc1fe659336ea120d37a599086a8dbcdbf37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 38/49] fix: accept annotated key types in dictionaries

---
 strong_typing/deserializer.py | 2 +-
 strong_typing/schema.py       | 2 ++
 strong_typing/serializer.py   | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 1191fe7..e6a17ad 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -324,7 +324,7 @@ class DictDeserializer(RecursiveDeserializer[dict[K, V]]):
 
     def __init__(self, key_type: type[K], value_type: type[V], options: DeserializerOptions) -> None:
         super().__init__(options)
-        self.key_type = key_type
+        self.key_type = unwrap_annotated_type(key_type)
         self.value_type = value_type
         self._check_key_type()
 
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 784c5bc..17dd48f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -31,6 +31,7 @@ from .inspection import (
     is_type_like,
     is_type_optional,
     is_type_union,
+    unwrap_annotated_type,
     unwrap_literal_values,
     unwrap_optional_type,
     unwrap_union_types,
@@ -400,6 +401,7 @@ class JsonSchemaGenerator:
             return {"type": "array", "items": self.type_to_schema(list_type)}
         elif origin_type is dict:
             key_type, value_type = typing.get_args(typ)
+            key_type = unwrap_annotated_type(key_type)
             if not (key_type is str or key_type is int or is_type_enum(key_type)):
                 raise ValueError("`dict` with key type not coercible to `str` is not supported")
 
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 545ab1c..c7ba948 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -506,6 +506,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return TypedListSerializer(list_item_type, context)
     elif origin_type is dict:
         key_type, value_type = typing.get_args(typ)
+        key_type = unwrap_annotated_type(key_type)
         if key_type is str:
             return TypedStringDictSerializer(value_type, context)
         elif issubclass(key_type, enum.Enum):
-- 
2.43.0


From d0e625d694b2b144231c55eadba39e855159db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 39/49] fix: accept docstrings with a line that starts with a
 colon but is not a field

---
 strong_typing/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index ad14978..263fa42 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -282,7 +282,7 @@ def parse_text(text: str) -> Docstring:
         if not chunk:
             continue
 
-        args_chunk, desc_chunk = chunk.lstrip(":").split(":", 1)
+        args_chunk, _, desc_chunk = chunk.lstrip(":").partition(":")
         args = args_chunk.split()
         desc = re.sub(r"\s+", " ", desc_chunk.strip())
 
-- 
2.43.0


From b55a0a661f3174da3e6aebc23b37f25f9995ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:14 +0000
Subject: [PATCH 40/49] fix: accept time values in Zulu time zone on Python 3.9
 and 3.10

---
 strong_typing/deserializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index e6a17ad..3f748ae 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -195,6 +195,8 @@ class TimeDeserializer(Deserializer[datetime.time]):
         if not isinstance(data, str):
             raise JsonTypeError(f"`time` type expects JSON `string` data but instead received: {data}")
 
+        if data.endswith("Z"):
+            data = f"{data[:-1]}+00:00"  # supported by `fromisoformat` only as of Python 3.11
         try:
             return datetime.time.fromisoformat(data)
         except ValueError as e:
-- 
2.43.0


From 164f5a8815be17c29d24dfdf5e5e83393e2a56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 41/49] fix: resolve inherited data class field types in the
 module of the defining class

---
 strong_typing/inspection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 97475f6..da514ee 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -161,16 +161,18 @@ class DataclassField:
 def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
+    properties = dict(get_class_properties(cls))
     for field in dataclasses.fields(cls):
-        yield DataclassField(field.name, evaluate_member_type(field.type, cls), field.default)
+        yield DataclassField(field.name, evaluate_member_type(properties[field.name], cls), field.default)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
     "Looks up a field in a data-class by its field name."
 
+    properties = dict(get_class_properties(cls))
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, cls))
+            return DataclassField(field.name, evaluate_member_type(properties[field.name], cls))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 5f18a829e1be80b06ed4c614b318a35e70594a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 42/49] fix: keep the default value in dataclass_field_by_name

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index da514ee..d93fc8a 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -172,7 +172,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
     properties = dict(get_class_properties(cls))
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(properties[field.name], cls))
+            return DataclassField(field.name, evaluate_member_type(properties[field.name], cls), field.default)
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From df17ebe3c965094a93ee3ba4942ca04da9050012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 43/49] fix: coerce enumeration values to string when used as
 keys of an untyped dictionary

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index c7ba948..09583ba 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -177,7 +177,7 @@ class UntypedListSerializer(Serializer[list]):
 class UntypedDictSerializer(Serializer[dict]):
     def generate(self, obj: dict) -> dict[str, JsonType]:
         if obj and isinstance(next(iter(obj.keys())), enum.Enum):
-            iterator = ((key.value, object_to_json(value)) for key, value in obj.items())
+            iterator = ((str(key.value), object_to_json(value)) for key, value in obj.items())
         else:
             iterator = ((str(key), object_to_json(value)) for key, value in obj.items())
         return dict(iterator)
-- 
2.43.0


From 10181ff7c94f03ae55c657d37ec60af254a76500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 44/49] fix: look through annotations of a forward reference in
 is_generic_instance

---
 strong_typing/inspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index d93fc8a..b1d00aa 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -837,6 +837,8 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     :param typ: The expected type of the object.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if isinstance(typ, typing.ForwardRef):
         fwd: typing.ForwardRef = typ
         identifier = fwd.__forward_arg__
@@ -846,8 +848,6 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         else:
             return False
 
-    typ = unwrap_annotated_type(typ)
-
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
-- 
2.43.0


From f32f6220f8bfe9aa6eeb868f1a40eb6329a8568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 45/49] fix: de-serialize frozen data classes with fields
 excluded from the initializer

---
 strong_typing/deserializer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 3f748ae..6e5e3e6 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -830,8 +830,13 @@ class FrozenDataclassDeserializer(DataclassDeserializer[T]):
         # create object instance without calling `__init__`
         obj: T = create_object(self.class_type)
 
+        # fields declared with `init=False` are not parameters of `__init__`
+        extra_values = {f.name: field_values.pop(f.name) for f in dataclasses.fields(self.class_type) if not f.init}
+
         # can't use `setattr` on frozen dataclasses, pass member variable values to `__init__`
         obj.__init__(**field_values)  # type: ignore
+        for field_name, field_value in extra_values.items():
+            object.__setattr__(obj, field_name, field_value)
         return obj
 
 
-- 
2.43.0


From 576427e4f91776303c7397b0027b13bb453af01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 46/49] fix: encode type aliases that refer to themselves

---
 strong_typing/serializer.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 09583ba..b4cc612 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -411,10 +411,14 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
+        alias = (context, typ if isinstance(typ, str) else typ.__forward_arg__)
         typ = evaluate_type(typ, context)
+        if not isinstance(typ, type) or typing.get_origin(typ) is not None:
+            # a named type alias may refer to itself, e.g. `Tree = dict[str, "Tree"]`
+            return _fetch_serializer(typ, context, alias)
 
     if isinstance(typ, type):
-        return _fetch_serializer(typ)
+        return _fetch_serializer(typ, sys.modules[typ.__module__], typ)
     else:
         # special forms are not always hashable
         return _create_serializer(typ, context)
@@ -429,23 +433,25 @@ class SerializerReference(Serializer):
         return self.target.generate(data)
 
 
-_CACHE: dict[type, Serializer] = {}
+_CACHE: dict[Union[type, tuple[ModuleType, str]], Serializer] = {}
 
 # held while serializers are created such that other threads never see a reference without a target
 _CACHE_LOCK = threading.RLock()
 
 
-def _fetch_serializer(typ: type) -> Serializer:
+def _fetch_serializer(
+    typ: TypeLike, context: ModuleType, cache_key: Union[type, tuple[ModuleType, str]]
+) -> Serializer:
     with _CACHE_LOCK:
-        serializer = _CACHE.get(typ)
+        serializer = _CACHE.get(cache_key)
         if serializer is None:
             # store a reference immediately in cache to avoid stack overflow for recursive types
             cache_size = len(_CACHE)
             reference = SerializerReference()
-            _CACHE[typ] = reference
+            _CACHE[cache_key] = reference
 
             try:
-                serializer = _create_serializer(typ, sys.modules[typ.__module__])
+                serializer = _create_serializer(typ, context)
             except BaseException:
                 # discard reference, and any serializers that may have been created with it
                 while len(_CACHE) > cache_size:
@@ -453,7 +459,11 @@ def _fetch_serializer(typ: type) -> Serializer:
                 raise
 
             reference.target = serializer
-            _CACHE[typ] = serializer
+            if isinstance(cache_key, type):
+                _CACHE[cache_key] = serializer
+            else:
+                # the same name may stand for another type later
+                del _CACHE[cache_key]
     return serializer
 
 
-- 
2.43.0


From 9334e491aa6891b63df4cb66ca4e28c2302947fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:49 +0000
Subject: [PATCH 47/49] fix: resolve forward references that are named like a
 local variable of evaluate_type

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index b1d00aa..aac903d 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -107,21 +107,21 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
 
     if isinstance(typ, str):
         # evaluate data-class field whose type annotation is a string
-        return eval(typ, module.__dict__, locals())
+        return eval(typ, module.__dict__)
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
         elif sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 type_params=(),
                 recursive_guard=frozenset(),
             )
         else:
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 recursive_guard=frozenset(),
             )
     else:
-- 
2.43.0


From 4ec6b2dbc029b011924d032f509026e0277998c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:33 +0000
Subject: [PATCH 48/49] fix: do not reuse a de-serializer for a type alias once
 its name stands for another type

---
 strong_typing/deserializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6e5e3e6..58ea193 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -959,6 +959,10 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
                     while len(_CACHE) > cache_size:
                         _CACHE.popitem()
                     raise
+
+                if typing.get_origin(typ) is not None:
+                    # the same name may stand for another type later
+                    del _CACHE[cache_key]
     else:
         # special forms are not always hashable, create a new de-serializer every time
         deserializer = _create_deserializer(typ, options)
-- 
2.43.0


From e6a6800220b146225ceea8524c7e76236fd3696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:31 +0000
Subject: [PATCH 49/49] fix: do not take builtin generics for classes on Python
 3.9 and 3.10, where isinstance(list[int], type) holds

---
 strong_typing/deserializer.py | 6 +++---
 strong_typing/name.py         | 6 +++++-
 strong_typing/serializer.py   | 4 ++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 58ea193..3316563 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -476,7 +476,7 @@ def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
     "Returns a set of properties with literal type that are common across all specified classes."
 
     types = tuple(unwrap_annotated_type(typ) for typ in types)
-    if not types or not all(isinstance(typ, type) for typ in types):
+    if not types or not all(isinstance(typ, type) and typing.get_origin(typ) is None for typ in types):
         return set()
 
     props = get_literal_properties(types[0])
@@ -891,7 +891,7 @@ def create_deserializer(
     """
 
     if context is None:
-        if isinstance(typ, type):
+        if isinstance(typ, type) and typing.get_origin(typ) is None:
             context = sys.modules[typ.__module__]
 
     if options is None:
@@ -947,7 +947,7 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
                 cache_size = len(_CACHE)
                 _CACHE[cache_key] = deserializer
 
-                if isinstance(typ, type):
+                if isinstance(typ, type) and typing.get_origin(typ) is None:
                     # use type's own module as context for evaluating member types
                     context = sys.modules[typ.__module__]
 
diff --git a/strong_typing/name.py b/strong_typing/name.py
index fdfd732..2c3516e 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -220,7 +220,11 @@ def python_type_to_str(data_type: TypeLike, *, use_union_operator: bool = False)
     :param use_union_operator: Whether to emit union types as `X | Y` as per PEP 604.
     """
 
-    context = sys.modules[data_type.__module__] if isinstance(data_type, type) else None
+    context = (
+        sys.modules[data_type.__module__]
+        if isinstance(data_type, type) and typing.get_origin(data_type) is None
+        else None
+    )
     fmt = TypeFormatter(context=context, use_union_operator=use_union_operator)
     return fmt.python_type_to_str(data_type)
 
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index b4cc612..e2acc8b 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -400,7 +400,7 @@ def create_serializer(typ: TypeLike, context: Optional[ModuleType] = None) -> Se
     """
 
     if context is None:
-        if isinstance(typ, type):
+        if isinstance(typ, type) and typing.get_origin(typ) is None:
             context = sys.modules[typ.__module__]
 
     return _get_serializer(typ, context)
@@ -417,7 +417,7 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
             # a named type alias may refer to itself, e.g. `Tree = dict[str, "Tree"]`
             return _fetch_serializer(typ, context, alias)
 
-    if isinstance(typ, type):
+    if isinstance(typ, type) and typing.get_origin(typ) is None:
         return _fetch_serializer(typ, sys.modules[typ.__module__], typ)
     else:
         # special forms are not always hashable
-- 
2.43.0

