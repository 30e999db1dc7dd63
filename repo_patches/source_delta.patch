From adc7512a37d75990a853c38cd6657874c665fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:50 +0000
Subject: [PATCH 01/64] fix: a name assigned in another letter case replaces
 the existing attribute

Previously both spellings were kept and exported by to_dict().
---
 src/data/container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..f835907 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,7 +123,7 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
-                self._lower_case_to_original[key.lower()] = key
+                key = self._lower_case_to_original.setdefault(key.lower(), key)
                 if isinstance(value, Dict):
                     self._data[key] = SCIMDataContainer(value)
                 elif isinstance(value, List):
@@ -173,8 +173,8 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
-            self._data[attr_rep.attr] = value
+            key = self._lower_case_to_original.setdefault(attr_rep.attr.lower(), attr_rep.attr)
+            self._data[key] = value
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
-- 
2.43.0


From 15858de53befa94b2e977c45e87087fcfac1c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:53 +0000
Subject: [PATCH 02/64] fix: assigning an extension attribute finds the
 extension in any letter case

---
 src/data/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index f835907..67a3fb6 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -144,9 +144,10 @@ class SCIMDataContainer:
         if attr_rep.extension:
             extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
             if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+                extension_key = attr_rep.schema
+                self._lower_case_to_original[extension_key.lower()] = extension_key
+                self._data[extension_key] = SCIMDataContainer()
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
-- 
2.43.0


From f599c0ac150bf628ab38949fd8345cf3ee964690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 03/64] fix: reading or deleting below a non-object value does
 not raise

Extension data or list items which are not objects have no sub-attributes.
---
 src/data/container.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 67a3fb6..a103d12 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -183,6 +183,8 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
+            if not isinstance(self._data[extension], SCIMDataContainer):
+                return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
@@ -194,7 +196,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
@@ -204,6 +211,8 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
+            if not isinstance(self._data[extension], SCIMDataContainer):
+                return
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
 
@@ -217,7 +226,8 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
-- 
2.43.0


From 544494d90b2231a83efb73b3eab87c9d9adc613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 04/64] fix: resource data is equal only to data with the same
 attributes

Equality compared one side's attributes only, and looked names up as
attribute references, so data with a schema extension was not equal to itself.
---
 src/data/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index a103d12..eb99787 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -282,8 +282,11 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
+        if self._lower_case_to_original.keys() != other._lower_case_to_original.keys():
+            return False
+
         for key, value in self._data.items():
-            if other[key] != value:
+            if other._data[other._lower_case_to_original[key.lower()]] != value:
                 return False
 
         return True
-- 
2.43.0


From c9ccdd7fe1d5d3106f2da57985f0cec34f62d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:46 +0000
Subject: [PATCH 05/64] fix: merging a non-blocking issue does not block
 processing

---
 src/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..0201641 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,8 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            if other_location in issues._stop_proceeding:
+                self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
 
     def add(
         self,
-- 
2.43.0


From bef91e08ab50a56257113da4677a7624d8c5ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:49 +0000
Subject: [PATCH 06/64] fix: extracted issues are an independent collection

The extract shared its lists with the source and could not be added to or
merged into without a KeyError.
---
 src/error.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/error.py b/src/error.py
index 0201641..4890bc7 100644
--- a/src/error.py
+++ b/src/error.py
@@ -328,16 +328,12 @@ class ValidationIssues:
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]].extend(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]].update(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
-- 
2.43.0


From cd1b59cc2847319229b07e57d3ed42e7988b3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:51 +0000
Subject: [PATCH 07/64] fix: popping issues removes and returns every issue of
 the code and no other

The list was modified while being iterated, which left duplicates behind, and
the returned collection held all issues at or below the location.
---
 src/error.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error.py b/src/error.py
index 4890bc7..1de660e 100644
--- a/src/error.py
+++ b/src/error.py
@@ -342,13 +342,14 @@ class ValidationIssues:
         if location not in self._issues:
             return ValidationIssues()
 
-        popped = self.get(location)
+        popped = ValidationIssues()
 
         for issue in self._issues[location]:
             if issue.code == code:
-                self._issues[location].remove(issue)
-                if issue.code in self._stop_proceeding.get(location, set()):
-                    self._stop_proceeding[location].remove(issue.code)
+                popped.add(issue, proceed=code not in self._stop_proceeding.get(location, set()))
+
+        self._issues[location] = [i for i in self._issues[location] if i.code != code]
+        self._stop_proceeding.get(location, set()).discard(code)
 
         if len(self._issues[location]) == 0:
             self._issues.pop(location)
-- 
2.43.0


From c7f669f9eee33a79a002024c0393ca6795b6b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:05 +0000
Subject: [PATCH 08/64] fix: infinite numbers and non-ASCII binary values are
 rejected, not raised on

---
 src/data/type.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..dd72a4a 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -98,13 +98,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
@@ -149,7 +149,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From d6ad45c2e478c3ad3c50913a65e5bcf8cbb9b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:09 +0000
Subject: [PATCH 09/64] fix: booleans are not integers or decimals

---
 src/data/type.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index dd72a4a..58d0bca 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -19,7 +19,9 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not isinstance(value, cls.PARSE_TYPE) or (
+            isinstance(value, bool) and cls.PARSE_TYPE is not bool
+        ):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +34,9 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not isinstance(value, cls.DUMP_TYPE) or (
+            isinstance(value, bool) and cls.DUMP_TYPE is not bool
+        ):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
-- 
2.43.0


From e5e6e6b459394246163a2ba8448cba732e4adca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:25 +0000
Subject: [PATCH 10/64] fix: integers too big for a decimal are rejected, not
 raised on

---
 src/data/type.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 58d0bca..6fd3be2 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -80,7 +80,11 @@ class Decimal(AttributeType):
         if isinstance(value, int):
             value, issues = Integer.parse(value)
             if value is not Invalid:
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError:
+                    issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+                    value = Invalid
             return value, issues
         return super().parse(value)
 
@@ -89,7 +93,11 @@ class Decimal(AttributeType):
         if isinstance(value, int):
             value, issues = Integer.dump(value)
             if value is not Invalid:
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError:
+                    issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+                    value = Invalid
             return value, issues
         return super().dump(value)
 
-- 
2.43.0


From 39f585eb21c59605123efc9c6c927eeaa014673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:37 +0000
Subject: [PATCH 11/64] fix: a schemas list with non-text items is reported,
 not raised on

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..ad944b9 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -238,7 +238,7 @@ class BaseSchema(abc.ABC):
         issues.merge(issues_)
 
         schemas_ = data[self._attrs.schemas.rep]
-        if issues.can_proceed(("schemas",)) and schemas_:
+        if not issues.has_issues(("schemas",)) and schemas_:
             issues.merge(
                 validate_schemas_field(
                     data=data,
-- 
2.43.0


From 3987d6808e0f60c35cd9a9a336fb8d3d89f95a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 12/64] fix: attributes keep enforced canonical values and
 description in a schema

Binding an attribute to a schema dropped both, so for example an unknown error
type was accepted.
---
 src/data/schemas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index ad944b9..cb6d4f7 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,12 +182,14 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr._validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From 6cb9219311a58df45b8ede2d3f102135fa24aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 13/64] fix: a schema document may define decimal attributes

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..28fef45 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From 3e01607341b6a54566049b2ccaf8b81fcaf38a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:12 +0000
Subject: [PATCH 14/64] fix: authentication schemes define documentationUri

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From 3ae1d6065ad7b24ef3933c2b2e7e6652e7160e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:24 +0000
Subject: [PATCH 15/64] fix: '$ref' can be addressed as a sub-attribute

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index eb99787..f8a1fa3 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -3,7 +3,7 @@ from typing import Any, Dict, List, Optional, Union
 
 _ATTR_NAME = re.compile(r"(\w+|\$ref)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.{_ATTR_NAME.pattern})?)")
 
 
 class AttrRep:
-- 
2.43.0


From 5db203288910a3210a765965e70d66a8a768f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 16/64] fix: out-of-range filter literals are reported and big
 integers keep their value

---
 src/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/utils.py b/src/utils.py
index 030c99a..11c6459 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -32,10 +32,12 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
-        parsed = float(value)
-        parsed_int = int(parsed)
-        if parsed == parsed_int:
-            value = parsed_int
-        else:
-            value = parsed
+        try:
+            value = int(value)
+        except ValueError:
+            value = float(value)
+            if value in (float("inf"), float("-inf")):
+                raise ValueError("comparison value out of range")
+            if value == int(value):
+                value = int(value)
     return value
-- 
2.43.0


From 9c08c506cc2c100873ad389ada9ad3f3c17b5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:43 +0000
Subject: [PATCH 17/64] fix: parenthesised, bracketed and quoted parts of a
 filter are never confused

Their placeholders were numbered independently and could collide, in which
case one part of the filter silently stood for another.
---
 src/filter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..4c78a8c 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -123,7 +123,12 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = (
+                        max(string_values, default=-1)
+                        + 1
+                        + bracket_open_index
+                        - len(complex_attr_rep)
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -241,18 +246,21 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                group_op_index = (
+                    max([*string_values, *parsed_complex_ops], default=-1) + 1 + bracket_open_index
+                )
+                parsed_group_ops[group_op_index] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(group_op_index), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
-- 
2.43.0


From 535d52ff63ef91d47dc7dd4581d8b26a78ed8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 18/64] fix: logical operators of a filter are case-insensitive
 like the others

---
 src/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 4c78a8c..4c901f0 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,9 +17,9 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL)
-NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL)
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL | re.IGNORECASE)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL | re.IGNORECASE)
+NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL | re.IGNORECASE)
 
 _UNARY_ATTR_OPERATORS = {
     "pr": op.Present,
-- 
2.43.0


From cb31d6e4b11af4306c440fc96808a7ddbd838d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:02 +0000
Subject: [PATCH 19/64] fix: a bracketed filter accepts a schema prefix with
 hyphens

---
 src/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.py b/src/filter.py
index 4c901f0..1e0aa30 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -104,7 +104,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From 0a134e294bfbe15205e89174a6db6c3e565704d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:40 +0000
Subject: [PATCH 20/64] fix: a conjunction with an unknown attribute does not
 match

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..4f9e8a1 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -120,7 +120,7 @@ class And(MultiOperandLogicalOperator):
         value = value or {}
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
-            if match.status == MatchStatus.FAILED:
+            if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
                 return MatchResult.failed()
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
-- 
2.43.0


From fa2c4575fb9b671648ce8afabdf0a8c76e961abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:42 +0000
Subject: [PATCH 21/64] fix: presence of a multi-valued complex attribute can
 be tested on resource data

It raised AttributeError, which silently disabled the filter check of list
responses.
---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4f9e8a1..c68e0ad 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,7 +226,7 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([SCIMDataContainer(item)["value"] for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-- 
2.43.0


From fd17731565b665750bf7a17b01b18712c0138f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 22/64] fix: filter comparisons between incomparable values do
 not match instead of raising

Ordering text against numbers, date-times with and without offset, or any
date-time held as such raised TypeError; in list responses this silently
disabled the filter check. Booleans no longer equal the numbers 0 and 1, and
multi-valued date-times can be compared.
---
 src/data/operator.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index c68e0ad..c848170 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -241,6 +241,20 @@ class Present(AttributeOperator):
 T2 = TypeVar("T2")
 
 
+def _comparable(attr_value: Any, op_value: Any) -> bool:
+    if attr_value in [None, Missing, Invalid]:
+        return False
+    if op_value is None:
+        return True
+    if isinstance(attr_value, bool) or isinstance(op_value, bool):
+        return isinstance(attr_value, bool) and isinstance(op_value, bool)
+    if isinstance(attr_value, (int, float)):
+        return isinstance(op_value, (int, float))
+    if isinstance(attr_value, datetime) and isinstance(op_value, datetime):
+        return (attr_value.tzinfo is None) == (op_value.tzinfo is None)
+    return isinstance(op_value, type(attr_value))
+
+
 class BinaryAttributeOperator(AttributeOperator, abc.ABC):
     SUPPORTED_SCIM_TYPES: Set[str]
     SUPPORTED_TYPES: Set[Type]
@@ -280,8 +294,12 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
 
         if attr.type.SCIM_NAME == "dateTime":
             try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
+                op_value = datetime.fromisoformat(self.value)
+                return [
+                    (item if isinstance(item, datetime) else datetime.fromisoformat(item), op_value)
+                    for item in (value if isinstance(value, List) else [value])
+                ]
+            except (TypeError, ValueError):
                 return None
 
         if isinstance(self.value, str):
@@ -319,7 +337,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
+            if _comparable(attr_value, op_value) and self.OPERATOR(attr_value, op_value):
                 return MatchResult.passed()
         return MatchResult.failed()
 
-- 
2.43.0


From 2eb51d7099de6d8ce6f392ef8c917cea812c23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 23/64] fix: comparing a multi-valued complex attribute uses
 its value's type and case-exactness

---
 src/data/operator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/operator.py b/src/data/operator.py
index c848170..4f03f76 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -291,6 +291,9 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
                 return None
 
             value = [item["value"] for item in value]
+            attr = value_sub_attr
+            if attr.type.SCIM_NAME not in self.SUPPORTED_SCIM_TYPES:
+                return None
 
         if attr.type.SCIM_NAME == "dateTime":
             try:
-- 
2.43.0


From 667406b7cefcdc7ad199db0013290316e8be6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 24/64] fix: a bracketed filter treats absent multi-valued data
 like other missing data

An absent or empty multi-valued complex attribute never matched in lenient
mode, unlike every other missing value.
---
 src/data/operator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4f03f76..1abc051 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -511,6 +511,10 @@ class ComplexAttributeOperator:
         attr = attrs.get(self._attr_rep)
         if attr is None or not isinstance(attr, ComplexAttribute):
             return MatchResult.failed_no_attr()
+
+        if value in [None, Missing]:
+            value = [] if attr.multi_valued else SCIMDataContainer()
+
         if (
             attr.multi_valued
             and not isinstance(value, List)
@@ -519,10 +523,13 @@ class ComplexAttributeOperator:
         ):
             return MatchResult.failed()
 
-        value = value or ([] if attr.multi_valued else SCIMDataContainer())
-
         if not isinstance(value, List):
             value = [value]
+        elif not value and not strict:
+            return MatchResult.passed()
+
+        if not all(isinstance(item, SCIMDataContainer) for item in value):
+            return MatchResult.failed()
 
         if isinstance(self._sub_operator, AttributeOperator):
             has_value = False
-- 
2.43.0


From 86effee191aa88fc3b32141c0ecf4c7fa8bded9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:31 +0000
Subject: [PATCH 25/64] fix: a patch path holding more than one bracketed
 selection is reported, not raised on

---
 src/data/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..de11673 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -89,6 +89,10 @@ class PatchPath:
     ) -> Tuple[Union[Invalid, "PatchPath"], ValidationIssues]:
         filter_exp = path[: path.index("]") + 1]
         filter_, issues = Filter.parse(cls._encode_string_values(filter_exp, string_values))
+        if not issues.has_issues() and not isinstance(
+            filter_.operator, ComplexAttributeOperator
+        ):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
         if issues.has_issues():
             return Invalid, issues
 
-- 
2.43.0


From 6964be639fa147f6c25d4367fa6cf2c3bb614b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:25 +0000
Subject: [PATCH 26/64] fix: patch operations are recognised in any letter case

---
 src/assets/schemas/patch_op.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..6a67e4a 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -36,6 +36,9 @@ def validate_operations(
     issues = ValidationIssues()
     for i, operation_data in enumerate(operations_data):
         type_ = operation_data[_operations_op.rep]
+        if isinstance(type_, str):
+            type_ = type_.lower()
+            operation_data[_operations_op.rep] = type_
         path: PatchPath = operation_data[_operations_path.rep]
         value = operation_data[_operations_value.rep]
         if type_ == "remove" and path in [None, Missing]:
-- 
2.43.0


From 8dd34c2f8333cd874e55eb20da437a90a2670e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:40 +0000
Subject: [PATCH 27/64] fix: a patch without operations or with a non-object
 value is reported, not raised on

---
 src/assets/schemas/patch_op.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 6a67e4a..4e4660c 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -90,6 +90,9 @@ class PatchOp(BaseSchema):
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
 
+        if not isinstance(data[self.attrs.operations.rep], list):
+            return data, issues
+
         parsed = []
         ops = data[self.attrs.operations__op.rep]
         paths = data[self.attrs.operations__path.rep]
@@ -189,6 +192,8 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
+            if value is Invalid:
+                return value, issues
             for attr in self._resource_schema.attrs:
                 if (
                     value[attr.rep] is not Missing
-- 
2.43.0


From 3fb80a235d3d62dbce809933838801176273f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:09 +0000
Subject: [PATCH 28/64] fix: patch operations with issues do not raise while
 the others are checked

---
 src/assets/schemas/patch_op.py | 18 +++++++++++++++---
 src/attributes_presence.py     |  3 +++
 src/request_validators.py      | 28 +++++++++++++++++++---------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 4e4660c..a963ec3 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,18 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+
+def parse_op(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[parse_op],
 )
 
 
@@ -36,9 +42,6 @@ def validate_operations(
     issues = ValidationIssues()
     for i, operation_data in enumerate(operations_data):
         type_ = operation_data[_operations_op.rep]
-        if isinstance(type_, str):
-            type_ = type_.lower()
-            operation_data[_operations_op.rep] = type_
         path: PatchPath = operation_data[_operations_path.rep]
         value = operation_data[_operations_value.rep]
         if type_ == "remove" and path in [None, Missing]:
@@ -114,6 +117,15 @@ class PatchOp(BaseSchema):
                 parsed_op, issues_ = self._parse_add_or_replace_operation(op, path, value)
                 issues.merge(issues_, location=(self.attrs.operations.rep.attr, i))
                 parsed.append(parsed_op)
+            elif op in [None, Missing]:
+                parsed.append(SCIMDataContainer({"op": op, "path": path, "value": value}))
+            elif path in [None, Missing]:
+                issues.add(
+                    issue=ValidationError.missing(),
+                    proceed=False,
+                    location=(self.attrs.operations.rep.attr, i, _operations_path.rep.attr),
+                )
+                parsed.append(SCIMDataContainer({"op": op, "path": path}))
             else:
                 parsed_op, issues_ = self._parse_remove_operation(path)
                 issues.merge(issues_, location=(self.attrs.operations.rep.attr, i))
diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..f75de6f 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -84,6 +84,9 @@ class AttributePresenceChecker:
                     )
                 else:
                     for i, item in enumerate(value):
+                        if not isinstance(item, SCIMDataContainer):
+                            continue
+
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..c0bdd59 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -833,18 +833,25 @@ class ResourceObjectPATCH(Validator):
         if not issues.can_proceed(operations_location):
             return RequestData(body=None, headers=headers, query_string=query_string), issues
 
-        values = body[self._schema.attrs.operations__value.rep]
-        paths = body[self._schema.attrs.operations__path.rep]
-        ops = body[self._schema.attrs.operations__op.rep]
+        op_rep = self._schema.attrs.operations__op.rep
+        path_rep = self._schema.attrs.operations__path.rep
+        value_rep = self._schema.attrs.operations__value.rep
+        values = body[value_rep]
+        paths = body[path_rep]
+        ops = body[op_rep]
 
         for i, (op, value, path) in enumerate(zip(ops, values, paths)):
             if op == "remove":
                 continue
 
-            value_location = operations_location + (
-                i,
-                self._schema.attrs.operations__value.rep.sub_attr,
-            )
+            value_location = operations_location + (i, value_rep.sub_attr)
+            if not issues.can_proceed(
+                operations_location + (i, op_rep.sub_attr),
+                operations_location + (i, path_rep.sub_attr),
+                value_location,
+            ):
+                continue
+
             if path in [None, Missing]:
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
@@ -874,7 +881,10 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued):
+            return
+
+        if not isinstance(value, list):
             return
 
         # checking if new item of complex attribute has all required fields
@@ -885,7 +895,7 @@ class ResourceObjectPATCH(Validator):
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
         for j, item in enumerate(value):
             item_location = value_location + (j,)
-            if not issues.has_issues(item_location):
+            if isinstance(item, SCIMDataContainer) and not issues.has_issues(item_location):
                 issues.merge(
                     issues=presence_checker(
                         data=item,
-- 
2.43.0


From 509138745b15092f0ce54f0b4a4dfb299d43e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:35 +0000
Subject: [PATCH 29/64] fix: required sub-attributes of an absent complex
 attribute are not missing

---
 src/attributes_presence.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index f75de6f..edee8a6 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -67,39 +67,28 @@ class AttributePresenceChecker:
             top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
             top_attr = attrs.get(top_attr_rep)
 
+            if attr.rep.sub_attr and data[top_attr_rep] in [None, Invalid, Missing]:
+                # sub-attributes are required only if the complex attribute is there
+                continue
+
             if attr.rep.sub_attr and top_attr.multi_valued:
-                value = data[top_attr_rep]
-                if value in [Invalid, Missing]:
-                    continue
+                for i, item in enumerate(data[top_attr_rep]):
+                    if not isinstance(item, SCIMDataContainer):
+                        continue
+
+                    item_value = item[AttrRep(attr=attr.rep.sub_attr)]
+                    if item_value is Invalid:
+                        continue
 
-                if value in [None, Missing]:
                     issues.merge(
                         issues=self._check_presence(
-                            value=value,
+                            value=item[AttrRep(attr=attr.rep.sub_attr)],
                             direction=direction,
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
+                        location=(attr.rep.attr, i, attr.rep.sub_attr),
                     )
-                else:
-                    for i, item in enumerate(value):
-                        if not isinstance(item, SCIMDataContainer):
-                            continue
-
-                        item_value = item[AttrRep(attr=attr.rep.sub_attr)]
-                        if item_value is Invalid:
-                            continue
-
-                        issues.merge(
-                            issues=self._check_presence(
-                                value=item[AttrRep(attr=attr.rep.sub_attr)],
-                                direction=direction,
-                                attr=attr,
-                                attr_rep=attr.rep,
-                            ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
-                        )
             else:
                 value = data[attr.rep]
                 if value is Invalid:
-- 
2.43.0


From 3bc3c7ce5eba250c313935c674271d5b2e6889de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:32 +0000
Subject: [PATCH 30/64] fix: a core attribute is never read or deleted in place
 of an extension's

---
 src/attributes_presence.py | 4 +++-
 src/data/container.py      | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index edee8a6..e0a0a1e 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,7 +64,9 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
 
             if attr.rep.sub_attr and data[top_attr_rep] in [None, Invalid, Missing]:
diff --git a/src/data/container.py b/src/data/container.py
index f8a1fa3..db854d7 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -187,6 +187,9 @@ class SCIMDataContainer:
                 return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
 
+        if attr_rep.extension:
+            return Missing
+
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
             return Missing
@@ -216,6 +219,9 @@ class SCIMDataContainer:
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
 
+        if attr_rep.extension:
+            return
+
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
             return
-- 
2.43.0


From 9a3f01cbb154c2c649d6c15002151a4c9c5edda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:51 +0000
Subject: [PATCH 31/64] fix: issues of extension attributes are located under
 the extension

---
 src/attributes_presence.py | 7 +++++--
 src/request_validators.py  | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index e0a0a1e..a2da539 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -68,6 +68,9 @@ class AttributePresenceChecker:
                 schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
             )
             top_attr = attrs.get(top_attr_rep)
+            top_location = (attr.rep.attr,)
+            if attr.rep.extension:
+                top_location = (attr.rep.schema,) + top_location
 
             if attr.rep.sub_attr and data[top_attr_rep] in [None, Invalid, Missing]:
                 # sub-attributes are required only if the complex attribute is there
@@ -89,7 +92,7 @@ class AttributePresenceChecker:
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, i, attr.rep.sub_attr),
+                        location=top_location + (i, attr.rep.sub_attr),
                     )
             else:
                 value = data[attr.rep]
@@ -97,7 +100,7 @@ class AttributePresenceChecker:
                     continue
 
                 attr_location = (
-                    (attr.rep.attr, attr.rep.sub_attr) if attr.rep.sub_attr else (attr.rep.attr,)
+                    top_location + (attr.rep.sub_attr,) if attr.rep.sub_attr else top_location
                 )
                 issues.merge(
                     issues=self._check_presence(
diff --git a/src/request_validators.py b/src/request_validators.py
index c0bdd59..7e39902 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1206,7 +1206,10 @@ class ResourceTypesGET(_ServiceProviderConfig):
         super().__init__(config, resource_schema=ResourceType())
 
 
-def _location(attr_rep: AttrRep) -> Union[Tuple[str], Tuple[str, str]]:
+def _location(attr_rep: AttrRep) -> Tuple[str, ...]:
+    location = (attr_rep.attr,)
+    if attr_rep.extension:
+        location = (attr_rep.schema,) + location
     if attr_rep.sub_attr:
-        return attr_rep.attr, attr_rep.sub_attr
-    return (attr_rep.attr,)
+        location = location + (attr_rep.sub_attr,)
+    return location
-- 
2.43.0


From 53cc6d08e62f3342893d541af1e32a5f9bb9feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:31 +0000
Subject: [PATCH 32/64] fix: issues of a patch operation are located at its
 path or sub-attribute

---
 src/assets/schemas/patch_op.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index a963ec3..15306f0 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -137,8 +137,10 @@ class PatchOp(BaseSchema):
     def _parse_remove_operation(
         self, path: PatchPath
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
-        issues = validate_operation_path(self._resource_schema, path)
-        if issues.has_issues():
+        issues = ValidationIssues()
+        issues_ = validate_operation_path(self._resource_schema, path)
+        if issues_.has_issues():
+            issues.merge(issues_, location=(self.attrs.operations__path.rep.sub_attr,))
             return Invalid, issues
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
@@ -262,7 +264,7 @@ class PatchOp(BaseSchema):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
+                        location=(sub_attr.rep.attr,),
                     )
         return parsed_attr_value, issues
 
-- 
2.43.0


From 46d13a8cafc647c0806ee6db61d2aabb9042d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 33/64] fix: sub-attributes of a read-only attribute can not be
 patched

---
 src/assets/schemas/patch_op.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 15306f0..b8625f9 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -146,7 +146,7 @@ class PatchOp(BaseSchema):
         attr = self._resource_schema.attrs.get(path.attr_rep)
         path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if self._is_read_only(path.attr_rep):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -169,10 +169,7 @@ class PatchOp(BaseSchema):
                     proceed=True,
                     location=path_location,
                 )
-            if (
-                attr.mutability == AttributeMutability.READ_ONLY
-                or sub_attr.mutability == AttributeMutability.READ_ONLY
-            ):
+            if self._is_read_only(path.complex_filter_attr_rep):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -234,6 +231,17 @@ class PatchOp(BaseSchema):
             return self._parse_update_attr_value(path.complex_filter_attr_rep, value)
         return self._parse_update_attr_value(path.attr_rep, value)
 
+    def _is_read_only(self, attr_rep: AttrRep) -> bool:
+        attr = self._resource_schema.attrs.get(attr_rep)
+        if attr.mutability == AttributeMutability.READ_ONLY:
+            return True
+        if not attr_rep.sub_attr:
+            return False
+        top_attr = self._resource_schema.attrs.get(
+            AttrRep(schema=attr_rep.schema, attr=attr_rep.attr)
+        )
+        return top_attr.mutability == AttributeMutability.READ_ONLY
+
     def _parse_update_attr_value(
         self, attr_rep: AttrRep, attr_value: Any
     ) -> Tuple[Any, ValidationIssues]:
@@ -243,7 +251,7 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        if self._is_read_only(attr_rep):
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
-- 
2.43.0


From 62b7ceb41430221800cb139ee83ad8ebba0ccd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:33 +0000
Subject: [PATCH 34/64] fix: read-only sub-attributes are guarded in every item
 of a patched value

---
 src/assets/schemas/patch_op.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index b8625f9..022cd96 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -206,10 +206,14 @@ class PatchOp(BaseSchema):
             if value is Invalid:
                 return value, issues
             for attr in self._resource_schema.attrs:
-                if (
-                    value[attr.rep] is not Missing
-                    and attr.mutability == AttributeMutability.READ_ONLY
-                ):
+                attr_value = value[attr.rep]
+                if attr.rep.sub_attr and isinstance(attr_value, list):
+                    top_attr = self._resource_schema.attrs.get(
+                        AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+                    )
+                    if top_attr.multi_valued and all(item is Missing for item in attr_value):
+                        continue
+                if attr_value is not Missing and attr.mutability == AttributeMutability.READ_ONLY:
                     location = (attr.rep.attr,)
                     if attr.rep.sub_attr:
                         location = location + (attr.rep.sub_attr,)
@@ -262,18 +266,22 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif isinstance(attr, ComplexAttribute) and parsed_attr_value is not None:
+            if attr.multi_valued:
+                items = [((i,), item) for i, item in enumerate(parsed_attr_value)]
+            else:
+                items = [((), parsed_attr_value)]
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
                     continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
-                    issues.add(
-                        issue=ValidationError.attribute_can_not_be_modified(),
-                        proceed=False,
-                        location=(sub_attr.rep.attr,),
-                    )
+                for item_location, item in items:
+                    if item[sub_attr.rep] is not Missing:
+                        issues.add(
+                            issue=ValidationError.attribute_can_not_be_modified(),
+                            proceed=False,
+                            location=item_location + (sub_attr.rep.attr,),
+                        )
         return parsed_attr_value, issues
 
 
-- 
2.43.0


From b875ae97f5c8d1d26aa4ffcafe0514c9c41ea848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:54 +0000
Subject: [PATCH 35/64] fix: zero and false are values to sort by

---
 src/sorter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..3f6ce65 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -69,7 +69,7 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
+        if not any(self._is_set(item[self._attr_rep]) for item in data):
             return data
 
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
@@ -82,8 +82,12 @@ class Sorter:
 
         return sorted(data, key=key, reverse=not self._asc)
 
+    @staticmethod
+    def _is_set(value: Any) -> bool:
+        return value not in [None, Invalid, Missing, "", []]
+
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if not self._is_set(value) or attr is None:
             return self._default_value
 
         if not isinstance(value, str):
-- 
2.43.0


From b19c69736e5481828460137b1afec1751f34615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 36/64] fix: sorting by empty, complex or item sub-attribute
 values does not raise

---
 src/sorter.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index 3f6ce65..7121125 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -90,6 +90,9 @@ class Sorter:
         if not self._is_set(value) or attr is None:
             return self._default_value
 
+        if isinstance(value, SCIMDataContainer):
+            return self._default_value
+
         if not isinstance(value, str):
             return value
 
@@ -110,7 +113,7 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if attr.multi_valued and self._is_set(item_value):
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
@@ -125,6 +128,18 @@ class Sorter:
                             break
                 else:
                     value = item_value[0]
+            elif self._attr_rep.sub_attr and isinstance(item_value, list):
+                primaries = item[
+                    AttrRep(
+                        schema=self._attr_rep.schema,
+                        attr=self._attr_rep.attr,
+                        sub_attr="primary",
+                    )
+                ]
+                for v, primary in zip(item_value, primaries):
+                    if primary is True:
+                        value = v
+                        break
             else:
                 value = item_value
         return self._get_key(value, attr)
-- 
2.43.0


From abe4b9c60231857f67d235575c638ec68447e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:22 +0000
Subject: [PATCH 37/64] fix: a listed resource with non-text schemas is
 reported, not raised on

---
 src/assets/schemas/list_response.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..1ab634f 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -104,10 +104,12 @@ class ListResponse(BaseSchema):
             return None
 
         schemas_value = data[self.attrs.schemas.rep]
-        if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+        if (
+            isinstance(schemas_value, List)
+            and len(schemas_value) > 0
+            and all(isinstance(item, str) for item in schemas_value)
+        ):
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
-- 
2.43.0


From 248f8214cdf79dab416d1b5990fb6042a0de7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 38/64] fix: a listed resource that loses its schemas is
 reported, not raised on

---
 src/request_validators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 7e39902..106d9a6 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -699,6 +699,16 @@ def _dump_resources_get_response(
         return ResponseData(headers=headers, body=None), issues
 
     resource_schemas = schema.get_schemas_for_resources(resources)
+    for i, resource_schema in enumerate(resource_schemas):
+        if resource_schema is None:
+            issues.add(
+                issue=ValidationError.unknown_schema(),
+                proceed=False,
+                location=resources_location + (i,),
+            )
+    if issues.has_issues(resources_location):
+        return ResponseData(headers=headers, body=None), issues
+
     if filter_ is not None:
         issues.merge(
             issues=validate_resources_filtered(resources, filter_, resource_schemas, False),
-- 
2.43.0


From 44642796bdfab7cc37b6a5e739cca4ac325f7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:26 +0000
Subject: [PATCH 39/64] fix: a search request can exclude attributes

---
 src/assets/schemas/search_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..9b7c1c6 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
-- 
2.43.0


From 4570a90e9a4a2a7a8c5e2f739525d43f71f61b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 40/64] fix: the sort order of a search request or query is
 honoured in any letter case

---
 src/assets/schemas/search_request.py | 3 ++-
 src/request_validators.py            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 9b7c1c6..b1097fb 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -138,8 +138,9 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep] or "ascending"
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_, asc=sort_order_.lower() == "ascending"
                 )
 
         return data, issues
diff --git a/src/request_validators.py b/src/request_validators.py
index 106d9a6..596e2f3 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -378,7 +378,7 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
     if sort_order not in ["ascending", "descending"]:
         pass  # TODO add warning here
 
-    return Sorter.parse(by=sort_by, asc=sort_order == "ascending")
+    return Sorter.parse(by=sort_by, asc=str(sort_order).lower() == "ascending")
 
 
 def parse_request_filtering(query_string: Dict) -> Tuple[Union[Invalid, Filter], ValidationIssues]:
-- 
2.43.0


From 63359e6704ff9308878c6481203a281467b13d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:20 +0000
Subject: [PATCH 41/64] fix: a success status is not an error status

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 596e2f3..7b3e7af 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From 055a76aa999896bb629a2057593ac92510596373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 42/64] fix: response headers that are not a mapping are
 reported, not raised on

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 7b3e7af..0c2713a 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,7 +207,7 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
-- 
2.43.0


From 5fdc7caa358d4cbe8a578c43388170d63b319db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:39 +0000
Subject: [PATCH 43/64] fix: bulk operation methods are recognised in any
 letter case

---
 src/assets/schemas/bulk_ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..7e2b0d3 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -76,12 +76,18 @@ def validate_request_operations(
     return operations_data, issues
 
 
+def _normalize_method(value: str) -> Tuple[str, ValidationIssues]:
+    return value.upper(), ValidationIssues()
+
+
 _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
+    parsers=[_normalize_method],
+    dumpers=[_normalize_method],
 )
 
 _operation__bulk_id = Attribute(
-- 
2.43.0


From a5e1e82e75f2a45a44c0e989aba7885de5dcfb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:41 +0000
Subject: [PATCH 44/64] fix: a malformed bulk message is reported, not raised
 on

---
 src/request_validators.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 0c2713a..ba8c63a 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -995,11 +995,14 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return RequestData(headers=headers, query_string=query_string, body=None), issues
+
         issues.merge(
             issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
             location=body_location,
         )
-        if not issues_.can_proceed(
+        if not issues.can_proceed(
             body_location + _location(self._request_schema.attrs.operations.rep)
         ):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
@@ -1016,15 +1019,12 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
-                if method == "DELETE":
-                    continue
-
                 if method == "POST":
-                    resource_name = path.split("/", 1)[1]
+                    resource_name = path.partition("/")[2]
                 else:
-                    resource_name = path.split("/", 2)[1]
+                    resource_name = path.partition("/")[2].partition("/")[0]
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
@@ -1033,15 +1033,20 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
+
+                if method in ["GET", "DELETE"]:
+                    continue
+
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
                 body[self._request_schema.attrs.operations.rep][i][
                     data_rep.sub_attr
                 ] = resource_data.body
 
-        if len(body[self._request_schema.attrs.operations.rep]) > self.config.bulk.max_operations:
+        max_operations = self.config.bulk.max_operations
+        if max_operations is not None and len(methods) > max_operations:
             issues.add(
-                issue=ValidationError.too_many_operations(self.config.bulk.max_operations),
+                issue=ValidationError.too_many_operations(max_operations),
                 proceed=True,
                 location=body_location + _location(self._response_schema.attrs.operations.rep),
             )
@@ -1062,14 +1067,17 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
         )
+        if not issues.can_proceed(body_location):
+            return ResponseData(headers=headers, body=None), issues
+
+        issues.merge(
+            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
+            location=body_location,
+        )
         if not issues.can_proceed(
             body_location + _location(self._response_schema.attrs.operations.rep)
         ):
-- 
2.43.0


From 02f2fbcc8db7e51a7291885642f3d6f4cccb72ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:05 +0000
Subject: [PATCH 45/64] fix: a bulk response at an unknown location is not
 checked against another resource

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index ba8c63a..9948c38 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1109,9 +1109,9 @@ class BulkOperations(Validator):
 
             resource_validator = None
             if location:
-                for resource_plural_name, resource_validator in self._validators[method].items():
+                for resource_plural_name, validator in self._validators[method].items():
                     if f"/{resource_plural_name}/" in location:
-                        resource_validator = resource_validator
+                        resource_validator = validator
                         break
                 else:
                     issues.add(
-- 
2.43.0


From 099ac41f619bf81b6c4b5131752bdb2016ff06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:07 +0000
Subject: [PATCH 46/64] fix: every failed bulk operation counts and its
 response is checked

---
 src/request_validators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9948c38..4eeea99 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1120,12 +1120,17 @@ class BulkOperations(Validator):
                         location=location_location,
                     )
 
-            if not (status and response):
+            if not status:
                 continue
 
             status = int(status)
             if status >= 300:
                 n_errors += 1
+
+            if response in [None, Missing]:
+                continue
+
+            if status >= 300:
                 error_response, issues_ = error_validator.dump_response(
                     status_code=status,
                     body=response,
-- 
2.43.0


From c1cd7985f206a7589d4563b8dbaf342997f1f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:10 +0000
Subject: [PATCH 47/64] fix: a wrong status of a bulk operation is reported
 instead of dropping its response

---
 src/request_validators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 4eeea99..3fcdef3 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1147,14 +1147,14 @@ class BulkOperations(Validator):
                     response_rep.sub_attr
                 ] = error_response.body
             elif all([location, method, resource_validator]):
-                resource_data, issues_ = resource_validator.dump_response(
-                    body=response,
-                    status_code=status,
-                    headers={"Location": location},
-                )
+                response_kwargs = {"status_code": status, "headers": {"Location": location}}
+                if method != "DELETE":
+                    response_kwargs["body"] = response
+                resource_data, issues_ = resource_validator.dump_response(**response_kwargs)
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From 241e362592eb974905398cf72b91bc1186ca58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:05 +0000
Subject: [PATCH 48/64] fix: parsing a request leaves the caller's query string
 as it was

---
 src/request_validators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 3fcdef3..5fd14db 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -242,6 +242,7 @@ class ResourceObjectGET(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -277,6 +278,7 @@ class ResourceObjectPUT(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -323,6 +325,7 @@ class ResourcesPOST(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -570,6 +573,7 @@ def _parse_resources_get_request(
     if issues.has_issues():
         return RequestData(headers=headers, query_string=query_string, body=body), issues
 
+    query_string = dict(query_string)
     filter_, issues_ = parse_request_filtering(query_string)
     query_string["filter"] = filter_
     issues.merge(
@@ -831,6 +835,7 @@ class ResourceObjectPATCH(Validator):
         issues = ValidationIssues()
 
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-- 
2.43.0


From 61c6f8d1025c61ee6d545085c50e44e8137dfd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 49/64] fix: quoted text in a patch path is never taken for a
 placeholder

---
 src/data/path.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index de11673..6b9b437 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -143,12 +143,9 @@ class PatchPath:
 
     @staticmethod
     def _encode_string_values(exp: str, string_values: Dict[int, str]):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
-            index = int(match.group(1))
-            if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
-        return encoded
+        return PLACEHOLDER_REGEX.sub(
+            lambda match: (string_values or {}).get(int(match.group(1)), match.group(0)), exp
+        )
 
     def __eq__(self, other) -> bool:
         if not isinstance(other, PatchPath):
-- 
2.43.0


From 13df1173aef10b3818fad23e40fd2dd071d5945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:39 +0000
Subject: [PATCH 50/64] fix: a schema document without caseExact is reported,
 not raised on

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 28fef45..e1b9f51 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -172,7 +172,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From 5c32ed1242f828fb84cdb868f45c4b33acaa85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:43 +0000
Subject: [PATCH 51/64] fix: an attribute with an empty name does not hide the
 others

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index db854d7..7cf3d0d 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -182,7 +182,7 @@ class SCIMDataContainer:
             attr_rep = self._to_attr_rep(attr_rep)
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
+        if attr_rep.schema and extension is not None:
             if not isinstance(self._data[extension], SCIMDataContainer):
                 return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
@@ -213,7 +213,7 @@ class SCIMDataContainer:
             attr_rep = self._to_attr_rep(attr_rep)
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
+        if attr_rep.schema and extension is not None:
             if not isinstance(self._data[extension], SCIMDataContainer):
                 return
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
-- 
2.43.0


From fe9de1a3c569f81545f9aaebf98c90175476de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:33 +0000
Subject: [PATCH 52/64] fix: filter text value consisting of a lone quote is
 not accepted

---
 src/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utils.py b/src/utils.py
index 11c6459..0180b37 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -18,12 +18,10 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
-        value.startswith('"')
-        and value.endswith('"')
-        or value.startswith("'")
-        and value.endswith("'")
-    ):
+    if value[:1] in ('"', "'"):
+        quote = value[0]
+        if len(value) < 2 or not value.endswith(quote):
+            raise ValueError("quoted comparison value is not closed")
         value = value[1:-1]
     elif value == "false":
         value = False
-- 
2.43.0


From f79edd7f1e56a94dd36381a2e0c6517d662b8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:43 +0000
Subject: [PATCH 53/64] fix: empty requested attributes parameter means no
 attributes are requested

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 5fd14db..7b81e5b 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -401,10 +401,10 @@ def parse_requested_attributes(
     query_string: Dict[str, Any],
 ) -> Tuple[Union[None, Invalid, AttributePresenceChecker], ValidationIssues]:
     issues = ValidationIssues()
-    to_include = query_string.get("attributes", [])
+    to_include = query_string.get("attributes") or []
     if to_include and isinstance(to_include, str):
         to_include = to_include.split(",")
-    to_exclude = query_string.get("excludeAttributes", [])
+    to_exclude = query_string.get("excludeAttributes") or []
     if to_exclude and isinstance(to_exclude, str):
         to_exclude = to_exclude.split(",")
 
-- 
2.43.0


From 525e1dd2a92dfc68db6786b1fe8b7ac2c057213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:45 +0000
Subject: [PATCH 54/64] fix: count or startIndex given as a list does not raise

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 7b81e5b..2a14e3e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -600,7 +600,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (TypeError, ValueError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -611,7 +611,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (TypeError, ValueError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
-- 
2.43.0


From e062a312c284846bb1aa7b16662d88d56aee2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:28 +0000
Subject: [PATCH 55/64] fix: equal resources of different schemas are each
 sorted by their own schema

---
 src/sorter.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 7121125..ddc7fe2 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -77,10 +77,11 @@ class Sorter:
 
         if isinstance(schema, ResourceSchema):
             key = functools.partial(self._attr_key, schema=schema)
-        else:
-            key = self._attr_key_many_schemas(data, schema)
+            return sorted(data, key=key, reverse=not self._asc)
 
-        return sorted(data, key=key, reverse=not self._asc)
+        keys = [self._attr_key(item, schema_) for item, schema_ in zip(data, schema)]
+        order = sorted(range(len(data)), key=keys.__getitem__, reverse=not self._asc)
+        return [data[i] for i in order]
 
     @staticmethod
     def _is_set(value: Any) -> bool:
@@ -101,13 +102,6 @@ class Sorter:
 
         return StringKey(value, attr)
 
-    def _attr_key_many_schemas(self, data: List[SCIMDataContainer], schemas: Sequence[BaseSchema]):
-        def attr_key(item):
-            schema = schemas[data.index(item)]
-            return self._attr_key(item, schema)
-
-        return attr_key
-
     def _attr_key(self, item: SCIMDataContainer, schema: BaseSchema):
         attr = schema.attrs.get(self._attr_rep)
         value = None
-- 
2.43.0


From 2dd6484c235a1dcad5e0fec7d4bcba1f1c8ccebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 56/64] fix: sorting by an empty multi-valued sub-attribute
 does not raise

---
 src/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index ddc7fe2..9918098 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -122,7 +122,7 @@ class Sorter:
                             break
                 else:
                     value = item_value[0]
-            elif self._attr_rep.sub_attr and isinstance(item_value, list):
+            elif self._attr_rep.sub_attr and isinstance(item_value, list) and item_value:
                 primaries = item[
                     AttrRep(
                         schema=self._attr_rep.schema,
-- 
2.43.0


From 79da9957b172ad32a1cdbf4151b8b0726fef8145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:30 +0000
Subject: [PATCH 57/64] fix: refuse an extension the schema already has,
 whatever its letter case

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index cb6d4f7..5da6dba 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -379,7 +379,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From d0a25c9352a9fc0eba355dcb4fe6c0ea656ee20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:53 +0000
Subject: [PATCH 58/64] fix: leave the processor lists given to a complex
 attribute alone

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..2157517 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -315,7 +315,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0


From e462511c56895d97f78c4928e2a5ffc30bb75b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:48 +0000
Subject: [PATCH 59/64] fix: refuse text directly after the brackets of a patch
 path

The grammar of RFC 7644 3.5.2 is valuePath [subAttr] with subAttr starting
with a dot; 'emails[type eq "work"]value' was accepted as if the dot were there.
---
 src/data/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 6b9b437..7abca75 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -99,8 +99,10 @@ class PatchPath:
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
         if value_sub_attr_rep_exp:
-            if value_sub_attr_rep_exp.startswith("."):
-                value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
+            if not value_sub_attr_rep_exp.startswith("."):
+                issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+                return Invalid, issues
+            value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
-- 
2.43.0


From d48f257444ba4a8d5f1786887b78f3085563bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:58 +0000
Subject: [PATCH 60/64] fix: refuse an invalid sub-attribute name in a
 reference

The check meant for the whole name was made on the attribute part alone.
---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 7cf3d0d..178f9bd 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -19,7 +19,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr):
+        if sub_attr and not _ATTR_NAME.fullmatch(sub_attr):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
-- 
2.43.0


From b07d0d222ff727e26909ea78d6616ec65a7fb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:20 +0000
Subject: [PATCH 61/64] fix: name the type of the query string, not of its
 location, when it is refused

---
 src/request_validators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 2a14e3e..fbaaed9 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -565,7 +565,9 @@ def _parse_resources_get_request(
         )
     elif not isinstance(query_string, Dict):
         issues.add(
-            issue=ValidationError.bad_type(dict.__name__, type(query_string_location).__name__),
+            issue=ValidationError.bad_type(
+                get_scim_type(SCIMDataContainer), get_scim_type(type(query_string))
+            ),
             proceed=False,
             location=query_string_location,
         )
-- 
2.43.0


From 926dc7e20679bd194fef537505b20b5a06ecc5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:38 +0000
Subject: [PATCH 62/64] fix: a boolean given for a decimal is refused as no
 decimal, not as no integer

---
 src/data/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 6fd3be2..72c4bb5 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -77,7 +77,7 @@ class Decimal(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
+        if isinstance(value, int) and not isinstance(value, bool):
             value, issues = Integer.parse(value)
             if value is not Invalid:
                 try:
@@ -90,7 +90,7 @@ class Decimal(AttributeType):
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
+        if isinstance(value, int) and not isinstance(value, bool):
             value, issues = Integer.dump(value)
             if value is not Invalid:
                 try:
-- 
2.43.0


From d0abddae15555705eac50abb4df4f91a693eaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:18 +0000
Subject: [PATCH 63/64] fix: an issue of a filter quotes the filter as written,
 without internal placeholders

---
 src/filter.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 1e0aa30..1bc45d0 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -442,6 +442,8 @@ class Filter:
                         expression=Filter._encode_placeholders(
                             exp=invalid_expression,
                             string_values=string_values,
+                            parsed_group_ops=parsed_group_ops,
+                            parsed_complex_ops=parsed_complex_ops,
                         ),
                     ),
                     proceed=False,
@@ -655,9 +657,25 @@ class Filter:
             if index in (string_values or {}):
                 encoded = encoded.replace(match.group(0), string_values[index])
             elif index in (parsed_group_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_group_ops[index].expression)
+                encoded = encoded.replace(
+                    match.group(0),
+                    Filter._encode_placeholders(
+                        parsed_group_ops[index].expression,
+                        string_values,
+                        parsed_group_ops,
+                        parsed_complex_ops,
+                    ),
+                )
             elif index in (parsed_complex_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_complex_ops[index].expression)
+                encoded = encoded.replace(
+                    match.group(0),
+                    Filter._encode_placeholders(
+                        parsed_complex_ops[index].expression,
+                        string_values,
+                        parsed_group_ops,
+                        parsed_complex_ops,
+                    ),
+                )
 
         return encoded
 
-- 
2.43.0


From e6acb9e0f45c36b499323267e6e0b77b41ee1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:24 +0000
Subject: [PATCH 64/64] fix: a negative count and a start index below 1 are
 taken as 0 and 1 when checking a list response

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index fbaaed9..2e29f37 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -482,7 +482,7 @@ def validate_number_of_resources(
             issue=ValidationError.too_little_results(must="be equal to 'totalResults'"),
             proceed=True,
         )
-    if count is not None and count < n_resources:
+    if count is not None and max(count, 0) < n_resources:
         issues.add(
             issue=ValidationError.too_many_results(must="be lesser or equal to 'count' parameter"),
             proceed=True,
@@ -523,7 +523,7 @@ def validate_start_index_consistency(
     start_index_body: int,
 ) -> ValidationIssues:
     issues = ValidationIssues()
-    if start_index_body > start_index:
+    if start_index_body > max(start_index, 1):
         issues.add(
             issue=ValidationError.response_value_does_not_correspond_to_parameter(
                 response_key="startIndex",
-- 
2.43.0

