From 6170e244936cd837beef4be09bd356b057f15992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:32 +0000
Subject: [PATCH 01/59] fix: do not modify the caller's query string while
 parsing a request

---
 src/request_validators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..1ea9d32 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -245,7 +245,7 @@ class ResourceObjectGET(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
         return RequestData(body=body, headers=headers, query_string=query_string), issues
 
     def dump_response(
@@ -280,7 +280,7 @@ class ResourceObjectPUT(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
 
         body, issues_ = _parse_body(schema=self._schema, body=body)
         issues.merge(issues=issues_)
@@ -326,7 +326,7 @@ class ResourcesPOST(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
 
         required_to_ignore = []
         for attr in self._schema.attrs:
@@ -570,6 +570,7 @@ def _parse_resources_get_request(
     if issues.has_issues():
         return RequestData(headers=headers, query_string=query_string, body=body), issues
 
+    query_string = dict(query_string)
     filter_, issues_ = parse_request_filtering(query_string)
     query_string["filter"] = filter_
     issues.merge(
@@ -824,7 +825,7 @@ class ResourceObjectPATCH(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
 
         body, issues_ = _parse_body(self._schema, body)
         issues.merge(issues_)
-- 
2.43.0


From 4e5a4b1c53bdbf0d26ed1d979b69873aa4198cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:21 +0000
Subject: [PATCH 02/59] fix: hand out copies of an attribute's canonical values
 and reference types

---
 src/data/attributes.py | 4 ++--
 src/error.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..581fbde 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -274,9 +274,9 @@ class Attribute:
             "uniqueness": self.uniqueness.value,
         }
         if self.canonical_values:
-            output["canonicalValues"] = self.canonical_values
+            output["canonicalValues"] = list(self.canonical_values)
         if self.reference_types:
-            output["referenceTypes"] = self.reference_types
+            output["referenceTypes"] = list(self.reference_types)
         return output
 
 
diff --git a/src/error.py b/src/error.py
index 18b5c1b..b633b2c 100644
--- a/src/error.py
+++ b/src/error.py
@@ -118,7 +118,7 @@ class ValidationError:
 
     @classmethod
     def must_be_one_of(cls, expected_values: Collection[Any], provided: Any):
-        return cls(code=14, expected_values=expected_values, provided=provided)
+        return cls(code=14, expected_values=list(expected_values), provided=provided)
 
     @classmethod
     def missing(cls):
-- 
2.43.0


From 884a9277771d52590e06b0a1a35f9b28d76bfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:24 +0000
Subject: [PATCH 03/59] fix: do not append to the caller's lists of complex
 processors

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 581fbde..2a69b81 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -315,7 +315,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0


From 78a8f26ab900f1289ee0e8f476e70e13c764af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:06 +0000
Subject: [PATCH 04/59] fix: refuse duplicate extensions in any letter case and
 leave no trace of a failed registration

---
 src/data/schemas.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..caf9609 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -376,11 +376,9 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
-        self._schema_extensions[extension.schema] = required
-
         bounded_attrs = []
         for attr in extension.attrs:
             bounded_attrs.append(
@@ -400,6 +398,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
                         )
                     )
         self._attrs = Attributes(list(self._attrs) + bounded_attrs)
+        self._schema_extensions[extension.schema] = required
 
     def dump(self, data: Any) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
         data, issues = super().dump(data)
-- 
2.43.0


From 56ab0e4c3a733ff3b27740534fa8f3a053c5ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:33 +0000
Subject: [PATCH 05/59] fix: report, not raise, when 'schemas' holds a value
 that is not a string

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index caf9609..c4511eb 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -281,7 +281,7 @@ def validate_schemas_field(
 ) -> ValidationIssues:
     issues = ValidationIssues()
     main_schema = main_schema.lower()
-    schemas_ = [item.lower() for item in schemas_]
+    schemas_ = [item.lower() for item in schemas_ if isinstance(item, str)]
     known_schemas = [item.lower() for item in known_schemas]
     main_schema_included = False
     mismatch = False
-- 
2.43.0


From 96a45010fd07ec715005e09b57a52f0043d0ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 06/59] fix: report non-ASCII binary values and infinite or NaN
 integers instead of raising

---
 src/data/type.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..dd72a4a 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -98,13 +98,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
@@ -149,7 +149,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 23515c285acfa96eb020447cfbeedff98ab0b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 07/59] fix: report, not raise, when a schema extension is not
 an object

---
 src/data/container.py |  2 ++
 src/data/schemas.py   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..da5944b 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -182,6 +182,8 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
+            if not isinstance(self._data[extension], SCIMDataContainer):
+                return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
diff --git a/src/data/schemas.py b/src/data/schemas.py
index c4511eb..b999716 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -256,6 +256,16 @@ class BaseSchema(abc.ABC):
     ) -> Tuple[SCIMDataContainer, ValidationIssues]:
         issues = ValidationIssues()
         data = SCIMDataContainer(data)
+        known_schemas = [item.lower() for item in self.schemas]
+        for key, value in data.to_dict().items():
+            if key.lower() in known_schemas and not (value is None or isinstance(value, dict)):
+                issues.add(
+                    issue=ValidationError.bad_type(
+                        get_scim_type(SCIMDataContainer), get_scim_type(type(value))
+                    ),
+                    proceed=False,
+                    location=(key,),
+                )
         processed = SCIMDataContainer()
         for attr in self.attrs.top_level:
             value = data[attr.rep]
-- 
2.43.0


From ad985a323590cbf854dd937cc2de29c0c8baed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:39 +0000
Subject: [PATCH 08/59] fix: report, not raise, for malformed patch operations

---
 src/assets/schemas/patch_op.py | 14 ++++++++++++++
 src/attributes_presence.py     |  2 ++
 src/data/container.py          |  7 ++++++-
 src/request_validators.py      | 12 +++++++++---
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..3a08ac7 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -87,6 +87,9 @@ class PatchOp(BaseSchema):
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
 
+        if data[self.attrs.operations.rep] in [None, Missing]:
+            return data, issues
+
         parsed = []
         ops = data[self.attrs.operations__op.rep]
         paths = data[self.attrs.operations__path.rep]
@@ -119,6 +122,15 @@ class PatchOp(BaseSchema):
     def _parse_remove_operation(
         self, path: PatchPath
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
+        if path in [None, Missing]:
+            issues = ValidationIssues()
+            issues.add(
+                issue=ValidationError.missing(),
+                proceed=False,
+                location=(self.attrs.operations__path.rep.sub_attr,),
+            )
+            return Invalid, issues
+
         issues = validate_operation_path(self._resource_schema, path)
         if issues.has_issues():
             return Invalid, issues
@@ -186,6 +198,8 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
+            if value is Invalid:
+                return value, issues
             for attr in self._resource_schema.attrs:
                 if (
                     value[attr.rep] is not Missing
diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..cb49d33 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -84,6 +84,8 @@ class AttributePresenceChecker:
                     )
                 else:
                     for i, item in enumerate(value):
+                        if not isinstance(item, SCIMDataContainer):
+                            continue
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
diff --git a/src/data/container.py b/src/data/container.py
index da5944b..ac0bc52 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -195,7 +195,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
diff --git a/src/request_validators.py b/src/request_validators.py
index 1ea9d32..9d10a58 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -831,7 +831,9 @@ class ResourceObjectPATCH(Validator):
         issues.merge(issues_)
         operations_location = ("body", *_location(self._schema.attrs.operations.rep))
 
-        if not issues.can_proceed(operations_location):
+        if not issues.can_proceed(operations_location) or body[
+            self._schema.attrs.operations.rep
+        ] in [None, Missing]:
             return RequestData(body=None, headers=headers, query_string=query_string), issues
 
         values = body[self._schema.attrs.operations__value.rep]
@@ -839,7 +841,7 @@ class ResourceObjectPATCH(Validator):
         ops = body[self._schema.attrs.operations__op.rep]
 
         for i, (op, value, path) in enumerate(zip(ops, values, paths)):
-            if op == "remove":
+            if op == "remove" or path is Invalid or value in [None, Invalid, Missing]:
                 continue
 
             value_location = operations_location + (
@@ -847,6 +849,8 @@ class ResourceObjectPATCH(Validator):
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
             if path in [None, Missing]:
+                if not isinstance(value, SCIMDataContainer):
+                    continue
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
@@ -884,9 +888,11 @@ class ResourceObjectPATCH(Validator):
             if sub_attr.required and sub_attr.issuer == AttributeIssuer.SERVER:
                 ignore_required.append(sub_attr.rep)
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
+        if not isinstance(value, List):
+            return
         for j, item in enumerate(value):
             item_location = value_location + (j,)
-            if not issues.has_issues(item_location):
+            if isinstance(item, SCIMDataContainer) and not issues.has_issues(item_location):
                 issues.merge(
                     issues=presence_checker(
                         data=item,
-- 
2.43.0


From 0657def6cc117aa52defd3b5e4fee01d67b76be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:41 +0000
Subject: [PATCH 09/59] fix: report, not raise, for malformed bulk requests

---
 src/assets/schemas/bulk_ops.py |  1 +
 src/request_validators.py      | 17 +++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..25a8d37 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -80,6 +80,7 @@ _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
+    case_exact=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
 )
diff --git a/src/request_validators.py b/src/request_validators.py
index 9d10a58..60a1c44 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -982,11 +982,12 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
-        if not issues_.can_proceed(
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
+                location=body_location,
+            )
+        if not issues.can_proceed(
             body_location + _location(self._request_schema.attrs.operations.rep)
         ):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
@@ -1003,15 +1004,15 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
                 if method == "DELETE":
                     continue
 
                 if method == "POST":
-                    resource_name = path.split("/", 1)[1]
+                    resource_name = path.partition("/")[2]
                 else:
-                    resource_name = path.split("/", 2)[1]
+                    resource_name = path.partition("/")[2].partition("/")[0]
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
-- 
2.43.0


From 7cc05d0c3d100696398fa9a1006c5606b265a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:40 +0000
Subject: [PATCH 10/59] fix: report, not raise, for malformed bulk and list
 responses

---
 src/assets/schemas/list_response.py | 6 +++---
 src/request_validators.py           | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..faca143 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -105,9 +105,9 @@ class ListResponse(BaseSchema):
 
         schemas_value = data[self.attrs.schemas.rep]
         if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+            if not all(isinstance(item, str) for item in schemas_value):
+                return None
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
diff --git a/src/request_validators.py b/src/request_validators.py
index 60a1c44..07d1c22 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1050,10 +1050,11 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
+                location=body_location,
+            )
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
-- 
2.43.0


From 1f2f141c073f6016f0f2b7758cfbb34aa579cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 11/59] fix: report, not raise, when a patch path is not a
 single value filter

---
 src/data/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..f8afbf0 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -91,6 +91,9 @@ class PatchPath:
         filter_, issues = Filter.parse(cls._encode_string_values(filter_exp, string_values))
         if issues.has_issues():
             return Invalid, issues
+        if not isinstance(filter_.operator, ComplexAttributeOperator):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
 
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
-- 
2.43.0


From 83704e5b01192d63c7ef0486660b350151a4b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 12/59] fix: do not take a patch operation spelled in other
 letter case for a remove

---
 src/assets/schemas/patch_op.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 3a08ac7..746125e 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,19 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+
+
+def parse_operation_type(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[parse_operation_type],
 )
 
 
-- 
2.43.0


From fe5312009e7ced336375044ed530706193755056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:12 +0000
Subject: [PATCH 13/59] fix: honour excludeAttributes and sortOrder of a search
 request

---
 src/assets/schemas/search_request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..b1097fb 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
@@ -138,8 +138,9 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep] or "ascending"
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_, asc=sort_order_.lower() == "ascending"
                 )
 
         return data, issues
-- 
2.43.0


From 8b71894d7608c7d8b5132dcb14216dbf1f4b356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:09 +0000
Subject: [PATCH 14/59] fix: report, not raise, for a bulk response to DELETE
 and for page parameters of a wrong type

---
 src/request_validators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 07d1c22..bb5589a 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -597,7 +597,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -608,7 +608,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
@@ -1122,6 +1122,12 @@ class BulkOperations(Validator):
                 body[self._request_schema.attrs.operations.rep][i][
                     response_rep.sub_attr
                 ] = error_response.body
+            elif method == "DELETE":
+                issues.add(
+                    issue=ValidationError.not_supported(),
+                    proceed=True,
+                    location=response_location,
+                )
             elif all([location, method, resource_validator]):
                 resource_data, issues_ = resource_validator.dump_response(
                     body=response,
-- 
2.43.0


From 38fa56ab885c6dc85d376597019d35cc1b3263ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:28 +0000
Subject: [PATCH 15/59] fix: let 'pr' see the values of parsed multi-valued
 complex attributes

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..a3cf49c 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,7 +226,7 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([bool(SCIMDataContainer(item)["value"]) for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-- 
2.43.0


From f0323dab855ec7cd2e8cc201da077deb91778652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:19 +0000
Subject: [PATCH 16/59] fix: let a client exclude required attributes that are
 not always returned

---
 src/attributes_presence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index cb49d33..5af2693 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -154,7 +154,8 @@ class AttributePresenceChecker:
                 attr.required
                 and attr_rep not in self._ignore_required
                 and (
-                    self._include is not True
+                    self._include is None
+                    or (attr_rep not in self._attr_reps and self._include is False)
                     or (attr_rep in self._attr_reps and self._include is True)
                     or (direction == "RESPONSE" and attr.returned == AttributeReturn.ALWAYS)
                 )
-- 
2.43.0


From 801a753ee95c4d4727d8c9de35ecb54a30d22603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:19 +0000
Subject: [PATCH 17/59] fix: report, not raise, for integers too large for a
 decimal attribute

---
 src/data/type.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index dd72a4a..f6622d5 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -76,7 +76,11 @@ class Decimal(AttributeType):
         if isinstance(value, int):
             value, issues = Integer.parse(value)
             if value is not Invalid:
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError:
+                    issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+                    value = Invalid
             return value, issues
         return super().parse(value)
 
@@ -85,7 +89,11 @@ class Decimal(AttributeType):
         if isinstance(value, int):
             value, issues = Integer.dump(value)
             if value is not Invalid:
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError:
+                    issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+                    value = Invalid
             return value, issues
         return super().dump(value)
 
-- 
2.43.0


From 869be2536b7c037c7ddefadb1f8ec3e97f969a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 18/59] fix: do not drop the content of a bulk operation whose
 status does not fit its method

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index bb5589a..da08a52 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1137,6 +1137,7 @@ class BulkOperations(Validator):
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From 7893364a792b5de92bac5f1a6345e72a04ff7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 19/59] fix: do not take a patch operation without 'op' for a
 remove

---
 src/assets/schemas/patch_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 746125e..4f59644 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -103,7 +103,7 @@ class PatchOp(BaseSchema):
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if op in [None, Missing] or issues.has_issues((operations.rep.attr, i)):
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
-- 
2.43.0


From 0b944910de372a1d7c609bd87136a2ca5555ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 20/59] fix: an empty attribute selection does not cancel the
 other one

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index da08a52..8defa0b 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -398,10 +398,10 @@ def parse_requested_attributes(
     query_string: Dict[str, Any],
 ) -> Tuple[Union[None, Invalid, AttributePresenceChecker], ValidationIssues]:
     issues = ValidationIssues()
-    to_include = query_string.get("attributes", [])
+    to_include = query_string.get("attributes") or []
     if to_include and isinstance(to_include, str):
         to_include = to_include.split(",")
-    to_exclude = query_string.get("excludeAttributes", [])
+    to_exclude = query_string.get("excludeAttributes") or []
     if to_exclude and isinstance(to_exclude, str):
         to_exclude = to_exclude.split(",")
 
-- 
2.43.0


From b50ba3dcd2cdba7a4c07a73a55af8e695b2878bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 21/59] fix: do not raise when a patch operation sets a complex
 attribute to null

---
 src/assets/schemas/patch_op.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 4f59644..1d8fe84 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -253,7 +253,11 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif (
+            isinstance(attr, ComplexAttribute)
+            and not attr.multi_valued
+            and parsed_attr_value is not None
+        ):
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
-- 
2.43.0


From f20235c99ce7c68092918c894d9a7a7a9c35eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:42 +0000
Subject: [PATCH 22/59] fix: a filter value that can not be compared does not
 match, instead of raising

---
 src/data/operator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index a3cf49c..316886a 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -281,7 +281,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
         if attr.type.SCIM_NAME == "dateTime":
             try:
                 return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
+            except (TypeError, ValueError):
                 return None
 
         if isinstance(self.value, str):
@@ -319,8 +319,11 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
-                return MatchResult.passed()
+            try:
+                if self.OPERATOR(attr_value, op_value):
+                    return MatchResult.passed()
+            except TypeError:  # values that can not be compared do not match
+                continue
         return MatchResult.failed()
 
 
-- 
2.43.0


From 60eaa4524fcb0af94e3f968a54cb8bca1daef0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:03 +0000
Subject: [PATCH 23/59] fix: sort by zero, false and empty multi-valued
 attributes without misplacing or raising

---
 src/sorter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..fb0f449 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -69,7 +69,7 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
+        if all(item[self._attr_rep] in [None, "", Missing] for item in data):
             return data
 
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
@@ -83,7 +83,7 @@ class Sorter:
         return sorted(data, key=key, reverse=not self._asc)
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if value in [None, "", Missing] or attr is None:
             return self._default_value
 
         if not isinstance(value, str):
@@ -106,7 +106,7 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if isinstance(item_value, List) and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
@@ -119,7 +119,7 @@ class Sorter:
                                 attr = None
                             value = v["value"]
                             break
-                else:
+                elif item_value:
                     value = item_value[0]
             else:
                 value = item_value
-- 
2.43.0


From dae4a3e63c16e97ff6a694d9baf46f9b8ed53db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:36 +0000
Subject: [PATCH 24/59] fix: do not mix up bracketed parts of a filter that
 start at the same position

---
 src/filter.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..fd05ecb 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -73,6 +73,13 @@ class _ParsedGroupOperator:
     expression: str
 
 
+def _get_free_position(position: int, *taken: Dict[int, object]) -> int:
+    """Positions identify placeholders, so the same one must not be used for different content."""
+    while any(position in positions for positions in taken):
+        position += 1
+    return position
+
+
 class Filter:
     def __init__(self, operator: _ParsedOperator):
         self._operator = operator
@@ -123,7 +130,11 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = _get_free_position(
+                        bracket_open_index - len(complex_attr_rep),
+                        string_values,
+                        parsed_complex_ops,
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -183,7 +194,7 @@ class Filter:
                 issues.merge(issues=parsed.issues)
             return Invalid, issues
 
-        if bracket_open_index and bracket_open_index not in parsed_complex_ops:
+        if bracket_open_index:
             issues.add(
                 issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),
                 proceed=False,
@@ -241,18 +252,21 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                group_op_position = _get_free_position(
+                    bracket_open_index, string_values, parsed_complex_ops, parsed_group_ops
+                )
+                parsed_group_ops[group_op_position] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(group_op_position), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
-- 
2.43.0


From 43e8212e765b335679d6871c9b329ef36f8cae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 25/59] fix: an empty attribute name does not hide the other
 attributes of an object

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index ac0bc52..893c5e8 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -181,7 +181,7 @@ class SCIMDataContainer:
             attr_rep = self._to_attr_rep(attr_rep)
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
+        if attr_rep.schema and extension is not None:
             if not isinstance(self._data[extension], SCIMDataContainer):
                 return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
@@ -209,7 +209,7 @@ class SCIMDataContainer:
             attr_rep = self._to_attr_rep(attr_rep)
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
+        if attr_rep.schema and extension is not None:
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
 
-- 
2.43.0


From d880a1ec32b180b5ff9b2a97001247bad0600911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 26/59] fix: keep description and enforcement of canonical
 values when binding an attribute to a schema

---
 src/data/attributes.py | 4 ++++
 src/data/schemas.py    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 2a69b81..7e611e7 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -146,6 +146,10 @@ class Attribute:
     def canonical_values(self) -> Optional[list]:
         return self._canonical_values
 
+    @property
+    def validate_canonical_values(self) -> bool:
+        return self._validate_canonical_values
+
     @property
     def mutability(self) -> AttributeMutability:
         return self._mutability
diff --git a/src/data/schemas.py b/src/data/schemas.py
index b999716..5ade5de 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,12 +182,14 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr.validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From d603faf3d5cecc3944344bfbc7d2c8507a2e22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:51 +0000
Subject: [PATCH 27/59] fix: PATCH without path is not refused for a read-only
 sub-attribute no item contains

---
 src/assets/schemas/patch_op.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 1d8fe84..e3240aa 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -208,9 +208,8 @@ class PatchOp(BaseSchema):
             if value is Invalid:
                 return value, issues
             for attr in self._resource_schema.attrs:
-                if (
-                    value[attr.rep] is not Missing
-                    and attr.mutability == AttributeMutability.READ_ONLY
+                if attr.mutability == AttributeMutability.READ_ONLY and self._is_present(
+                    value, attr
                 ):
                     location = (attr.rep.attr,)
                     if attr.rep.sub_attr:
@@ -233,6 +232,21 @@ class PatchOp(BaseSchema):
             return self._parse_update_attr_value(path.complex_filter_attr_rep, value)
         return self._parse_update_attr_value(path.attr_rep, value)
 
+    def _get_parent(self, attr_rep: AttrRep) -> Optional[Attribute]:
+        if not attr_rep.sub_attr:
+            return None
+        return self._resource_schema.attrs.get(
+            AttrRep(schema=attr_rep.schema, attr=attr_rep.attr, extension=attr_rep.extension)
+        )
+
+    def _is_present(self, data: SCIMDataContainer, attr: Attribute) -> bool:
+        value = data[attr.rep]
+        parent = self._get_parent(attr.rep)
+        if parent is not None and parent.multi_valued and isinstance(value, List):
+            # one value for each item of the parent
+            return any(item is not Missing for item in value)
+        return value is not Missing
+
     def _parse_update_attr_value(
         self, attr_rep: AttrRep, attr_value: Any
     ) -> Tuple[Any, ValidationIssues]:
-- 
2.43.0


From c2344c527173649d8349dab5420e3b32655b4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:10 +0000
Subject: [PATCH 28/59] fix: PATCH with a path can not set read-only
 sub-attributes of multi-valued attributes

---
 src/assets/schemas/patch_op.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e3240aa..9532463 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -267,17 +267,13 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif (
-            isinstance(attr, ComplexAttribute)
-            and not attr.multi_valued
-            and parsed_attr_value is not None
-        ):
+        elif isinstance(attr, ComplexAttribute) and parsed_attr_value is not None:
+            items = parsed_attr_value if attr.multi_valued else [parsed_attr_value]
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
                     continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
+                if any(item[sub_attr.rep] is not Missing for item in items):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-- 
2.43.0


From 562726a0f23fbde444e75d5df4e0776dcbf00531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:30 +0000
Subject: [PATCH 29/59] fix: report the read-only sub-attribute a PATCH
 operation sets under its own name

---
 src/assets/schemas/patch_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 9532463..4fe6047 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -277,7 +277,7 @@ class PatchOp(BaseSchema):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
+                        location=(sub_attr.rep.attr,),
                     )
         return parsed_attr_value, issues
 
-- 
2.43.0


From 107792e3262d822c08b6f37ef3e181926bb6d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:51 +0000
Subject: [PATCH 30/59] fix: PATCH can not modify sub-attributes of a read-only
 attribute

---
 src/assets/schemas/patch_op.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 4fe6047..db56f4f 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -145,7 +145,7 @@ class PatchOp(BaseSchema):
         attr = self._resource_schema.attrs.get(path.attr_rep)
         path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if self._is_read_only(attr):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -239,6 +239,13 @@ class PatchOp(BaseSchema):
             AttrRep(schema=attr_rep.schema, attr=attr_rep.attr, extension=attr_rep.extension)
         )
 
+    def _is_read_only(self, attr: Attribute) -> bool:
+        parent = self._get_parent(attr.rep)
+        return AttributeMutability.READ_ONLY in [
+            attr.mutability,
+            parent.mutability if parent is not None else None,
+        ]
+
     def _is_present(self, data: SCIMDataContainer, attr: Attribute) -> bool:
         value = data[attr.rep]
         parent = self._get_parent(attr.rep)
@@ -256,7 +263,7 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        if self._is_read_only(attr):
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
-- 
2.43.0


From ada2aec4a2ab465b63e041306851c118bd8bc6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:06 +0000
Subject: [PATCH 31/59] fix: filter on multi-valued dateTime attributes

---
 src/data/operator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 316886a..e9a51a1 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -280,7 +280,11 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
 
         if attr.type.SCIM_NAME == "dateTime":
             try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
+                op_value = datetime.fromisoformat(self.value)
+                return [
+                    (datetime.fromisoformat(item), op_value)
+                    for item in (value if isinstance(value, List) else [value])
+                ]
             except (TypeError, ValueError):
                 return None
 
-- 
2.43.0


From aa5e1ecab9971e624cc656a2fcc3550c358050bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:42 +0000
Subject: [PATCH 32/59] fix: name of authenticationSchemes.documentationUri in
 ServiceProviderConfig

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From 37bc09bc9b5748911c4d88cd6c2beb74c7308385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:42 +0000
Subject: [PATCH 33/59] fix: locations of presence issues of extension
 attributes

---
 src/attributes_presence.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 5af2693..9b0b7b2 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -66,6 +66,9 @@ class AttributePresenceChecker:
         for attr in attrs:
             top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
             top_attr = attrs.get(top_attr_rep)
+            top_location = (attr.rep.attr,)
+            if attr.rep.extension:
+                top_location = (attr.rep.schema,) + top_location
 
             if attr.rep.sub_attr and top_attr.multi_valued:
                 value = data[top_attr_rep]
@@ -80,7 +83,7 @@ class AttributePresenceChecker:
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
+                        location=top_location + (attr.rep.sub_attr,),
                     )
                 else:
                     for i, item in enumerate(value):
@@ -97,16 +100,16 @@ class AttributePresenceChecker:
                                 attr=attr,
                                 attr_rep=attr.rep,
                             ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
+                            location=top_location + (i, attr.rep.sub_attr),
                         )
             else:
                 value = data[attr.rep]
                 if value is Invalid:
                     continue
 
-                attr_location = (
-                    (attr.rep.attr, attr.rep.sub_attr) if attr.rep.sub_attr else (attr.rep.attr,)
-                )
+                attr_location = top_location
+                if attr.rep.sub_attr:
+                    attr_location += (attr.rep.sub_attr,)
                 issues.merge(
                     issues=self._check_presence(
                         value=data[attr.rep],
-- 
2.43.0


From fb305f78be400b560f8ba74536146507582a7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:42 +0000
Subject: [PATCH 34/59] fix: attributes of extensions appeared in the
 description of the base schema

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 5ade5de..d880f7c 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -436,7 +436,7 @@ def get_schema_rep(schema: ResourceSchema) -> Dict[str, Any]:
         "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Schema"],
         "name": schema.name,
         "description": schema.description,
-        "attributes": [attr.to_dict() for attr in schema.attrs.top_level],
+        "attributes": [attr.to_dict() for attr in schema.attrs.top_level if not attr.rep.extension],
         "meta": {
             "resourceType": "Schema",
         },
-- 
2.43.0


From 1e7bad8a3d2db6ffca437518b20d387923552dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:42 +0000
Subject: [PATCH 35/59] fix: location of the issue about missing caseExact in
 schema documents

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..13469af 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -163,7 +163,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From b53a59fdfdada99fdf7f295942965e20e442d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:42 +0000
Subject: [PATCH 36/59] fix: schema documents with decimal attributes were
 withheld

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 13469af..e1b9f51 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From d8832813711d07b462eef62de5ca828127a196ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:03 +0000
Subject: [PATCH 37/59] fix: required sub-attributes are only demanded where
 their attribute has a value

---
 src/attributes_presence.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 9b0b7b2..8224f72 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -72,40 +72,31 @@ class AttributePresenceChecker:
 
             if attr.rep.sub_attr and top_attr.multi_valued:
                 value = data[top_attr_rep]
-                if value in [Invalid, Missing]:
+                if value in [Invalid, None, Missing]:
                     continue
 
-                if value in [None, Missing]:
+                for i, item in enumerate(value):
+                    if not isinstance(item, SCIMDataContainer):
+                        continue
+                    item_value = item[AttrRep(attr=attr.rep.sub_attr)]
+                    if item_value is Invalid:
+                        continue
+
                     issues.merge(
                         issues=self._check_presence(
-                            value=value,
+                            value=item[AttrRep(attr=attr.rep.sub_attr)],
                             direction=direction,
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=top_location + (attr.rep.sub_attr,),
+                        location=top_location + (i, attr.rep.sub_attr),
                     )
-                else:
-                    for i, item in enumerate(value):
-                        if not isinstance(item, SCIMDataContainer):
-                            continue
-                        item_value = item[AttrRep(attr=attr.rep.sub_attr)]
-                        if item_value is Invalid:
-                            continue
-
-                        issues.merge(
-                            issues=self._check_presence(
-                                value=item[AttrRep(attr=attr.rep.sub_attr)],
-                                direction=direction,
-                                attr=attr,
-                                attr_rep=attr.rep,
-                            ),
-                            location=top_location + (i, attr.rep.sub_attr),
-                        )
             else:
                 value = data[attr.rep]
                 if value is Invalid:
                     continue
+                if attr.rep.sub_attr and data[top_attr_rep] in [None, Missing]:
+                    continue
 
                 attr_location = top_location
                 if attr.rep.sub_attr:
-- 
2.43.0


From 07a43e249fd6ff326816837bc2db83c6eadab976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:36 +0000
Subject: [PATCH 38/59] fix: attribute names with '-' or '$' (members.$ref)
 were refused in filters, paths and selections

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 893c5e8..3bbcaa3 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -1,9 +1,9 @@
 import re
 from typing import Any, Dict, List, Optional, Union
 
-_ATTR_NAME = re.compile(r"(\w+|\$ref)")
+_ATTR_NAME = re.compile(r"([\w$][\w$-]*)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.{_ATTR_NAME.pattern})?)")
 
 
 class AttrRep:
-- 
2.43.0


From e8a3d3a8be4ce07dc07533b088667db51f8c3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:36 +0000
Subject: [PATCH 39/59] fix: complex filters on attributes with '-' in the
 schema URN were refused

---
 src/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.py b/src/filter.py
index fd05ecb..df751d7 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -111,7 +111,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-$") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From b7b95b1dab072a85c3346546334e465cbb120948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:15 +0000
Subject: [PATCH 40/59] fix: location of issues about items of extension
 attributes in PATCH operations

---
 src/request_validators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 8defa0b..d41fc8d 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -852,11 +852,14 @@ class ResourceObjectPATCH(Validator):
                 if not isinstance(value, SCIMDataContainer):
                     continue
                 for attr in self._resource_schema.attrs:
+                    attr_location = _location(attr.rep)
+                    if attr.rep.extension:
+                        attr_location = (attr.rep.schema,) + attr_location
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
                         attr=attr,
                         value=value[attr.rep],
-                        value_location=value_location + _location(attr.rep),
+                        value_location=value_location + attr_location,
                     )
 
             else:
-- 
2.43.0


From b2345b36cf8e9c3ee87e65b87d54de4ef1b6b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 41/59] fix: logical operators of filters were only recognised
 in lower case

---
 src/filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index df751d7..0972183 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,9 +17,11 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL)
-NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL)
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL | re.IGNORECASE)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL | re.IGNORECASE)
+NOT_LOGICAL_OPERATOR_REGEX = re.compile(
+    r"\s*\bnot\b\s*(.*)", flags=re.DOTALL | re.IGNORECASE
+)
 
 _UNARY_ATTR_OPERATORS = {
     "pr": op.Present,
-- 
2.43.0


From 894000476c8fb16aff1e7ff14334068f4bfdee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:42 +0000
Subject: [PATCH 42/59] fix: attribute names containing 'or', 'and' or 'not'
 next to '-', '.', ':' were split in filters

---
 src/filter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 0972183..a27e36a 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,10 +17,15 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL | re.IGNORECASE)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL | re.IGNORECASE)
+# '-', '$', '.' and ':' next to a word make it a part of attribute name
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    r"\s*(?<![\w.:$-])or(?![\w.:$-])\s*", flags=re.DOTALL | re.IGNORECASE
+)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    r"\s*(?<![\w.:$-])and(?![\w.:$-])\s*", flags=re.DOTALL | re.IGNORECASE
+)
 NOT_LOGICAL_OPERATOR_REGEX = re.compile(
-    r"\s*\bnot\b\s*(.*)", flags=re.DOTALL | re.IGNORECASE
+    r"\s*\bnot(?![\w.:$-])\s*(.*)", flags=re.DOTALL | re.IGNORECASE
 )
 
 _UNARY_ATTR_OPERATORS = {
-- 
2.43.0


From d6f996a34af925ba25c98fdbb33cd41dace0bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 43/59] fix: core attributes were taken for attributes of an
 absent extension that have the same name

---
 src/data/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/container.py b/src/data/container.py
index 3bbcaa3..d907c61 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -185,6 +185,8 @@ class SCIMDataContainer:
             if not isinstance(self._data[extension], SCIMDataContainer):
                 return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        if attr_rep.extension:
+            return Missing
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -212,6 +214,8 @@ class SCIMDataContainer:
         if attr_rep.schema and extension is not None:
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
+        if attr_rep.extension:
+            return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
-- 
2.43.0


From 019ada242ef59c29130751999f566cecb00626bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:03 +0000
Subject: [PATCH 44/59] fix: filters, sorters and presence checks looked for
 attributes of absent extensions at the top level

---
 src/attributes_presence.py |  4 +++-
 src/data/operator.py       | 16 ++++++++++++++--
 src/filter.py              |  2 +-
 src/sorter.py              |  2 +-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 8224f72..90fc8d1 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,7 +64,9 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
             top_location = (attr.rep.attr,)
             if attr.rep.extension:
diff --git a/src/data/operator.py b/src/data/operator.py
index e9a51a1..fc48cbb 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -72,6 +72,14 @@ class MatchResult:
         raise ValueError("unable to determine result for missing data")
 
 
+def get_attr_value(data: SCIMDataContainer, attr_rep: AttrRep, attrs: Attributes) -> Any:
+    """Only the schema knows whether the attribute belongs to an extension."""
+    attr = attrs.get(attr_rep)
+    if attr_rep.schema and attr is not None:
+        attr_rep = attr.rep
+    return data[attr_rep]
+
+
 class LogicalOperator(abc.ABC):
     SCIM_OP = None
 
@@ -105,7 +113,9 @@ class MultiOperandLogicalOperator(LogicalOperator, abc.ABC):
             if isinstance(sub_operator, LogicalOperator):
                 yield sub_operator.match(value, attrs, strict)
             else:
-                yield sub_operator.match(value[sub_operator.attr_rep], attrs, strict)
+                yield sub_operator.match(
+                    get_attr_value(value, sub_operator.attr_rep, attrs), attrs, strict
+                )
 
 
 class And(MultiOperandLogicalOperator):
@@ -181,7 +191,9 @@ class Not(LogicalOperator):
             if match.status == MatchStatus.FAILED:
                 return MatchResult.passed()
             return MatchResult.failed()
-        match = self._sub_operator.match(value[self._sub_operator.attr_rep], attrs, strict=True)
+        match = self._sub_operator.match(
+            get_attr_value(value, self._sub_operator.attr_rep, attrs), attrs, strict=True
+        )
         if (
             match.status == MatchStatus.FAILED
             or not strict
diff --git a/src/filter.py b/src/filter.py
index a27e36a..3114012 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -678,7 +678,7 @@ class Filter:
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
     ) -> op.MatchResult:
         if not isinstance(self._operator, op.LogicalOperator):
-            data = data[self._operator.attr_rep]
+            data = op.get_attr_value(data, self._operator.attr_rep, schema.attrs)
         return self._operator.match(data, schema.attrs, strict)
 
     def __eq__(self, other) -> bool:
diff --git a/src/sorter.py b/src/sorter.py
index fb0f449..4066cb3 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -105,7 +105,7 @@ class Sorter:
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
-            item_value = item[self._attr_rep]
+            item_value = item[attr.rep if self._attr_rep.schema else self._attr_rep]
             if isinstance(item_value, List) and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
-- 
2.43.0


From f6e336fbcd306f582b9f34f60f6136df6d5f9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:03 +0000
Subject: [PATCH 45/59] fix: bulk requests raised TypeError when no limit of
 operations is configured

---
 src/request_validators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index d41fc8d..b0eeb3e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1030,9 +1030,13 @@ class BulkOperations(Validator):
                     data_rep.sub_attr
                 ] = resource_data.body
 
-        if len(body[self._request_schema.attrs.operations.rep]) > self.config.bulk.max_operations:
+        max_operations = self.config.bulk.max_operations
+        if (
+            max_operations is not None
+            and len(body[self._request_schema.attrs.operations.rep]) > max_operations
+        ):
             issues.add(
-                issue=ValidationError.too_many_operations(self.config.bulk.max_operations),
+                issue=ValidationError.too_many_operations(max_operations),
                 proceed=True,
                 location=body_location + _location(self._response_schema.attrs.operations.rep),
             )
-- 
2.43.0


From 58618c42eadd4c883c5fe54df182c46e2b0c7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:15 +0000
Subject: [PATCH 46/59] fix: merging issues that allow to proceed stopped the
 proceeding

ValidationIssues.merge created an empty entry of codes that stop the proceeding
for every merged location, and can_proceed() takes any entry for a stop. Merging
a report returned by get() could raise KeyError for the same reason.
---
 src/error.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index b633b2c..378b74b 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,9 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            stop_proceeding = issues._stop_proceeding.get(other_location)
+            if stop_proceeding:
+                self._stop_proceeding[new_location].update(stop_proceeding)
 
     def add(
         self,
-- 
2.43.0


From eb2bb5bc950a5a18d9de980db7c5083c768778c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:15 +0000
Subject: [PATCH 47/59] fix: the report returned by ValidationIssues.get shared
 its content with the original

Issues popped from one of the reports vanished from the other, issues could not
be added to the returned one, and nothing was found for a location given as list.
---
 src/error.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/error.py b/src/error.py
index 378b74b..b3187a5 100644
--- a/src/error.py
+++ b/src/error.py
@@ -328,17 +328,14 @@ class ValidationIssues:
             self._stop_proceeding[location].add(issue.code)
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
+        location = tuple(location)
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]].extend(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]].update(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
-- 
2.43.0


From ea5189c6b97f36bf3457a453b84e581b243cbb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:15 +0000
Subject: [PATCH 48/59] fix: ValidationIssues.pop left issues behind and
 returned issues it had not removed

The list of issues was modified while being iterated, so every second of adjacent
issues of the popped code stayed, and the returned report contained all issues
from the location and below it.
---
 src/error.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/error.py b/src/error.py
index b3187a5..5163918 100644
--- a/src/error.py
+++ b/src/error.py
@@ -341,22 +341,28 @@ class ValidationIssues:
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
         location = tuple(location)
 
-        if location not in self._issues:
-            return ValidationIssues()
+        popped = ValidationIssues()
 
-        popped = self.get(location)
+        if location not in self._issues:
+            return popped
 
+        remaining = []
         for issue in self._issues[location]:
             if issue.code == code:
-                self._issues[location].remove(issue)
-                if issue.code in self._stop_proceeding.get(location, set()):
-                    self._stop_proceeding[location].remove(issue.code)
+                popped._issues[tuple()].append(issue)
+            else:
+                remaining.append(issue)
 
-        if len(self._issues[location]) == 0:
-            self._issues.pop(location)
+        if popped._issues and code in self._stop_proceeding.get(location, set()):
+            popped._stop_proceeding[tuple()].add(code)
+            self._stop_proceeding[location].remove(code)
+            if len(self._stop_proceeding[location]) == 0:
+                self._stop_proceeding.pop(location)
 
-        if location in self._stop_proceeding and len(self._stop_proceeding[location]) == 0:
-            self._stop_proceeding.pop(location)
+        if remaining:
+            self._issues[location] = remaining
+        else:
+            self._issues.pop(location)
 
         return popped
 
-- 
2.43.0


From 404d55480361ec8e6123328c1816eb77ef84236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:15 +0000
Subject: [PATCH 49/59] fix: issues were not found for locations given as lists

---
 src/error.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/error.py b/src/error.py
index 5163918..f99fb60 100644
--- a/src/error.py
+++ b/src/error.py
@@ -370,6 +370,7 @@ class ValidationIssues:
         if not locations:
             locations = [tuple()]
         for location in locations:
+            location = tuple(location)
             for i in range(len(location) + 1):
                 if location[:i] in self._stop_proceeding:
                     return False
@@ -380,6 +381,7 @@ class ValidationIssues:
             locations = [tuple()]
 
         for location in locations:
+            location = tuple(location)
             for issue_location in self._issues:
                 if issue_location[: len(location)] == location:
                     return True
-- 
2.43.0


From 9f22fa8431d8024346c662e944859f04fb98955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:16 +0000
Subject: [PATCH 50/59] fix: assigning an attribute in other letter case left
 its previous value in the content

The container found the new value, but to_dict() returned both spellings, the stale
one first.
---
 src/data/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index d907c61..ca5ca00 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -173,8 +173,11 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
+            initial_key = self._lower_case_to_original.get(attr_rep.attr.lower())
             self._data[attr_rep.attr] = value
+            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
+            if initial_key is not None and initial_key != attr_rep.attr:
+                self._data.pop(initial_key)
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
-- 
2.43.0


From 4f129fa9ec43f40b8e62d74a3f90c555b08ec215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:18 +0000
Subject: [PATCH 51/59] fix: attributes could not be assigned to an extension
 stored in other letter case

SCIMDataContainer.__setitem__ raised KeyError naming the extension as spelled by the
attribute, although it found the extension under the other spelling.
---
 src/data/container.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index ca5ca00..e73efda 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -144,9 +144,12 @@ class SCIMDataContainer:
         if attr_rep.extension:
             extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
             if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+                extension_key = attr_rep.schema
+                self._data[extension_key] = SCIMDataContainer()
+                self._lower_case_to_original[extension_key.lower()] = extension_key
+            elif not isinstance(self._data[extension_key], SCIMDataContainer):
+                raise KeyError(f"can not assign ({attr_rep.attr}, {value}) to '{extension_key}'")
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
-- 
2.43.0


From 26f07728b39fcd7c733f1b82238034f04cbffb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 52/59] fix: containers with different content compared as
 equal

The comparison ignored attributes present only in the other container, so it also
depended on the order of operands, and a container with an extension was not equal
to itself.
---
 src/data/container.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index e73efda..f0ed626 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -288,8 +288,12 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
-        for key, value in self._data.items():
-            if other[key] != value:
+        if self._lower_case_to_original.keys() != other._lower_case_to_original.keys():
+            return False
+
+        for key, initial_key in self._lower_case_to_original.items():
+            other_key = other._lower_case_to_original[key]
+            if self._data[initial_key] != other._data[other_key]:
                 return False
 
         return True
-- 
2.43.0


From ac846cb662c031eca7c8a91a260055df98ecb942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:21 +0000
Subject: [PATCH 53/59] fix: deleting an attribute from an extension that is
 not complex raised TypeError

---
 src/data/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index f0ed626..ca5486e 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -218,7 +218,8 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if attr_rep.schema and extension is not None:
-            del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            if isinstance(self._data[extension], SCIMDataContainer):
+                del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
         if attr_rep.extension:
             return
-- 
2.43.0


From 50f7a0512e92dbd4a4fdf69976ff08a078bf3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:23 +0000
Subject: [PATCH 54/59] fix: deleting a sub-attribute of items that are not
 complex raised TypeError

---
 src/data/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index ca5486e..b5096f9 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -234,7 +234,8 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
-- 
2.43.0


From 858caa63c3321ecf82f1fda4a35719a849dac659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:27 +0000
Subject: [PATCH 55/59] fix: a list could not be assigned to a sub-attribute of
 a single complex attribute

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index b5096f9..3a1461d 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -166,7 +166,7 @@ class SCIMDataContainer:
                     f"can not assign ({attr_rep.sub_attr}, {value}) to '{attr_rep.attr}'"
                 )
 
-            if isinstance(value, List):
+            if isinstance(value, List) and isinstance(self._data[initial_key], List):
                 to_create = len(value) - len(self._data[initial_key])
                 if to_create > 0:
                     self._data[initial_key].extend([SCIMDataContainer() for _ in range(to_create)])
-- 
2.43.0


From 67aef09a0ff8e88200db4295047401e3d9148e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:26 +0000
Subject: [PATCH 56/59] fix: sub-attributes could not be assigned to an empty
 multi-valued attribute

A sub-attribute given as list fills the items of an absent attribute, but the
assignment was refused if the attribute was present with no items.
---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 3a1461d..436c3f5 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -248,7 +248,7 @@ class SCIMDataContainer:
 
         if isinstance(new_value, List) and isinstance(current_value, List):
             current_item_type = {type(item) for item in current_value}
-            if current_item_type == {SCIMDataContainer}:
+            if current_item_type <= {SCIMDataContainer}:
                 return True
 
         return False
-- 
2.43.0


From 79cb53c75a15f012261feca022f0805f750c4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:37 +0000
Subject: [PATCH 57/59] fix: attributes named with the schema of a present
 extension were assigned outside of it

Reading and deleting such an attribute refers to the extension, but assigning it
changed (or created) the attribute of the same name at the top level.
---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 436c3f5..d3d7b2a 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -141,8 +141,8 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        if attr_rep.extension:
-            extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
+        extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
+        if attr_rep.extension or (attr_rep.schema and extension_key is not None):
             if extension_key is None:
                 extension_key = attr_rep.schema
                 self._data[extension_key] = SCIMDataContainer()
-- 
2.43.0


From 3a475b79e98bba7d642990c9de026e291b58ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:12 +0000
Subject: [PATCH 58/59] fix: an object under the schema of the resource hid all
 attributes of the resource

The names of core attributes carry their schema, so a key equal to it was taken for
an extension they belong to; list responses with such a resource raised AttributeError.
---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index d880f7c..6c361f3 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -271,7 +271,7 @@ class BaseSchema(abc.ABC):
                 )
         processed = SCIMDataContainer()
         for attr in self.attrs.top_level:
-            value = data[attr.rep]
+            value = data[attr.rep if attr.rep.extension else attr.rep.attr]
             if value is Missing:
                 continue
             value, issues_ = getattr(attr, method)(value)
-- 
2.43.0


From 78e17d2abcb1584c4278fafc818c4bdd68f6e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 59/59] fix: numbers in filters lost digits above 2**53, and
 infinite ones raised OverflowError

---
 src/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utils.py b/src/utils.py
index 030c99a..1c1b6c4 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import Any, Optional
 
@@ -32,10 +33,12 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
-        parsed = float(value)
-        parsed_int = int(parsed)
-        if parsed == parsed_int:
-            value = parsed_int
-        else:
-            value = parsed
+        try:
+            value = int(value)
+        except ValueError:
+            value = float(value)
+            if not math.isfinite(value):
+                raise ValueError("comparison value is not a finite number")
+            if value.is_integer():
+                value = int(value)
     return value
-- 
2.43.0

