From e35791d2f6bff358103fe25fea4d1f86b535a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/14] fix: anchor name, version and email patterns at the end
 of the value

The patterns ended in '$' and were applied with match(), so a trailing newline
was accepted in patterned object keys, extension names, the asyncapi version
and e-mail addresses; the version also accepted non-ASCII digits.
---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..3b5a7d9 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -258,7 +258,7 @@ class AsyncAPI3(ExtendableBaseModel):
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
         pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
-        if not re.match(pattern, version):
+        if not re.fullmatch(pattern, version, flags=re.ASCII):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
                 "major.minor.patch[-suffix]"
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..557fa6f 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -45,7 +45,7 @@ class ExtendableBaseModel(BaseModel):
 
         extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
         for key in self.model_extra:
-            if not extension_pattern.match(key):
+            if not extension_pattern.fullmatch(key):
                 raise ValueError(
                     f"Field '{key}' does not match specification extension pattern. "
                     f"Extensions must start with 'x-' and contain only word "
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..704c6f0 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -31,7 +31,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     """
     pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
     try:
-        if not pattern.match(key):
+        if not pattern.fullmatch(key):
             raise ValueError(
                 f"Field '{key}' does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
@@ -54,7 +54,7 @@ class EmailStr(str):
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
         pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
-        if not re.match(pattern, value):
+        if not re.fullmatch(pattern, value):
             raise ValueError("Invalid email format")
         return value
 
-- 
2.43.0


From ddf08eb6aeabb0b7c37610d1559f6be793c17285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/14] fix: strip the components prefix of a tag or external
 docs reference only once

str.replace() removed every occurrence, so '#/components/tags/#/components/tags/a'
was accepted as a reference to tag 'a'.
---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From 6fcd388e698ab050e49cf8aad67f9a55d29fad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 03/14] fix: follow reference chains iteratively

resolve_reference() recursed once per hop, so a valid chain of about a thousand
references raised RecursionError instead of resolving.
---
 asyncapi3/validators/utils.py | 38 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..af0723e 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,29 +46,27 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
 
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
 
-    path_parts = _parse_reference_path(ref=ref)
+        path_parts = _parse_reference_path(ref=ref)
 
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            break
+
+        ref = resolved_object.ref
 
     return ReferenceResolutionResult(
         resolved_object=resolved_object,
-- 
2.43.0


From 8cb88819a9c9688fc5ab526d466025977f41f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 04/14] fix: leave a model unchanged when an assignment is
 rejected

Cross-field rules, the extension-name rule and the document processors run in
model-level validators, after pydantic has stored the new value; a rejected
assignment therefore raised but left the invalid value in the object.
---
 asyncapi3/models/base_models.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 557fa6f..60d01df 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -2,10 +2,11 @@
 
 __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"]
 
+import copy
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +15,27 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class AtomicAssignmentMixin:
+    """
+    Mixin that makes a rejected assignment leave the model untouched.
+
+    Pydantic stores the new value before model-level "after" validators run, so the
+    previous state has to be restored when one of them rejects the assignment.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        """Set an attribute, restoring the previous state if it is rejected."""
+        slots = ("__dict__", "__pydantic_extra__", "__pydantic_fields_set__")
+        previous = {slot: copy.copy(getattr(self, slot, None)) for slot in slots}
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            for slot, state in previous.items():
+                object.__setattr__(self, slot, state)
+            raise
+
+
+class ExtendableBaseModel(AtomicAssignmentMixin, BaseModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +75,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(AtomicAssignmentMixin, BaseModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +92,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(AtomicAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 981da5ed91a6f4f8f0a142c3941a3bb4b9ba878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 05/14] fix: validate items set on a patterned collection

PatternedRootModel.__setitem__ stored any key and value, so keys that break the
name pattern and values of the wrong type entered a validated document.
---
 asyncapi3/models/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 60d01df..e44395c 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -115,7 +115,7 @@ class PatternedRootModel(AtomicAssignmentMixin, RootModel[dict[str, T]], Generic
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        self.root[key] = type(self).model_validate({key: value}).root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From 7d849e51ce7bd0680f6668230652d878c2cd689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 06/14] fix: keep user-chosen names out of reference type
 lookup

The expected type of a reference was looked up from a path that contained the
keys of maps, so a key that equals a field name ('channel', 'servers', 'reply',
'root', ...) selected another expected type: valid documents were rejected and
references of the wrong kind were accepted.
---
 .../unified_references_validator.py           | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..d9292f6 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -184,6 +184,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         current_path: str,
         validated_refs: set[str],
         visited_objects: set[int] | None = None,
+        type_path: str | None = None,
     ) -> None:
         """
         Recursively validate references in an object and its nested fields.
@@ -194,12 +195,16 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             current_path: Current path in the object hierarchy for error messages
             validated_refs: Set of already validated reference strings
             visited_objects: Set of object IDs to prevent infinite recursion
+            type_path: `current_path` with user-chosen mapping keys replaced by "*",
+                used to look up the expected type; defaults to `current_path`
 
         Raises:
             ValueError: If reference validation fails
         """
         if visited_objects is None:
             visited_objects = set()
+        if type_path is None:
+            type_path = current_path
 
         obj_id = id(obj)
         if obj_id in visited_objects:
@@ -213,6 +218,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                     ref_obj=obj,
                     ref_path=current_path,
                     validated_refs=validated_refs,
+                    type_path=type_path,
                 )
                 return
 
@@ -223,6 +229,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                     current_path=current_path,
                     validated_refs=validated_refs,
                     visited_objects=visited_objects,
+                    type_path=type_path,
                 )
                 return
 
@@ -233,6 +240,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                     current_path=current_path,
                     validated_refs=validated_refs,
                     visited_objects=visited_objects,
+                    type_path=type_path,
                 )
                 return
 
@@ -243,6 +251,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                     current_path=current_path,
                     validated_refs=validated_refs,
                     visited_objects=visited_objects,
+                    type_path=type_path,
                 )
         finally:
             visited_objects.discard(obj_id)
@@ -253,6 +262,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         ref_obj: Reference,
         ref_path: str,
         validated_refs: set[str],
+        type_path: str | None = None,
     ) -> None:
         """
         Validate a single reference object.
@@ -261,6 +271,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             ref_obj: The Reference object to validate
             ref_path: Path to this reference in the specification
             validated_refs: Set of already validated reference strings
+            type_path: Path to look up the expected type, defaults to `ref_path`
 
         Raises:
             ValueError: If reference validation fails
@@ -280,7 +291,9 @@ class UnifiedReferencesValidator(ProcessorProtocol):
 
         _resolved_obj, resolved_type, resolved_path = resolution_result
 
-        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
+        expected_type = self._get_expected_type_for_path(
+            ref_path=ref_path if type_path is None else type_path
+        )
 
         if not self._is_type_compatible(
             actual_type=resolved_type,
@@ -302,6 +315,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         current_path: str,
         validated_refs: set[str],
         visited_objects: set[int],
+        type_path: str,
     ) -> None:
         """Validate references inside a list."""
         for i, item in enumerate(items):
@@ -311,6 +325,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                 current_path=f"{current_path}[{i}]",
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
+                type_path=type_path,
             )
 
     def _validate_mapping_references(
@@ -320,6 +335,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         current_path: str,
         validated_refs: set[str],
         visited_objects: set[int],
+        type_path: str,
     ) -> None:
         """Validate references inside a mapping."""
         for key, value in mapping.items():
@@ -330,6 +346,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                 current_path=f"{current_path}.{escaped_key}",
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
+                type_path=f"{type_path}.*",
             )
 
     def _validate_model_references(
@@ -339,6 +356,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         current_path: str,
         validated_refs: set[str],
         visited_objects: set[int],
+        type_path: str,
     ) -> None:
         """Validate references inside a Pydantic model instance."""
         for field_name, field_info in model.__class__.model_fields.items():
@@ -354,6 +372,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                 current_path=field_path,
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
+                type_path=f"{type_path}.{field_name}",
             )
 
     def _get_expected_type_for_path(self, ref_path: str) -> Any:
-- 
2.43.0


From 3f77d5d4a72adced464f1209bd7f00899d65bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 07/14] fix: check the external docs references of every
 documented location

docs/extra_validators/references.md lists messages of components channels and the
traits (and their tags) of components channels, messages and operations as
verified, but dangling external docs references there were accepted.
---
 .../validators/external_docs_ref_validator.py | 60 +++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..c76dc9b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -56,13 +56,16 @@ class ExternalDocsRefValidator(ProcessorProtocol):
 
         # Validate externalDocs in all component collections
         self.validate_components_channels_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
         self.validate_components_external_docs_external_docs_refs(spec)  # self
         self.validate_components_messages_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
         self.validate_components_messages_headers_external_docs_refs(spec)
         self.validate_components_messages_payload_external_docs_refs(spec)
         self.validate_components_message_traits_external_docs_refs(spec)
         self.validate_components_message_traits_headers_external_docs_refs(spec)
         self.validate_components_operations_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
         self.validate_components_operation_traits_external_docs_refs(spec)
         self.validate_components_servers_external_docs_refs(spec)
         self.validate_components_tags_external_docs_refs(spec)
@@ -432,6 +435,63 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if hasattr(schema, "external_docs"):
                 self._validate_ref_field(spec, schema, f"schema '{name}'")
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages within components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            for msg_name, msg in channel.messages.root.items():
+                if isinstance(msg, Reference):
+                    continue
+                context = f"message '{msg_name}' in components channel '{channel_name}'"
+                self._validate_ref_field(spec, msg, context)
+                self._validate_traits_external_docs_refs(spec, msg.traits, context)
+
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        for msg_name, msg in spec.components.messages.root.items():
+            if isinstance(msg, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, msg.traits, f"components message '{msg_name}'"
+            )
+
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        for op_name, operation in spec.components.operations.root.items():
+            if isinstance(operation, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, operation.traits, f"components operation '{op_name}'"
+            )
+
+    def _validate_traits_external_docs_refs(
+        self,
+        spec: AsyncAPI3,
+        traits: list[Any] | None,
+        context: str,
+    ) -> None:
+        """Validate externalDocs references in a list of traits and in their tags."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference):
+                continue
+            self._validate_ref_field(spec, trait, f"trait {trait_idx} in {context}")
+            self._validate_tags_external_docs_refs(
+                spec, trait.tags or [], f"tags in trait {trait_idx} in {context}"
+            )
+
     def _validate_ref_field(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From 835d41f6b648917c62190bfd9ec30d942ed08f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 08/14] fix: check the tag references of traits

docs/extra_validators/references.md marks tags of message and operation traits as
validated by TagsRefValidator, but dangling tag references there were accepted.
---
 asyncapi3/validators/tags_ref_validator.py | 42 ++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..c016c19 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -58,6 +58,7 @@ class TagsRefValidator(ProcessorProtocol):
         self.validate_components_message_traits_tags_refs(spec)
         self.validate_components_channels_messages_tags_refs(spec)
         self.validate_components_tags_refs(spec)
+        self.validate_traits_tags_refs(spec)
 
         return spec
 
@@ -205,6 +206,47 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")
 
+    def validate_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of messages and operations."""
+        for owner, prefix in ((spec, ""), (spec.components, "components ")):
+            if not owner:
+                continue
+            if owner.channels:
+                for name, channel in owner.channels.root.items():
+                    if isinstance(channel, Reference) or not channel.messages:
+                        continue
+                    self._validate_traits_tags_in_collection(
+                        spec,
+                        channel.messages.root,
+                        f"message '{{name}}' in {prefix}channel '{name}'",
+                    )
+            if owner.operations:
+                self._validate_traits_tags_in_collection(
+                    spec, owner.operations.root, prefix + "operation '{name}'"
+                )
+        if spec.components and spec.components.messages:
+            self._validate_traits_tags_in_collection(
+                spec, spec.components.messages.root, "components message '{name}'"
+            )
+
+    def _validate_traits_tags_in_collection(
+        self,
+        spec: AsyncAPI3,
+        objects: dict[str, Any],
+        context_template: str,
+    ) -> None:
+        """Validate tags in the traits of a collection of objects."""
+        for object_name, obj in objects.items():
+            if isinstance(obj, Reference) or not obj.traits:
+                continue
+            context = context_template.format(name=object_name)
+            for trait_idx, trait in enumerate(obj.traits):
+                if isinstance(trait, Reference) or not trait.tags:
+                    continue
+                self._validate_tags_list(
+                    spec, trait.tags, f"trait {trait_idx} in {context}"
+                )
+
     def validate_tag_ref(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From b660538ab664108a10988e350fcdfc18fcf050ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 09/14] fix: read a kafka message key as a schema whenever it
 is one

---
 asyncapi3/models/bindings/kafka.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/bindings/kafka.py b/asyncapi3/models/bindings/kafka.py
index 6613ae9..f7264db 100644
--- a/asyncapi3/models/bindings/kafka.py
+++ b/asyncapi3/models/bindings/kafka.py
@@ -249,9 +249,10 @@ class KafkaMessageBindings(NonExtendableBaseModel):
     """
 
     # TODO: Think about AVRO Schema
-    key: Schema | Reference | dict[str, Any] | None = Field(
+    key: Reference | Schema | dict[str, Any] | None = Field(
         default=None,
         exclude_if=is_null,
+        union_mode="left_to_right",
         description=(
             "The message key. NOTE: You can also use the reference object way."
         ),
-- 
2.43.0


From ba388e809bd691b3d933a3604a945d450d9dbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 10/14] fix: expect the right kind of references inside traits

The element position of a list is now part of the path by which the expected
type is looked up.  Without it a reference directly inside a trait in a list
('traits[0].correlation_id') matched the pattern of the trait itself, so valid
documents were rejected and references to traits were accepted.
---
 asyncapi3/validators/unified_references_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index d9292f6..b8d9705 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -195,8 +195,8 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             current_path: Current path in the object hierarchy for error messages
             validated_refs: Set of already validated reference strings
             visited_objects: Set of object IDs to prevent infinite recursion
-            type_path: `current_path` with user-chosen mapping keys replaced by "*",
-                used to look up the expected type; defaults to `current_path`
+            type_path: `current_path` with mapping keys and list positions replaced by
+                "*", used to look up the expected type; defaults to `current_path`
 
         Raises:
             ValueError: If reference validation fails
@@ -325,7 +325,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                 current_path=f"{current_path}[{i}]",
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
-                type_path=type_path,
+                type_path=f"{type_path}.*",
             )
 
     def _validate_mapping_references(
-- 
2.43.0


From 63863c2f3243039ea0242e7a7510467f1a742c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 11/14] fix: restore only the state a model has when an
 assignment is rejected

Root models have no extra fields, so restoring them left a stray entry in the
model's attributes.
---
 asyncapi3/models/base_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index e44395c..2025191 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -26,7 +26,11 @@ class AtomicAssignmentMixin:
     def __setattr__(self, name: str, value: Any) -> None:
         """Set an attribute, restoring the previous state if it is rejected."""
         slots = ("__dict__", "__pydantic_extra__", "__pydantic_fields_set__")
-        previous = {slot: copy.copy(getattr(self, slot, None)) for slot in slots}
+        previous = {
+            slot: copy.copy(state)
+            for slot in slots
+            if (state := getattr(self, slot, None)) is not None
+        }
         try:
             super().__setattr__(name, value)
         except Exception:
-- 
2.43.0


From d8cfb2c92a0a8ef49816696fe879867a65b36917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 12/14] fix: keep the explicitly set fields of a model apart
 from those of its copies

Pydantic hands the same set to every validated copy of an instance, so assigning
a field of one copy (even unsuccessfully) marked it as set in all the others.
---
 asyncapi3/models/base_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 2025191..cca6a53 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -31,6 +31,9 @@ class AtomicAssignmentMixin:
             for slot in slots
             if (state := getattr(self, slot, None)) is not None
         }
+        # A validated copy of a model shares its set of explicitly set fields.
+        if (fields_set := previous.get("__pydantic_fields_set__")) is not None:
+            object.__setattr__(self, "__pydantic_fields_set__", set(fields_set))
         try:
             super().__setattr__(name, value)
         except Exception:
-- 
2.43.0


From ae5f1e827168d9b8d67daf0928856424798ebacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 13/14] fix: keep the explicitly set fields of schemas and
 topic configurations apart, too

---
 asyncapi3/models/bindings/kafka.py | 4 ++--
 asyncapi3/models/schema.py         | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/bindings/kafka.py b/asyncapi3/models/bindings/kafka.py
index f7264db..8297481 100644
--- a/asyncapi3/models/bindings/kafka.py
+++ b/asyncapi3/models/bindings/kafka.py
@@ -13,7 +13,7 @@ from typing import Any, Literal
 from pydantic import BaseModel, ConfigDict, Field, field_validator, model_validator
 
 from asyncapi3.models.base import Reference
-from asyncapi3.models.base_models import NonExtendableBaseModel
+from asyncapi3.models.base_models import AtomicAssignmentMixin, NonExtendableBaseModel
 from asyncapi3.models.helpers import is_null
 from asyncapi3.models.schema import Schema
 
@@ -60,7 +60,7 @@ class KafkaServerBindings(NonExtendableBaseModel):
         return self
 
 
-class KafkaTopicConfiguration(BaseModel):
+class KafkaTopicConfiguration(AtomicAssignmentMixin, BaseModel):
     """
     Kafka TopicConfiguration Object.
 
diff --git a/asyncapi3/models/schema.py b/asyncapi3/models/schema.py
index b16dc5d..37d2524 100644
--- a/asyncapi3/models/schema.py
+++ b/asyncapi3/models/schema.py
@@ -9,12 +9,13 @@ from typing import Any
 from pydantic import BaseModel, ConfigDict, Field
 
 from asyncapi3.models.base import ExternalDocumentation, Reference
+from asyncapi3.models.base_models import AtomicAssignmentMixin
 from asyncapi3.models.helpers import is_null
 
 
 # TODO: Not full at this point. Should go to dict instead?
 # TODO: MAY be represented by the boolean value true
-class Schema(BaseModel):
+class Schema(AtomicAssignmentMixin, BaseModel):
     """
     Schema Object.
 
@@ -100,7 +101,7 @@ class Schema(BaseModel):
     )
 
 
-class MultiFormatSchema(BaseModel):
+class MultiFormatSchema(AtomicAssignmentMixin, BaseModel):
     """
     Multi Format Schema Object.
 
-- 
2.43.0


From 6b37f880aa5a82f8c433ea011c62eab5f768b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 14/14] fix: limit the Solace client name to 160 bytes, not
 characters

---
 asyncapi3/models/bindings/solace.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asyncapi3/models/bindings/solace.py b/asyncapi3/models/bindings/solace.py
index 194653f..a74b46a 100644
--- a/asyncapi3/models/bindings/solace.py
+++ b/asyncapi3/models/bindings/solace.py
@@ -51,6 +51,14 @@ class SolaceServerBindings(NonExtendableBaseModel):
         ),
     )
 
+    @field_validator("client_name")
+    @classmethod
+    def validate_client_name(cls, client_name: str | None) -> str | None:
+        """Validate that client_name is at most 160 bytes when encoded as UTF-8."""
+        if client_name is not None and len(client_name.encode()) > 160:
+            raise ValueError("clientName must not exceed 160 bytes")
+        return client_name
+
 
 class SolaceChannelBindings(NonExtendableBaseModel):
     """
-- 
2.43.0

