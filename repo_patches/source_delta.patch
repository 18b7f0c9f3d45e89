From 48e2cc3493592bf435264708e6198bbb99484bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:43 +0000
Subject: [PATCH 001/104] fix: keep zero-valued inline numeric facts instead of
 emptying their value

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..d7e2f60 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -994,7 +994,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if not fact_value or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
-- 
2.43.0


From 58f9842f4209f867809dc5eef57e678487199bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:43 +0000
Subject: [PATCH 002/104] fix: apply the legacy zero-dash formats to inline
 numeric facts

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d7e2f60..b3c03d4 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1019,11 +1019,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
-- 
2.43.0


From 948f82c0cf8f3ffceaff3d53b02bc9221996029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:43 +0000
Subject: [PATCH 003/104] fix: accept no-break spaces as group separators of
 inline numbers

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b3c03d4..fdae31d 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -9,11 +9,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 number_format_to_regex = {
-    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal-apos": r"^([,\'`´’′  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′\xa0 0-9]*)(,[\xa0 0-9]+)?$",
+    "ixt:num-dot-decimal-apos": r"^([,\'`´’′\xa0 0-9]*)(\.[\xa0 0-9]+)?$",
     "ixt:num-unit-decimal-apos": r"^([0-9０-９\.,，\'`´’′＇]+)[^0-9０-９\.,，\'`´’′＇][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
-    "ixt:num-comma-decimal": r"^([\.  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal": r"^([,  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal": r"^([\.\xa0 0-9]*)(,[\xa0 0-9]+)?$",
+    "ixt:num-dot-decimal": r"^([,\xa0 0-9]*)(\.[\xa0 0-9]+)?$",
     "ixt:num-unit-decimal": r"^([0-9０-９\.,，]+)[^0-9０-９\.,，][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
 }
 
@@ -947,7 +947,7 @@ def apply_scale(whole_part: str, decimal_part: str, scale: int) -> tuple[str, st
 
 
 def process_number_part(number_part: str) -> str:
-    separators = " .,，'`´’′＇"
+    separators = " \xa0.,，'`´’′＇"
 
     if not number_part:
         number_part = "0"
-- 
2.43.0


From 6993e5e472391835149aab57daa0d08b72c52462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:43 +0000
Subject: [PATCH 004/104] fix: read a one-digit minor unit of an inline number
 as hundredths

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index fdae31d..d7610df 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -959,6 +959,7 @@ def process_number_part(number_part: str) -> str:
 
 def process_numerical_fact_value(
     match: re.Match,
+    fact_format: str,
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
@@ -966,6 +967,9 @@ def process_numerical_fact_value(
     # Parse whole and decimal parts
     whole_part = process_number_part(match.group(1))
     decimal_part = process_number_part(match.group(2))
+    if fact_format.startswith("ixt:num-unit-decimal"):
+        # The minor unit counts hundredths
+        decimal_part = decimal_part.zfill(2)
 
     # Parse the scale
     scale = 0
@@ -1033,7 +1037,7 @@ def parse_numerical_fact_value(
         return fact_value
 
     fact_value = process_numerical_fact_value(
-        match, fact_scale, element, error_repository
+        match, fact_format, fact_scale, element, error_repository
     )
     fact_value = normalize_numerical_fact_value(fact_value)
 
-- 
2.43.0


From d0a6f3792148a8dd1b968e6bdbf620776483dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:49 +0000
Subject: [PATCH 005/104] fix: return facts without an id from the fact
 repository

---
 brel/data/fact/in_memory_fact_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..a299f08 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -31,7 +31,7 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts_by_id.values()) + self.__facts_without_id
 
     def upsert(self, fact: Fact) -> None:
         """
-- 
2.43.0


From 0cd090852671447a061b3297aca8a7274f367c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:52 +0000
Subject: [PATCH 006/104] fix: register the error for an unknown unit id under
 its own code

The second registry entry for XML_INVALID_FACT_CONTEXT_ID replaced the first
one, so a fact with an unknown contextRef or unitRef made opening the filing
raise instead of reporting the error.
---
 brel/errors/error_factory_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..52d352d 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -219,7 +219,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
-- 
2.43.0


From 6f113ec865561a2d6346e6858ea5354c949e40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:50 +0000
Subject: [PATCH 007/104] fix: compare qualified names by namespace and local
 name, not by prefix

---
 brel/qnames/qname.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..b1dae64 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # the prefix is only a local spelling of the namespace, it does not identify a name
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
-- 
2.43.0


From bc18a03478cf8ec259c486fae918e223a52fd72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:04 +0000
Subject: [PATCH 008/104] fix: give names of the default namespace no prefix
 instead of the prefix "None"

---
 brel/qnames/qname_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 27a2ede..42276b9 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -59,9 +59,12 @@ def qname_from_clark_notation(clark_str: str, referencing_element: lxml.etree._E
 
     uri = match.group(1)
     local_name = match.group(2)
-    inverted_nsmap = {v: k for k, v in referencing_element.nsmap.items()}
+    # the default namespace has no prefix
+    inverted_nsmap = {
+        v: k for k, v in referencing_element.nsmap.items() if k is not None
+    }
     inverted_nsmap["http://www.w3.org/XML/1998/namespace"] = "xml"
-    prefix = inverted_nsmap.get(uri, None)
+    prefix = inverted_nsmap.get(uri, "")
 
     # if prefix is None:
     #     return ErrorInstance.create_error_instance(
@@ -70,7 +73,7 @@ def qname_from_clark_notation(clark_str: str, referencing_element: lxml.etree._E
     #         namespace=uri,
     #     )
 
-    return QName(uri, str(prefix), local_name)
+    return QName(uri, prefix, local_name)
 
 
 def to_clark_notation(url: str, local_name: str) -> str:
-- 
2.43.0


From a27e6a9acbfa7b0625edb504cb1def7e1dee5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:22 +0000
Subject: [PATCH 009/104] fix: write names without a prefix without a leading
 colon

---
 brel/qnames/qname.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index b1dae64..73b7094 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -37,6 +37,8 @@ class QName:
         """
         :returns str: containing the prefix:localname notation of the qualified name
         """
+        if not self.prefix:
+            return self.local_name
         return f"{self.prefix}:{self.local_name}"
 
     def __str__(self) -> str:
-- 
2.43.0


From f1345f058d62b474d9e24c06d3ed84da63617b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:26 +0000
Subject: [PATCH 010/104] fix: ignore white space around qualified names in
 element content

---
 brel/qnames/qname_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 42276b9..4440ad4 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -24,6 +24,9 @@ def qname_from_str(
     the conversion, it will be returned.
     :returns: The QName object.
     """
+    # white space around a QName is not part of it
+    qname_str = qname_str.strip()
+
     if is_clark_notation(qname_str):
         return qname_from_clark_notation(qname_str, referencing_element)
     elif is_namespace_localname_notation(qname_str):
-- 
2.43.0


From dffffc7c035ef817fdf2d4b7d2f12044af34bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:43 +0000
Subject: [PATCH 011/104] fix: ignore comments and processing instructions when
 parsing XML files

---
 brel/services/factory.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..e99d21b 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,7 +8,7 @@
 ====================
 """
 
-from lxml.etree import parse as parse_xml
+from lxml.etree import XMLParser, parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
@@ -50,7 +50,8 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
-    return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
-    )
+    def parse(content):
+        # comments and processing instructions carry no information, but would split the text of their parent
+        return parse_xml(content, XMLParser(remove_comments=True, remove_pis=True))
+
+    return XMLFileParserResolver(parse, parse)
-- 
2.43.0


From 47fc88ada84a263fec6d488aa7cdf0fadfeaa2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:04 +0000
Subject: [PATCH 012/104] fix: keep the decimals and precision of facts of XML
 instances

---
 brel/parsers/XML/xml_facts_parser.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..f602f19 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -21,6 +21,9 @@ from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
 from brel.parsers.XML.characteristics import parse_unit_from_xml
 from brel.parsers.XML.xml_context_parser import parse_context_xml
+from brel.parsers.XHMTL.elements.parse_non_fraction import (
+    parse_decimals_or_precision,
+)
 from brel.parsers.utils.error_utils import error_on_none
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Concept
@@ -80,7 +83,29 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    decimals = None
+    try:
+        decimals = parse_decimals_or_precision(fact_xml_element.get("decimals"), True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=fact_xml_element.get("decimals"),
+        )
+
+    precision = None
+    try:
+        precision = parse_decimals_or_precision(
+            fact_xml_element.get("precision"), False
+        )
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=fact_xml_element.get("precision"),
+        )
+
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From 96b9aca01505072177adbdca944a3341ff26c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:07 +0000
Subject: [PATCH 013/104] fix: read the dimensions in the scenario of a context

---
 brel/parsers/XML/xml_context_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..5f309a6 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -67,11 +67,15 @@ def parse_context_xml(
     if entity is not None:
         fact_context._add_characteristic(entity)
 
-    # add the dimensions. the dimensions are the children of context/entity/segment
+    # add the dimensions. the dimensions are the children of context/entity/segment and of context/scenario
     segment = context_entity.find("{*}segment", namespaces=None)
+    scenario = xml_element.find("{*}scenario", namespaces=None)
 
-    if segment is not None:
-        for xml_dimension in segment:
+    for dimension_container in (segment, scenario):
+        if dimension_container is None:
+            continue
+
+        for xml_dimension in dimension_container:
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From e413095251c2e4083af4d3b99713d5a323193572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:10 +0000
Subject: [PATCH 014/104] fix: tell entities with the same id under different
 schemes apart

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..5d561e2 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,9 +54,11 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
+    # the same id can be issued by different schemes
+    entity_key = f"{{{entity_url}}}{entity_id}"
+    if characteristic_repository.has(entity_key, EntityCharacteristic):
+        return characteristic_repository.get(entity_key, EntityCharacteristic)
     else:
         entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
+        characteristic_repository.upsert(entity_key, entity_characteristic)
         return entity_characteristic
-- 
2.43.0


From b908fb56a752858ffaaf1a8ffd88e9e434348266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:33 +0000
Subject: [PATCH 015/104] fix: report an unknown typed dimension instead of
 failing to open the filing

---
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..76b7a1a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -72,6 +72,8 @@ def parse_typed_dimension_from_xml(
             dimension=dimension_axis,
         )
 
+        return None
+
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
     )
-- 
2.43.0


From b0f64d6d9ef96ac31e9f37fc9ad44a9ab89725ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:37 +0000
Subject: [PATCH 016/104] fix: ignore white space around entity identifiers

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 5d561e2..09fbf8b 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,6 +54,8 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
+    entity_id = entity_id.strip()
+
     # the same id can be issued by different schemes
     entity_key = f"{{{entity_url}}}{entity_id}"
     if characteristic_repository.has(entity_key, EntityCharacteristic):
-- 
2.43.0


From b393b89896309e73839fde118628a683c2772e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 017/104] fix: keep all measures of a divided unit and report a
 divide without two children

---
 .../XML/characteristics/xml_parse_unit.py     | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..b6de7c0 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -107,18 +107,26 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
-                measure_child = num_or_denom[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
-
-                if not child_qname:
+                if len(num_or_denom) == 0:
+                    error_repository.insert(
+                        ErrorCode.XML_MISSING_UNIT_MEASURE, num_or_denom
+                    )
                     return None
 
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
+                for measure_child in num_or_denom:
+                    child_qname = parse_unit_measure_from_xml(
+                        measure_child, filing_context
+                    )
+
+                    if not child_qname:
+                        return None
+
+                    if "unitNumerator" in num_or_denom_tag:
+                        numerators.append(child_qname)
+                    elif "unitDenominator" in num_or_denom_tag:
+                        denominators.append(child_qname)
 
-            if num_and_denom[0].tag == num_and_denom[1].tag:
+            if len(num_and_denom) == 2 and num_and_denom[0].tag == num_and_denom[1].tag:
                 error_repository.insert(
                     ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
                     xml_element,
-- 
2.43.0


From 695dbdcad331cb487f27c7845d240f3e0496c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:03 +0000
Subject: [PATCH 018/104] fix: accept units that are a product of measures

---
 brel/parsers/XML/characteristics/xml_parse_unit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index b6de7c0..d3fe246 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -64,8 +64,17 @@ def parse_unit_from_xml(
     denominators: list[QName] = []
 
     # get the child elements of the unit and check if its tag is 'measure' or 'divide'
+    # several measures are multiplied
     children = list(xml_element)
-    if len(children) != 1:
+    if len(children) > 1 and all("measure" in child.tag for child in children):
+        for child in children:
+            child_qname = parse_unit_measure_from_xml(child, filing_context)
+            if not child_qname:
+                return None
+
+            numerators.append(child_qname)
+
+    elif len(children) != 1:
         error_repository.insert(
             ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD,
             xml_element,
-- 
2.43.0


From 7d178d31ef74bd02c3763696d01e3a085e34db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 019/104] fix: accept only xs:date and xs:dateTime values as
 period dates

---
 brel/characteristics/period_characteristic.py | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..cd16c58 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -17,13 +17,33 @@ A duration consists of two `datetime.date` instances, a start date and an end da
 """
 
 import datetime
+import re
 from typing import List, Optional
 
-import dateutil.parser
-
 from brel.characteristics import Aspect, ICharacteristic
 from brel.services.translation.translation_service import TranslationService
 
+# lexical form of xs:date and xs:dateTime
+_DATE_PATTERN = re.compile(
+    r"([0-9]{4})-([0-9]{2})-([0-9]{2})"
+    r"(T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?|24:00:00(\.0+)?))?"
+    r"(Z|[+-][0-9]{2}:[0-9]{2})?"
+)
+
+
+def _parse_date(date: str) -> datetime.date:
+    """
+    Reads the date of an xs:date or xs:dateTime.
+    :param date: the string to read
+    :returns datetime.date: the date
+    :raises ValueError: if the string is neither an xs:date nor an xs:dateTime
+    """
+    match = _DATE_PATTERN.fullmatch(date.strip())
+    if match is None:
+        raise ValueError(f"'{date}' is neither an xs:date nor an xs:dateTime.")
+
+    return datetime.date(int(match[1]), int(match[2]), int(match[3]))
+
 
 class PeriodCharacteristic(ICharacteristic):
     """
@@ -125,7 +145,7 @@ class PeriodCharacteristic(ICharacteristic):
             return False
 
         try:
-            dateutil.parser.parse(date)
+            _parse_date(date)
             return True
         except ValueError:
             return False
@@ -142,7 +162,7 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"Instant date '{instant_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__instant_date = dateutil.parser.parse(instant_date).date()
+        period_instance.__instant_date = _parse_date(instant_date)
         period_instance.__is_instant = True
 
         return period_instance
@@ -163,8 +183,8 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"End date '{end_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__start_date = dateutil.parser.parse(start_date).date()
-        period_instance.__end_date = dateutil.parser.parse(end_date).date()
+        period_instance.__start_date = _parse_date(start_date)
+        period_instance.__end_date = _parse_date(end_date)
         period_instance.__is_instant = False
 
         # if period_instance.start_date > period_instance.end_date:
-- 
2.43.0


From 3974cb61e9cdf13fa0f96e31b06dc58765e6f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 020/104] fix: find each report element once when its namespace
 has several prefixes

---
 brel/services/report_element/report_element_service.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..202b750 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -45,14 +45,14 @@ class ReportElementService:
             )
 
         if uri_candidates or prefix_candidates:
+            # a name is identified by its namespace, so one candidate per namespace
             qname_candidates = (
                 QName(
                     uri,
-                    prefix,
+                    search_params.prefix or "",
                     search_params.local_name,
                 )
                 for uri in uri_candidates
-                for prefix in prefix_candidates
             )
 
             matching_qnames = filter(
@@ -105,11 +105,10 @@ class ReportElementService:
                         [
                             QName(
                                 uri,
-                                prefix,
+                                search_params.prefix or "",
                                 search_params.local_name,
                             )
                             for uri in uri_candidates
-                            for prefix in prefix_candidates
                         ],
                     ),
                 )
-- 
2.43.0


From 03970b26e1f24b9315b91e68aef08eec9cd6d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:57 +0000
Subject: [PATCH 021/104] fix: understand names in Clark notation when
 searching report elements

---
 brel/qnames/qname_search_params.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/brel/qnames/qname_search_params.py b/brel/qnames/qname_search_params.py
index 53daa7c..af9a8ab 100644
--- a/brel/qnames/qname_search_params.py
+++ b/brel/qnames/qname_search_params.py
@@ -23,7 +23,7 @@ class QNameSearchParams:
         """
         Check if the given string is in Clark notation.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^\}]+)\}(?P<local_name>[^\{\}:]+)$"
         match = re.match(re_expression, clark_notation)
         return match is not None
 
@@ -32,17 +32,16 @@ class QNameSearchParams:
         """
         Create a QNameSearchParams object from a Clark notation string.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^\}]+)\}(?P<local_name>[^\{\}:]+)$"
         match = re.match(re_expression, clark_notation)
         if not match:
             raise ValueError(
-                f"Invalid Clark notation: {clark_notation}. Expected format: prefix:local_name"
+                f"Invalid Clark notation: {clark_notation}. Expected format: {{uri}}local_name"
             )
 
-        prefix = match.group("prefix")
+        uri = match.group("uri")
         local_name = match.group("local_name")
-        uri = None
-        return cls(local_name=local_name, uri=uri, prefix=prefix)
+        return cls(local_name=local_name, uri=uri, prefix=None)
 
     @staticmethod
     def is_prefix_local_name_notation(prefix_local_name: str) -> bool:
-- 
2.43.0


From 92d919fbffe2a0326c46ad5a09ae0e02cf94f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:10 +0000
Subject: [PATCH 022/104] fix: read boolean facts written as 1 or 0

---
 brel/brel_fact.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index 2d49a4d..52a83e7 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -116,9 +116,11 @@ class Fact:
         :returns bool: The value of the fact as a bool
         :raises ValueError: If the value of the fact does not resolve to a bool
         """
-        if self.__value.upper() == "TRUE":
+        # xs:boolean is written true, false, 1 or 0
+        value = self.__value.strip().upper()
+        if value == "TRUE" or value == "1":
             return True
-        elif self.__value.upper() == "FALSE":
+        elif value == "FALSE" or value == "0":
             return False
         else:
             raise ValueError(
-- 
2.43.0


From dd711c4c806b19bb257b164ffb162b8198fe16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 023/104] fix: state errors whose message could not be
 formatted instead of failing to open the filing

---
 brel/errors/error_factory_registry.py       | 10 +++++-----
 brel/parsers/XHMTL/elements/parse_hidden.py |  2 +-
 brel/parsers/XML/xml_context_parser.py      |  6 +++++-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 52d352d..8d691c8 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
@@ -289,7 +289,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.WARNING,
         Area.IXBRL_INSTANCE,
         "201",
-        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {children}.",
+        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {child_tag}.",
         "Check for a misspelling in the child element.",
     ),
     # RESOURCES: 300 - 399
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
@@ -789,7 +789,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..fb84e6a 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,5 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, child_tag=child_tag
                 )
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index 5f309a6..de3d2cf 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -95,6 +95,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=xml_dimension.tag,
+                )
 
     return fact_context
-- 
2.43.0


From 573bc2f433149030e3d903c3b84f4cf30920473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 024/104] fix: do not give facts a unit that is malformed

---
 brel/parsers/XML/characteristics/xml_parse_unit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index d3fe246..276b620 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -81,6 +81,7 @@ def parse_unit_from_xml(
             id=unit_id,
             child_count=str(len(children)),
         )
+        return None
     else:
         child = children[0]
         child_tag = child.tag
@@ -101,6 +102,7 @@ def parse_unit_from_xml(
                     id=unit_id,
                     child_count=str(len(num_and_denom)),
                 )
+                return None
 
             for num_or_denom in num_and_denom:
                 num_or_denom_tag = num_or_denom.tag
@@ -115,6 +117,7 @@ def parse_unit_from_xml(
                         id=unit_id,
                         child_tag=num_or_denom_tag,
                     )
+                    return None
 
                 if len(num_or_denom) == 0:
                     error_repository.insert(
@@ -142,6 +145,7 @@ def parse_unit_from_xml(
                     id=unit_id,
                     tag=num_and_denom[0].tag,
                 )
+                return None
         else:
             error_repository.insert(
                 ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN,
@@ -149,6 +153,7 @@ def parse_unit_from_xml(
                 id=unit_id,
                 child_tag=child_tag,
             )
+            return None
 
     # create the unit characteristic, add it to the cache and return it
     unit_characteristic = UnitCharacteristic(unit_id, numerators, denominators)
-- 
2.43.0


From 74a81b0c3044e1bbdb6f469265231a4ade885f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:24 +0000
Subject: [PATCH 025/104] fix: read abstract and nillable attributes written as
 1 or 0

---
 brel/parsers/XML/xml_report_element_factory.py | 2 +-
 brel/reportelements/concept.py                 | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..058d3b6 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -36,7 +36,7 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        is_abstract = xml_element.get("abstract", "false") in ["true", "1"]
 
         is_item = "item" in xml_element.get("substitutionGroup", "")
         is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..c5ab64b 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -315,7 +315,8 @@ class Concept(IReportElement):
         xml_nillable = xml_element.get("nillable", None)
         # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
         # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
-        possible_nillable_values = ["true", "false", None]
+        # The values of an xs:boolean can also be written as 1 and 0.
+        possible_nillable_values = ["true", "false", "1", "0", None]
         if xml_nillable not in possible_nillable_values:
             error_repository.insert(
                 ErrorCode.INVALID_CONCEPT_NILLABLE_VALUE,
@@ -326,7 +327,7 @@ class Concept(IReportElement):
 
             return None
         else:
-            nillable = xml_nillable == "true"
+            nillable = xml_nillable in ["true", "1"]
 
         # get the data type of the concept
         data_type = xml_element.get("type", None)
-- 
2.43.0


From e6bd25857fdd7a281f2d80fa34cab02e5498d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:14 +0000
Subject: [PATCH 026/104] fix: load a document once when several paths lead to
 it and resolve absolute and rewritten references

---
 brel/services/xml/xml_service.py | 46 ++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..e942c31 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import posixpath
 import re
 from typing import List, Optional, Set
 import urllib.parse
@@ -44,20 +45,8 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
-            )
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
-
-        uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        uri = self.__resolve_uri(uri, referencing_uri)
+        is_uri_remote = self.__is_remote(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
@@ -79,6 +68,35 @@ class XMLService:
             for reference_uri in self.__extract_references(file.read()):
                 self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def __is_remote(self, uri: str) -> bool:
+        return uri.startswith(("http://", "https://"))
+
+    def __resolve_uri(self, uri: str, referencing_uri: str) -> str:
+        """
+        Resolves a URI relative to the document that references it and applies the catalog.
+        :param uri: The URI to resolve.
+        :param referencing_uri: The URI of the document that references it.
+        :returns: The URI of the referenced document.
+        """
+        if self.__is_remote(uri) or self.__is_remote(referencing_uri):
+            uri = urllib.parse.urljoin(referencing_uri, uri)
+        else:
+            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
+            uri_splitting_char = "\\" if "\\" in uri else "/"
+
+            # An absolute path does not depend on the referencing document
+            if not uri.startswith("/"):
+                uri = uri_splitting_char.join(
+                    referencing_uri.split(referencing_splitting_char)[:-1]
+                    + uri.split(uri_splitting_char)
+                )
+
+            if "\\" not in uri:
+                # The same document has to get the same URI, regardless of the path that leads to it
+                uri = posixpath.normpath(uri)
+
+        return self.__uri_rewrite_repository.rewrite(uri)
+
     def __extract_references(self, content: bytes) -> set[str]:
         reference_uris: set[str] = set()
         reference_pattern = re.compile(
-- 
2.43.0


From cb1725598a80bb2733ebb3c019e93bf8a5db5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:17 +0000
Subject: [PATCH 027/104] fix: read local files themselves instead of a cached
 file of the same name

---
 brel/services/file/file_service.py |  6 ++----
 brel/services/xml/xml_service.py   | 25 +++++++++++++------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..b19dc75 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -62,7 +62,5 @@ class FileService:
 
         return self.get_file(uri)
 
-    def copy_and_add_file(self, local_path: str) -> IO[bytes]:
-        with open(local_path, "rb") as file:
-            self.add_file(local_path, file)
-        return self.get_file(local_path)
+    def open_local_file(self, local_path: str) -> IO[bytes]:
+        return open(local_path, "rb")
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index e942c31..bc94db3 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -10,6 +10,7 @@
 
 import posixpath
 import re
+from io import BytesIO
 from typing import List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
@@ -53,20 +54,20 @@ class XMLService:
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
-            with self.__file_service.get_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+        if not is_uri_remote:
+            # local files change, so they are never read from the cache
+            file = self.__file_service.open_local_file(urllib.parse.urlparse(uri).path)
+        elif self.__file_service.has_file(uri):
+            file = self.__file_service.get_file(uri)
         else:
-            local_filepath = urllib.parse.urlparse(uri).path
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+            file = self.__file_service.download_and_add_file(uri)
 
-        with self.__file_service.get_file(uri) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
+        with file:
+            content = file.read()
+
+        self.__xml_repository.add_etree(uri, parser(BytesIO(content)))
+        for reference_uri in self.__extract_references(content):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
     def __is_remote(self, uri: str) -> bool:
         return uri.startswith(("http://", "https://"))
-- 
2.43.0


From d98d8a09d469bcb82a0e1693c0b1b420ff6fa357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:21 +0000
Subject: [PATCH 028/104] fix: find the references of a document in its
 elements instead of its text

---
 brel/services/xml/xml_service.py | 51 +++++++++++++++-----------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index bc94db3..8eced81 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,7 +9,6 @@
 """
 
 import posixpath
-import re
 from io import BytesIO
 from typing import List, Optional, Set
 import urllib.parse
@@ -65,8 +64,9 @@ class XMLService:
         with file:
             content = file.read()
 
-        self.__xml_repository.add_etree(uri, parser(BytesIO(content)))
-        for reference_uri in self.__extract_references(content):
+        etree = parser(BytesIO(content))
+        self.__xml_repository.add_etree(uri, etree)
+        for reference_uri in self.__extract_references(etree):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
     def __is_remote(self, uri: str) -> bool:
@@ -98,30 +98,27 @@ class XMLService:
 
         return self.__uri_rewrite_repository.rewrite(uri)
 
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
-
-                if href_uri:
-                    reference_uris.add(href_uri)
-
-            schema_location = match.group(2)
-            if schema_location:
-                # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
-
-        return reference_uris
+    def __extract_references(self, etree: _ElementTree) -> List[str]:
+        """
+        Finds the URIs of the documents that a document references.
+        :param etree: The document.
+        :returns: The URIs in document order, without fragments and without duplicates.
+        """
+        reference_uris: List[str] = []
+
+        for element in etree.iter("*"):
+            reference_uris.append(
+                element.get("{http://www.w3.org/1999/xlink}href", "").split("#")[0]
+            )
+            reference_uris.append(element.get("schemaLocation", ""))
+
+            # xsi:schemaLocation is a list of pairs of a namespace and a location
+            reference_uris += element.get(
+                "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation", ""
+            ).split()[1::2]
+
+        stripped_uris = [reference_uri.strip() for reference_uri in reference_uris]
+        return list(dict.fromkeys(filter(None, stripped_uris)))
 
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
-- 
2.43.0


From 36d271c3458b5e2713ff6beaaf9c3a5984cbfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:24 +0000
Subject: [PATCH 029/104] fix: cache files of any encoding unchanged

---
 brel/data/file/pyfs_file_repository.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..16f93f5 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -28,10 +28,7 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
-        )
+        return self.fs.writebytes(uri_to_filename(uri), file.read())
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From b5ca897a57a5245ff83df6140a7a7cb56ca5ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 030/104] fix: cache files with different URIs under different
 names

---
 brel/parsers/utils/file_utils.py | 36 ++------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..e985ba4 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,7 +8,7 @@
 ====================
 """
 
-import re
+import urllib.parse
 
 
 def uri_to_filename(uri: str) -> str:
@@ -19,36 +19,4 @@ def uri_to_filename(uri: str) -> str:
     :returns str: the filename
     """
 
-    file_format_match = re.search(r"\.([a-zA-Z0-9]+)$", uri)
-    file_format = "." + file_format_match.group(1) if file_format_match else ""
-
-    if not uri.startswith("http"):
-        posix_uri = uri.replace("\\", "/")
-        if "/" in posix_uri:
-            return posix_uri.split("/")[-1]
-        else:
-            return posix_uri
-
-    uri = uri.replace("." + file_format, "")
-
-    if "http" in uri:
-        # remove http and https
-        uri = uri.replace("http://", "")
-        uri = uri.replace("https://", "")
-
-        # replace www. and things like .com, .org, etc.
-        uri = uri.replace("www.", "")
-        # the .com is between the first . and the first /
-        # uri = uri.split(".")[0] + uri.split("/")[1]
-    # replace all / with _
-    uri = uri.replace("/", "_")
-    # replace all : with _
-    uri = uri.replace(":", "_")
-    # replace all ? with _
-    uri = uri.replace("?", "_")
-    # replace all . with _
-    uri = uri.replace(".", "_")
-    # replace all \ with _
-    uri = uri.replace("\\", "_")
-
-    return uri + file_format
+    return urllib.parse.quote(uri, safe="")
-- 
2.43.0


From 8c54e28c933e7b08e67deb9e4bc7f7e4f9d64a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 031/104] fix: let the longest matching start string of the
 catalog rewrite a URI

---
 brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..a61a718 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,8 +22,9 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
+        # The longest matching string takes precedence, as required by XML Catalogs
+        for original_string in sorted(self.__catalog, key=len, reverse=True):
             if uri.startswith(original_string):
-                return replacement_string + uri[len(original_string) :]
+                return self.__catalog[original_string] + uri[len(original_string) :]
 
         return uri
-- 
2.43.0


From 3efa37d5c014789d38a5b0444535719b0e79d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 032/104] fix: find the domain of a typed dimension relative to
 its schema, whatever prefix it is written with

---
 brel/data/xml/xml_repository.py               |  7 ++++
 brel/parsers/XML/xml_report_element_parser.py | 32 ++++++++++++-------
 brel/services/xml/xml_service.py              | 18 +++++++++++
 3 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..4ec69fb 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -33,6 +33,13 @@ class XMLRepository:
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
         return self.__xml_etree_cache[self.normalize_uri(uri)]
 
+    def get_uri(self, etree: lxml.etree._ElementTree) -> str:
+        for uri, cached_etree in self.__xml_etree_cache.items():
+            if cached_etree is etree:
+                return uri
+
+        raise KeyError("The XML document is not in the repository.")
+
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..7ba48ae 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -25,7 +25,6 @@ from brel.parsers.utils.lxml_utils import (
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_clark_notation,
-    to_namespace_localname_notation,
 )
 from brel.reportelements import Dimension
 from brel.services.xml.xml_service import XMLService
@@ -82,20 +81,24 @@ def parse_report_element(
         report_element_repository.upsert(report_element)
 
         if isinstance(report_element, Dimension):
-            typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
-                report_element_xml,
+            typed_domain_ref = to_clark_notation(
+                "http://xbrl.org/2005/xbrldt", "typedDomainRef"
             )
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
-                refschema = (
-                    xml_service.get_etree(ref_schema_name)
-                    if ref_schema_name and ref_schema_name != "."
-                    else current_etree
+                ref_schema_name, _, ref_id = ref_full.strip().partition("#")
+                refschema = xml_service.get_referenced_etree(
+                    ref_schema_name if ref_schema_name != "." else "", current_etree
+                )
+                ref_xml = (
+                    next(
+                        (e for e in refschema.iter("*") if e.get("id") == ref_id),
+                        None,
+                    )
+                    if refschema is not None
+                    else None
                 )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
                 if ref_xml is None:
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
@@ -104,6 +107,11 @@ def parse_report_element(
                         ref_schema_name=ref_schema_name,
                     )
                     return
-                ref_type = get_str_attribute(ref_xml, "type")
-                ref_type_qname = qname_from_str(ref_type, ref_xml)
+                # the type of an element without a type attribute is not named
+                ref_type_qname = qname_from_str(
+                    get_str_attribute(
+                        ref_xml, "type", "{http://www.w3.org/2001/XMLSchema}anyType"
+                    ),
+                    ref_xml,
+                )
                 report_element.make_typed(ref_type_qname)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 8eced81..b802952 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -123,6 +123,24 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def get_referenced_etree(
+        self, uri: str, referencing_etree: _ElementTree
+    ) -> Optional[_ElementTree]:
+        """
+        Finds the document that a URI in another document refers to.
+        :param uri: The URI, without fragment. If it is empty, it refers to the document itself.
+        :param referencing_etree: The document that contains the URI.
+        :returns: The document, or None if it is not part of the filing.
+        """
+        if not uri:
+            return referencing_etree
+
+        uri = self.__resolve_uri(uri, self.__xml_repository.get_uri(referencing_etree))
+        if not self.__xml_repository.has_etree(uri):
+            return None
+
+        return self.__xml_repository.get_etree(uri)
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From 5aec39dd45b8efbad6b783e7935217d68189f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 033/104] fix: give an element of a network a node for each arc
 that leads to it, in document order

---
 .../XML/networks/xml_extended_link_parser.py  | 220 +++++++-----------
 1 file changed, 85 insertions(+), 135 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..600a5bc 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -114,152 +114,103 @@ def parse_xml_link(
             type=get_clark_notation_tag(xml_link_element),
         )
 
-    for network_factory in network_factories:
-        nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
-        node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
-
-        for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
-            arc_from = get_str_attribute(arc_element, "xlink:from")
-            arc_to = get_str_attribute(arc_element, "xlink:to")
-            arc_role = get_str_attribute(arc_element, "xlink:arcrole")
-
-            if (arc_from, arc_to, arc_role) in edges:
-                error_repository.insert(
-                    ErrorCode.DUPLICATE_LINKBASE_ARC,
-                    arc_element,
-                    arc_from=arc_from,
-                    arc_to=arc_to,
-                )
-                continue
+    arc_elements: list[lxml.etree._Element] = []  # type: ignore
+    arcs_by_from: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
+    arcs_by_to: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
+    edges: set[tuple[str, str, str]] = set()
+
+    for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
+        arc_from = get_str_attribute(arc_element, "xlink:from")
+        arc_to = get_str_attribute(arc_element, "xlink:to")
+        arc_role = get_str_attribute(arc_element, "xlink:arcrole")
+
+        if (arc_from, arc_to, arc_role) in edges:
+            error_repository.insert(
+                ErrorCode.DUPLICATE_LINKBASE_ARC,
+                arc_element,
+                arc_from=arc_from,
+                arc_to=arc_to,
+            )
+            continue
 
-            edges.add((arc_from, arc_to, arc_role))
-            node_to_arcs[arc_from].append(arc_element)
-            node_to_arcs[arc_to].append(arc_element)
+        edges.add((arc_from, arc_to, arc_role))
+        arc_elements.append(arc_element)
+        arcs_by_from[arc_from].append(arc_element)
+        arcs_by_to[arc_to].append(arc_element)
 
+    link_elements = [
+        (link_element, get_object_from_reference(link_element, context))
         for link_element in find_elements(
             xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
-        ):
-            label = get_str_attribute(link_element, "xlink:label")
-            to_object: Optional[
-                IResource | IReportElement | Fact
-            ] = get_object_from_reference(link_element, context)
+        )
+    ]
+
+    for network_factory in network_factories:
+        nodes_by_label: dict[str, list[INetworkNode]] = defaultdict(list)
+        nodes_by_arc: dict[lxml.etree._Element, list[INetworkNode]] = defaultdict(list)  # type: ignore
+        roots: list[INetworkNode] = []
 
+        for link_element, to_object in link_elements:
             if to_object is None:
                 continue
 
-            node_arcs = node_to_arcs[label]
-            arcs_to = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:to", "") == label,
-                    node_arcs,
+            label = get_str_attribute(link_element, "xlink:label")
+            arcs_from = arcs_by_from[label]
+            arcs_to = arcs_by_to[label]
+
+            # first pass. An element has a node for every arc that leads to it
+            for arc in arcs_to:
+                node = network_factory.create_node(
+                    xml_link_element, link_element, arc, to_object, error_repository
                 )
-            )
-            arcs_from = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:from", "") == label,
-                    node_arcs,
+
+                if node is None:
+                    continue
+
+                nodes_by_label[label].append(node)
+                nodes_by_arc[arc].append(node)
+
+            # and a root node if no arc leads to it
+            # if the network is physical, this applies to each arcrole on its own
+            root_arcs: list[lxml.etree._Element | None] = []  # type: ignore
+            if len(arcs_to) == 0 and len(arcs_from) == 0:
+                root_arcs = [None]
+            elif network_factory.is_physical():
+                roles = set(get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to)
+                for arc in arcs_from:
+                    arc_role = get_str_attribute(arc, "xlink:arcrole")
+                    if arc_role not in roles:
+                        roles.add(arc_role)
+                        root_arcs.append(arc)
+            elif len(arcs_to) == 0:
+                root_arcs = [arcs_from[0]]
+
+            for root_arc in root_arcs:
+                node = network_factory.create_node(
+                    xml_link_element,
+                    link_element,
+                    root_arc,
+                    to_object,
+                    error_repository,
                 )
-            )
 
-            if network_factory.is_physical():
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    outgoing_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
-                    )
-
-                    incoming_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
-                    )
-
-                    for role_type in incoming_role_types.union(outgoing_role_types):
-                        node_arcs.sort(
-                            key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
-                            reverse=True,
-                        )
-
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
-                        )
-
-                        node = network_factory.create_node(
-                            xml_link_element,
-                            link_element,
-                            arc,
-                            to_object,
-                            error_repository,
-                        )
-
-                        if node is None:
-                            continue
-
-                        if role_type not in incoming_role_types:
-                            roots.add(node)
-                        nodes_lookup[label].append(node)
-
-            else:
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
-
-                    if node is None:
-                        continue
-
-                    if len(arcs_to) == 0:
-                        roots.add(node)
-                    nodes_lookup[label].append(node)
-
-        # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for arc_from, arc_to, arc_role in edges:
-            from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
+                if node is None:
+                    continue
+
+                roots.append(node)
+                nodes_by_label[label].append(node)
+
+        # second pass. Create the tree by adding the nodes of each arc as children to the nodes of the arc's 'from' label
+        for arc in arc_elements:
+            from_nodes = nodes_by_label[get_str_attribute(arc, "xlink:from")]
 
             if network_factory.is_physical():
-                from_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
-                )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
-                )
+                arc_role = get_str_attribute(arc, "xlink:arcrole")
+                from_nodes = [
+                    node for node in from_nodes if node.get_arc_role() == arc_role
+                ]
 
-            for from_node, to_node in itertools.product(from_nodes, to_nodes):
+            for from_node, to_node in itertools.product(from_nodes, nodes_by_arc[arc]):
                 # Now we can link the nodes
                 from_node._add_child(to_node)  # type: ignore
 
@@ -270,7 +221,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
+            role_types = dict.fromkeys(node.get_arc_role() for node in roots)
             for role_type in role_types:
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
@@ -283,8 +234,7 @@ def parse_xml_link(
                 )
                 networks.append(network)
         else:
-            root_nodes = list(roots)
-            network = network_factory.create_network(xml_link_element, root_nodes)
+            network = network_factory.create_network(xml_link_element, roots)
             network_factory.update_report_elements(
                 context.get_report_element_repository(), network
             )
-- 
2.43.0


From 5e2bfd92bfa1a18b2ff8d31e7672545d5d9cf1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 034/104] fix: order the children in definition networks by the
 order of their arcs

---
 .../XML/networks/xml_definition_network_factory.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..9793455 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(get_str_attribute(xml_arc, "order", "1"))
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -136,15 +136,15 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str("link:unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(get_str_attribute(xml_arc, "order", "1"))
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From 0495dea11e46490b8b8247871cd8c80864c40a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 035/104] fix: list the nodes of networks with cycles, and in a
 fixed order

---
 brel/networks/i_network.py      | 20 +++++---------------
 brel/networks/i_network_node.py | 11 ++++++++---
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..a3454a9 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -118,21 +118,11 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # collect the nodes in a dictionary, which keeps their order
+        nodes: Dict[INetworkNode, None] = {}
+        for root in self.get_roots():
+            nodes.update(dict.fromkeys(root.get_all_descendants()))
 
-        # recursive function to add all children of a node to the nodes set
-        def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
-            for child in node.get_children():
-                add_children(child)
-
-        # add all children of the root node to the nodes set
-        roots: list[INetworkNode] = self.get_roots()
-        for root in roots:
-            add_children(root)
-
-        # return the nodes set as a list
         return list(nodes)
 
     def convert_to_dict(self) -> Dict[str, Any]:
diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..391e504 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,12 +126,17 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
+        descendants: Dict["INetworkNode", None] = {}
+
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
-            worklist.extend(node.get_children())
+            # the arcs of a network can form cycles
+            if node in descendants:
+                continue
+
+            descendants[node] = None
+            worklist.extend(reversed(node.get_children()))
 
         return list(descendants)
 
-- 
2.43.0


From d3693d1af887f6181b3d1c365109e1472809e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 036/104] fix: combine the networks of a role independently of
 their order

---
 brel/parsers/utils/network_utils.py | 75 +++++++++++------------------
 1 file changed, 27 insertions(+), 48 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..bf51c55 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,7 +1,6 @@
 from brel.networks import INetwork, INetworkNode
 
 # from brel.utils import pprint
-from functools import cmp_to_key
 
 
 def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
@@ -38,59 +37,39 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
     if len(networks) == 0:
         raise ValueError("No networks provided.")
 
-    # this algorithm works with the following steps:
-    # 1. Get an order of the networks. Networks closer to the root come first.
-    # 2. Create an empty aggregate network.
-    # 3. For each network in the order, add the roots to the aggregate network nodes as children.
-
     if len(networks) == 1:
         return networks[0]
 
-    # Step 1. sort the networks by prerequisite
-
-    def is_prerequisite(n1: INetwork, n2: INetwork) -> int:
-        # n1 is a prerequisite of n2 if all roots of n2 are in n1
-        # and if the roots of n2 are not a subset of the roots of n1
-        n1_roots = n1.get_roots()
-        n2_roots = n2.get_roots()
-
-        n1_nodes = n1.get_all_nodes()
-
-        result = all((n2_root in n1_nodes for n2_root in n2_roots)) and not all(
-            (n2_root in n1_roots for n2_root in n2_roots)
+    roots = [root for network in networks for root in network.get_roots()]
+    inner_nodes = [
+        node
+        for network in networks
+        for node in network.get_all_nodes()
+        if not any(node is root for root in roots)
+    ]
+
+    # A root that is also a node below some other root continues at that node.
+    # Roots that point to the same thing become one root.
+    # This does not depend on the order of the networks.
+    combined_roots: list[INetworkNode] = []
+    for root in roots:
+        node = next(
+            (
+                node
+                for node in inner_nodes + combined_roots
+                if nodes_equal(node, root)
+                and not any(node is n for n in root.get_all_descendants())
+            ),
+            None,
         )
 
-        if result:
-            return -1
+        if node is None:
+            combined_roots.append(root)
         else:
-            return 1
+            for child in root.get_children():
+                node._add_child(child)
 
-    networks_sorted = networks.copy()
-    sorted(networks_sorted, key=cmp_to_key(is_prerequisite))
-
-    # Step 2. Make an aggregate network.
     # In this case we re-use the first network as the aggregate network.
-    agg_network = networks_sorted.pop()
-    agg_roots = agg_network.get_roots()
-
-    def get_all_nodes():
-        all_nodes = []
-        for root in agg_roots:
-            all_nodes.extend(root.get_all_descendants())
-        return all_nodes
-
-    # Step 3. Add the roots of each network to the aggregate network.
-    # if there is a node in the aggregate network that fits, then add the children of the root to that node.
-    # otherwise, add the root to the aggregate networks roots.
-    while len(networks_sorted) > 0:
-        network = networks_sorted.pop()
-        aggregate_nodes = get_all_nodes()
-        for root in network.get_roots():
-            parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
-            if parent is None:
-                agg_roots.append(root)
-            else:
-                for child in root.get_children():
-                    parent._add_child(child)
-
+    agg_network = networks[0]
+    agg_network.get_roots()[:] = combined_roots
     return agg_network
-- 
2.43.0


From d721d9ffc4e2bc0bde7d56c5cd5abf1506541fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 037/104] fix: read the whole text of labels and footnotes and
 the default roles of resources

---
 .../XML/networks/xml_resource_parser.py        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..b693262 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -21,6 +21,13 @@ from brel.parsers.utils.lxml_utils import (
     get_clark_notation_tag,
 )
 
+# the roles of resources without an xlink:role attribute
+STANDARD_ROLES = {
+    "label": "http://www.xbrl.org/2003/role/label",
+    "footnote": "http://www.xbrl.org/2003/role/footnote",
+    "reference": "http://www.xbrl.org/2003/role/reference",
+}
+
 
 def parse_xml_resource(
     xml_element: _Element, filing_context: FilingContext
@@ -31,7 +38,6 @@ def parse_xml_resource(
         raise ValueError("The xlink:type is not resource")
 
     label = get_str_attribute(xml_element, "xlink:label")
-    role = get_str_attribute(xml_element, "xlink:role")
     tag = get_clark_notation_tag(xml_element)
 
     if "label" in tag:
@@ -41,7 +47,8 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLES["label"])
+        text = str(xml_element.xpath("string()"))
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -52,11 +59,14 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLES["footnote"])
+        text = str(xml_element.xpath("string()"))
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLES["reference"])
         content = {
-            re.sub(r"^\{.*\}", "", child.tag): child.text for child in xml_element
+            re.sub(r"^\{.*\}", "", child.tag): child.text
+            for child in xml_element.iterchildren("*")
         }
         return BrelReference(content, label, role)
     else:
-- 
2.43.0


From 93a6d2b48508393307929744654a0a8392a55eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 038/104] fix: sum only facts that have no dimensions beyond
 those of the total

---
 brel/networks/calculation_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..2428118 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -147,7 +147,11 @@ class CalculationNetwork(INetwork):
                     child_concept = child.get_concept()
 
                     # child facts are all facts with the same characteristics as the node fact, except for the concept
-                    child_facts: Iterable[Fact] = facts
+                    child_facts: Iterable[Fact] = [
+                        fact
+                        for fact in facts
+                        if len(fact.get_aspects()) == len(node_fact.get_aspects())
+                    ]
                     for node_aspect in node_fact.get_aspects():
                         # if the aspect is the concept, then get all fact with the child_concept as the concept characteristic
                         if node_aspect == Aspect.CONCEPT:
-- 
2.43.0


From c142000acc55a8e1d187585dcde88eaf1a2517b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:54 +0000
Subject: [PATCH 039/104] fix: check the aggregation below concepts without
 facts

---
 brel/networks/calculation_network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 2428118..2bd9127 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -210,11 +210,11 @@ class CalculationNetwork(INetwork):
                 if node_value != children_sum:
                     return False
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+            # check the children, also if there are no facts for the concept of this node
+            for child in node.get_children():
+                child = cast(CalculationNetworkNode, child)
+                if not is_subnetwork_aggregation_consistent(child):
+                    return False
 
             return True
 
-- 
2.43.0


From 36dc746b80ca1c8a2fce2f0a2f2444fec42bd764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:56 +0000
Subject: [PATCH 040/104] fix: add up the numbers of facts exactly

---
 brel/networks/calculation_network.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 2bd9127..9fb0738 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -14,6 +14,7 @@ Calculation networks also contain helper functions for checking the consistency
 
 DEBUG = False
 
+from decimal import Decimal
 from typing import Iterable, cast
 
 from brel import Fact, QName
@@ -22,6 +23,15 @@ from brel.networks import CalculationNetworkNode, INetwork, INetworkNode
 from brel.reportelements import *
 
 
+def get_exact_value(fact: Fact) -> Decimal:
+    """
+    :returns Decimal: the number that the fact states, which might have no exact float value
+    :raises ValueError: if the value of the fact is not a number
+    """
+    float(fact)
+    return Decimal(fact.get_value_as_str().strip())
+
+
 class CalculationNetwork(INetwork):
     """
     The class for representing a calculation network.
@@ -135,13 +145,13 @@ class CalculationNetwork(INetwork):
             )
 
             for node_fact in node_facts:
-                node_value = float(node_fact)
+                node_value = get_exact_value(node_fact)
 
                 if DEBUG:  # pragma: no cover
                     print(f"{node_fact._get_id()}: {node_value} = ", end=" ")
 
                 # get the sum of the children values
-                children_sum: float = 0
+                children_sum = Decimal(0)
                 for child in node.get_children():
                     child = cast(CalculationNetworkNode, child)
                     child_concept = child.get_concept()
@@ -193,7 +203,8 @@ class CalculationNetwork(INetwork):
 
                     child_fact = all_child_facts[0]
 
-                    children_sum += float(child_fact) * child.get_weight()
+                    weight = Decimal(str(child.get_weight()))
+                    children_sum += get_exact_value(child_fact) * weight
 
                     if DEBUG:  # pragma: no cover
                         print(
-- 
2.43.0


From 12e3050f6a1c7fe51659bb143d316181f1d138cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:57 +0000
Subject: [PATCH 041/104] fix: compare units by their measures instead of their
 names

---
 brel/characteristics/unit_characteristic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brel/characteristics/unit_characteristic.py b/brel/characteristics/unit_characteristic.py
index a37e087..fe8f1cb 100644
--- a/brel/characteristics/unit_characteristic.py
+++ b/brel/characteristics/unit_characteristic.py
@@ -89,7 +89,13 @@ class UnitCharacteristic(ICharacteristic):
         if not isinstance(__value, UnitCharacteristic):
             return False
 
-        return self.__name == __value.__name
+        # units are equal if they measure the same, whatever their names are
+        def measures(qnames: list[QName]) -> list[str]:
+            return sorted(qname.clark_notation() for qname in qnames)
+
+        return measures(self.__numerators) == measures(
+            __value.__numerators
+        ) and measures(self.__denominators) == measures(__value.__denominators)
 
     def is_simple(self) -> bool:
         """
-- 
2.43.0


From 33b626487fa1424659a007222e14668783c684f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 042/104] fix: escape the text of facts with markup once and
 keep its characters

---
 .../XHMTL/elements/parse_non_numeric.py        | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..679456c 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -32,25 +32,13 @@ def convert_escaped_characters(text: str) -> str:
     return text
 
 
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    text_nodes.append(convert_escaped_characters(content.text or ""))
 
     for child in content:
-        child_str = etree.tostring(child).decode()
+        # the text in and after a child is escaped by the serialization
+        child_str = etree.tostring(child, encoding="unicode")
         text_nodes.append(child_str)
 
     full_text = "".join(text_nodes)
-- 
2.43.0


From e7aecbd54567af8b50bebdd74d2db2b21be9dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 043/104] fix: end chains of continuations that form a cycle

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..2bd586c 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -91,6 +91,10 @@ def create_continuation_chains(
 
                 break
 
+            if continuation in continuation_chain:
+                # the continuations form a cycle
+                break
+
             continuation_chain.append(continuation)
             used_continuation_ids.add(continued_at)
             continued_at = get_str_attribute_optional(continuation, "continuedAt")
-- 
2.43.0


From 8734d210365caffe04dfb000884de02d864ea65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:52 +0000
Subject: [PATCH 044/104] fix: read escape attributes written as 1 or 0

---
 brel/parsers/XHMTL/elements/parse_non_numeric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 679456c..86ae49c 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -78,6 +78,10 @@ def parse_non_numeric_fact_element(
 
     escape = get_str_attribute_optional(fact_element, "escape")
 
+    # xs:boolean is written true, false, 1 or 0
+    if escape in ["1", "0"]:
+        escape = "true" if escape == "1" else "false"
+
     if escape and escape not in ["true", "false"]:
         error_repository.insert(
             ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE,
-- 
2.43.0


From 9d4de2813cf02b3ec400debf6df10f847f354193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:37 +0000
Subject: [PATCH 045/104] fix: read the number of a fact that consists of a
 nested fact

---
 .../XHMTL/elements/parse_non_fraction.py      | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..edc3390 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -81,8 +81,18 @@ def validate_descendant_non_fraction_rules(
         )
 
 
+def get_non_fraction_text(fact_element: _Element) -> Optional[str]:
+    """
+    :returns Optional[str]: the text of the element or, if it consists of a nested ix:nonFraction, the text of that
+    """
+    if len(fact_element) == 0:
+        return fact_element.text
+
+    return get_non_fraction_text(fact_element[0])
+
+
 def process_non_fraction_value(
-    fact_element: _Element, error_repository: ErrorRepository
+    fact_element: _Element, error_repository: ErrorRepository, fact_value: Optional[str]
 ) -> str:
     format = get_str_attribute_optional(fact_element, "format")
     scale = get_str_attribute_optional(fact_element, "scale")
@@ -95,8 +105,6 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
-
     if not fact_value:
         fact_value = ""
 
@@ -195,8 +203,12 @@ def parse_non_fraction_fact_element(
     element_text = fact_element.text
     element_children = [child for child in fact_element]
 
-    has_text = element_text != None or any([child.tail for child in element_children])
     has_children = len(element_children) > 0
+    has_text = element_text != None or any([child.tail for child in element_children])
+    if has_children:
+        # white space around children is no text
+        texts = [element_text] + [child.tail for child in element_children]
+        has_text = any(text and text.strip() for text in texts)
 
     if has_text and has_children:
         error_repository.insert(
@@ -221,7 +233,9 @@ def parse_non_fraction_fact_element(
     if xsi_nil == "true":
         fact_value = ""
     elif has_text:
-        fact_value = process_non_fraction_value(fact_element, error_repository)
+        fact_value = process_non_fraction_value(
+            fact_element, error_repository, element_text
+        )
     else:
         if len(element_children) > 1:
             error_repository.insert(
@@ -236,7 +250,13 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+            # Input whole element as fact value
+            fact_value = etree.tostring(element_children[0]).decode()
+        else:
+            fact_value = process_non_fraction_value(
+                fact_element,
+                error_repository,
+                get_non_fraction_text(element_children[0]),
+            )
 
     return Fact(context, fact_value, id, decimals, precision)
-- 
2.43.0


From e1df765057bd184272fa1db5f5cf11d4e48406fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:31 +0000
Subject: [PATCH 046/104] fix: read German instead of Danish month names in
 German dates

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d7610df..d23dbc4 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -37,9 +37,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 498872431138f5d3233b168641474a4767bb5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:33 +0000
Subject: [PATCH 047/104] fix: read the day of Slovenian dates

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d23dbc4..109d5c3 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 04ae764910fd26c50e1d899c4a9e14cd881dd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:35 +0000
Subject: [PATCH 048/104] fix: tell August from September in Lithuanian dates

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 109d5c3..ab13ea6 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -408,7 +408,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
-- 
2.43.0


From c946ec87add575b3dc7936271c8f58593df4a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 049/104] fix: both Dutch names of March are one month

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index ab13ea6..d3d99ef 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -374,8 +374,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
-- 
2.43.0


From 0b7cb6cf1503eae93ceb386b8f2d24cf02530b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:38 +0000
Subject: [PATCH 050/104] fix: read mutated Welsh month names

---
 .../XHMTL/xhtml_parse_transformation_registry.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d3d99ef..fd7e120 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -19,7 +19,7 @@ number_format_to_regex = {
 
 date_format_to_regex = {
     "ixt:date-day-monthname-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]{0,7}$",
-    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fedi|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fed|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-year-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-month": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
     "ixt:date-month-day": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
-- 
2.43.0


From ac6160d75cde8f4cab5faed302a197540ae9dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 051/104] fix: read all admitted Greek month names

---
 .../XHMTL/xhtml_parse_transformation_registry.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index fd7e120..2009992 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -246,16 +246,17 @@ country_to_month_names = {
         ["dez"],
     ],
     "el": [
-        ["ιαν", "ίαν"],
+        # some of the admitted capitals are latin letters
+        ["ιαν", "ίαν", "iαν"],
         ["φεβ"],
         ["μάρ", "μαρ"],
-        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ"],
-        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ"],
-        ["ιούν", "ίούν", "ίουν", "ιουν"],
-        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ"],
+        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ", "aπρ", "aρίλ", "aριλ"],
+        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαϊ\u0301"],
+        ["ιούν", "ίούν", "ίουν", "ιουν", "iούν", "iουν"],
+        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ", "iούλ", "iουλ"],
         ["αύγ", "αυγ"],
         ["σεπ"],
-        ["οκτ", "όκτ"],
+        ["οκτ", "όκτ", "oκτ"],
         ["νοέ", "νοε"],
         ["δεκ"],
     ],
-- 
2.43.0


From 814e08d02476f05bfb880e2660431f612189cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:20 +0000
Subject: [PATCH 052/104] fix: read the year of dates with roman months

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 2009992..85d9507 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 0958ecc32150e4fa35d64dd89f08ec04c45e1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 053/104] fix: report months that do not exist instead of
 failing

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 85d9507..adb7b89 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -792,6 +792,9 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
+    if "month" not in date_parts:
+        return
+
     iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
 
     try:
@@ -840,6 +843,10 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    # the month does not exist
+    if "month" not in date_parts:
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
-- 
2.43.0


From 7517121115eb868a0be80a59fc9aea7d0b14e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:11 +0000
Subject: [PATCH 054/104] fix: report days that do not exist in recurring dates

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index adb7b89..b8ffa4e 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -795,7 +795,7 @@ def validate_date_fact_value(
     if "month" not in date_parts:
         return
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
+    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date or is_recurring else '01'}"
 
     try:
         datetime.date.fromisoformat(iso8601_formatted_string)
-- 
2.43.0


From 8e52b769eb328945e60ab7fedfe0cf3fb6cb3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:12 +0000
Subject: [PATCH 055/104] fix: read the decomposed Greek name of May

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b8ffa4e..04265cb 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -251,7 +251,7 @@ country_to_month_names = {
         ["φεβ"],
         ["μάρ", "μαρ"],
         ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ", "aπρ", "aρίλ", "aριλ"],
-        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαϊ\u0301"],
+        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαι\u0308\u0301"],
         ["ιούν", "ίούν", "ίουν", "ιουν", "iούν", "iουν"],
         ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ", "iούλ", "iουλ"],
         ["αύγ", "αυγ"],
-- 
2.43.0


From f3f0098f4b02b66565ca0a6d9c5e8f99b0010731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:14 +0000
Subject: [PATCH 056/104] fix: map two legacy date formats to the right current
 ones

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 04265cb..0cda0d2 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -546,7 +546,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -592,7 +592,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
-- 
2.43.0


From f955956f8a6b7b7ac7ffa5d61404b7edd6e2e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:37 +0000
Subject: [PATCH 057/104] fix: read dates in the legacy Indian format

---
 .../XHMTL/xhtml_parse_transformation_registry.py     | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 0cda0d2..7a3e377 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1075,15 +1075,13 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
-            )
+            date_format = "ixt:date-day-month-year"
+            if not re.search(date_format_to_regex[date_format], fact_value.strip()):
+                date_format = "ixt:date-day-monthname-year-hi"
 
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
+            fact_value = parse_date_fact_value(
+                fact_value, date_format, element, error_repository
             )
-
-            fact_value = fact_value_option_1 or fact_value_option_2
         else:
             fact_value = parse_date_fact_value(
                 fact_value, fact_format, element, error_repository
-- 
2.43.0


From a7a3e80a991f0a9de1aaae4d7effa32cec73d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:39 +0000
Subject: [PATCH 058/104] fix: read dates of the Indian national calendar

---
 .../xhtml_parse_transformation_registry.py    | 73 +++++++++++++------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 7a3e377..5b9b6cb 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -331,18 +331,18 @@ country_to_month_names = {
         ["déc", "dec"],
     ],
     "hi": [
-        ["जनवरी", "cait", "chait", "चैत्र"],
-        ["फरवरी", "vai", "वैशाख", "बैसाख"],
-        ["मार्च", "jy", "ज्येष्ठ"],
-        ["अप्रैल", "dha", "ḍha", "आषाढ", "आषाढ़"],
-        ["मई", "vana", "śrāvaṇa", "श्रावण", "सावन"],
-        ["जून", "bhadra", "proṣṭhapada", "भाद्रपद", "भादो"],
-        ["जुलाई", "in", "आश्विन"],
-        ["अगस्त", "karti", "kartik", "कार्तिक"],
-        ["सितंबर", "mrga", "marga", "agra", "मार्गशीर्ष", "अगहन"],
-        ["अक्टूबर", "pau", "पौष"],
-        ["नवंबर", "mgh", "magha", "माघ"],
-        ["दिसंबर", "phlg", "phalg", "फाल्गुन"],
+        ["जनवरी"],
+        ["फरवरी"],
+        ["मार्च"],
+        ["अप्रैल"],
+        ["मई"],
+        ["जून"],
+        ["जुलाई"],
+        ["अगस्त"],
+        ["सितंबर"],
+        ["अक्टूबर"],
+        ["नवंबर"],
+        ["दिसंबर"],
     ],
     "hr": [
         ["sij"],
@@ -528,6 +528,22 @@ country_to_month_names = {
     ],
 }
 
+# months of the Indian national calendar
+indian_month_regexes = [
+    r"C\S*ait|चैत्र",
+    r"Vai|वैशाख|बैसाख",
+    r"Jy|ज्येष्ठ",
+    r"dha|ḍha|आषाढ|आषाढ़",
+    r"vana|Śrāvaṇa|श्रावण|सावन",
+    r"Bh\S+dra|Proṣṭhapada|भाद्रपद|भादो",
+    r"in|आश्विन",
+    r"K\S+rti|कार्तिक",
+    r"M\S+rga|Agra|मार्गशीर्ष|अगहन",
+    r"Pau|पौष",
+    r"M\S+gh|माघ",
+    r"Ph\S+lg|फाल्गुन",
+]
+
 japanese_era_to_gregorian_period = {
     # era: (starting_date, ending_date)
     "明治": (datetime.date(1868, 10, 23), datetime.date(1912, 7, 29)),
@@ -665,20 +681,29 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
+    is_two_digit_year = len(date_parts["year"]) == 2
+    if is_two_digit_year:
         date_parts["year"] = "19" + date_parts["year"]
 
-    gregorian_date = indian_civil.to_gregorian(
-        int(date_parts["year"]), int(date_parts["month"]), int(date_parts["day"])
+    indian_date = (
+        int(date_parts["year"]),
+        int(date_parts["month"]),
+        int(date_parts["day"]),
     )
+    gregorian_date = indian_civil.to_gregorian(*indian_date)
+
+    # the month does not have that many days
+    if indian_civil.from_gregorian(*gregorian_date) != indian_date:
+        del date_parts["day"]
+        return date_parts
 
     gregorian_year, gregorian_month, gregorian_day = gregorian_date
 
     # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
+    if is_two_digit_year and gregorian_year < 2000:
         gregorian_year += 100
 
-    date_parts["year"] = str(gregorian_year)
+    date_parts["year"] = "{:04}".format(gregorian_year)
     date_parts["month"] = "{:02n}".format(gregorian_month)
     date_parts["day"] = "{:02n}".format(gregorian_day)
 
@@ -700,7 +725,12 @@ def normalize_date_parts(
 
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
-    if "month" in date_parts:
+    if "month" in date_parts and fact_format == "ixt:date-ind-day-monthname-year-hi":
+        for i, month_regex in enumerate(indian_month_regexes):
+            if re.fullmatch(month_regex, date_parts["month"]):
+                normalized_date_parts["month"] = "{:02n}".format(i + 1)
+                break
+    elif "month" in date_parts:
         country = fact_format[-2:] if fact_format[-3] == "-" else None
 
         if not country and "monthroman" in fact_format:
@@ -716,6 +746,7 @@ def normalize_date_parts(
     if "year" in date_parts:
         # special handling of indian national calendar
         if fact_format == "ixt:date-ind-day-monthname-year-hi":
+            normalized_date_parts["year"] = date_parts["year"]
             normalized_date_parts = convert_national_indian_date_to_gregorian(
                 normalized_date_parts
             )
@@ -792,7 +823,7 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
-    if "month" not in date_parts:
+    if "month" not in date_parts or is_full_date and "day" not in date_parts:
         return
 
     iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date or is_recurring else '01'}"
@@ -843,8 +874,8 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
-    # the month does not exist
-    if "month" not in date_parts:
+    # the month or the day does not exist
+    if "month" not in date_parts or is_full_date and "day" not in date_parts:
         return fact_value
 
     if is_full_date:
-- 
2.43.0


From 2c3f684d375d64a4fc7cad9f72e836215ebbdd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:41 +0000
Subject: [PATCH 059/104] fix: report dates outside of their Japanese era

---
 .../xhtml_parse_transformation_registry.py    | 38 ++++++-------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 5b9b6cb..b7dc772 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -723,6 +723,8 @@ def normalize_date_parts(
 
     normalized_date_parts = {}
 
+    if "era" in date_parts:
+        normalized_date_parts["era"] = date_parts["era"]
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
     if "month" in date_parts and fact_format == "ixt:date-ind-day-monthname-year-hi":
@@ -761,35 +763,17 @@ def normalize_date_parts(
 
 
 def check_japanese_imperial_date_valid(date_parts: dict[str, str]) -> bool:
-    era_start_date = japanese_era_to_gregorian_period[date_parts["era"]][0]
-    era_end_date = japanese_era_to_gregorian_period[date_parts["era"]][1]
-
-    if "day" in date_parts:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{date_parts["day"]}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
+    era_start_date, era_end_date = japanese_era_to_gregorian_period[date_parts["era"]]
 
-        if given_date < era_start_date or given_date > era_end_date:
-            return False
-    else:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_start_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
+    # without a day, the month has to overlap with the era
+    units = ["year", "month", "day"] if "day" in date_parts else ["year", "month"]
+    given_date = [int(date_parts[unit]) for unit in units]
 
-        if given_date < era_start_date:
-            return False
-
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_end_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date > era_end_date:
-            return False
-
-    return True
+    return (
+        [getattr(era_start_date, unit) for unit in units]
+        <= given_date
+        <= [getattr(era_end_date, unit) for unit in units]
+    )
 
 
 def validate_date_fact_value(
-- 
2.43.0


From 5b0051c249878e9813508ee5224a1d96f5221695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 060/104] fix: read label links with labels that no arc leads
 to

---
 brel/parsers/XML/networks/xml_label_network_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..10dee7e 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -105,14 +105,15 @@ class LabelNetworkFactory(IXMLNetworkFactory):
             if not isinstance(root, LabelNetworkNode):
                 raise TypeError("roots must all be of type LabelNetworkNode")
             if not root.points_to() == "report element":
-                raise ValueError(f"root {root} is not a report element")
+                # a label that no arc leads to does not label anything
+                continue
 
             report_element = root.get_report_element()
             for label_node in root.get_children():
                 if not isinstance(label_node, LabelNetworkNode):
                     raise TypeError("children must all be of type LabelNetworkNode")
                 if not label_node.points_to() == "resource":
-                    raise ValueError(f"child {label_node} is not a resource")
+                    continue
 
                 label = label_node.get_resource()
 
-- 
2.43.0


From e60a59795b50154a0e9c3960162b03376e2016aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 061/104] fix: prefer English labels of every region as the
 main label

---
 brel/characteristics/brel_aspect.py     | 9 ++++++++-
 brel/reportelements/i_report_element.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/brel/characteristics/brel_aspect.py b/brel/characteristics/brel_aspect.py
index 64b3979..9547cca 100644
--- a/brel/characteristics/brel_aspect.py
+++ b/brel/characteristics/brel_aspect.py
@@ -123,7 +123,14 @@ class Aspect:
                 labels[0],
             )
         else:
-            return labels[0]
+            return next(
+                (
+                    label
+                    for label in labels
+                    if label.get_language().lower().split("-")[0] == "en"
+                ),
+                labels[0],
+            )
 
     def __hash__(self) -> int:
         return hash(self.__name)
diff --git a/brel/reportelements/i_report_element.py b/brel/reportelements/i_report_element.py
index e023334..9417ca4 100644
--- a/brel/reportelements/i_report_element.py
+++ b/brel/reportelements/i_report_element.py
@@ -127,4 +127,11 @@ class IReportElement(ABC):
                 labels[0],
             )
         else:
-            return labels[0]
+            return next(
+                (
+                    label
+                    for label in labels
+                    if label.get_language().lower().split("-")[0] == "en"
+                ),
+                labels[0],
+            )
-- 
2.43.0


From c3f15f8cff5cf2c24ac497d8a21bebaf69183ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 062/104] fix: list the languages of a filing in document
 order, with those of root elements

---
 brel/services/xml/xml_service.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index b802952..9887875 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -10,7 +10,7 @@
 
 import posixpath
 from io import BytesIO
-from typing import List, Optional, Set
+from typing import Dict, List, Optional
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -146,18 +146,12 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            # a dict keeps the order in which the languages are found
+            all_languages: Dict[str, None] = {}
             for tree in self.get_all_etrees():
-                elements_with_lang = tree.findall(
-                    "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
-                )
-
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
-                    for element_with_lang in elements_with_lang
-                )
-
-                all_languages = all_languages.union(tree_languages)
+                for element in tree.iter("*"):
+                    if "{http://www.w3.org/XML/1998/namespace}lang" in element.attrib:
+                        all_languages[get_str_attribute(element, "xml:lang")] = None
 
             self.__available_filing_languages = list(all_languages)
 
-- 
2.43.0


From 10bc3b945a4600de48010be2f6d5d003f759c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 063/104] fix: read role types whose linkbase prefix is not
 link

---
 brel/parsers/XML/xml_component_parser.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..e1e34d2 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,10 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import find_elements, get_str_attribute
+from brel.qnames.qname_utils import qname_from_str
+
+LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
 
 
 def parse_component_from_xml(
@@ -40,13 +43,17 @@ def parse_component_from_xml(
 
     role_uri = get_str_attribute(xml_element, "roleURI")
 
-    info_element = find_element(xml_element, "link:definition")
+    # the prefix of the linkbase namespace differs from document to document
+    info_element = xml_element.find(f"{{{LINK_NAMESPACE}}}definition")
     info = (info_element.text or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [
+        qname_from_str(used_on.text or "", used_on).clark_notation()
+        for used_on in xml_element.findall(f"{{{LINK_NAMESPACE}}}usedOn")
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}presentationLink" not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +62,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}calculationLink" not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +71,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}definitionLink" not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -133,6 +140,6 @@ def parse_components_xml(
         for roletype in find_elements(
             schema,
             ".//link:roleType",
-            namespaces={"link": "http://www.xbrl.org/2003/linkbase"},
+            namespaces={"link": LINK_NAMESPACE},
         ):
             component_repository.upsert(parse_component_from_xml(context, roletype))
-- 
2.43.0


From f5301a2df618e7575189eb8a1b0fa731e163f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 064/104] fix: make one component of a role that several
 schemas declare

---
 brel/data/component/in_memory_component_repository.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brel/data/component/in_memory_component_repository.py b/brel/data/component/in_memory_component_repository.py
index bed3472..929e8f7 100644
--- a/brel/data/component/in_memory_component_repository.py
+++ b/brel/data/component/in_memory_component_repository.py
@@ -20,7 +20,10 @@ class InMemoryComponentRepository(ComponentRepository):
         return self.__components
 
     def upsert(self, component: Component) -> None:
-        if component in self.__components:
-            self.__components.remove(component)
+        # a role can be declared in several schemas, but it is one component
+        for index, other in enumerate(self.__components):
+            if other.get_URI() == component.get_URI():
+                self.__components[index] = component
+                return
 
         self.__components.append(component)
-- 
2.43.0


From 30758e46ad7c2cd6eb841a0cadb29adb0287b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:03 +0000
Subject: [PATCH 065/104] fix: report an unavailable remote document instead of
 failing to open the filing

---
 brel/services/file/file_service.py | 10 ++++++++--
 brel/services/xml/xml_service.py   |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index b19dc75..914ae83 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -10,7 +10,7 @@
 
 import time
 from io import BytesIO
-from typing import IO
+from typing import IO, Optional
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
@@ -37,7 +37,12 @@ class FileService:
     def has_file(self, uri: str) -> bool:
         return self.__file_repository.has_file(uri)
 
-    def download_and_add_file(self, uri: str) -> IO[bytes]:
+    def download_and_add_file(self, uri: str) -> Optional[IO[bytes]]:
+        """
+        Downloads a remote file and adds it to the repository.
+        :param uri: The URI of the file.
+        :returns: The file, or None if it is not available. This is reported as an error.
+        """
         headers = {}
 
         if "www.sec.gov" in uri:
@@ -59,6 +64,7 @@ class FileService:
                 uri=uri,
                 status_code=str(response.status_code),
             )
+            return None
 
         return self.get_file(uri)
 
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 9887875..02eebd0 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -61,6 +61,10 @@ class XMLService:
         else:
             file = self.__file_service.download_and_add_file(uri)
 
+        if file is None:
+            # a document that is not available is reported
+            return
+
         with file:
             content = file.read()
 
-- 
2.43.0


From d3e1925c5665c9a4a0395196c1ce646de584374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 066/104] fix: load a document once that is reached by its path
 and by the catalog

---
 brel/services/xml/xml_service.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 02eebd0..ae65b43 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -97,10 +97,14 @@ class XMLService:
                 )
 
             if "\\" not in uri:
-                # The same document has to get the same URI, regardless of the path that leads to it
                 uri = posixpath.normpath(uri)
 
-        return self.__uri_rewrite_repository.rewrite(uri)
+        uri = self.__uri_rewrite_repository.rewrite(uri)
+        if not self.__is_remote(uri) and "\\" not in uri:
+            # The same document has to get the same URI, regardless of the path that leads to it
+            uri = posixpath.normpath(uri)
+
+        return uri
 
     def __extract_references(self, etree: _ElementTree) -> List[str]:
         """
-- 
2.43.0


From f2beee979c53fcfd5fe204da5612e2a04781d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 067/104] fix: open inline XBRL files that end in .htm or .html

---
 brel/parsers/path_loaders/file_path_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/path_loaders/file_path_loader.py b/brel/parsers/path_loaders/file_path_loader.py
index 0cdba76..2b27ec6 100644
--- a/brel/parsers/path_loaders/file_path_loader.py
+++ b/brel/parsers/path_loaders/file_path_loader.py
@@ -17,12 +17,12 @@ class FilePathLoader(PathLoader):
         """
         Checks if the loader is applicable for the given path.
         This loader is applicable for any file path that is not a directory.
-        The supported file extensions are: .xml and .xhtml.
+        The supported file extensions are: .xml, .xhtml, .htm and .html.
         Weblinks are also supported.
         :param path: The file path to check.
         :returns: True if the loader can handle the path, False otherwise.
         """
-        if path.endswith((".xml", ".xhtml")):
+        if path.endswith((".xml", ".xhtml", ".htm", ".html")):
             if os.path.isfile(path):
                 return True
             if path.startswith(("http://", "https://")):
-- 
2.43.0


From fe6f2fae9072c6046f1e71555ef00efbd1e0140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 068/104] fix: extract zip files before their files are loaded

---
 brel/parsers/path_loaders/zip_path_loader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..7e32a68 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,6 +8,12 @@
 ====================
 """
 
+import atexit
+import shutil
+import tempfile
+import zipfile
+
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
@@ -16,9 +22,15 @@ class ZipPathLoader(PathLoader):
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
-        import zipfile
+        """
+        Extracts a zip file to a folder, which is removed when the program ends.
+        :param path: The path of the zip file.
+        :returns: A list of file paths in the folder.
+        """
+        folder = tempfile.mkdtemp(prefix="brel-")
+        atexit.register(shutil.rmtree, folder, ignore_errors=True)
 
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            zip_ref.extractall(folder)
+
+        return FolderPathLoader().load(folder)
-- 
2.43.0


From ceb10131ae0dda76375c22bb8e13f2b1ba139722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:02 +0000
Subject: [PATCH 069/104] fix: load the files of a folder in the same order on
 every system

---
 brel/parsers/path_loaders/folder_path_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..9074568 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -35,7 +35,7 @@ class FolderPathLoader(PathLoader):
 
         path_parts = path.split(splitting_char)
         files_and_folders = [
-            "/".join(path_parts + [dir_item]) for dir_item in os.listdir(path)
+            "/".join(path_parts + [dir_item]) for dir_item in sorted(os.listdir(path))
         ]
 
         files = [
@@ -46,7 +46,7 @@ class FolderPathLoader(PathLoader):
         filtered_files = [
             file
             for file in files
-            if file.endswith((".xml", ".xhtml", ".htm", "html", ".xsd"))
+            if file.endswith((".xml", ".xhtml", ".htm", ".html", ".xsd"))
         ]
 
         folders = [
-- 
2.43.0


From a99c2cd6e787d89eb997abb21c6c09cfca483d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 070/104] fix: a duplicate unit id has a message

---
 brel/errors/error_factory_registry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 8d691c8..738d39c 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -163,6 +163,13 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Fact has concept {fact_concept} but should have concept {context_concept}",
         "Check the concept and the context of the fact",
     ),
+    ErrorCode.XML_DUPLICATE_UNIT_ID: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.XML_INSTANCE,
+        "000",
+        "Unit ID '{id}' has already been used.",
+        "Check the 'id' attributes of the unit elements.",
+    ),
     ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
-- 
2.43.0


From 8bff48a10c3b8c6fade91a0f999024ca770e2628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 071/104] fix: messages of a missing start and a missing end
 date are swapped

---
 brel/errors/error_factory_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 738d39c..765835f 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -41,14 +41,14 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "004",
-        "End date is missing from the duration period.",
+        "Start date is missing from the duration period.",
         "Check that the `period` element has a `startDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_MISSING_END_DATE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "005",
-        "Start date is missing from the duration period.",
+        "End date is missing from the duration period.",
         "Check that the `period` element has an `endDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_START_AFTER_END: lambda: ErrorInstance(
-- 
2.43.0


From de9806ab05714ad3127d8ec14bd09a8783a41f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 072/104] fix: an identifier without a value is reported

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 09fbf8b..1598c46 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -51,7 +51,9 @@ def parse_entity_from_xml(
     entity_id = identifier_element.text
 
     if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+        error_repository.insert(
+            ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, identifier_element
+        )
         return None
 
     entity_id = entity_id.strip()
-- 
2.43.0


From 617a8e23d5ed3a5d14ff47f63ec421c7a380dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 073/104] fix: order of an inline relationship may be left out,
 or be 0

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..cbddd0a 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -202,6 +202,7 @@ def parse_relationship_attributes(
         linkrole = "http://www.xbrl.org/2003/role/link"
 
     order_str = get_str_attribute_optional(relationship_element, "order")
+    order = 1.0
 
     if order_str:
         try:
@@ -213,9 +214,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
-- 
2.43.0


From bb54e54cb2c60dbb0dc714be3eea1c9bafaf6fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 074/104] fix: link role of inline footnote networks

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index cbddd0a..8a04bf5 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -341,7 +341,7 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
         networks.append(network)
 
-- 
2.43.0


From 62210ab2c7e6c5e4a17e0d12903c1a747605ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 075/104] fix: ids of inline relationships that point to
 nothing

---
 .../XHMTL/networks/xhtml_parse_footnote_network.py    | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 8a04bf5..408106c 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -240,6 +240,17 @@ def parse_relationship(
         relationship_element, error_repository
     )
 
+    # ids that do not point to anything are reported above and have no nodes
+    fromIds = {id for id in fromIds if fact_repository.has_id(id)}
+    toIds = {
+        id
+        for id in toIds
+        if (id in footnotes or fact_repository.has_id(id)) and id not in fromIds
+    }
+
+    if not fromIds or not toIds:
+        return None
+
     return (fromIds, toIds, arcrole, linkrole, order)
 
 
-- 
2.43.0


From 3fd223d0ddfc37e78e99b302d188527fa9265dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 076/104] fix: inline footnotes are ordered below each fact by
 their relationships

---
 .../networks/xhtml_parse_footnote_network.py  | 124 +++++++++---------
 1 file changed, 60 insertions(+), 64 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 408106c..ff04143 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -100,7 +100,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,15 +117,17 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    # in the order in which they are given
+    fromIds = list(dict.fromkeys(fromRefs.split()))
+    toIds = list(dict.fromkeys(toRefs.split()))
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: List[str],
+    toIds: List[str],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
@@ -222,7 +224,7 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Tuple[List[str], List[str], str, str, float]]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
@@ -241,12 +243,12 @@ def parse_relationship(
     )
 
     # ids that do not point to anything are reported above and have no nodes
-    fromIds = {id for id in fromIds if fact_repository.has_id(id)}
-    toIds = {
+    fromIds = [id for id in fromIds if fact_repository.has_id(id)]
+    toIds = [
         id
         for id in toIds
         if (id in footnotes or fact_repository.has_id(id)) and id not in fromIds
-    }
+    ]
 
     if not fromIds or not toIds:
         return None
@@ -255,95 +257,89 @@ def parse_relationship(
 
 
 def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ):
-    all_ids = set()
-    internal_ids = set()
-
-    # Compute Ids of root nodes
-    for from_ids, to_ids, _, _, _ in arcs:
-        all_ids.update(from_ids)
-        all_ids.update(to_ids)
-        internal_ids.update(to_ids)
+    internal_ids = {to_id for _, to_ids, _, _, _ in arcs for to_id in to_ids}
 
-    root_ids = all_ids - internal_ids
-
-    id_to_node: Dict[str, FootnoteNetworkNode] = {}
+    nodes_by_id: Dict[str, List[FootnoteNetworkNode]] = defaultdict(list)
+    nodes_by_arc: List[List[FootnoteNetworkNode]] = []
+    root_nodes: List[FootnoteNetworkNode] = []
 
     for from_ids, to_ids, arcrole, linkrole, order in arcs:
         for from_id in from_ids:
-            if from_id not in id_to_node and from_id in root_ids:
-                from_object = fact_repository.get_by_id(from_id)
-                id_to_node[from_id] = FootnoteNetworkNode(
-                    from_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                )
+            if from_id in internal_ids or from_id in nodes_by_id:
+                continue
+
+            root_node = FootnoteNetworkNode(
+                fact_repository.get_by_id(from_id),
+                [],
+                arcrole,
+                qname.FOOTNOTE_NETWORK_ARCNAME,
+                linkrole,
+                qname.FOOTNOTE_NETWORK_LINKNAME,
+            )
+            nodes_by_id[from_id].append(root_node)
+            root_nodes.append(root_node)
 
+        # An id has a node of its own for every arc that leads to it
+        arc_nodes: List[FootnoteNetworkNode] = []
         for to_id in to_ids:
-            if to_id not in id_to_node:
-                to_object = (
-                    footnotes[to_id]
-                    if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
-                )
-
-                if not to_object:
-                    # Error
-                    continue
-
-                id_to_node[to_id] = FootnoteNetworkNode(
-                    to_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                    order,
-                )
+            to_object = (
+                footnotes[to_id]
+                if to_id in footnotes
+                else fact_repository.get_by_id(to_id)
+            )
+            to_node = FootnoteNetworkNode(
+                to_object,
+                [],
+                arcrole,
+                qname.FOOTNOTE_NETWORK_ARCNAME,
+                linkrole,
+                qname.FOOTNOTE_NETWORK_LINKNAME,
+                order,
+            )
+            nodes_by_id[to_id].append(to_node)
+            arc_nodes.append(to_node)
 
-    root_nodes = [id_to_node[id] for id in root_ids]
+        nodes_by_arc.append(arc_nodes)
 
-    return id_to_node, root_nodes
+    return nodes_by_id, nodes_by_arc, root_nodes
 
 
 def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
-    id_to_node: Dict[str, FootnoteNetworkNode],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
+    nodes_by_id: Dict[str, List[FootnoteNetworkNode]],
+    nodes_by_arc: List[List[FootnoteNetworkNode]],
 ):
-    for from_ids, to_ids, _, _, _ in arcs:
-        for from_id, to_id in itertools.product(from_ids, to_ids):
-            from_node = id_to_node[from_id]
-            to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+    for (from_ids, _, _, _, _), to_nodes in zip(arcs, nodes_by_arc):
+        for from_id, to_node in itertools.product(from_ids, to_nodes):
+            for from_node in nodes_by_id[from_id]:
+                from_node._add_child(to_node)
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> FootnoteNetwork:
-    id_to_node, root_nodes = create_footnote_network_nodes(
+    nodes_by_id, nodes_by_arc, root_nodes = create_footnote_network_nodes(
         arcs, footnotes, fact_repository
     )
-    connect_footnote_network_nodes(arcs, id_to_node)
+    connect_footnote_network_nodes(arcs, nodes_by_id, nodes_by_arc)
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Tuple[List[str], List[str], str, str, float]]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
-- 
2.43.0


From 14c19468bb2a43281e3cd05b1f4b23fbf0b6f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 077/104] fix: inline footnotes keep characters that are not
 ASCII

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index ff04143..b258208 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -71,7 +71,7 @@ def parse_footnote(
     relevant_content = extract_relevant_content_from_continuation_chain(
         [footnote_element] + continuation_chain
     )
-    content_text = etree.tostring(relevant_content).decode()
+    content_text = etree.tostring(relevant_content, encoding="unicode")
 
     title = get_str_attribute_optional(footnote_element, "title")
     return id, BrelFootnote(content_text, id, language, role, id, title)
-- 
2.43.0


From c8a4c0295008b459d78a58a87c574e52ca1b4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 078/104] fix: a footnote of a fact whose id is also that of a
 report element

---
 brel/parsers/XML/networks/xml_extended_link_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 600a5bc..f79a642 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -59,7 +59,13 @@ def get_object_from_reference(
 
         elem_id = href.split("#")[-1]
 
-        if report_element_repository.has_id(elem_id):
+        # The facts of an instance can have the ids of report elements
+        root_tag = referenced_element.getroottree().getroot().tag
+        in_instance = href.startswith("#") and not root_tag.endswith("}schema")
+
+        if in_instance and fact_repository.has_id(elem_id):
+            locator_target_element = fact_repository.get_by_id(elem_id)
+        elif report_element_repository.has_id(elem_id):
             locator_target_element = report_element_repository.get_by_id(elem_id)
         elif fact_repository.has_id(elem_id):
             locator_target_element = fact_repository.get_by_id(elem_id)
-- 
2.43.0


From 0c15d3b56d623b53cd7ad1aa96ce300b8c217bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 079/104] fix: an ix:header in the head of a document is
 reported

---
 brel/parsers/XHMTL/elements/parse_header.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..380001d 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -13,9 +13,9 @@ from lxml.etree import _Element
 def check_no_header_element_in_head(
     etree: _Element, error_repository: ErrorRepository
 ) -> None:
-    head_elements = find_elements(etree, ".//head")
+    head_elements = find_elements(etree, ".//*[local-name()='head']")
     for head_element in head_elements:
-        if find_element(head_element, ".//ix:header"):
+        if find_element(head_element, ".//ix:header") is not None:
             error_repository.insert(
                 ErrorCode.IXBRL_HEADER_ELEMENT_IN_HEAD, head_element
             )
-- 
2.43.0


From 76ffb495bbcf43b99ddca61115d584dc54cea119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 080/104] fix: type of role references of inline documents

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index b258208..421e948 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -378,7 +378,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
-- 
2.43.0


From bf7fb00b46e487e9314e9a080182da7197853f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 081/104] fix: dimensions whose prefixes mean different
 namespaces in different places

---
 brel/data/aspect/aspect_repository.py         | 14 +++++++++++-
 .../aspect/in_memory_aspect_repository.py     | 22 +++++++++++++++++++
 .../xml_parse_explicit_dimension.py           | 10 ++++-----
 .../xml_parse_typed_dimension.py              |  8 +++----
 .../xml_table_linkbase_parser.py              |  4 ++--
 5 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/brel/data/aspect/aspect_repository.py b/brel/data/aspect/aspect_repository.py
index 97fcdb7..1d87162 100644
--- a/brel/data/aspect/aspect_repository.py
+++ b/brel/data/aspect/aspect_repository.py
@@ -19,8 +19,20 @@ class AspectRepository(ABC):
     def get(self, name: str) -> Aspect:
         raise NotImplementedError()
 
+    @abstractmethod
     def get_by_qname(self, qname: QName) -> Aspect:
-        return self.get(qname.prefix_local_name_notation())
+        raise NotImplementedError()
+
+    @abstractmethod
+    def has_qname(self, qname: QName) -> bool:
+        raise NotImplementedError()
+
+    @abstractmethod
+    def get_or_create(self, qname: QName) -> Aspect:
+        """
+        :returns Aspect: the aspect of the dimension with the given name, whatever prefix the name is written with
+        """
+        raise NotImplementedError()
 
     @abstractmethod
     def has(self, name: str) -> bool:
diff --git a/brel/data/aspect/in_memory_aspect_repository.py b/brel/data/aspect/in_memory_aspect_repository.py
index 10029d5..b8ce8a8 100644
--- a/brel/data/aspect/in_memory_aspect_repository.py
+++ b/brel/data/aspect/in_memory_aspect_repository.py
@@ -10,11 +10,13 @@
 
 from brel.characteristics.brel_aspect import Aspect
 from brel.data.aspect.aspect_repository import AspectRepository
+from brel.qnames.qname import QName
 
 
 class InMemoryAspectRepository(AspectRepository):
     def __init__(self) -> None:
         self.__aspects: dict[str, Aspect] = {}
+        self.__aspects_by_qname: dict[QName, Aspect] = {}
 
     def get(self, name: str) -> Aspect:
         return self.__aspects[name]
@@ -24,3 +26,23 @@ class InMemoryAspectRepository(AspectRepository):
 
     def upsert(self, aspect: Aspect) -> None:
         self.__aspects[aspect.get_name()] = aspect
+
+    def get_by_qname(self, qname: QName) -> Aspect:
+        return self.__aspects_by_qname[qname]
+
+    def has_qname(self, qname: QName) -> bool:
+        return qname in self.__aspects_by_qname
+
+    def get_or_create(self, qname: QName) -> Aspect:
+        if not self.has_qname(qname):
+            # the name of an aspect identifies it, but a prefixed name may mean several dimensions
+            name = qname.prefix_local_name_notation()
+            core_aspects = [Aspect.CONCEPT, Aspect.PERIOD, Aspect.ENTITY, Aspect.UNIT]
+            if self.has(name) or Aspect(name, []) in core_aspects:
+                name = qname.clark_notation()
+
+            aspect = Aspect(name, [])
+            self.upsert(aspect)
+            self.__aspects_by_qname[qname] = aspect
+
+        return self.__aspects_by_qname[qname]
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..c49a7bb 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -48,11 +48,8 @@ def parse_explicit_dimension_from_xml(
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension")
-    if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
-        aspect_repository.upsert(Aspect(aspect_id, []))
-
-    aspect = aspect_repository.get(aspect_id)
     dimension_qname = qname_from_str(aspect_id, xml_element)
+    aspect = aspect_repository.get_or_create(dimension_qname)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
             ErrorCode.INVALID_EXPLICIT_DIMENSION_VALUE,
@@ -83,7 +80,10 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    # a prefix may mean different namespaces in different places
+    dimension_id = (
+        f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
+    )
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 76b7a1a..12d7cfd 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -60,11 +60,8 @@ def parse_typed_dimension_from_xml(
 
     dimension_axis = get_str_attribute(xml_element, "dimension")
 
-    if not aspect_repository.has(dimension_axis):
-        aspect_repository.upsert(Aspect(dimension_axis, []))
-    dimension_aspect = aspect_repository.get(dimension_axis)
-
     dimension_qname = qname_from_str(dimension_axis, xml_element)
+    dimension_aspect = aspect_repository.get_or_create(dimension_qname)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
             ErrorCode.INVALID_TYPED_DIMENSION_VALUE,
@@ -104,7 +101,8 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    # a prefix may mean different namespaces in different places
+    dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
diff --git a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
index 9ecc68f..a08cd23 100644
--- a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
+++ b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
@@ -397,11 +397,11 @@ def parse_aspect_node_element(
             dimension_qname = qname_from_str(child.text or "", child)
 
             aspect_repository = context.get_aspect_repository()
-            if not aspect_repository.has(dimension_qname.prefix_local_name_notation()):
+            if not aspect_repository.has_qname(dimension_qname):
                 # TODO: error
                 return None
 
-            aspect = aspect_repository.get(dimension_qname.prefix_local_name_notation())
+            aspect = aspect_repository.get_by_qname(dimension_qname)
 
     if not aspect:
         # TODO: error
-- 
2.43.0


From 05b62ad58f29020a425f3d3fbecf5afce2dc1f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 082/104] fix: units of different instances with the same id

---
 brel/parsers/XML/xml_facts_parser.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index f602f19..e638528 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -11,7 +11,6 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
-from typing import cast
 import lxml
 import lxml.etree
 
@@ -122,6 +121,9 @@ def parse_facts_xml(
     xml_service = context.get_xml_service()
 
     for xbrl_instance in xml_service.get_all_etrees():
+        # the ids of units are unique in their document only
+        units: dict[str, UnitCharacteristic] = {}
+
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -165,20 +167,14 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                if unit_id not in units:
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
-
-                unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
-                )
+                    units[unit_id] = new_unit
 
-                fact_characteristics.append(
-                    cast(UnitCharacteristic, unit_characteristic)
-                )
+                fact_characteristics.append(units[unit_id])
 
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
-- 
2.43.0


From 33b382fcb193c6512120e47c0c81aada28f8c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 083/104] fix: documents with other prefixes for standard
 namespaces

---
 .../XML/networks/xml_networks_parser.py       |  7 +-
 brel/parsers/utils/lxml_utils.py              | 74 ++++++++++++++-----
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..2967b93 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -26,7 +26,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from brel.parsers.utils.network_utils import combine_networks
-from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import *
 from brel.resource import *
 
@@ -83,16 +82,14 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
 
     # First pass: parse networks
     for link_xml in link_xmls:
-        link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
-        )
+        link_role = get_str_attribute_optional(link_xml, "xlink:role")
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
             continue
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..ab9f806 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -9,7 +9,7 @@
 """
 
 from copy import deepcopy
-from typing import Dict, List, Mapping, Optional, cast
+from typing import Dict, List, Optional, cast
 from brel.qnames.qname import QName
 import lxml.etree
 from lxml.etree import _Element, _ElementTree, XPath  # type: ignore
@@ -21,6 +21,49 @@ from brel.qnames.qname_utils import (
 )
 
 
+# the prefixes that brel itself uses in names and queries, whatever prefixes a document uses
+STANDARD_NAMESPACES = {
+    "ix": "http://www.xbrl.org/2013/inlineXBRL",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+    "xs": "http://www.w3.org/2001/XMLSchema",
+}
+
+INLINE_XBRL_1_0_NAMESPACE = "http://www.xbrl.org/2008/inlineXBRL"
+
+
+def get_namespaces(element: _Element) -> Dict[str, str]:
+    """
+    :returns: the namespaces of the prefixes in scope of the element, where the prefixes that brel uses have their
+    standard meaning
+    """
+    namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+    uses_inline_1_0 = INLINE_XBRL_1_0_NAMESPACE in element.nsmap.values()
+    namespaces.update(STANDARD_NAMESPACES)
+    if uses_inline_1_0:
+        namespaces["ix"] = INLINE_XBRL_1_0_NAMESPACE
+
+    return namespaces
+
+
+def get_attribute_clark_notation(element: _Element, attribute: str | QName) -> str:
+    """
+    :returns: the name of the attribute in clark notation, or as it is if it has no prefix
+    """
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+    elif is_namespace_localname_notation(attribute):
+        prefix, local_name = attribute.split(":")
+        if prefix in STANDARD_NAMESPACES:
+            return f"{{{STANDARD_NAMESPACES[prefix]}}}{local_name}"
+
+        return qname_from_str(attribute, element).clark_notation()
+
+    return attribute
+
+
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
     Helper function for checking if an element has a string attribute.
@@ -28,10 +71,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_clark_notation(element, attribute)
 
     return attribute in element.attrib
 
@@ -48,10 +88,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_clark_notation(element, attribute)
 
     value = element.get(attribute)
     if value is None:
@@ -70,10 +107,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_clark_notation(element, attribute)
 
     return element.attrib.get(attribute)
 
@@ -90,11 +124,16 @@ def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
 def get_prefix_localname_tag(element: _Element) -> str:
     """
     Helper function for getting the tag of an element as a string in prefix:localname notation.
-    Uses the namespaces available in the passed element.
+    Uses the standard prefixes for standard namespaces and those available in the passed element for others.
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    qname = qname_from_str(element.tag, element)
+    for prefix, uri in get_namespaces(element).items():
+        if prefix in STANDARD_NAMESPACES and uri == qname.get_URL():
+            return f"{prefix}:{qname.get_local_name()}"
+
+    return qname.prefix_local_name_notation()
 
 
 def find_elements(
@@ -109,7 +148,7 @@ def find_elements(
         element = element.getroot()
 
     if not namespaces:
-        namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces = get_namespaces(element)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
@@ -129,8 +168,7 @@ def find_element(
     if isinstance(element, _ElementTree):
         element = element.getroot()
 
-    nsmap: Mapping[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
-    return element.find(xpath_query, namespaces=nsmap)
+    return element.find(xpath_query, namespaces=get_namespaces(element))
 
 
 def get_all_nsmaps(
-- 
2.43.0


From 7513475ca0dc9c34b88bf8669da62095b849bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 084/104] fix: formats of transformation registries with other
 prefixes

---
 .../xhtml_parse_transformation_registry.py    | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b7dc772..72f192d 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -618,6 +618,25 @@ legacy_to_current_formats = {
 }
 
 
+TRANSFORMATION_NAMESPACES = (
+    "http://www.xbrl.org/inlineXBRL/transformation/",
+    "http://www.xbrl.org/2008/inlineXBRL/transformation",
+)
+
+
+def get_current_format(fact_format: str, element: _Element) -> str:
+    """
+    :returns: the current name of the format with the prefix ixt, whatever prefix the document uses for the
+    transformation registry
+    """
+    prefix, _, local_name = fact_format.rpartition(":")
+    uri = element.nsmap.get(prefix or None)
+    if uri and uri.startswith(TRANSFORMATION_NAMESPACES):
+        fact_format = f"ixt:{local_name}"
+
+    return legacy_to_current_formats.get(fact_format, fact_format)
+
+
 def match_regex_date_fact_value(
     fact_value: str,
     fact_format: str,
@@ -1046,7 +1065,7 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+    fact_format = get_current_format(fact_format, element)
 
     if fact_format == "ixt:fixed-zero":
         return "0"
@@ -1076,7 +1095,7 @@ def parse_non_numerical_fact_value(
     if not fact_format:
         return fact_value
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+    fact_format = get_current_format(fact_format, element)
 
     if fact_format.startswith("ixt:num") or fact_format == "ixt:fixed-zero":
         error_repository.insert(
-- 
2.43.0


From fbf538c96f79eba66baffb575109bf69bf6f9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 085/104] fix: report unused continuations in document order

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 2bd586c..65699df 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -113,9 +113,11 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        continuation_id
+        for continuation_id in continuation_element_index
+        if continuation_id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From 57b4749ad14500f70b5aabbb6fecf7e281475037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 086/104] fix: find the translations in every working directory

---
 brel/config/brel_config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..8e194d7 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+import os
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -44,4 +45,6 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return os.path.join(
+            os.path.dirname(os.path.abspath(__file__)), "translations.csv"
+        )
-- 
2.43.0


From b5796de25b502f1aa49b657edf6473126846241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 087/104] fix: languages of the report and the system follow
 their own switches

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..65a72de 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -567,8 +567,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From ecb28b278be04a7a1d1928085aead956e05e0402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 088/104] fix: tables that do not mix languages are in the
 first complete language

---
 brel/brel_filing.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 65a72de..22cc075 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -506,24 +506,28 @@ class Filing:
         translation_service = self.__context.get_translation_service()
         translation_service.set_match_locale(output_params["match_locale"])
 
-        if output_params["allow_mixed"]:
-            for element in elements:
-                languages = output_params["languages"]
-                languages_list = (
-                    languages if isinstance(languages, list) else [languages]
-                )
+        languages = output_params["languages"]
+        languages_list = languages if isinstance(languages, list) else [languages]
 
+        if output_params["allow_mixed"] or not languages_list:
+            for element in elements:
                 d = element.convert_to_dict(languages_list, translation_service)
                 data.append(d)
         else:
-            for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+            # the table is in the first language that has a text for everything in it
+            for language in languages_list:
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    break
+                except (KeyError, ValueError):
+                    continue
+            else:
+                raise ValueError(
+                    f"None of the languages has all texts: {languages_list}"
+                )
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From cb49825d57973881e2dca5d84529e86233ed7652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 089/104] fix: match the system's locale with languages

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 8e194d7..a0082aa 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -41,7 +41,8 @@ class BrelConfig:
     @classmethod
     def get_system_language(cls) -> Optional[str]:
         locale, _ = getdefaultlocale()
-        return locale
+        # locales are written en_US, languages en-US
+        return locale.replace("_", "-") if locale else None
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-- 
2.43.0


From c6e70915be86503c9ec954e4168839725b46066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:06 +0000
Subject: [PATCH 090/104] fix: refuse CIKs that are no numbers

---
 brel/utils/edgar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..8ab5eab 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -93,9 +93,9 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
                 "Incorrect date format. The date has to be in the format YYYY-MM-DD"
             )
 
-    # check that the cik is a str that has at most 10 characters
-    if not isinstance(cik, str) or len(cik) > 10:
-        raise ValueError("The CIK has to be a string with at most 10 characters")
+    # check that the cik is a str that has at most 10 digits
+    if not isinstance(cik, str) or len(cik) > 10 or not (cik.isascii() and cik.isdigit()):
+        raise ValueError("The CIK has to be a string with at most 10 digits")
 
     # Check if the filing type is supported
     if filing_type not in SUPPORTED_FILING_TYPES:
-- 
2.43.0


From 75e16528bdef8ad28ba7a60d9ec43f7349dacf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:08 +0000
Subject: [PATCH 091/104] fix: open filings of companies with undated filings

---
 brel/utils/edgar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 8ab5eab..8775cbb 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -132,9 +132,8 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         right_is = [i for i in range(len(recent["form"])) if report_fits(i)]
 
-        right_is.sort(
-            key=lambda i: int(recent["reportDate"][i].replace("-", "")), reverse=True
-        )
+        # dates in the format YYYY-MM-DD are in the order of time; filings without a date come last
+        right_is.sort(key=lambda i: recent["reportDate"][i], reverse=True)
 
         right_i = right_is[0] if len(right_is) > 0 else None
 
-- 
2.43.0


From 7e610584a38ed3faf8fe45d7aca382fc5feef64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 092/104] fix: fetch the list of filings again after one day

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 8775cbb..9d0a697 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -114,7 +114,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
             - datetime.datetime.fromtimestamp(
                 os.path.getmtime(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
             )
-        ).days > 1:
+        ) > datetime.timedelta(days=1):
             if not __download_metadata_for_cik(cik):
                 raise ValueError(f"Failed to download metadata for CIK {cik}")
 
-- 
2.43.0


From 468df757897633a1a26edbfba84f9c987ca0be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 093/104] fix: keep partial lists of filings out of the cache

---
 brel/utils/edgar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 9d0a697..6b3bbbe 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -33,8 +33,11 @@ def __download_metadata_for_cik(cik: str) -> bool:
         return False
 
     response_json = response.json()
-    with open(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"), "w") as f:
+    path = os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json")
+    # move the finished file into place, so that the cache never holds a partial one
+    with open(path + ".part", "w") as f:
         json.dump(response_json, f)
+    os.replace(path + ".part", path)
 
     return True
 
-- 
2.43.0


From 6ca7923eb0172fea6bc941989a0579c400904423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:17 +0000
Subject: [PATCH 094/104] fix: replace only the ending of a document's name

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 6b3bbbe..543c253 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -152,7 +152,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
-            uri = uri.replace(".htm", "_htm.xml")
+            uri = uri.removesuffix(".htm") + "_htm.xml"
             ping = session.get(
                 uri,
                 headers={
-- 
2.43.0


From 16b93d40fe20188cf57444cbf92a0dc8381ecd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:20 +0000
Subject: [PATCH 095/104] fix: show the facts of a footnote network

---
 brel/utils/print_networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/utils/print_networks.py b/brel/utils/print_networks.py
index 8917aa8..3ad6dcb 100644
--- a/brel/utils/print_networks.py
+++ b/brel/utils/print_networks.py
@@ -80,6 +80,9 @@ def __print_sub_network(node: INetworkNode, last=True, header="") -> None:
             type_str = tag_lookup[type(re)]
 
         output_string += type_str + " " + node_as_str
+    elif node_is_a == "fact":
+        fact = node.get_fact()
+        output_string += f"[FACT] {fact.get_concept()} {fact}"
 
     if hasattr(node, "get_weight"):
         weight = getattr(node, "get_weight")()
-- 
2.43.0


From 92751a68a1ff38d1d71b8961b1db5b790405cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:02 +0000
Subject: [PATCH 096/104] fix: keep partial documents out of the cache

---
 brel/data/file/pyfs_file_repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 16f93f5..2b663e8 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -28,7 +28,11 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writebytes(uri_to_filename(uri), file.read())
+        file_name = uri_to_filename(uri)
+        # move the finished file into place, so that the cache never holds a partial one
+        # (no other file has this name, since the names of files have no "+")
+        self.fs.writebytes("+" + file_name, file.read())
+        self.fs.move("+" + file_name, file_name, overwrite=True)
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From e42b6fda723d6a517e83391d204932d752f1be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 097/104] fix: list the arc roles of a network in the order of
 its nodes

---
 brel/networks/i_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index a3454a9..522706e 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -86,8 +86,7 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
-        return list(arc_role_set)
+        return list(dict.fromkeys(node.get_arc_role() for node in self.get_all_nodes()))
 
     def get_arc_name(self) -> QName | None:
         """
-- 
2.43.0


From 573f63489872ab65a1539338560da778c5b1056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:54 +0000
Subject: [PATCH 098/104] fix: resolve a locator of an instance by file name to
 its fact

---
 brel/data/xml/xml_repository.py                      |  2 +-
 .../parsers/XML/networks/xml_extended_link_parser.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index 4ec69fb..6fd68ca 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -35,7 +35,7 @@ class XMLRepository:
 
     def get_uri(self, etree: lxml.etree._ElementTree) -> str:
         for uri, cached_etree in self.__xml_etree_cache.items():
-            if cached_etree is etree:
+            if cached_etree.getroot() is etree.getroot():
                 return uri
 
         raise KeyError("The XML document is not in the repository.")
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index f79a642..a15f070 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -60,10 +60,16 @@ def get_object_from_reference(
         elem_id = href.split("#")[-1]
 
         # The facts of an instance can have the ids of report elements
-        root_tag = referenced_element.getroottree().getroot().tag
-        in_instance = href.startswith("#") and not root_tag.endswith("}schema")
+        in_instance = False
+        if fact_repository.has_id(elem_id):
+            document = filing_context.get_xml_service().get_referenced_etree(
+                href.split("#")[0], referenced_element.getroottree()
+            )
+            in_instance = document is not None and not (
+                document.getroot().tag.endswith("}schema")
+            )
 
-        if in_instance and fact_repository.has_id(elem_id):
+        if in_instance:
             locator_target_element = fact_repository.get_by_id(elem_id)
         elif report_element_repository.has_id(elem_id):
             locator_target_element = report_element_repository.get_by_id(elem_id)
-- 
2.43.0


From 8391945f67ea39068ced6901d60c6cdd3739df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:25 +0000
Subject: [PATCH 099/104] fix: keep all facts of instances that use the same
 ids

---
 brel/data/fact/in_memory_fact_repository.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index a299f08..eafaf68 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -15,7 +15,9 @@ from brel.brel_fact import Fact
 
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
+        # The ids of facts are unique in their instance document only
         self.__facts_by_id: dict[str, Fact] = {}
+        self.__facts_with_id: list[Fact] = []
         self.__facts_without_id: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
@@ -31,15 +33,16 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values()) + self.__facts_without_id
+        return self.__facts_with_id + self.__facts_without_id
 
     def upsert(self, fact: Fact) -> None:
         """
-        Set the fact by its ID.
-        :param fact: The fact to set.
+        Add the fact. If facts have the same ID, the last one is found by it.
+        :param fact: The fact to add.
         """
         fact_id = fact.get_id()
         if fact_id is None:
             self.__facts_without_id.append(fact)
         else:
             self.__facts_by_id[fact_id] = fact
+            self.__facts_with_id.append(fact)
-- 
2.43.0


From d42198f4cb24d28c738e981022c4a66dfc9b30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:28 +0000
Subject: [PATCH 100/104] fix: read xsi:nil of inline numbers as a boolean

---
 .../XHMTL/elements/parse_non_fraction.py      | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index edc3390..2b04874 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -50,8 +50,7 @@ def validate_descendant_non_fraction_rules(
     if not parent_is_non_fraction:
         return
 
-    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
-    if xsi_nil == "true":
+    if is_nil(element):
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
         )
@@ -81,6 +80,14 @@ def validate_descendant_non_fraction_rules(
         )
 
 
+def is_nil(element: _Element) -> bool:
+    """
+    :returns bool: True if the xsi:nil attribute, which is a boolean in one of its forms, is true
+    """
+    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
+    return xsi_nil is not None and xsi_nil.strip() in ("true", "1")
+
+
 def get_non_fraction_text(fact_element: _Element) -> Optional[str]:
     """
     :returns Optional[str]: the text of the element or, if it consists of a nested ix:nonFraction, the text of that
@@ -184,15 +191,15 @@ def parse_non_fraction_fact_element(
             fact_element,
             precision=precision_str,
         )
-    xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")
+    xsi_nil = is_nil(fact_element)
 
     if (
         decimals != None
         and precision != None
         or precision != None
-        and xsi_nil != None
+        and xsi_nil
         or decimals != None
-        and xsi_nil != None
+        and xsi_nil
     ):
         error_repository.insert(
             ErrorCode.IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION,
@@ -215,22 +222,22 @@ def parse_non_fraction_fact_element(
             ErrorCode.IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION, fact_element
         )
 
-    if xsi_nil == "true" and (has_text or has_children):
+    if xsi_nil and (has_text or has_children):
         error_repository.insert(ErrorCode.IXBRL_TEXT_OR_CHILDREN_WITH_NIL, fact_element)
 
-    if (not xsi_nil or xsi_nil == "false") and not has_text and not has_children:
+    if not xsi_nil and not has_text and not has_children:
         error_repository.insert(
             ErrorCode.IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE,
             fact_element,
         )
 
         # Assume xsi_nil, since fact is missing.
-        xsi_nil = "true"
+        xsi_nil = True
 
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
     fact_value = fact_element.text or ""
-    if xsi_nil == "true":
+    if xsi_nil:
         fact_value = ""
     elif has_text:
         fact_value = process_non_fraction_value(
-- 
2.43.0


From 2032db5cc5441760ce76b4149a69485d43d8fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:31 +0000
Subject: [PATCH 101/104] fix: read the tables of table linkbases

---
 brel/data/table_linkbase/in_memory_table_linkbase_repository.py | 2 +-
 brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/data/table_linkbase/in_memory_table_linkbase_repository.py b/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
index fa38e0f..e167594 100644
--- a/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
+++ b/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
@@ -7,7 +7,7 @@ from brel.table_linkbases.definition_model.table import Table
 class InMemoryTableLinkbaseRepository(TableLinkbaseRepository):
     def __init__(self) -> None:
         self.__structural_tables_by_linkrole: dict[str, List[Table]] = defaultdict(
-            List[Table]
+            list
         )
 
     def get_all_definition_tables(self) -> List[Table]:
diff --git a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
index a08cd23..d221063 100644
--- a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
+++ b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
@@ -54,7 +54,7 @@ def find_table_linkbase_elements(context: FilingContext) -> List[_Element]:
 
     for etree in xml_service.get_all_etrees():
         root_element = etree.getroot()
-        if not root_element.tag == "{http://xbrl.org/2003/linkbase}linkbase":
+        if not root_element.tag == "{http://www.xbrl.org/2003/linkbase}linkbase":
             continue
 
         generic_linkbases = [
-- 
2.43.0


From 7fc8e9b88ac481a435be5aa6bb83a4853fbbc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:34 +0000
Subject: [PATCH 102/104] fix: read decimal orders of table arcs, leave out
 arcs without axis

---
 .../XML/table_linkbase/xml_table_linkbase_parser.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
index d221063..c2436d0 100644
--- a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
+++ b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
@@ -231,10 +231,10 @@ def parse_relationship_element(
         elif tag == table_prefix("linkrole"):
             linkrole = child_text
         elif tag == table_prefix("formulaAxis"):
-            if formula_axis not in [x.value for x in FormulaAxis]:
+            if child_text not in [x.value for x in FormulaAxis]:
                 # TODO: error
                 return None
-            if is_dimension_relationship and "sibling" in formula_axis.value:
+            if is_dimension_relationship and "sibling" in child_text:
                 # TODO: error
                 return None
 
@@ -469,7 +469,7 @@ def parse_table_breakdown_arc(
         # TODO: error
         return
 
-    table.add_breakdown(Axis(axis), breakdown, int(order))
+    table.add_breakdown(Axis(axis), breakdown, float(order))
 
 
 def parse_breakdown_tree_arc(
@@ -512,8 +512,8 @@ def parse_breakdown_tree_arc(
         # TODO: error
         return
 
-    definition_node.set_order(int(order))
-    breakdown.add_root(definition_node, int(order))
+    definition_node.set_order(float(order))
+    breakdown.add_root(definition_node, float(order))
 
 
 def parse_definition_node_subtree_arc(
@@ -559,7 +559,7 @@ def parse_definition_node_subtree_arc(
         # TODO: error
         return
 
-    from_node.add_child(to_node, int(order))
+    from_node.add_child(to_node, float(order))
 
 
 def parse_table_filter_arc(
-- 
2.43.0


From f7141dfd8021f68dc03b8ee4ed5575765c2c4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:37 +0000
Subject: [PATCH 103/104] fix: comments and unknown parent-child orders in
 table linkbases

---
 brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
index c2436d0..3cf2aa0 100644
--- a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
+++ b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
@@ -88,7 +88,7 @@ def parse_parent_child_order(
 
     if parent_child_order not in ["", "parent-first", "children-first"]:
         # TODO: error
-        pass
+        return ParentChildOrder.UNSPECIFIED
 
     return ParentChildOrder(parent_child_order)
 
@@ -702,7 +702,7 @@ def parse_table_linkbase_element(
     filters: Dict[str, Filter] = {}
 
     # Parse nodes
-    for element in table_linkbase_element:
+    for element in table_linkbase_element.iterchildren("*"):
         tag = element.tag
         if tag == table_prefix("table"):
             table = parse_table_element(element, linkrole, context)
-- 
2.43.0


From b97642cf8682ad422de73b0dc4581b49c2c293c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 104/104] fix: read aspect and relationship nodes of tables,
 also of dimensions that no fact uses

---
 .../xml_table_linkbase_parser.py              | 45 +++++++++----------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
index 3cf2aa0..2a5db86 100644
--- a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
+++ b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
@@ -217,17 +217,18 @@ def parse_relationship_element(
         child_text = child.text or ""
 
         if tag == table_prefix("relationshipSource"):
-            concept_exists = context.get_report_element_repository().has_typed_qname(
-                qname_from_str(child_text, child), Concept
-            )
+            # a concept, an abstract or a member, or the root of the networks
+            source = qname_from_str(child_text, child)
+            source_exists = context.get_report_element_repository().has_qname(source)
             if (
-                not concept_exists
-                and tag != "{http://www.xbrl.org/2008/function/instance}root"
+                not source_exists
+                and source.clark_notation()
+                != "{http://www.xbrl.org/2008/function/instance}root"
             ):
                 # TODO: error
                 return None
 
-            relationship_sources.append(qname_from_str(child_text, child))
+            relationship_sources.append(source)
         elif tag == table_prefix("linkrole"):
             linkrole = child_text
         elif tag == table_prefix("formulaAxis"):
@@ -308,17 +309,11 @@ def parse_concept_relationship_node_element(
         # TODO: error
         return None
 
-    if not arcname:
-        # TODO: error
-        return None
-
-    if not linkname:
-        # TODO: error
-        return None
-
     concept_relationship_element.set_arcrole(arcrole)
-    concept_relationship_element.set_arcname(arcname)
-    concept_relationship_element.set_linkname(linkname)
+    if arcname:
+        concept_relationship_element.set_arcname(arcname)
+    if linkname:
+        concept_relationship_element.set_linkname(linkname)
 
     return concept_relationship_element
 
@@ -396,12 +391,14 @@ def parse_aspect_node_element(
             )
             dimension_qname = qname_from_str(child.text or "", child)
 
-            aspect_repository = context.get_aspect_repository()
-            if not aspect_repository.has_qname(dimension_qname):
+            # facts need not use the dimension
+            if not context.get_report_element_repository().has_typed_qname(
+                dimension_qname, Dimension
+            ):
                 # TODO: error
                 return None
 
-            aspect = aspect_repository.get_by_qname(dimension_qname)
+            aspect = context.get_aspect_repository().get_or_create(dimension_qname)
 
     if not aspect:
         # TODO: error
@@ -456,7 +453,7 @@ def parse_table_breakdown_arc(
         pass
     if axis not in ["x", "y", "z"]:
         # TODO: error
-        pass
+        return
 
     order = get_str_attribute(table_breakdown_arc_element, "order", "1.0")
 
@@ -717,13 +714,13 @@ def parse_table_linkbase_element(
             if rule_node:
                 add_unique_to_dict(rule_node.label, rule_node, definition_nodes)
         elif tag == table_prefix("conceptRelationshipNode"):
-            dimension_relationship_node = parse_dimension_relationship_node_element(
+            concept_relationship_node = parse_concept_relationship_node_element(
                 element, context
             )
-            if dimension_relationship_node:
+            if concept_relationship_node:
                 add_unique_to_dict(
-                    dimension_relationship_node.label,
-                    dimension_relationship_node,
+                    concept_relationship_node.label,
+                    concept_relationship_node,
                     definition_nodes,
                 )
         elif tag == table_prefix("dimensionRelationshipNode"):
-- 
2.43.0

