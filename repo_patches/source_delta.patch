From c081a96aae0c2b4759842516ab25a852a1e6cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 01/29] fix: rdftk_names: call Iri::make_name directly, the
 IriExtra trait no longer exists

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..32803c3 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        <::rdftk_iri::Iri>::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From b1caf59c4cb34e6476d23dd2d84017afd4ad5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 02/29] fix: rdftk_core: use the current rdftk_iri API so that
 the crate compiles

---
 rdftk_core/src/error.rs                 |  6 +++---
 rdftk_core/src/model/graph.rs           |  2 +-
 rdftk_core/src/model/literal.rs         | 19 ++++++++++---------
 rdftk_core/src/model/statement/bnode.rs |  8 ++++----
 4 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..62f3e5e 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -426,8 +426,8 @@ impl From<::language_tags::ParseError> for Error {
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..43aed27 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..d5fb507 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,7 +51,7 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
@@ -372,7 +372,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(AsRef::<str>::as_ref(&v), DataType::Iri)
     }
 }
 
@@ -395,7 +395,8 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(Iri::try_from(value.lexical_form().as_str())
+                        .map_err(rdftk_iri::Error::from)?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -578,20 +579,20 @@ impl PartialEq<f32> for Literal {
 // Variant QName
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-impl From<QName> for Literal {
-    fn from(v: QName) -> Self {
+impl From<LocalName> for Literal {
+    fn from(v: LocalName) -> Self {
         Self::with_data_type(v, DataType::QName)
     }
 }
 
-impl From<&QName> for Literal {
-    fn from(v: &QName) -> Self {
+impl From<&LocalName> for Literal {
+    fn from(v: &LocalName) -> Self {
         Self::from(v.clone())
     }
 }
 
-impl PartialEq<QName> for Literal {
-    fn eq(&self, other: &QName) -> bool {
+impl PartialEq<LocalName> for Literal {
+    fn eq(&self, other: &LocalName) -> bool {
         *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..ebe3374 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,7 +98,7 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
+        Name::is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
             s
         } else {
             s
@@ -109,7 +109,7 @@ impl BlankNode {
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_NAMESPACE, &self.0)
     }
 }
-- 
2.43.0


From c9a4b31d6009b74f221d42accb13940a5179f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 03/29] fix: rdftk_iri: Iri::split panics on an IRI with an
 opaque path

---
 rdftk_iri/src/iri.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..d3a558d 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -321,7 +321,9 @@ impl Iri {
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
+            // Not `path_segments`, it is `None` for an opaque path such as `urn:isbn:123`.
+            let last = self.0.path().rsplit_once('/').map(|(_, last)| last);
+            if let Ok(name) = Name::from_str(last.unwrap_or_default()) {
                 let path = self.0.path();
                 let path = &path[0..path.len() - name.as_ref().len()];
                 Some((self.with_new_path(path), name))
-- 
2.43.0


From 1b4ea9638d65d5d2800389036e4637f5637f8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 04/29] fix: rdftk_iri: Iri::split takes a namespace IRI with
 an empty fragment apart

---
 rdftk_iri/src/iri.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index d3a558d..e623600 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -320,6 +320,7 @@ impl Iri {
         } else if !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
+            && self.0.fragment().is_none()
         {
             // Not `path_segments`, it is `None` for an opaque path such as `urn:isbn:123`.
             let last = self.0.path().rsplit_once('/').map(|(_, last)| last);
-- 
2.43.0


From cd2ae6f118c81143e6fe85205536526584cb246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 05/29] fix: rdftk_iri: Namespace::from_str accepts a prefix
 ending in '.'

---
 rdftk_iri/src/pname.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..0af428b 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -250,6 +250,8 @@ impl FromStr for Namespace {
                 Err(NameParseError::TooManySeparators(s.to_string()))
             } else if pn_prefix.is_empty() {
                 Ok(Self(s.to_string()))
+            } else if pn_prefix.ends_with('.') {
+                Err(NameParseError::InvalidCharacter(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
                 if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
-- 
2.43.0


From 472c37192d6d9889f4aa9521ebc90cb85454890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 06/29] fix: rdftk_iri: deserializing a Name or Namespace
 bypasses validation

---
 rdftk_iri/src/pname.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 0af428b..c2b5099 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String", into = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String", into = "String"))]
 pub struct Name(String);
 
 ///
@@ -266,6 +268,14 @@ impl FromStr for Namespace {
     }
 }
 
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(value: String) -> Result<Self, Self::Error> {
+        Self::from_str(&value)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -406,6 +416,14 @@ impl FromStr for Name {
     }
 }
 
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(value: String) -> Result<Self, Self::Error> {
+        Self::from_str(&value)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From 728fce93bfee3498f08ee4d860c7ce052980ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 07/29] fix: rdftk_iri: VOCABULARY_XML does not name the XML
 namespace it documents

---
 rdftk_iri/src/vocab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_iri/src/vocab.rs b/rdftk_iri/src/vocab.rs
index 1866101..e8a79b8 100644
--- a/rdftk_iri/src/vocab.rs
+++ b/rdftk_iri/src/vocab.rs
@@ -315,7 +315,7 @@ pub const VOCABULARY_WOT: Vocabulary = Vocabulary::new("wot", "http://xmlns.com/
 ///   [XML Base (Second Edition)](https://www.w3.org/TR/xmlbase/).
 ///
 pub const VOCABULARY_XML: Vocabulary =
-    Vocabulary::new("xml", "http://www.w3.org/XML/1998/namespace#");
+    Vocabulary::new("xml", "http://www.w3.org/XML/1998/namespace");
 
 ///
 /// XML Schema's datatypes, used extensively throughout RDF for typed literals.
-- 
2.43.0


From bf2896a501ea24fff7bb33eb8e278ff4f31a641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 08/29] fix: rdftk_names: owl::incompatible_with names
 owl:incompatible_with, the term is owl:incompatibleWith

---
 rdftk_names/src/owl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/owl.rs b/rdftk_names/src/owl.rs
index 77d5267..e45ccdf 100644
--- a/rdftk_names/src/owl.rs
+++ b/rdftk_names/src/owl.rs
@@ -67,7 +67,7 @@ namespace! {
         version_info, "versionInfo",
         deprecated, "deprecated",
         backward_compatible_with, "backwardCompatibleWith",
-        incompatible_with, "incompatible_with",
+        incompatible_with, "incompatibleWith",
         prior_version, "priorVersion",
         ontology, "Ontology",
         version, "version",
-- 
2.43.0


From 7b53ccd5f3066ed9344aa40beed9ea0f74ca2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 09/29] fix: rdftk_names: foaf::primary_topic_of names
 foaf:primaryTopicOf, the term is foaf:isPrimaryTopicOf

---
 rdftk_names/src/foaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/foaf.rs b/rdftk_names/src/foaf.rs
index eada607..592913b 100644
--- a/rdftk_names/src/foaf.rs
+++ b/rdftk_names/src/foaf.rs
@@ -22,7 +22,7 @@ namespace! {
         made, "made",
         maker, "maker",
         primary_topic, "primaryTopic",
-        primary_topic_of, "primaryTopicOf",
+        primary_topic_of, "isPrimaryTopicOf",
         project, "Project",
         organization, "Organization",
         group, "Group",
-- 
2.43.0


From 2c1ff059a15fcdaea97572c6233089cd3d5d4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 10/29] fix: rdftk_core: IRIs are printed in two pairs of angle
 brackets

---
 rdftk_core/src/model/graph.rs             | 2 +-
 rdftk_core/src/model/literal.rs           | 2 +-
 rdftk_core/src/model/statement.rs         | 2 +-
 rdftk_core/src/model/statement/object.rs  | 2 +-
 rdftk_core/src/model/statement/subject.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 43aed27..32f5fdc 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => iri.to_string(),
             }
         )
     }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index d5fb507..217704b 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -848,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From 144a9260078af8bf3378e9ed4e54e9c646c8c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 11/29] fix: rdftk_core: DataType::from(Iri) does not recognise
 seven of the data types

---
 rdftk_core/src/model/literal.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 217704b..76c4319 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -318,6 +318,20 @@ impl From<Iri> for DataType {
             Self::UnsignedByte
         } else if &iri == xsd::duration() {
             Self::Duration
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::time() {
+            Self::Time
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
+        } else if &iri == xsd::language() {
+            Self::Language
         } else if &iri == rdf::xml_literal() {
             Self::XmlLiteral
         } else {
-- 
2.43.0


From 698898ac095769a7a7a39dde77c4958dabaa5158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 12/29] fix: rdftk_core: Literal::with_data_type_iri does not
 recognise the known data types

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 76c4319..f403159 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -975,7 +975,7 @@ impl Literal {
     {
         Self {
             lexical_form: escape_string(v),
-            data_type: Some(DataType::Other(data_type)),
+            data_type: Some(DataType::from(data_type)),
             language: None,
         }
     }
-- 
2.43.0


From be08f83d4d929fca2344b8a1cfbb55a0b7a73b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 13/29] fix: rdftk_core: Literal::base64_encoded makes a
 hexBinary literal

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index f403159..2259e26 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -986,7 +986,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From e20a506f79a2733efc8555fde776a75b46b6d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 14/29] fix: rdftk_core: a literal made from an IRI, a Duration
 or a text to escape is not equal to it

---
 rdftk_core/src/model/literal.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 2259e26..14ee3e7 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -398,7 +398,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        *self == Self::from(other)
     }
 }
 
@@ -561,8 +561,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(*other)
     }
 }
 
@@ -629,14 +628,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
-- 
2.43.0


From 1e8dedbc89336774d47e504b7bcf343e80a2c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 15/29] fix: rdftk_core: the fraction of a Duration's seconds
 loses its leading zeros

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 14ee3e7..d8f8915 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -530,7 +530,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
-- 
2.43.0


From fb86148642e6cd5cc38887e172fada91d53c9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 16/29] fix: rdftk_core: Graph::matches finds nothing when a
 component is left open

---
 rdftk_core/src/model/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 32f5fdc..731ecb2 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -374,9 +374,9 @@ impl Graph {
         self.statements
             .iter()
             .filter(|st| {
-                (subject.is_some() && st.subject() == subject.unwrap())
-                    && (predicate.is_some() && st.predicate() == predicate.unwrap())
-                    && (object.is_some() && st.object() == object.unwrap())
+                subject.map_or(true, |subject| st.subject() == subject)
+                    && predicate.map_or(true, |predicate| st.predicate() == predicate)
+                    && object.map_or(true, |object| st.object() == object)
             })
             .collect()
     }
-- 
2.43.0


From 85a35b87c124790b48a84dcfbeb65491059f1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 17/29] fix: rdftk_core: Graph::remove_all_for removes all the
 other statements

---
 rdftk_core/src/model/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 731ecb2..2e48f53 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -557,9 +557,9 @@ impl Graph {
             (Default::default(), Default::default()),
             |(mut keep, mut discard): (Vec<Statement>, Vec<Statement>), st| {
                 if st.subject() == subject {
-                    keep.push(st.clone());
-                } else {
                     discard.push(st.clone());
+                } else {
+                    keep.push(st.clone());
                 }
                 (keep, discard)
             },
-- 
2.43.0


From 9c1f87ce953128c8781e3e7a62ffe3a106bede57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 18/29] fix: rdftk_core: a graph without duplicates claims to
 support them

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 2e48f53..dc9aa4f 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -199,7 +199,7 @@ impl GraphName {
 
 impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
-        (*feature == *FEATURE_GRAPH_DUPLICATES && self.statements.is_unique())
+        (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
     }
 }
-- 
2.43.0


From 73078c2033b69fd0885da5d8867d7ea95131f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 19/29] fix: rdftk_core: a resource's value that is a resource
 is replaced by the resource itself

---
 rdftk_core/src/model/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index 2a73cc6..b01efd0 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -686,7 +686,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                     match object {
                         ResourceObject::Resource(resource) => {
                             flatten(resource, sts);
-                            subject.to_object()
+                            resource.subject.to_object()
                         }
                         ResourceObject::Literal(literal) => ObjectNode::from(literal.clone()),
                         _ => unreachable!(),
-- 
2.43.0


From 40dfbd840bae4383043f35910a40cb9a37548198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 20/29] fix: rdftk_core: container membership properties are
 numbered from zero

---
 rdftk_core/src/model/resource.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index b01efd0..3fb3e38 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -663,7 +663,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                             flatten(resource, sts);
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 resource.subject.to_object(),
                             ));
                         }
@@ -672,7 +672,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                         for (index, literal) in lc.values.iter().enumerate() {
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 literal,
                             ));
                         }
-- 
2.43.0


From ccc274f6e036fbba949e4b08647478a329974030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 21/29] fix: rdftk_core: BlankNode::from_str keeps the '_:'
 prefix in the name

---
 rdftk_core/src/model/statement/bnode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index ebe3374..31ab209 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,9 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(
+                s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into(),
+            ))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From f3e84d5fea16f3f68e2606ff139f13e8ef1f7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 22/29] fix: rdftk_core: a literal made from a name with
 characters to escape is not equal to it

---
 rdftk_core/src/model/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index d8f8915..0890f07 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -606,7 +606,7 @@ impl From<&LocalName> for Literal {
 
 impl PartialEq<LocalName> for Literal {
     fn eq(&self, other: &LocalName) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
+        *self == Self::from(other)
     }
 }
 
@@ -810,7 +810,7 @@ impl From<&Name> for Literal {
 
 impl PartialEq<Name> for Literal {
     fn eq(&self, other: &Name) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Name)
+        *self == Self::from(other)
     }
 }
 
-- 
2.43.0


From d49b44e3615d5297ae32bc0f97996f22dca31203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 23/29] fix: rdftk_core: a literal made from an IRI with a
 backslash does not convert back to it

---
 rdftk_core/src/model/literal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 0890f07..514a87c 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -386,7 +386,11 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(AsRef::<str>::as_ref(&v), DataType::Iri)
+        Self {
+            lexical_form: AsRef::<str>::as_ref(&v).to_string(),
+            data_type: Some(DataType::Iri),
+            language: None,
+        }
     }
 }
 
-- 
2.43.0


From 633d6138d0066c89e489f82953e8782d2c124ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 24/29] fix: rdftk_core: Graph::simplify leaves the object of a
 statement whose subject is a statement

---
 rdftk_core/src/model/graph.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index dc9aa4f..6ea302e 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -655,33 +655,22 @@ impl Graph {
             new_graph.set_name(name.clone());
         }
         for statement in self.statements() {
+            let mut new_statement = statement.clone();
             if let Some(subject_statement) = statement.subject().as_statement() {
                 let (subject, statements) = subject_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    subject,
-                    statement.predicate().clone(),
-                    statement.object().clone(),
-                ));
+                new_statement.set_subject(subject);
                 new_graph.extend(statements);
-            } else if let Some(object_statement) = statement.object().as_statement() {
+            }
+            if let Some(object_statement) = statement.object().as_statement() {
                 let (subject, statements) = object_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
+                new_statement.set_object(subject.to_object());
                 new_graph.extend(statements);
             } else if let Some(object_collection) = statement.object().as_collection() {
                 let (subject, statements) = object_collection.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
+                new_statement.set_object(subject.to_object());
                 new_graph.extend(statements);
-            } else {
-                new_graph.insert(statement.clone());
             }
+            new_graph.insert(new_statement);
         }
 
         Ok(new_graph)
-- 
2.43.0


From a966c39296b05f849a383ae5433cf23f746231bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 25/29] fix: rdftk_core: a literal made by hex_encoded does not
 decode

---
 rdftk_core/src/model/literal.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 514a87c..717ecd7 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1061,8 +1061,14 @@ where
     S: AsRef<str>,
 {
     let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
+    let mut buffer = Vec::with_capacity(value.len() / 2);
+    // as written by `hex_encode`; pairs separated by a space are read as well
+    let pairs: Vec<String> = value
+        .split(' ')
+        .map(|run| run.chars().collect::<Vec<char>>())
+        .flat_map(|run| run.chunks(2).map(String::from_iter).collect::<Vec<_>>())
+        .collect();
+    for (index, hex_pair) in pairs.iter().enumerate() {
         if hex_pair.len() == 2 {
             let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
                 value: hex_pair.to_string(),
-- 
2.43.0


From 9487f25243567dd89b8139f32e369a9c86284b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:39 +0000
Subject: [PATCH 26/29] fix: rdftk_core: a literal of type hexBinary with a
 sign decodes

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 717ecd7..21bd203 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1069,7 +1069,7 @@ where
         .flat_map(|run| run.chunks(2).map(String::from_iter).collect::<Vec<_>>())
         .collect();
     for (index, hex_pair) in pairs.iter().enumerate() {
-        if hex_pair.len() == 2 {
+        if hex_pair.len() == 2 && hex_pair.chars().all(|c| c.is_ascii_hexdigit()) {
             let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
                 value: hex_pair.to_string(),
                 index,
-- 
2.43.0


From 791ef6c2c41f69e2b6e18796ace40c85ac9e079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 27/29] fix: build rdftk_iri with genid but without std

Iri::genid uses ToString, which is not in the prelude without std.
---
 rdftk_iri/src/iri.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index e623600..3d278a2 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -5,6 +5,9 @@
 #[cfg(not(feature = "std"))]
 use alloc::format;
 
+#[cfg(all(feature = "genid", not(feature = "std")))]
+use alloc::string::ToString;
+
 use crate::{Name, pname::PrefixedName};
 use core::{
     fmt::{Display, Formatter, Result as FmtResult},
-- 
2.43.0


From cc6cfd3366cabf4eae7c84aafb8913a86f9b78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 28/29] fix: build rdftk_core without the binary_types feature

The base64 decoder is an optional dependency; without it a base64 literal does not convert to bytes.
---
 rdftk_core/src/error.rs         | 1 +
 rdftk_core/src/model/literal.rs | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 62f3e5e..b179ae4 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -396,6 +396,7 @@ impl std::error::Error for Error {
             Self::LanguageTag(source) => Some(source),
             Self::Name(source) => Some(source),
             Self::Utf8(source) => Some(source),
+            #[cfg(feature = "binary_types")]
             Self::Base64Decoder(source) => Some(source),
             _ => None,
         }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 21bd203..5e0fb37 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -440,9 +440,11 @@ impl TryFrom<Literal> for Vec<u8> {
     fn try_from(value: Literal) -> Result<Self, Self::Error> {
         match value.data_type() {
             Some(dt) => {
+                #[cfg(feature = "binary_types")]
                 if *dt == DataType::Base64Binary {
-                    Ok(STANDARD.decode(value.lexical_form())?)
-                } else if *dt == DataType::HexBinary {
+                    return Ok(STANDARD.decode(value.lexical_form())?);
+                }
+                if *dt == DataType::HexBinary {
                     Ok(hex_decode(value.lexical_form())?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
-- 
2.43.0


From 3715ff273dfdf39ec4b5c772021379ec01257e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:53 +0000
Subject: [PATCH 29/29] fix: a tokenizer error exposes its source

---
 rdftk_core/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index b179ae4..ea81d9c 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -389,7 +389,7 @@ impl Display for Error {
 impl std::error::Error for Error {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
         match self {
-            //Self::Tokenizer { source } => Some(source),
+            Self::Tokenizer { source, .. } => Some(source.as_ref()),
             Self::Borrow(source) => Some(source),
             Self::Io(source) => Some(source),
             Self::Iri(source) => Some(source),
-- 
2.43.0

