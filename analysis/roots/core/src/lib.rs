//! Entry points of the analysis of `rdftk_core`.  Each function builds its operands through the
//! public interface, applies one operation and observes the result through the public interface.
//! Nothing here is ever executed.
#![allow(clippy::all, unused)]
use base64::Engine;
use core::cmp::Ordering;
use core::fmt::{Debug, Display, Formatter};
use core::hash::{Hash, Hasher};
use core::str::FromStr;
use language_tags::LanguageTag;
use rdftk_core::error::Error;
use rdftk_core::model::data_set::*;
use rdftk_core::model::features::*;
use rdftk_core::model::graph::*;
use rdftk_core::model::literal::*;
use rdftk_core::model::resource::*;
use rdftk_core::model::statement::*;
use rdftk_iri::{Iri, IriPrefixMap, LocalName, Name, Namespace};
use rdftk_names::{rdf, xsd};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

/// A hasher that only the analyser knows the meaning of.
pub struct Probe(u64);
impl Hasher for Probe {
    #[inline(never)]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline(never)]
    fn write(&mut self, bytes: &[u8]) {
        self.0 ^= bytes.len() as u64;
    }
}

// ---- building blocks (inlined by the analysis)
type Sp = (SubjectNode, Iri, ObjectNode);
fn st(t: Sp) -> Statement { Statement::new(t.0, t.1, t.2) }
fn tri(s: &Statement) -> Sp { (s.subject().clone(), s.predicate().clone(), s.object().clone()) }
fn stx(t: Sp) -> Statement { st(t) }
fn tris(v: &[Statement]) -> Vec<Sp> { v.iter().map(tri).collect() }
type Sv = (bool, bool, bool, Option<BlankNode>, Option<Iri>, Option<Sp>);
fn sv(n: &SubjectNode) -> Sv {
    (n.is_blank(), n.is_resource(), n.is_statement(), n.as_blank().cloned(), n.as_resource().cloned(), n.as_statement().map(|s| tri(&s)))
}
type Ov = ((bool, bool, bool, bool, bool), Option<BlankNode>, Option<Iri>, Option<Literal>, Option<Collection>, Option<Sp>);
fn ov(n: &ObjectNode) -> Ov {
    ((n.is_blank(), n.is_resource(), n.is_literal(), n.is_collection(), n.is_statement()), n.as_blank().cloned(),
     n.as_resource().cloned(), n.as_literal().cloned(), n.as_collection().cloned(), n.as_statement().map(|s| tri(&s)))
}
type Nv = (bool, bool, Option<BlankNode>, Option<Iri>);
fn nv(n: &GraphName) -> Nv { (n.is_blank(), n.is_iri(), n.as_blank().cloned(), n.as_iri().cloned()) }
fn cv(c: &Collection) -> (usize, bool, Vec<ObjectNode>) { (c.len(), c.is_empty(), c.iter().cloned().collect()) }
fn bn(b: &BlankNode) -> String { b.as_ref().to_string() }
fn nm(s: &str) -> Option<Name> { Name::from_str(s).ok() }
fn nt(n: &Name) -> String { n.as_ref().to_string() }
fn all(g: &Graph) -> Vec<Sp> { g.statements().map(tri).collect() }
macro_rules! gr {
    ($u:expr; $($t:expr),*) => {{
        let mut g = if $u { Graph::unique() } else { Graph::default() };
        $( g.insert(st($t)); )*
        g
    }};
}
macro_rules! vs { ($($t:expr),*) => {{ let v: Vec<Statement> = vec![$(st($t)),*]; v }}; }
fn own<T: Clone + Eq + Hash>(s: HashSet<&T>) -> Vec<T> { s.into_iter().cloned().collect() }
fn owns(s: HashSet<&Statement>) -> Vec<Sp> { s.into_iter().map(tri).collect() }

// ---- blank nodes
pub fn bnode_from_str(s: &str) -> Option<String> { Some(bn(&BlankNode::from_str(s).ok()?)) }
pub fn bnode_from_str_again(s: &str) -> Option<bool> { let n = nm(s)?; let b = BlankNode::from(&n); Some(BlankNode::from_str(&SubjectNode::from(&b).to_string()).ok()? == b) }
pub fn bnode_is_valid(s: &str) -> bool { BlankNode::is_valid_str(s) }
pub fn bnode_of_name(s: &str) -> Option<(String, String, String)> { let n = nm(s)?; let b = BlankNode::from(n.clone()); Some((nt(&n), bn(&b), bn(&BlankNode::from(&n)))) }
pub fn bnode_texts(b: BlankNode) -> (String, String, String, String) { (bn(&b), b.to_string(), String::from(&b), String::from(b)) }
pub fn bnode_qname(b: BlankNode) -> (String, String) { let q = b.to_qname(); (bn(&b), q.to_string()) }

// ---- subject nodes
pub fn subj_blank(b: BlankNode) -> Sv { sv(&SubjectNode::from(b)) }
pub fn subj_blank_ref(b: &BlankNode) -> Sv { sv(&SubjectNode::from(b)) }
pub fn subj_iri(i: Iri) -> Sv { sv(&SubjectNode::from(i)) }
pub fn subj_iri_ref(i: &Iri) -> Sv { sv(&SubjectNode::from(i)) }
pub fn subj_stmt(t: Sp) -> Sv { sv(&SubjectNode::from(st(t))) }
pub fn subj_stmt_ref(t: Sp) -> Sv { sv(&SubjectNode::from(&st(t))) }
pub fn subj_arc(t: Sp) -> Sv { sv(&SubjectNode::from(Arc::new(st(t)))) }
pub fn subj_arc_ref(t: Sp) -> Sv { sv(&SubjectNode::from(&Arc::new(st(t)))) }
pub fn subj_name(s: &str) -> Option<(String, Sv)> { let n = nm(s)?; Some((nt(&n), sv(&SubjectNode::from(n)))) }
pub fn subj_name_ref(s: &str) -> Option<(String, Sv)> { let n = nm(s)?; Some((nt(&n), sv(&SubjectNode::from(&n)))) }
pub fn subj_self_ref(n: &SubjectNode) -> SubjectNode { SubjectNode::from(n) }
pub fn subj_view(n: SubjectNode) -> Sv { sv(&n) }
pub fn subj_to_object(n: SubjectNode) -> Ov { ov(&n.to_object()) }
pub fn subj_round(n: SubjectNode) -> Option<SubjectNode> { n.to_object().to_subject() }
pub fn subj_eq_blank(n: SubjectNode, b: BlankNode) -> bool { n == b }
pub fn subj_eq_iri(n: SubjectNode, b: Iri) -> bool { n == b }
pub fn subj_eq_stmt(n: SubjectNode, t: Sp) -> bool { n == st(t) }
pub fn subj_eq_arc(n: SubjectNode, t: Sp) -> bool { n == Arc::new(st(t)) }
pub fn subj_eq(a: SubjectNode, b: SubjectNode) -> (bool, bool) { (a == b, a != b) }
pub fn subj_cmp(a: SubjectNode, b: SubjectNode) -> (Ordering, Ordering, Option<Ordering>, bool) { (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn subj_cmp3(a: SubjectNode, b: SubjectNode, c: SubjectNode) -> (Ordering, Ordering, Ordering) { (a.cmp(&b), b.cmp(&c), a.cmp(&c)) }
pub fn subj_hash(a: SubjectNode, h: &mut Probe) { a.hash(h) }
pub fn subj_show_blank(b: BlankNode) -> (String, String) { (bn(&b), SubjectNode::from(b).to_string()) }
pub fn subj_show_iri(i: Iri) -> (String, String) { let s: &str = i.as_ref(); (s.to_string(), SubjectNode::from(&i).to_string()) }
pub fn subj_show_stmt(t: Sp) -> (String, String) { let s = st(t); (s.to_string(), SubjectNode::from(&s).to_string()) }

// ---- object nodes
pub fn obj_blank(b: BlankNode) -> Ov { ov(&ObjectNode::from(b)) }
pub fn obj_blank_ref(b: &BlankNode) -> Ov { ov(&ObjectNode::from(b)) }
pub fn obj_iri(i: Iri) -> Ov { ov(&ObjectNode::from(i)) }
pub fn obj_iri_ref(i: &Iri) -> Ov { ov(&ObjectNode::from(i)) }
pub fn obj_literal(l: Literal) -> Ov { ov(&ObjectNode::from(l)) }
pub fn obj_literal_ref(l: &Literal) -> Ov { ov(&ObjectNode::from(l)) }
pub fn obj_collection(c: Collection) -> Ov { ov(&ObjectNode::from(c)) }
pub fn obj_collection_ref(c: &Collection) -> Ov { ov(&ObjectNode::from(c)) }
pub fn obj_stmt(t: Sp) -> Ov { ov(&ObjectNode::from(st(t))) }
pub fn obj_stmt_ref(t: Sp) -> Ov { ov(&ObjectNode::from(&st(t))) }
pub fn obj_arc(t: Sp) -> Ov { ov(&ObjectNode::from(Arc::new(st(t)))) }
pub fn obj_arc_ref(t: Sp) -> Ov { ov(&ObjectNode::from(&Arc::new(st(t)))) }
pub fn obj_name(s: &str) -> Option<(String, Ov)> { let n = nm(s)?; Some((nt(&n), ov(&ObjectNode::from(n)))) }
pub fn obj_name_ref(s: &str) -> Option<(String, Ov)> { let n = nm(s)?; Some((nt(&n), ov(&ObjectNode::from(&n)))) }
pub fn obj_self_ref(n: &ObjectNode) -> ObjectNode { ObjectNode::from(n) }
pub fn obj_view(n: ObjectNode) -> Ov { ov(&n) }
pub fn obj_to_subject(n: ObjectNode) -> Option<Sv> { n.to_subject().map(|s| sv(&s)) }
pub fn obj_eq_blank(n: ObjectNode, b: BlankNode) -> bool { n == b }
pub fn obj_eq_iri(n: ObjectNode, b: Iri) -> bool { n == b }
pub fn obj_eq_literal(n: ObjectNode, b: Literal) -> bool { n == b }
pub fn obj_eq_collection(n: ObjectNode, b: Collection) -> bool { n == b }
pub fn obj_eq_stmt(n: ObjectNode, t: Sp) -> bool { n == st(t) }
pub fn obj_eq_arc(n: ObjectNode, t: Sp) -> bool { n == Arc::new(st(t)) }
pub fn obj_eq(a: ObjectNode, b: ObjectNode) -> (bool, bool) { (a == b, a != b) }
pub fn obj_cmp(a: ObjectNode, b: ObjectNode) -> (Ordering, Ordering, Option<Ordering>, bool) { (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn obj_cmp3(a: ObjectNode, b: ObjectNode, c: ObjectNode) -> (Ordering, Ordering, Ordering) { (a.cmp(&b), b.cmp(&c), a.cmp(&c)) }
pub fn obj_hash(a: ObjectNode, h: &mut Probe) { a.hash(h) }
pub fn obj_show_blank(b: BlankNode) -> (String, String) { (bn(&b), ObjectNode::from(b).to_string()) }
pub fn obj_show_iri(i: Iri) -> (String, String) { let s: &str = i.as_ref(); (s.to_string(), ObjectNode::from(&i).to_string()) }
pub fn obj_show_stmt(t: Sp) -> (String, String) { let s = st(t); (s.to_string(), ObjectNode::from(&s).to_string()) }
pub fn obj_show_literal(l: Literal) -> (String, String, String, String) { let o = ObjectNode::from(&l); (l.to_string(), o.to_string(), format!("{l:#}"), format!("{o:#}")) }
pub fn obj_show_collection(c: Collection) -> (String, String) { let o = ObjectNode::from(&c); (c.to_string(), o.to_string()) }

// ---- collections
pub fn coll_nil() -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::nil()) }
pub fn coll_blank(b: BlankNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_blank_ref(b: &BlankNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_iri(b: Iri) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_iri_ref(b: &Iri) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_literal(b: Literal) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_literal_ref(b: &Literal) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_object(b: ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_object_ref(b: &ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(b)) }
pub fn coll_stmt(t: Sp) -> (usize, bool, Vec<Ov>) { let c = Collection::from(st(t)); (c.len(), c.is_empty(), c.iter().map(ov).collect()) }
pub fn coll_stmt_ref(t: Sp) -> (usize, bool, Vec<Ov>) { let c = Collection::from(&st(t)); (c.len(), c.is_empty(), c.iter().map(ov).collect()) }
pub fn coll_name(s: &str) -> Option<(String, Vec<Ov>)> { let n = nm(s)?; Some((nt(&n), Collection::from(n).iter().map(ov).collect())) }
pub fn coll_name_ref(s: &str) -> Option<(String, Vec<Ov>)> { let n = nm(s)?; Some((nt(&n), Collection::from(&n).iter().map(ov).collect())) }
pub fn coll_vec_0() -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(Vec::new())) }
pub fn coll_vec_1(a: ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(vec![a])) }
pub fn coll_vec_2(a: ObjectNode, b: ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(vec![a, b])) }
pub fn coll_vec_3(a: ObjectNode, b: ObjectNode, c: ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(vec![a, b, c])) }
pub fn coll_iter_2(a: ObjectNode, b: ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from_iter(vec![a, b])) }
pub fn coll_back_2(a: ObjectNode, b: ObjectNode) -> Vec<ObjectNode> { Vec::from(Collection::from(vec![a, b])) }
pub fn coll_show_1(a: ObjectNode) -> (String, String) { (a.to_string(), Collection::from(vec![a]).to_string()) }
pub fn coll_show_2(a: BlankNode, b: BlankNode) -> (String, String, String) { (bn(&a), bn(&b), Collection::from(vec![ObjectNode::from(a), ObjectNode::from(b)]).to_string()) }
pub fn coll_reify_0() -> Option<(SubjectNode, Vec<Sp>)> { let (s, v) = Collection::nil().reify().ok()?; Some((s, tris(&v))) }
pub fn coll_reify_1(a: ObjectNode) -> Option<(SubjectNode, Vec<Sp>)> { let (s, v) = Collection::from(vec![a]).reify().ok()?; Some((s, tris(&v))) }
pub fn coll_reify_2(a: ObjectNode, b: ObjectNode) -> Option<(SubjectNode, Vec<Sp>)> { let (s, v) = Collection::from(vec![a, b]).reify().ok()?; Some((s, tris(&v))) }
pub fn coll_reify_3(a: ObjectNode, b: ObjectNode, c: ObjectNode) -> Option<(SubjectNode, Vec<Sp>)> { let (s, v) = Collection::from(vec![a, b, c]).reify().ok()?; Some((s, tris(&v))) }

// ---- statements
pub fn stmt_new(t: Sp) -> Sp { tri(&st(t)) }
pub fn stmt_type(s: SubjectNode, o: ObjectNode) -> (Iri, Sp) { (rdf::a_type().clone(), tri(&Statement::rdf_type(s, o))) }
pub fn stmt_set_subject(t: Sp, s: SubjectNode) -> Sp { let mut x = st(t); x.set_subject(s); tri(&x) }
pub fn stmt_set_predicate(t: Sp, p: Iri) -> Sp { let mut x = st(t); x.set_predicate(p); tri(&x) }
pub fn stmt_set_object(t: Sp, o: ObjectNode) -> Sp { let mut x = st(t); x.set_object(o); tri(&x) }
pub fn stmt_is_nested(t: Sp) -> (bool, bool, bool) { let x = st(t); (x.subject().is_statement(), x.object().is_statement(), x.is_nested()) }
pub fn stmt_clone(t: Sp) -> Sp { tri(&st(t).clone()) }
pub fn stmt_eq(a: Sp, b: Sp) -> (bool, bool) { let (a, b) = (st(a), st(b)); (a == b, a != b) }
pub fn stmt_cmp(a: Sp, b: Sp) -> (Ordering, Ordering, Option<Ordering>, bool) { let (a, b) = (st(a), st(b)); (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn stmt_cmp3(a: Sp, b: Sp, c: Sp) -> (Ordering, Ordering, Ordering) { let (a, b, c) = (st(a), st(b), st(c)); (a.cmp(&b), b.cmp(&c), a.cmp(&c)) }
pub fn stmt_hash(a: Sp, h: &mut Probe) { st(a).hash(h) }
pub fn stmt_show(t: Sp) -> (String, String, String, String) { let x = st(t); (x.subject().to_string(), x.predicate().to_string(), x.object().to_string(), x.to_string()) }
pub fn stmt_reify(t: Sp) -> Option<(SubjectNode, Vec<Sp>)> { let (s, v) = st(t).reify().ok()?; Some((s, tris(&v))) }

// ---- graph names
pub fn gname_blank(b: BlankNode) -> Nv { nv(&GraphName::from(b)) }
pub fn gname_blank_ref(b: &BlankNode) -> Nv { nv(&GraphName::from(b)) }
pub fn gname_iri(b: Iri) -> Nv { nv(&GraphName::from(b)) }
pub fn gname_iri_ref(b: &Iri) -> Nv { nv(&GraphName::from(b)) }
pub fn gname_named(b: Iri) -> Nv { nv(&GraphName::named(b)) }
pub fn gname_blank_named(s: &str) -> (Option<Nv>, Option<BlankNode>) { (GraphName::blank_named(s).ok().map(|n| nv(&n)), BlankNode::from_str(s).ok()) }
pub fn gname_name(s: &str) -> Option<(String, Nv)> { let n = nm(s)?; Some((nt(&n), nv(&GraphName::from(n)))) }
pub fn gname_name_ref(s: &str) -> Option<(String, Nv)> { let n = nm(s)?; Some((nt(&n), nv(&GraphName::from(&n)))) }
pub fn gname_subject(n: SubjectNode) -> Option<Nv> { if n.is_statement() { None } else { Some(nv(&GraphName::from(n))) } }
pub fn gname_show_blank(b: BlankNode) -> (String, String) { (bn(&b), GraphName::from(b).to_string()) }
pub fn gname_show_iri(i: Iri) -> (String, String) { let s: &str = i.as_ref(); (s.to_string(), GraphName::from(&i).to_string()) }
pub fn gname_view(n: GraphName) -> Nv { nv(&n) }
pub fn gname_eq(a: GraphName, b: GraphName) -> (bool, bool) { (a == b, a != b) }

// ---- data types and literals
type Lv = (String, Option<DataType>, Option<LanguageTag>, bool, bool);
fn lv(l: &Literal) -> Lv { (l.lexical_form().clone(), l.data_type().cloned(), l.language().cloned(), l.has_data_type(), l.has_language()) }
fn it(i: &Iri) -> String { let s: &str = i.as_ref(); s.to_string() }
pub fn dt_iri(d: DataType) -> (DataType, String) { let s = it(d.as_iri()); (d, s) }
pub fn dt_round(d: DataType) -> (DataType, DataType) { let i = d.as_iri().clone(); (d, DataType::from(i)) }
pub fn dt_of_iri(i: Iri) -> (Iri, Iri) { let d = DataType::from(i.clone()); (i, d.as_iri().clone()) }
pub fn dt_show(d: DataType) -> (DataType, String) { let s = d.to_string(); (d, s) }
pub fn dt_cmp(a: DataType, b: DataType) -> (Ordering, Ordering, Option<Ordering>, bool) { (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn lit_plain(s: String) -> (Lv, Lv) { (lv(&Literal::plain(s.clone())), lv(&Literal::from(s))) }
pub fn lit_str(s: &str) -> (Lv, Lv) { (lv(&Literal::plain(s)), lv(&Literal::from(s))) }
pub fn lit_language(s: String, l: LanguageTag) -> (Lv, Lv) { (lv(&Literal::plain(s.clone())), lv(&Literal::with_language(s, l))) }
pub fn lit_typed(s: String, d: DataType) -> (Lv, Lv) { (lv(&Literal::plain(s.clone())), lv(&Literal::with_data_type(s, d))) }
pub fn lit_typed_iri(s: String, d: Iri) -> (Lv, DataType) { (lv(&Literal::with_data_type_iri(s, d.clone())), DataType::from(d)) }
pub fn lit_safe_text() -> Vec<Lv> { vec![lv(&Literal::plain("")), lv(&Literal::plain("a b")), lv(&Literal::plain("a\"b\\c\nd\te'"))] }
pub fn lit_bool(v: bool) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_i64(v: i64) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_i32(v: i32) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_i16(v: i16) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_i8(v: i8) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_u64(v: u64) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_u32(v: u32) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_u16(v: u16) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_u8(v: u8) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_f64(v: f64) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_f32(v: f32) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_iri(v: Iri) -> (Lv, Lv) { (lv(&Literal::from(&v)), lv(&Literal::plain(it(&v)))) }
pub fn lit_lang(v: LanguageTag) -> (Lv, Lv) { let p = lv(&Literal::plain(v.to_string())); (lv(&Literal::from(v)), p) }
pub fn lit_name(s: &str) -> Option<(Lv, Lv)> { let n = nm(s)?; Some((lv(&Literal::from(&n)), lv(&Literal::plain(nt(&n))))) }
pub fn lit_lname(n: &str, s: &str) -> Option<(Lv, Lv)> { let q = LocalName::new(Namespace::from_str(n).ok()?, nm(s)?); Some((lv(&Literal::from(&q)), lv(&Literal::plain(q.to_string())))) }
pub fn lit_nanos(s: u64, n: u32) -> (Lv, Lv, bool, String, String) { let n = n % 1_000_000_000; let d = Duration::new(s, n); (lv(&Literal::from(d)), lv(&Literal::from(d)), n == 0, s.to_string(), format!("{:09}", n)) }
pub fn lit_secs(s: u64) -> (Lv, String) { (lv(&Literal::from(Duration::from_secs(s))), s.to_string()) }
pub fn lit_is_bool(l: Literal, v: bool) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_i64(l: Literal, v: i64) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_i32(l: Literal, v: i32) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_i16(l: Literal, v: i16) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_i8(l: Literal, v: i8) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_u64(l: Literal, v: u64) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_u32(l: Literal, v: u32) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_u16(l: Literal, v: u16) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_u8(l: Literal, v: u8) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_any_iri(l: Literal, v: Iri) -> (bool, bool) { (l == v, l == Literal::from(&v)) }
pub fn lit_any_lang(l: Literal, v: LanguageTag) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_any_name(l: Literal, s: &str) -> Option<(bool, bool)> { let n = nm(s)?; Some((l == n, l == Literal::from(&n))) }
pub fn lit_any_lname(l: Literal, n: &str, s: &str) -> Option<(bool, bool)> { let q = LocalName::new(Namespace::from_str(n).ok()?, nm(s)?); Some((l == q, l == Literal::from(&q))) }
pub fn lit_any_string(l: Literal, v: String) -> (bool, bool, bool) { (l == v, l.lexical_form() == Literal::plain(v).lexical_form(), l.data_type().is_none_or(|t| t == &DataType::String)) }
pub fn lit_any_str(l: Literal, v: &str) -> (bool, bool, bool) { (l == *v, l.lexical_form() == Literal::plain(v).lexical_form(), l.data_type().is_none_or(|t| t == &DataType::String)) }
pub fn lit_is_iri(v: Iri) -> bool { Literal::from(&v) == v }
pub fn lit_is_string(v: String) -> (bool, bool) { (Literal::plain(v.clone()) == v, Literal::from(v.clone()) == v) }
pub fn lit_is_str(v: &str) -> (bool, bool) { (Literal::plain(v) == *v, Literal::from(v) == *v) }
pub fn lit_is_lang(v: LanguageTag) -> bool { Literal::from(v.clone()) == v }
pub fn lit_is_name(s: &str) -> Option<bool> { let n = nm(s)?; Some(Literal::from(&n) == n) }
pub fn lit_is_lname(n: &str, s: &str) -> Option<bool> { let q = LocalName::new(Namespace::from_str(n).ok()?, nm(s)?); Some(Literal::from(&q) == q) }
pub fn lit_to_iri(l: Literal) -> (Lv, bool) { let v = lv(&l); (v, Iri::try_from(l).is_ok()) }
pub fn lit_iri_back(v: Iri) -> Option<Iri> { Iri::try_from(Literal::from(v)).ok() }
pub fn lit_hex_back_0() -> Option<Vec<u8>> { Vec::<u8>::try_from(Literal::hex_encoded(&[])).ok() }
pub fn lit_hex_back_2(a: u8, b: u8) -> Option<Vec<u8>> { Vec::<u8>::try_from(Literal::hex_encoded(&[a, b])).ok() }
pub fn lit_hex_back_3(a: u8, b: u8, c: u8) -> Option<Vec<u8>> { Vec::<u8>::try_from(Literal::hex_encoded(&[a, b, c])).ok() }
pub fn lit_hex(a: u8, b: u8) -> (Lv, String) { (lv(&Literal::hex_encoded(&[a, b])), format!("{a:02X}{b:02X}")) }
pub fn lit_base64_back_2(a: u8, b: u8) -> Option<Vec<u8>> { Vec::<u8>::try_from(Literal::base64_encoded(&[a, b])).ok() }
pub fn lit_base64(a: u8, b: u8) -> (Lv, String) { (lv(&Literal::base64_encoded(&[a, b])), base64::prelude::BASE64_STANDARD.encode([a, b])) }
pub fn lit_base64_empty() -> Lv { lv(&Literal::base64_encoded(&[])) }
pub fn lit_hex_text(a: char, b: char) -> Option<Vec<u8>> { let mut t = String::new(); t.push(a); t.push(b); Vec::<u8>::try_from(Literal::with_data_type(t, DataType::HexBinary)).ok() }
pub fn lit_hex_text_3(a: char, b: char, c: char) -> Option<Vec<u8>> { let mut t = String::new(); t.push(a); t.push(b); t.push(c); Vec::<u8>::try_from(Literal::with_data_type(t, DataType::HexBinary)).ok() }
pub fn lit_decimal(v: rust_decimal::Decimal) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_cduration(v: chrono::Duration) -> (Lv, String) { (lv(&Literal::from(v)), v.to_string()) }
pub fn lit_is_decimal(l: Literal, v: rust_decimal::Decimal) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_cduration(l: Literal, v: chrono::Duration) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_f64(l: Literal, v: f64) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_f32(l: Literal, v: f32) -> (bool, bool) { (l == v, l == Literal::from(v)) }
pub fn lit_is_secs(l: Literal, s: u64) -> (bool, bool) { let v = Duration::from_secs(s); (l == v, l == Literal::from(v)) }
pub fn lit_bytes_of(t: DataType) -> Option<Vec<u8>> { Vec::<u8>::try_from(Literal::with_data_type("ABcd", t)).ok() }
pub fn lit_bytes_plain(t: LanguageTag) -> (bool, bool) { (Vec::<u8>::try_from(Literal::plain("ABcd")).is_ok(), Vec::<u8>::try_from(Literal::with_language("ABcd", t)).is_ok()) }
pub fn lit_to_bytes(l: Literal) -> (Lv, bool) { let v = lv(&l); (v, Vec::<u8>::try_from(l).is_ok()) }
pub fn lit_eq(a: Literal, b: Literal) -> (Lv, Lv, bool, bool) { let (x, y) = (lv(&a), lv(&b)); (x, y, a == b, a != b) }
pub fn lit_cmp(a: Literal, b: Literal) -> (Ordering, Ordering, Option<Ordering>, bool) { (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn lit_cmp3(a: Literal, b: Literal, c: Literal) -> (Ordering, Ordering, Ordering) { (a.cmp(&b), b.cmp(&c), a.cmp(&c)) }
pub fn lit_hash(a: Literal, h: &mut Probe) { a.hash(h) }
pub fn lit_show(l: Literal) -> (Lv, Option<String>, Option<String>, String, String) {
    let v = lv(&l);
    let d = v.1.as_ref().map(|d| d.as_iri().to_string());
    let t = v.2.as_ref().map(|t| t.to_string());
    (v, d, t, l.to_string(), format!("{l:#}"))
}

// ---- graphs: construction and names
type Gv = (Option<GraphName>, bool, usize, bool, Vec<Sp>, bool);
fn gv(g: &Graph) -> Gv { (g.name().cloned(), g.is_named(), g.len(), g.is_empty(), all(g), g.supports_feature(&FEATURE_GRAPH_DUPLICATES)) }
pub fn graph_named(n: GraphName, a: Sp) -> Gv { let mut g = Graph::named(n); g.insert(st(a)); gv(&g) }
pub fn graph_unique_named(n: GraphName, a: Sp, b: Sp) -> Gv { let mut g = Graph::unique_named(n); g.insert(st(a)); g.insert(st(b)); gv(&g) }
pub fn graph_set_name(u: bool, n: GraphName, a: Sp) -> Gv { let mut g = gr!(u; a); g.set_name(n); gv(&g) }
pub fn graph_unset_name(u: bool, n: GraphName, a: Sp) -> Gv { let mut g = gr!(u; a); g.set_name(n); g.unset_name(); gv(&g) }
pub fn graph_of_0(u: bool) -> Gv { gv(&gr!(u;)) }
pub fn graph_of_1(u: bool, a: Sp) -> Gv { gv(&gr!(u; a)) }
pub fn graph_of_2(u: bool, a: Sp, b: Sp) -> Gv { gv(&gr!(u; a, b)) }
pub fn graph_of_3(u: bool, a: Sp, b: Sp, c: Sp) -> Gv { gv(&gr!(u; a, b, c)) }
pub fn graph_from_stmt(a: Sp) -> Gv { gv(&Graph::from(st(a))) }
pub fn graph_from_vec_2(a: Sp, b: Sp) -> Gv { gv(&Graph::from(vs!(a, b))) }
pub fn graph_from_iter_2(a: Sp, b: Sp) -> Gv { gv(&Graph::from_iter(vs!(a, b))) }
pub fn graph_with_statements_0(u: bool, a: Sp) -> Gv { gv(&gr!(u; a).with_statements(vs!())) }
pub fn graph_with_statements_1(u: bool, a: Sp, b: Sp) -> Gv { gv(&gr!(u; a).with_statements(vs!(b))) }
pub fn graph_with_statements_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u;).with_mappings(m.clone()); g.set_name(n); let g = g.with_statements(vs!(a)); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_extend_0(u: bool, a: Sp) -> Gv { let mut g = gr!(u; a); g.extend(vs!()); gv(&g) }
pub fn graph_merge_0(u: bool, w: bool, a: Sp) -> (Gv, Gv) { let mut g = gr!(u; a); let h = gr!(w;); g.merge(&h); (gv(&g), gv(&h)) }
pub fn graph_merge_into_0(u: bool, w: bool, a: Sp) -> (Gv, Gv) { let mut g = gr!(u;); let h = gr!(w; a); g.merge(&h); (gv(&g), gv(&h)) }
pub fn graph_merge_names(u: bool, n: GraphName, m: GraphName, a: Sp) -> (Gv, Gv) { let mut g = gr!(u;); g.set_name(n); let mut h = gr!(u; a); h.set_name(m); g.merge(&h); (gv(&g), gv(&h)) }
pub fn graph_merge_self_name(u: bool, m: GraphName, a: Sp) -> (Gv, Gv) { let mut g = gr!(u;); let mut h = gr!(u; a); h.set_name(m); g.merge(&h); (gv(&g), gv(&h)) }
pub fn graph_remove_0(u: bool, x: Sp) -> Gv { let mut g = gr!(u;); g.remove(&st(x)); gv(&g) }
pub fn graph_remove_1(u: bool, n: Option<GraphName>, a: Sp, x: Sp) -> Gv { let mut g = gr!(u; a); if let Some(n) = n { g.set_name(n); } g.remove(&st(x)); gv(&g) }
pub fn graph_clear_named(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n); g.clear(); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_dedup_named(u: bool, n: GraphName, m: IriPrefixMap, a: Sp, b: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a, b).with_mappings(m.clone()); g.set_name(n); let _ = g.dedup(); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_clone_named(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n); let h = g.clone(); (gv(&h), m, h.prefix_mappings().clone()) }
pub fn graph_insert_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp, b: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u;).with_mappings(m.clone()); g.set_name(n); g.insert(st(a)); g.insert(st(b)); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_extend_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp, b: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n); g.extend(vs!(b)); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_remove_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp, x: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n); g.remove(&st(x)); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_remove_all_for_keeps2(u: bool, n: GraphName, m: IriPrefixMap, a: Sp, x: SubjectNode) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n); let _ = g.remove_all_for(&x); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_merge_keeps(u: bool, n: GraphName, m: IriPrefixMap, k: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u;).with_mappings(m.clone()); g.set_name(n); let h = gr!(u; a).with_mappings(k.clone()); g.merge(&h); (gv(&g), m, g.prefix_mappings().clone(), k, h.prefix_mappings().clone()) }
pub fn graph_rename_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n.clone()); g.unset_name(); g.set_name(n); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_set_mappings_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a); g.set_name(n); g.set_prefix_mappings(m.clone()); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_with_mappings_keeps(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> (Gv, IriPrefixMap, IriPrefixMap) { let mut g = gr!(u; a); g.set_name(n); let g = g.with_mappings(m.clone()); (gv(&g), m, g.prefix_mappings().clone()) }
pub fn graph_with_statements_2(u: bool, a: Sp, b: Sp, c: Sp) -> Gv { gv(&gr!(u; a).with_statements(vs!(b, c))) }
pub fn graph_extend_2(u: bool, a: Sp, b: Sp, c: Sp) -> Gv { let mut g = gr!(u; a); g.extend(vs!(b, c)); gv(&g) }
pub fn graph_merge(u: bool, w: bool, a: Sp, b: Sp) -> (Gv, Gv) { let mut g = gr!(u; a); let h = gr!(w; b); g.merge(&h); (gv(&g), gv(&h)) }
pub fn graph_clear(u: bool, a: Sp) -> Gv { let mut g = gr!(u; a); g.clear(); gv(&g) }
pub fn graph_clone(u: bool, a: Sp, b: Sp) -> (Gv, Gv) { let g = gr!(u; a); let mut h = g.clone(); h.insert(st(b)); (gv(&g), gv(&h)) }
pub fn graph_remove_2(u: bool, a: Sp, b: Sp, x: Sp) -> Gv { let mut g = gr!(u; a, b); g.remove(&st(x)); gv(&g) }
pub fn graph_remove_all_for_2(u: bool, a: Sp, b: Sp, x: SubjectNode) -> (Vec<Sp>, Gv) { let mut g = gr!(u; a, b); let d = g.remove_all_for(&x); (tris(&d), gv(&g)) }
pub fn graph_remove_all_for_keeps(u: bool, n: GraphName, a: Sp, b: Sp, x: SubjectNode) -> Gv { let mut g = gr!(u; a); g.set_name(n); let _ = g.remove_all_for(&x); g.insert(st(b.clone())); g.insert(st(b)); gv(&g) }
pub fn graph_dedup_2(u: bool, a: Sp, b: Sp) -> (Vec<Sp>, Gv) { let mut g = gr!(u; a, b); let d = g.dedup(); (tris(&d), gv(&g)) }
pub fn graph_dedup_3(a: Sp, b: Sp, c: Sp) -> (Vec<Sp>, Gv) { let mut g = gr!(false; a, b, c); let d = g.dedup(); (tris(&d), gv(&g)) }
pub fn graph_dedup_then_insert(u: bool, a: Sp) -> Gv { let mut g = gr!(u; a.clone()); let _ = g.dedup(); g.insert(st(a)); gv(&g) }
pub fn graph_features(u: bool, f: Iri) -> (bool, Vec<bool>) { let g = gr!(u;); (g.supports_feature(&f), vec![f == *FEATURE_GRAPH_DUPLICATES, f == *FEATURE_RDF_STAR]) }

pub fn graph_remove_3(u: bool, a: Sp, b: Sp, c: Sp, x: Sp) -> Gv { let mut g = gr!(u; a, b, c); g.remove(&st(x)); gv(&g) }
pub fn graph_remove_then(u: bool, a: Sp, b: Sp, x: Sp, y: Sp, z: Sp) -> Gv { let mut g = gr!(u; a, b); g.remove(&st(x)); g.insert(st(y)); g.remove(&st(z)); gv(&g) }
pub fn graph_remove_all_for_3(u: bool, a: Sp, b: Sp, c: Sp, x: SubjectNode) -> (Vec<Sp>, Gv) { let mut g = gr!(u; a, b, c); let d = g.remove_all_for(&x); (tris(&d), gv(&g)) }
pub fn graph_merge_2(u: bool, w: bool, a: Sp, b: Sp, c: Sp) -> (Gv, Gv) { let mut g = gr!(u; a); let h = gr!(w; b, c); g.merge(&h); (gv(&g), gv(&h)) }
pub fn graph_clear_insert(u: bool, a: Sp, b: Sp, c: Sp) -> Gv { let mut g = gr!(u; a); g.clear(); g.insert(st(b)); g.insert(st(c)); gv(&g) }

// ---- graphs: queries
pub fn graph_matches_2(u: bool, a: Sp, b: Sp, s: Option<&SubjectNode>, p: Option<&Iri>, o: Option<&ObjectNode>) -> Vec<Sp> { owns(gr!(u; a, b).matches(s, p, o)) }
pub fn graph_matches_3s(u: bool, a: Sp, b: Sp, c: Sp, s: &SubjectNode) -> Vec<Sp> { owns(gr!(u; a, b, c).matches(Some(s), None, None)) }
pub fn graph_matches_3p(u: bool, a: Sp, b: Sp, c: Sp, p: &Iri) -> Vec<Sp> { owns(gr!(u; a, b, c).matches(None, Some(p), None)) }
pub fn graph_matches_3o(u: bool, a: Sp, b: Sp, c: Sp, o: &ObjectNode) -> Vec<Sp> { owns(gr!(u; a, b, c).matches(None, None, Some(o))) }
pub fn graph_contains_3(u: bool, a: Sp, b: Sp, c: Sp, x: Sp) -> (bool, bool) { let g = gr!(u; a, b, c); (g.contains(&st(x.clone())), g.contains_all(&x.0, &x.1, &x.2)) }
pub fn graph_subjects_3(u: bool, a: Sp, b: Sp, c: Sp) -> Vec<SubjectNode> { own(gr!(u; a, b, c).subjects()) }
pub fn graph_predicates_3(u: bool, a: Sp, b: Sp, c: Sp) -> Vec<Iri> { own(gr!(u; a, b, c).predicates()) }
pub fn graph_objects_3(u: bool, a: Sp, b: Sp, c: Sp) -> Vec<ObjectNode> { own(gr!(u; a, b, c).objects()) }
pub fn graph_matches_0(u: bool, s: Option<&SubjectNode>, p: Option<&Iri>, o: Option<&ObjectNode>) -> Vec<Sp> { owns(gr!(u;).matches(s, p, o)) }
pub fn graph_matches_1(u: bool, a: Sp, s: Option<&SubjectNode>, p: Option<&Iri>, o: Option<&ObjectNode>) -> Vec<Sp> { owns(gr!(u; a).matches(s, p, o)) }
pub fn graph_matches_2s(u: bool, a: Sp, b: Sp, s: &SubjectNode) -> Vec<Sp> { owns(gr!(u; a, b).matches(Some(s), None, None)) }
pub fn graph_matches_2p(u: bool, a: Sp, b: Sp, p: &Iri) -> Vec<Sp> { owns(gr!(u; a, b).matches(None, Some(p), None)) }
pub fn graph_matches_2o(u: bool, a: Sp, b: Sp, o: &ObjectNode) -> Vec<Sp> { owns(gr!(u; a, b).matches(None, None, Some(o))) }
pub fn graph_contains_0(u: bool, x: Sp) -> (bool, bool) { let g = gr!(u;); (g.contains(&st(x.clone())), g.contains_all(&x.0, &x.1, &x.2)) }
pub fn graph_contains_1(u: bool, a: Sp, x: Sp) -> (bool, bool) { let g = gr!(u; a); (g.contains(&st(x.clone())), g.contains_all(&x.0, &x.1, &x.2)) }
pub fn graph_contains_2(u: bool, a: Sp, b: Sp, x: Sp) -> (bool, bool) { let g = gr!(u; a, b); (g.contains(&st(x.clone())), g.contains_all(&x.0, &x.1, &x.2)) }
pub fn graph_contains_subject_2(u: bool, a: Sp, b: Sp, x: &SubjectNode) -> bool { gr!(u; a, b).contains_subject(x) }
pub fn graph_subjects_2(u: bool, a: Sp, b: Sp) -> Vec<SubjectNode> { own(gr!(u; a, b).subjects()) }
pub fn graph_node_subjects_2(u: bool, a: Sp, b: Sp) -> Vec<SubjectNode> { own(gr!(u; a, b).node_subjects()) }
pub fn graph_blank_subjects_2(u: bool, a: Sp, b: Sp) -> Vec<SubjectNode> { own(gr!(u; a, b).blank_node_subjects()) }
pub fn graph_predicates_2(u: bool, a: Sp, b: Sp) -> Vec<Iri> { own(gr!(u; a, b).predicates()) }
pub fn graph_predicates_for_2(u: bool, a: Sp, b: Sp, x: &SubjectNode) -> Vec<Iri> { own(gr!(u; a, b).predicates_for(x)) }
pub fn graph_objects_2(u: bool, a: Sp, b: Sp) -> Vec<ObjectNode> { own(gr!(u; a, b).objects()) }
pub fn graph_objects_for_2(u: bool, a: Sp, b: Sp, x: &SubjectNode, p: &Iri) -> Vec<ObjectNode> { own(gr!(u; a, b).objects_for(x, p)) }

// ---- graphs: derived graphs
pub fn graph_skolemize_1(u: bool, base: Iri, a: Sp) -> Option<Gv> { Some(gv(&gr!(u; a).skolemize(&base).ok()?)) }
pub fn graph_skolemize_2(base: Iri, a: Sp, b: Sp) -> Option<Gv> { Some(gv(&gr!(false; a, b).skolemize(&base).ok()?)) }
pub fn graph_simplify_1(u: bool, n: Option<GraphName>, a: Sp) -> Option<Gv> { let mut g = gr!(u; a); if let Some(n) = n { g.set_name(n); } Some(gv(&g.simplify().ok()?)) }
pub fn graph_simplify_coll_2(s: SubjectNode, p: Iri, a: ObjectNode, b: ObjectNode) -> Option<Gv> { let mut g = Graph::default(); g.insert(Statement::new(s, p, Collection::from(vec![a, b]))); Some(gv(&g.simplify().ok()?)) }

// ---- data sets
type Dv = (usize, bool, bool);
fn ng(n: Option<GraphName>, t: Sp) -> Graph { let mut g = Graph::default(); if let Some(n) = n { g.set_name(n); } g.insert(st(t)); g }
fn ne(u: bool, n: Option<GraphName>) -> Graph { let mut g = gr!(u;); if let Some(n) = n { g.set_name(n); } g }
pub fn ds_empty_graph(u: bool, n: Option<GraphName>, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ne(u, n)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_empty_after(n: Option<GraphName>, a: Sp, u: bool, m: Option<GraphName>, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.insert(ne(u, m)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_from_empty(u: bool, n: Option<GraphName>, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let d = DataSet::from(vec![ne(u, n)]); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_from_map(n: Option<GraphName>, a: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let d = DataSet::from(HashMap::from_iter([(n.clone(), ng(n, a))])); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_clear_insert(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.clear(); d.insert(ng(m, b)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_remove_insert(n: Option<GraphName>, a: Sp, x: Option<GraphName>, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.remove(&x); d.insert(ng(m, b)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_two_statements(n: Option<GraphName>, a: Sp, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut g = ng(n, a); g.insert(st(b)); let mut d = DataSet::default(); d.insert(g); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
fn dv(d: &DataSet) -> Dv { (d.len(), d.is_empty(), d.has_default_graph()) }
fn dg(d: &DataSet, q: &Option<GraphName>) -> (bool, Option<Gv>) { (d.contains_graph(q), d.graph(q).map(gv)) }
pub fn ds_empty(q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let d = DataSet::default(); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_insert_1(n: Option<GraphName>, a: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_insert_2(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.insert(ng(m, b)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_insert_3(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, k: Option<GraphName>, c: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.insert(ng(m, b)); d.insert(ng(k, c)); let (x, g) = dg(&d, &q); (dv(&d), x, g) }
pub fn ds_extend_2(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.extend(vec![ng(n, a), ng(m, b)]); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_from_vec_2(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let d = DataSet::from(vec![ng(n, a), ng(m, b)]); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_from_graph(n: Option<GraphName>, a: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let d = DataSet::from(ng(n, a)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_remove(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, x: Option<GraphName>, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.insert(ng(m, b)); d.remove(&x); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_clear(n: Option<GraphName>, a: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.clear(); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_named(n: Option<GraphName>, a: Sp, q: GraphName) -> (bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); (d.has_graph_named(&q), d.graph_named(&q).map(gv)) }
pub fn ds_default(n: Option<GraphName>, a: Sp) -> (bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); (d.has_default_graph(), d.default_graph().map(gv)) }
pub fn ds_graphs_2(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp) -> Vec<Gv> { let mut d = DataSet::default(); d.insert(ng(n, a)); d.insert(ng(m, b)); d.graphs().map(gv).collect() }
pub fn ds_graphs_empty(u: bool, n: Option<GraphName>, m: Option<GraphName>, b: Sp) -> Vec<Gv> { let mut d = DataSet::default(); d.insert(ne(u, n)); d.insert(ng(m, b)); d.graphs().map(gv).collect() }
pub fn ds_graphs_removed(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, x: Option<GraphName>) -> Vec<Gv> { let mut d = DataSet::default(); d.insert(ng(n, a)); d.insert(ng(m, b)); d.remove(&x); d.graphs().map(gv).collect() }
pub fn ds_graphs_from(u: bool, n: Option<GraphName>, m: Option<GraphName>, b: Sp) -> Vec<Gv> { let d = DataSet::from(vec![ne(u, n), ng(m, b)]); d.graphs().map(gv).collect() }
pub fn ds_extend_on(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.extend(vec![ng(m, b)]); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_from_then_insert(n: Option<GraphName>, a: Sp, m: Option<GraphName>, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::from(ng(n, a)); d.insert(ng(m, b)); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_extend_0(n: Option<GraphName>, a: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.extend(vec![]); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_extend_empty(n: Option<GraphName>, a: Sp, u: bool, m: Option<GraphName>, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); d.extend(vec![ne(u, m)]); let (c, g) = dg(&d, &q); (dv(&d), c, g) }
pub fn ds_keeps_insert(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> Option<(Gv, IriPrefixMap, IriPrefixMap)> { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n.clone()); let mut d = DataSet::default(); d.insert(g); let g = d.graph_named(&n)?; Some((gv(g), m, g.prefix_mappings().clone())) }
pub fn ds_keeps_extend(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> Option<(Gv, IriPrefixMap, IriPrefixMap)> { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n.clone()); let mut d = DataSet::default(); d.extend(vec![g]); let g = d.graph_named(&n)?; Some((gv(g), m, g.prefix_mappings().clone())) }
pub fn ds_keeps_from(u: bool, n: GraphName, m: IriPrefixMap, a: Sp) -> Option<(Gv, IriPrefixMap, IriPrefixMap)> { let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n.clone()); let d = DataSet::from(g); let g = d.graph_named(&n)?; Some((gv(g), m, g.prefix_mappings().clone())) }
pub fn ds_keeps_replace(u: bool, n: GraphName, m: IriPrefixMap, a: Sp, k: IriPrefixMap, b: Sp) -> Option<(Gv, IriPrefixMap, IriPrefixMap)> { let mut h = gr!(u; b).with_mappings(k); h.set_name(n.clone()); let mut g = gr!(u; a).with_mappings(m.clone()); g.set_name(n.clone()); let mut d = DataSet::from(h); d.insert(g); let g = d.graph_named(&n)?; Some((gv(g), m, g.prefix_mappings().clone())) }
pub fn ds_keeps_default(u: bool, m: IriPrefixMap, a: Sp) -> Option<(Gv, IriPrefixMap, IriPrefixMap)> { let g = gr!(u; a).with_mappings(m.clone()); let mut d = DataSet::default(); d.insert(g); let g = d.default_graph()?; Some((gv(g), m, g.prefix_mappings().clone())) }
pub fn ds_graph_mut(n: Option<GraphName>, a: Sp, b: Sp, q: Option<GraphName>) -> (Dv, bool, Option<Gv>) { let mut d = DataSet::default(); d.insert(ng(n, a)); if let Some(g) = d.graph_mut(&q) { g.insert(st(b)); } let (c, g) = dg(&d, &q); (dv(&d), c, g) }

// ---- resources
fn rs(r: Resource) -> Vec<Sp> { let v: Vec<Statement> = r.into(); tris(&v) }
pub fn res_empty(s: SubjectNode) -> Vec<Sp> { rs(Resource::new(s)) }
pub fn res_individual(i: Iri, p: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::individual(i); r.literal(p, l); rs(r) }
pub fn res_blank(b: BlankNode, p: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::semi_anonymous(b); r.literal(p, l); rs(r) }
pub fn res_property(s: SubjectNode, p: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.property(p, l); rs(r) }
pub fn res_value_of(s: SubjectNode, p: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.value_of(p, l); rs(r) }
pub fn res_literal_2(s: SubjectNode, p: Iri, l: Literal, q: Iri, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.literal(p, l).literal(q, m); rs(r) }
pub fn res_literal_str(s: SubjectNode, p: Iri, l: &str) -> (Literal, Vec<Sp>) { let mut r = Resource::new(s); r.literal_str(p, l); (Literal::plain(l), rs(r)) }
pub fn res_literal_typed(s: SubjectNode, p: Iri, l: &str, d: DataType) -> (Literal, Vec<Sp>) { let mut r = Resource::new(s); r.literal_typed_str(p, l, d.clone()); (Literal::with_data_type(l, d), rs(r)) }
pub fn res_literal_lang(s: SubjectNode, p: Iri, l: &str, d: LanguageTag) -> (Literal, Vec<Sp>) { let mut r = Resource::new(s); r.literal_language_str(p, l, d.clone()); (Literal::with_language(l, d), rs(r)) }
pub fn res_named(s: SubjectNode, p: Iri, o: Iri) -> Vec<Sp> { let mut r = Resource::new(s); r.resource_named(p, o); rs(r) }
pub fn res_blank_named(s: SubjectNode, p: Iri, o: &BlankNode) -> Vec<Sp> { let mut r = Resource::new(s); r.resource_blank_named(p, o); rs(r) }
pub fn res_resource(s: SubjectNode, p: Iri, o: SubjectNode, q: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(o); x.literal(q, l); r.resource(p, x); rs(r) }
pub fn res_instance_of(s: SubjectNode, o: Iri) -> (Iri, Vec<Sp>) { let mut r = Resource::new(s); r.instance_of(o); (rdf::a_type().clone(), rs(r)) }
pub fn res_predicate(s: SubjectNode, p: Iri, l: Literal, o: Iri, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.property(l).resource_named(o).property(m); r.predicate(x); rs(r) }
pub fn res_bag(s: SubjectNode, p: Iri, a: Literal, b: Literal) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.property_bag(p, &[a, b]); (rdf::a_type().clone(), rdf::bag().clone(), rs(r)) }
pub fn res_alt(s: SubjectNode, p: Iri, a: Literal, b: Literal) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.property_alternatives(p, &[a, b]); (rdf::a_type().clone(), rdf::alt().clone(), rs(r)) }
pub fn res_seq(s: SubjectNode, p: Iri, a: Literal, b: Literal) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.property_sequence(p, &[a, b]); (rdf::a_type().clone(), rdf::seq().clone(), rs(r)) }
pub fn res_container(s: SubjectNode, p: Iri, a: Literal, b: Literal, k: Iri) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.property_container(p, &[a, b], k.clone()); (rdf::a_type().clone(), k, rs(r)) }
pub fn res_resource_bag(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.resource_bag(p, &[Resource::new(a), Resource::new(b)]); (rdf::a_type().clone(), rdf::bag().clone(), rs(r)) }
pub fn res_resource_alt(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.resource_alternatives(p, &[Resource::new(a), Resource::new(b)]); (rdf::a_type().clone(), rdf::alt().clone(), rs(r)) }
pub fn res_resource_seq(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.resource_sequence(p, &[Resource::new(a), Resource::new(b)]); (rdf::a_type().clone(), rdf::seq().clone(), rs(r)) }
pub fn res_pred_bag(s: SubjectNode, p: Iri, a: Literal, b: Literal) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.property_bag(&[a, b]); r.predicate(x); (rdf::a_type().clone(), rdf::bag().clone(), rs(r)) }
pub fn res_pred_resource_bag(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.resource_bag(&[Resource::new(a), Resource::new(b)]); r.predicate(x); (rdf::a_type().clone(), rdf::bag().clone(), rs(r)) }
pub fn res_pred_alt(s: SubjectNode, p: Iri, a: Literal, b: Literal) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.property_alternatives(&[a, b]); r.predicate(x); (rdf::a_type().clone(), rdf::alt().clone(), rs(r)) }
pub fn res_pred_resource_alt(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.resource_alternatives(&[Resource::new(a), Resource::new(b)]); r.predicate(x); (rdf::a_type().clone(), rdf::alt().clone(), rs(r)) }
pub fn res_pred_seq(s: SubjectNode, p: Iri, a: Literal, b: Literal) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.property_sequence(&[a, b]); r.predicate(x); (rdf::a_type().clone(), rdf::seq().clone(), rs(r)) }
pub fn res_pred_resource_seq(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.resource_sequence(&[Resource::new(a), Resource::new(b)]); r.predicate(x); (rdf::a_type().clone(), rdf::seq().clone(), rs(r)) }
pub fn res_pred_container(s: SubjectNode, p: Iri, a: Literal, b: Literal, k: Iri) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.property_container(&[a, b], k.clone()); r.predicate(x); (rdf::a_type().clone(), k, rs(r)) }
pub fn res_pred_resource_container(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode, k: Iri) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); let mut x = Predicate::new(p); x.resource_container(&[Resource::new(a), Resource::new(b)], k.clone()); r.predicate(x); (rdf::a_type().clone(), k, rs(r)) }
pub fn res_resource_container(s: SubjectNode, p: Iri, a: SubjectNode, b: SubjectNode, k: Iri) -> (Iri, Iri, Vec<Sp>) { let mut r = Resource::new(s); r.resource_container(p, &[Resource::new(a), Resource::new(b)], k.clone()); (rdf::a_type().clone(), k, rs(r)) }
pub fn res_bag_0(s: SubjectNode, p: Iri) -> Vec<Sp> { let mut r = Resource::new(s); r.property_bag(p, &[]); rs(r) }
pub fn res_seq_3(s: SubjectNode, p: Iri, a: Literal, b: Literal, d: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.property_sequence(p, &[a, b, d]); rs(r) }
pub fn res_deep_bag(s: SubjectNode, p: Iri, a: SubjectNode, q: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.literal(q, l); r.resource_bag(p, &[x]); rs(r) }
pub fn res_deep_resource(s: SubjectNode, p: Iri, a: SubjectNode, q: Iri, b: SubjectNode, t: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); let mut y = Resource::new(b); y.literal(t, l); x.resource(q, y); r.resource(p, x); rs(r) }
pub fn res_pred_resource(s: SubjectNode, p: Iri, o: SubjectNode, q: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(o); x.literal(q, l); let mut y = Predicate::new(p); y.resource(x); r.predicate(y); rs(r) }
pub fn res_pred_blank_named(s: SubjectNode, p: Iri, o: &BlankNode) -> Vec<Sp> { let mut r = Resource::new(s); let mut y = Predicate::new(p); y.resource_blank_named(o); r.predicate(y); rs(r) }
pub fn res_pred_after(s: SubjectNode, p: Iri, l: Literal, q: Iri, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.literal(p, l); let mut y = Predicate::new(q); y.property(m); r.predicate(y); rs(r) }
pub fn res_mixed(s: SubjectNode, p: Iri, l: Literal, q: Iri, o: Iri, k: Iri, b: BlankNode) -> Vec<Sp> { let mut r = Resource::new(s); r.literal(p, l).resource_named(q, o).resource_blank_named(k, &b); rs(r) }
pub fn res_anonymous(p: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::anonymous(); r.literal(p, l); rs(r) }
pub fn res_clone(s: SubjectNode, p: Iri, l: Literal, m: Literal) -> (Vec<Sp>, Vec<Sp>) { let mut r = Resource::new(s); r.literal(p.clone(), l); let q = r.clone(); r.literal(p, m); (rs(r), rs(q)) }
pub fn graph_mappings(m: IriPrefixMap, n: IriPrefixMap) -> (IriPrefixMap, IriPrefixMap, IriPrefixMap) { let mut g = Graph::default().with_mappings(m.clone()); let a = g.prefix_mappings().clone(); g.set_prefix_mappings(n); let b = g.prefix_mappings().clone(); let c = g.clone().prefix_mappings().clone(); (a, b, c) }
pub fn gname_generated() -> (Nv, bool) { let a = GraphName::blank(); let b = GraphName::blank(); (nv(&a), a == b) }
pub fn res_is_bare(s: SubjectNode) -> (bool, bool, Iri) { let r = Resource::new(s); (r.is_a_resource(), r.is_an_individual(), rdf::a_type().clone()) }
pub fn res_is_two(s: SubjectNode, p: Iri, l: Literal, q: Iri, m: Literal) -> (bool, bool, Iri) { let mut r = Resource::new(s); r.literal(p, l).literal(q, m); (r.is_a_resource(), r.is_an_individual(), rdf::a_type().clone()) }
pub fn res_is_typed(s: SubjectNode, p: Iri, l: Literal, t: Iri) -> (bool, bool, Iri) { let mut r = Resource::new(s); r.literal(p, l).instance_of(t); (r.is_a_resource(), r.is_an_individual(), rdf::a_type().clone()) }
pub fn res_is(s: SubjectNode, p: Iri, l: Literal) -> (bool, bool, Iri) { let mut r = Resource::new(s); r.literal(p, l); (r.is_a_resource(), r.is_an_individual(), rdf::a_type().clone()) }

// ---- self tests
pub fn selftest_matches_1(a: Sp, s: Option<&SubjectNode>) -> Vec<Sp> {
    let v = vs!(a);
    v.iter().filter(|x| s.is_some() && x.subject() == s.unwrap()).map(tri).collect()
}

// ---- many members
fn wt(k: usize) -> Sp { (SubjectNode::from(rdf::member(k)), rdf::member(k + 400), ObjectNode::from(rdf::member(k + 200))) }
fn ws(v: &[usize]) -> Vec<Sp> { v.iter().map(|k| wt(*k)).collect() }
fn upto(n: usize, not: usize) -> Vec<usize> { let mut v = Vec::new(); let mut k = 1; while k <= n { if k != not { v.push(k); } k += 1; } v }
const W: [usize; 130] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130];
fn wg(u: bool, v: &[usize]) -> Graph { let mut g = gr!(u;); for k in v.iter() { g.insert(st(wt(*k))); } g }
pub fn wide_insert(u: bool) -> (Gv, Vec<Sp>) { (gv(&wg(u, &W)), ws(&W)) }
pub fn wide_extend(u: bool) -> (Gv, Vec<Sp>) { let mut g = wg(u, &W[..2]); g.extend(W[2..].iter().map(|k| st(wt(*k))).collect::<Vec<_>>()); (gv(&g), ws(&W)) }
pub fn wide_from_vec() -> (Gv, Vec<Sp>) { (gv(&Graph::from(W.iter().map(|k| st(wt(*k))).collect::<Vec<_>>())), ws(&W)) }
pub fn wide_with(u: bool) -> (Gv, Vec<Sp>) { (gv(&gr!(u;).with_statements(W.iter().map(|k| st(wt(*k))).collect())), ws(&W)) }
pub fn wide_merge(u: bool) -> (Gv, Vec<Sp>) { let mut g = wg(u, &W[..3]); g.merge(&wg(u, &W[3..])); (gv(&g), ws(&W)) }
pub fn wide_clone(u: bool) -> (Gv, Vec<Sp>) { (gv(&wg(u, &W).clone()), ws(&W)) }
pub fn wide_again(u: bool) -> (Gv, Vec<Sp>, Vec<Sp>) { let mut g = wg(u, &W); for k in W.iter() { g.insert(st(wt(*k))); } (gv(&g), ws(&W), ws(&W)) }
pub fn wide_dedup() -> (Vec<Sp>, Gv, Vec<Sp>) { let mut g = wg(false, &W); for k in W.iter() { g.insert(st(wt(*k))); } let d = g.dedup(); (tris(&d), gv(&g), ws(&W)) }
pub fn wide_remove(u: bool) -> (Gv, Vec<Sp>) { let mut g = wg(u, &W); g.remove(&st(wt(120))); (gv(&g), ws(&upto(130, 120))) }
pub fn wide_remove_all_for(u: bool) -> (Vec<Sp>, Vec<Sp>, Gv, Vec<Sp>) { let mut g = wg(u, &W); let d = g.remove_all_for(&wt(9).0); (tris(&d), ws(&[9]), gv(&g), ws(&upto(130, 9))) }
pub fn wide_clear(u: bool) -> (Gv, Vec<Sp>) { let mut g = wg(u, &W); g.clear(); (gv(&g), ws(&[])) }
pub fn wide_matches(u: bool) -> (Vec<Sp>, Vec<Sp>, Vec<Sp>, Vec<Sp>, Vec<Sp>, Vec<Sp>) { let g = wg(u, &W); let x = wt(9); (owns(g.matches(Some(&x.0), None, None)), ws(&[9]), owns(g.matches(None, None, Some(&x.2))), ws(&[9]), owns(g.matches(None, None, None)), ws(&W)) }
pub fn wide_contains(u: bool) -> (bool, bool, bool, bool) { let g = wg(u, &W); (g.contains(&st(wt(130))), g.contains(&st(wt(131))), g.contains_subject(&wt(130).0), g.contains_subject(&wt(131).0)) }
pub fn wide_parts(u: bool) -> (Vec<SubjectNode>, Vec<SubjectNode>, Vec<Iri>, Vec<Iri>, Vec<ObjectNode>, Vec<ObjectNode>) { let g = wg(u, &W); let w = ws(&W); (own(g.subjects()), w.iter().map(|x| x.0.clone()).collect(), own(g.predicates()), w.iter().map(|x| x.1.clone()).collect(), own(g.objects()), w.iter().map(|x| x.2.clone()).collect()) }
pub fn wide_star(u: bool) -> (Vec<Iri>, Vec<Iri>, Vec<ObjectNode>, Vec<ObjectNode>) { let s = wt(1).0; let (mut g, mut h) = (gr!(u;), gr!(u;)); for k in W.iter() { let t = wt(*k); g.insert(st((s.clone(), t.1.clone(), t.2.clone()))); h.insert(st((s.clone(), wt(1).1, t.2))); } let w = ws(&W); (own(g.predicates_for(&s)), w.iter().map(|x| x.1.clone()).collect(), own(h.objects_for(&s, &wt(1).1)), w.iter().map(|x| x.2.clone()).collect()) }
pub fn wide_history(u: bool) -> (Gv, Vec<Sp>, Vec<Sp>) { let mut g = wg(u, &W); g.remove(&st(wt(5))); g.insert(st(wt(5))); g.remove_all_for(&wt(7).0); g.insert(st(wt(131))); g.merge(&wg(u, &[1, 2, 131, 132])); let mut w = ws(&upto(132, 7)); w.truncate(131); (gv(&g), w, ws(&[1, 2, 131])) }
pub fn wide_refill(u: bool) -> (Gv, Vec<Sp>) { let mut g = wg(u, &W); g.clear(); for k in W.iter() { g.insert(st(wt(k + 1))); } (gv(&g), ws(&upto(131, 1))) }
pub fn wide_drain(u: bool) -> (Gv, Vec<Sp>) { let mut g = wg(u, &W[..40]); for k in W[..40].iter() { if *k != 27 { g.remove(&st(wt(*k))); } } (gv(&g), ws(&[27])) }
pub fn wide_ds_history() -> (Dv, Vec<(bool, Sp, Vec<Sp>)>, bool, bool) { let mut d = DataSet::default(); for k in W.iter() { d.insert(ng(wn(*k), wt(*k))); } d.remove(&wn(60)); d.remove(&wn(3)); d.insert(ng(wn(60), wt(1))); d.insert(ng(wn(9), wt(2))); d.insert(ng(None, wt(3))); (dv(&d), W.iter().filter(|k| **k != 3).map(|k| (d.contains_graph(&wn(*k)), wt(match *k { 60 => 1, 9 => 2, k => k }), d.graph(&wn(*k)).map(all).unwrap_or_default())).collect(), d.contains_graph(&wn(3)), d.contains_graph(&None)) }
pub fn wide_coll() -> ((usize, bool, Vec<ObjectNode>), Vec<ObjectNode>) { let v: Vec<ObjectNode> = W.iter().map(|k| wt(*k).2).collect(); (cv(&Collection::from(v.clone())), v) }
pub fn wide_coll_show() -> (String, Vec<String>) { let v: Vec<ObjectNode> = W.iter().map(|k| wt(*k).2).collect(); (Collection::from(v.clone()).to_string(), v.iter().map(|o| o.to_string()).collect()) }
pub fn wide_coll_reify() -> (Vec<ObjectNode>, Option<(SubjectNode, Vec<Sp>)>) { let v: Vec<ObjectNode> = W.iter().map(|k| wt(*k).2).collect(); let r = Collection::from(v.clone()).reify().ok(); (v, r.map(|(s, x)| (s, tris(&x)))) }
pub fn wide_simplify(u: bool) -> (Option<Gv>, Vec<Sp>) { (wg(u, &W).simplify().ok().map(|g| gv(&g)), ws(&W)) }
pub fn wide_skolemize(u: bool, base: Iri) -> (Option<Gv>, Vec<Sp>) { (wg(u, &W).skolemize(&base).ok().map(|g| gv(&g)), ws(&W)) }
fn wn(k: usize) -> Option<GraphName> { Some(GraphName::named(rdf::member(k))) }
pub fn wide_ds() -> (Dv, Vec<(bool, Sp, Vec<Sp>)>) { let mut d = DataSet::default(); for k in W.iter() { d.insert(ng(wn(*k), wt(*k))); } (dv(&d), W.iter().map(|k| (d.contains_graph(&wn(*k)), wt(*k), d.graph(&wn(*k)).map(all).unwrap_or_default())).collect()) }
pub fn wide_ds_extend() -> (Dv, Vec<(bool, Sp, Vec<Sp>)>) { let mut d = DataSet::default(); d.extend(W.iter().map(|k| ng(wn(*k), wt(*k))).collect()); (dv(&d), W.iter().map(|k| (d.contains_graph(&wn(*k)), wt(*k), d.graph(&wn(*k)).map(all).unwrap_or_default())).collect()) }
pub fn wide_ds_from() -> (Dv, Vec<(bool, Sp, Vec<Sp>)>) { let d = DataSet::from(W.iter().map(|k| ng(wn(*k), wt(*k))).collect::<Vec<_>>()); (dv(&d), W.iter().map(|k| (d.contains_graph(&wn(*k)), wt(*k), d.graph(&wn(*k)).map(all).unwrap_or_default())).collect()) }
fn wl() -> Vec<Literal> { W.iter().map(|k| Literal::plain(rdf::member(*k).to_string())).collect() }
pub fn wide_seq(s: SubjectNode, p: Iri) -> (Vec<ObjectNode>, Vec<Sp>) { let v = wl(); let o = v.iter().map(|l| ObjectNode::from(l.clone())).collect(); let mut r = Resource::new(s); r.property_sequence(p, &v); (o, rs(r)) }
pub fn wide_values(s: SubjectNode, p: Iri) -> (Vec<ObjectNode>, Vec<Sp>) { let v = wl(); let o = v.iter().map(|l| ObjectNode::from(l.clone())).collect(); let mut r = Resource::new(s); for x in v { r.property(p.clone(), x); } (o, rs(r)) }
pub fn wide_predicates(s: SubjectNode, l: Literal) -> (Vec<Sp>, Vec<Sp>) { let mut r = Resource::new(s.clone()); for k in W.iter() { r.property(rdf::member(*k), l.clone()); } (rs(r), W.iter().map(|k| (s.clone(), rdf::member(*k), ObjectNode::from(l.clone()))).collect()) }
pub fn wide_hex_back(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8) -> Option<Vec<u8>> { let mut v = Vec::new(); for _ in 0..12 { v.extend([a, b, c, d, e, f, g, h, i, j, k]); } Vec::<u8>::try_from(Literal::hex_encoded(&v)).ok() }
pub fn wide_base64_back(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8) -> Option<Vec<u8>> { let mut v = Vec::new(); for _ in 0..12 { v.extend([a, b, c, d, e, f, g, h, i, j, k]); } Vec::<u8>::try_from(Literal::base64_encoded(&v)).ok() }

// ---- features
pub fn feat_combined_default() -> Iri { (*FEATURE_COMBINED_DEFAULT).clone() }
pub fn feat_stmt_subject_collections() -> Iri { (*FEATURE_STMT_SUBJECT_COLLECTIONS).clone() }
pub fn feat_stmt_object_collections() -> Iri { (*FEATURE_STMT_OBJECT_COLLECTIONS).clone() }
pub fn feat_graph_allows_named() -> Iri { (*FEATURE_GRAPH_ALLOWS_NAMED).clone() }
pub fn feat_graph_duplicates() -> Iri { (*FEATURE_GRAPH_DUPLICATES).clone() }
pub fn feat_rdf_star() -> Iri { (*FEATURE_RDF_STAR).clone() }
pub fn feat_n3_formulae() -> Iri { (*FEATURE_N3_FORMULAE).clone() }
pub fn feat_idx_subject() -> Iri { (*FEATURE_IDX_SUBJECT).clone() }
pub fn feat_idx_predicate() -> Iri { (*FEATURE_IDX_PREDICATE).clone() }
pub fn feat_idx_object() -> Iri { (*FEATURE_IDX_OBJECT).clone() }
pub fn feat_idx_subject_predicate() -> Iri { (*FEATURE_IDX_SUBJECT_PREDICATE).clone() }
pub fn feat_idx_subject_predicate_object() -> Iri { (*FEATURE_IDX_SUBJECT_PREDICATE_OBJECT).clone() }
pub fn feat_idx_subject_object() -> Iri { (*FEATURE_IDX_SUBJECT_OBJECT).clone() }
pub fn feat_idx_predicate_object() -> Iri { (*FEATURE_IDX_PREDICATE_OBJECT).clone() }
pub fn feat_idx_graph() -> Iri { (*FEATURE_IDX_GRAPH).clone() }
pub fn feat_idx_subject_graph() -> Iri { (*FEATURE_IDX_SUBJECT_GRAPH).clone() }
pub fn feat_idx_predicate_graph() -> Iri { (*FEATURE_IDX_PREDICATE_GRAPH).clone() }
pub fn feat_idx_object_graph() -> Iri { (*FEATURE_IDX_OBJECT_GRAPH).clone() }
pub fn feat_idx_subject_predicate_graph() -> Iri { (*FEATURE_IDX_SUBJECT_PREDICATE_GRAPH).clone() }
pub fn feat_idx_subject_predicate_object_graph() -> Iri { (*FEATURE_IDX_SUBJECT_PREDICATE_OBJECT_GRAPH).clone() }
pub fn feat_idx_subject_object_graph() -> Iri { (*FEATURE_IDX_SUBJECT_OBJECT_GRAPH).clone() }
pub fn feat_idx_predicate_object_graph() -> Iri { (*FEATURE_IDX_PREDICATE_OBJECT_GRAPH).clone() }
type Fv = (bool, Vec<bool>);
fn fv(b: bool, f: &Iri) -> Fv { (b, vec![*f == *FEATURE_RDF_STAR, *f == *FEATURE_STMT_OBJECT_COLLECTIONS]) }
pub fn feats_stmt(t: Sp, f: Iri) -> Fv { fv(st(t).supports_feature(&f), &f) }
pub fn feats_subj(n: SubjectNode, f: Iri) -> Fv { fv(n.supports_feature(&f), &f) }
pub fn feats_obj(n: ObjectNode, f: Iri) -> Fv { fv(n.supports_feature(&f), &f) }
pub fn feats_ds(f: Iri) -> Fv { fv(DataSet::default().supports_feature(&f), &f) }

// ---- errors
use rdftk_core::error::*;
use rdftk_iri::error::NameParseError;
use std::error::Error as StdError;
pub fn cerr_display(e: &Error, f: &mut Formatter<'_>) -> core::fmt::Result { Display::fmt(e, f) }
pub fn cerr_source(e: &Error) -> Option<&(dyn StdError + 'static)> { StdError::source(e) }
pub fn cerr_name_source(e: &NameParseError) -> Option<&(dyn StdError + 'static)> { StdError::source(e) }
pub fn cerr_iri_source(e: &rdftk_iri::Error) -> Option<&(dyn StdError + 'static)> { StdError::source(e) }
pub fn cerr_from_borrow(e: core::cell::BorrowError) -> Error { e.into() }
pub fn cerr_from_io(e: std::io::Error) -> Error { e.into() }
pub fn cerr_from_iri(e: rdftk_iri::Error) -> Error { e.into() }
pub fn cerr_from_lang(e: language_tags::ParseError) -> Error { e.into() }
pub fn cerr_from_name(e: NameParseError) -> Error { e.into() }
pub fn cerr_from_utf8(e: std::string::FromUtf8Error) -> Error { e.into() }
pub fn cerr_from_base64(e: base64::DecodeError) -> Error { e.into() }
pub fn cerr_from_string(e: String) -> Error { e.into() }
pub fn cerr_into_result(e: Error) -> rdftk_core::error::Result<u8> { e.into() }
pub fn cerr_invalid_from_str(a: &str, b: &str) -> Error { invalid_from_str_error(a, b) }
pub fn cerr_invalid_blank(a: &str) -> Error { invalid_blank_node_name_error(a) }
pub fn cerr_empty_qname() -> Error { empty_qname_error() }
pub fn cerr_invalid_qname(a: &str) -> Error { invalid_qname_error(a) }
pub fn cerr_mismatch(a: &str, b: &str) -> Error { provider_mismatch_error(a, b) }
pub fn cerr_invalid_match() -> Error { invalid_match_error() }
pub fn cerr_absolute(a: &str) -> Error { absolute_iri_expected_error(a) }
pub fn cerr_invalid_state() -> Error { invalid_state_error() }
pub fn cerr_star(a: &str) -> Error { rdf_star_not_supported_error(a) }
pub fn cerr_formulae(a: &str) -> Error { formulae_not_supported_error(a) }
pub fn cerr_results(a: &str) -> Error { query_results_format_error(a) }
pub fn cerr_unknown(e: NameParseError) -> (Error, String) { let t = e.to_string(); (unknown_error(e), t) }
pub fn cerr_unknown_text(a: &str) -> Error { unknown_error_from(a) }
pub fn cerr_trace_1(a: String) -> (String, String) { let e = invalid_qname_error(a); (error_trace(&e), e.to_string()) }
pub fn cerr_trace_2(n: NameParseError) -> (String, String, String) { let t = n.to_string(); let e = Error::from(n); (error_trace(&e), e.to_string(), t) }
pub fn cerr_trace_3(n: NameParseError) -> (String, String, String, String) { let t = n.to_string(); let i = rdftk_iri::Error::from(n); let u = i.to_string(); let e = Error::from(i); (error_trace(&e), e.to_string(), u, t) }
pub fn cerr_bnode(s: &str) -> Option<Error> { BlankNode::from_str(s).err() }
fn ce(e: Error) -> Option<(String, String)> { match e { Error::InvalidLiteralTypeCooercion { from_type, to_type } => Some((from_type, to_type)), _ => None } }
type Ce = (Option<DataType>, Option<String>, String, bool, Option<(String, String)>);
pub fn cerr_lit_iri(l: Literal) -> Ce { let d = l.data_type().cloned(); let e = Iri::try_from(l).err(); (d.clone(), d.map(|d| d.to_string()), DataType::Iri.to_string(), e.is_some(), e.and_then(ce)) }
pub fn cerr_lit_bytes(l: Literal) -> Ce { let d = l.data_type().cloned(); let e = Vec::<u8>::try_from(l).err(); (d.clone(), d.map(|d| d.to_string()), "binary".to_string(), e.is_some(), e.and_then(ce)) }
fn he(t: String) -> Option<Error> { Vec::<u8>::try_from(Literal::with_data_type(t, DataType::HexBinary)).err() }
pub fn cerr_hex(a: char, b: char) -> Option<Error> { let mut t = String::new(); t.push(a); t.push(b); he(t) }
pub fn cerr_hex_3(a: char, b: char, c: char) -> Option<Error> { let mut t = String::new(); t.push(a); t.push(b); t.push(c); he(t) }

// ---- more of the graph nodes
pub fn bnode_eq(a: BlankNode, b: BlankNode) -> (bool, bool) { (a == b, a != b) }
pub fn bnode_cmp(a: BlankNode, b: BlankNode) -> (Ordering, Ordering, Option<Ordering>, bool) { (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn bnode_cmp3(a: BlankNode, b: BlankNode, c: BlankNode) -> (Ordering, Ordering, Ordering) { (a.cmp(&b), b.cmp(&c), a.cmp(&c)) }
pub fn coll_eq_22(a: ObjectNode, b: ObjectNode, c: ObjectNode, d: ObjectNode) -> (bool, bool) { let (x, y) = (Collection::from(vec![a, b]), Collection::from(vec![c, d])); (x == y, x != y) }
pub fn coll_eq_12(a: ObjectNode, b: ObjectNode, c: ObjectNode) -> (bool, bool) { let (x, y) = (Collection::from(vec![a]), Collection::from(vec![b, c])); (x == y, x != y) }
pub fn coll_cmp_11(a: ObjectNode, b: ObjectNode) -> (Ordering, Ordering, Option<Ordering>, bool) { let (a, b) = (Collection::from(vec![a]), Collection::from(vec![b])); (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn coll_cmp_01(a: ObjectNode) -> (Ordering, Ordering, Option<Ordering>, bool) { let (a, b) = (Collection::nil(), Collection::from(vec![a])); (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn coll_cmp_12(a: ObjectNode, b: ObjectNode, c: ObjectNode) -> (Ordering, Ordering, Option<Ordering>, bool) { let (a, b) = (Collection::from(vec![a]), Collection::from(vec![b, c])); (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a == b) }
pub fn coll_arc(t: Sp) -> (usize, bool, Vec<Ov>) { let c = Collection::from(Arc::new(st(t))); (c.len(), c.is_empty(), c.iter().map(ov).collect()) }
pub fn coll_arc_ref(t: Sp) -> (usize, bool, Vec<Ov>) { let c = Collection::from(&Arc::new(st(t))); (c.len(), c.is_empty(), c.iter().map(ov).collect()) }
pub fn coll_default() -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::default()) }
pub fn coll_clone_2(a: ObjectNode, b: ObjectNode) -> (usize, bool, Vec<ObjectNode>) { cv(&Collection::from(vec![a, b]).clone()) }
pub fn gname_clone(n: GraphName) -> Nv { nv(&n.clone()) }
pub fn bnode_clone(b: BlankNode) -> BlankNode { b.clone() }
pub fn subj_clone(n: SubjectNode) -> Sv { sv(&n.clone()) }
pub fn obj_clone(n: ObjectNode) -> Ov { ov(&n.clone()) }
pub fn lit_clone(l: Literal) -> (Lv, Lv) { (lv(&l), lv(&l.clone())) }

// ---- equal values have equal hashes
pub fn bnode_hash2(a: BlankNode, b: BlankNode, h: &mut Probe, k: &mut Probe) -> bool { a.hash(h); b.hash(k); a == b }
pub fn gname_hash2(a: GraphName, b: GraphName, h: &mut Probe, k: &mut Probe) -> bool { a.hash(h); b.hash(k); a == b }
pub fn subj_hash2(a: SubjectNode, b: SubjectNode, h: &mut Probe, k: &mut Probe) -> bool { a.hash(h); b.hash(k); a == b }
pub fn obj_hash2(a: ObjectNode, b: ObjectNode, h: &mut Probe, k: &mut Probe) -> bool { a.hash(h); b.hash(k); a == b }
pub fn stmt_hash2(a: Sp, b: Sp, h: &mut Probe, k: &mut Probe) -> bool { let (a, b) = (st(a), st(b)); a.hash(h); b.hash(k); a == b }
pub fn lit_hash2(a: Literal, b: Literal, h: &mut Probe, k: &mut Probe) -> bool { a.hash(h); b.hash(k); a == b }
pub fn dt_hash2(a: DataType, b: DataType, h: &mut Probe, k: &mut Probe) -> bool { a.hash(h); b.hash(k); a == b }
pub fn coll_hash2(a: ObjectNode, b: ObjectNode, h: &mut Probe, k: &mut Probe) -> bool { let (a, b) = (Collection::from(vec![a]), Collection::from(vec![b])); a.hash(h); b.hash(k); a == b }

// ---- literals of borrowed values
pub fn lit_decimal_ref(v: &rust_decimal::Decimal) -> (Lv, Lv) { (lv(&Literal::from(v)), lv(&Literal::from(*v))) }
pub fn lit_cduration_ref(v: &chrono::Duration) -> (Lv, Lv) { (lv(&Literal::from(v)), lv(&Literal::from(*v))) }
pub fn lit_duration_ref(s: u64, n: u32) -> (Lv, Lv) { let v = Duration::new(s, n % 1_000_000_000); (lv(&Literal::from(&v)), lv(&Literal::from(v))) }
pub fn lit_iri_val(v: Iri) -> (Lv, Lv) { (lv(&Literal::from(v.clone())), lv(&Literal::from(&v))) }
pub fn lit_name_val(s: &str) -> Option<(Lv, Lv)> { let n = nm(s)?; Some((lv(&Literal::from(n.clone())), lv(&Literal::from(&n)))) }
pub fn lit_lname_val(n: &str, s: &str) -> Option<(Lv, Lv)> { let q = LocalName::new(Namespace::from_str(n).ok()?, nm(s)?); Some((lv(&Literal::from(q.clone())), lv(&Literal::from(&q)))) }

// ---- features of graphs and data sets with contents
pub fn graph_features_2(u: bool, a: Sp, b: Sp, f: Iri) -> (bool, Vec<bool>) { let g = gr!(u; a, b); (g.supports_feature(&f), vec![f == *FEATURE_GRAPH_DUPLICATES, f == *FEATURE_RDF_STAR]) }
pub fn graph_features_named(n: GraphName, u: bool, a: Sp, f: Iri) -> (bool, Vec<bool>) { let mut g = gr!(u; a); g.set_name(n); (g.supports_feature(&f), vec![f == *FEATURE_GRAPH_DUPLICATES, f == *FEATURE_RDF_STAR]) }
pub fn feats_ds_1(n: Option<GraphName>, a: Sp, f: Iri) -> Fv { let mut d = DataSet::default(); d.insert(ng(n, a)); fv(d.supports_feature(&f), &f) }

// ---- trees of resources
pub fn res_tree_two(s: SubjectNode, p: Iri, a: SubjectNode, q: Iri, l: Literal, t: Iri, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.literal(q, l).literal(t, m); r.resource_bag(p, &[x]); rs(r) }
pub fn res_tree_pair(s: SubjectNode, p: Iri, a: SubjectNode, q: Iri, l: Literal, b: SubjectNode, t: Iri, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.literal(q, l); let mut y = Resource::new(b); y.literal(t, m); r.resource_sequence(p, &[x, y]); rs(r) }
pub fn res_tree_bag_below(s: SubjectNode, p: Iri, a: SubjectNode, q: Iri, l: Literal, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.property_bag(q, &[l, m]); r.resource(p, x); rs(r) }
pub fn res_tree_two_bags(s: SubjectNode, p: Iri, l: Literal, q: Iri, m: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.property_bag(p, &[l]).property_alternatives(q, &[m]); rs(r) }
pub fn res_tree_bag_in_bag(s: SubjectNode, p: Iri, a: SubjectNode, q: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.property_sequence(q, &[l]); r.resource_bag(p, &[x]); rs(r) }
pub fn res_tree_mixed(s: SubjectNode, p: Iri, l: Literal, a: SubjectNode, q: Iri, m: Literal, k: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.literal(q, m); r.literal(p.clone(), l).resource(p.clone(), x).property_bag(p, &[k]); rs(r) }
pub fn res_tree_classes(s: SubjectNode, a: Iri, b: Iri, p: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); r.instance_of(a).literal(p, l).instance_of(b); rs(r) }
pub fn res_tree_deep(s: SubjectNode, p: Iri, a: BlankNode, b: BlankNode, d: BlankNode, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::semi_anonymous(a); let mut y = Resource::semi_anonymous(b); let mut z = Resource::semi_anonymous(d); z.literal(p.clone(), l); y.resource(p.clone(), z); x.resource(p.clone(), y); r.resource(p, x); rs(r) }
pub fn res_tree_anonymous(s: SubjectNode, p: Iri, q: Iri, l: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::anonymous(); x.literal(q, l); r.resource(p, x); rs(r) }
pub fn res_tree_pred(s: SubjectNode, p: Iri, l: Literal, a: SubjectNode, q: Iri, m: Literal, k: Literal) -> Vec<Sp> { let mut r = Resource::new(s); let mut x = Resource::new(a); x.literal(q, m); let mut y = Predicate::new(p); y.property(l).resource(x).property_bag(&[k]); r.predicate(y); rs(r) }
