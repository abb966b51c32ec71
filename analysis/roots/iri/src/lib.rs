//! Entry points of the analysis of `rdftk_iri`.  Each function builds its operands through the
//! public interface, applies one operation and observes the result through the public interface,
//! so that nothing here depends on how the crate represents its values.  Being non-generic, they
//! make the compiler monomorphise and resolve the whole call graph below each of them.
//! Nothing here is ever executed.
#![allow(clippy::all, unused)]
use core::cmp::Ordering;
use core::fmt::{Debug, Display, Formatter};
use core::hash::{Hash, Hasher};
use core::str::FromStr;
use rdftk_iri::error::{Error, NameParseError};
use rdftk_iri::vocab::*;
use rdftk_iri::*;
use url::Url;

/// A hasher that only the analyser knows the meaning of.
pub struct Probe(u64);
impl Hasher for Probe {
    #[inline(never)]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline(never)]
    fn write(&mut self, bytes: &[u8]) {
        self.0 ^= bytes.len() as u64;
    }
}

// ---- building blocks (inlined by the analysis)
fn ns(s: &str) -> Option<Namespace> { Namespace::from_str(s).ok() }
fn nm(s: &str) -> Option<Name> { Name::from_str(s).ok() }
fn ln(n: &str, m: &str) -> Option<LocalName> { Some(LocalName::new(ns(n)?, nm(m)?)) }
fn txt<T: AsRef<str>>(t: &T) -> String { t.as_ref().to_string() }
fn lnt(l: &LocalName) -> (String, String) { (txt(l.namespace()), txt(l.name())) }
fn iri(u: &Url) -> Iri { Iri::from(u.clone()) }
fn url(i: &Iri) -> Url { let u: &Url = i.as_ref(); u.clone() }
fn pn_ns(s: &str) -> Option<PrefixedName> { Some(PrefixedName::from(ns(s)?)) }
fn pn_ln(n: &str, m: &str) -> Option<PrefixedName> { Some(PrefixedName::from(ln(n, m)?)) }
type PnView = (bool, bool, Option<String>, Option<(String, String)>);
fn pnv(p: &PrefixedName) -> PnView {
    (p.is_namespace(), p.is_local(), p.try_as_namespace_ref().map(txt), p.try_as_local_ref().map(lnt))
}
type IrView = (bool, bool, Option<Url>, Option<PnView>);
fn irv(i: &IriRef) -> IrView {
    (i.is_iri(), i.is_prefixed_name(), i.try_as_iri_ref().map(url), i.try_as_prefixed_name_ref().map(pnv))
}

// ---- Namespace
pub fn ns_parse(s: &str) -> Result<String, NameParseError> { Namespace::from_str(s).map(|n| txt(&n)) }
pub fn ns_parse_method(s: &str) -> Result<String, NameParseError> { s.parse::<Namespace>().map(|n| txt(&n)) }
pub fn ns_new_named_str(s: &'static str) -> Result<String, NameParseError> { Namespace::new_named(s).map(|n| txt(&n)) }
pub fn ns_new_named_string(s: String) -> Result<String, NameParseError> { Namespace::new_named(s).map(|n| txt(&n)) }
pub fn ns_new_default() -> String { txt(&Namespace::new_default()) }
pub fn ns_unchecked_str(s: &'static str) -> String { txt(&Namespace::new_unchecked(s)) }
pub fn ns_unchecked_string(s: String) -> String { txt(&Namespace::new_unchecked(s)) }
pub fn ns_is_default(s: &str) -> Option<bool> { Some(ns(s)?.is_default()) }
pub fn ns_name_string(s: &str) -> Option<Option<String>> { let n = ns(s)?; Some(n.name_string().map(|s| s.to_string())) }
pub fn ns_qualify(s: &str, m: &str) -> Option<(String, String)> { let (n, m) = (ns(s)?, nm(m)?); Some(lnt(&n.qualify(&m))) }
pub fn ns_is_valid_str(s: &'static str) -> bool { Namespace::is_valid_str(s) }
pub fn ns_is_valid_string(s: String) -> bool { Namespace::is_valid_str(s) }
pub fn ns_display(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let n = ns(s)?; Some(Display::fmt(&n, f)) }
pub fn ns_to_string(s: &str) -> Option<String> { Some(ns(s)?.to_string()) }
pub fn ns_as_ref(s: &str) -> Option<String> { Some(txt(&ns(s)?)) }
pub fn ns_into_string(s: &str) -> Option<String> { Some(String::from(ns(s)?)) }
pub fn ns_ref_into_string(s: &str) -> Option<String> { let n = ns(s)?; Some(String::from(&n)) }
pub fn ns_clone(s: &str) -> Option<String> { let n = ns(s)?; Some(txt(&n.clone())) }
pub fn ns_eq(a: &str, b: &str) -> Option<bool> { Some(ns(a)? == ns(b)?) }
pub fn ns_cmp(a: &str, b: &str) -> Option<Ordering> { Some(ns(a)?.cmp(&ns(b)?)) }
pub fn ns_partial_cmp(a: &str, b: &str) -> Option<Option<Ordering>> { Some(ns(a)?.partial_cmp(&ns(b)?)) }
pub fn ns_hash(a: &str, h: &mut Probe) -> Option<()> { ns(a)?.hash(h); Some(()) }
pub fn ns_reparse(s: &str) -> Option<Option<bool>> { let n = ns(s)?; let t = n.to_string(); Some(Namespace::from_str(&t).ok().map(|m| m == n)) }

// ---- Name
pub fn name_parse(s: &str) -> Result<String, NameParseError> { Name::from_str(s).map(|n| txt(&n)) }
pub fn name_parse_method(s: &str) -> Result<String, NameParseError> { s.parse::<Name>().map(|n| txt(&n)) }
pub fn name_unchecked_str(s: &'static str) -> String { txt(&Name::new_unchecked(s)) }
pub fn name_unchecked_string(s: String) -> String { txt(&Name::new_unchecked(s)) }
pub fn name_is_valid_str(s: &'static str) -> bool { Name::is_valid_str(s) }
pub fn name_is_valid_string(s: String) -> bool { Name::is_valid_str(s) }
pub fn name_qualify(s: &str, m: &str) -> Option<(String, String)> { let (n, m) = (ns(s)?, nm(m)?); Some(lnt(&m.qualify(&n))) }
pub fn name_display(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let n = nm(s)?; Some(Display::fmt(&n, f)) }
pub fn name_to_string(s: &str) -> Option<String> { Some(nm(s)?.to_string()) }
pub fn name_as_ref(s: &str) -> Option<String> { Some(txt(&nm(s)?)) }
pub fn name_into_string(s: &str) -> Option<String> { Some(String::from(nm(s)?)) }
pub fn name_ref_into_string(s: &str) -> Option<String> { let n = nm(s)?; Some(String::from(&n)) }
pub fn name_clone(s: &str) -> Option<String> { let n = nm(s)?; Some(txt(&n.clone())) }
pub fn name_eq(a: &str, b: &str) -> Option<bool> { Some(nm(a)? == nm(b)?) }
pub fn name_cmp(a: &str, b: &str) -> Option<Ordering> { Some(nm(a)?.cmp(&nm(b)?)) }
pub fn name_partial_cmp(a: &str, b: &str) -> Option<Option<Ordering>> { Some(nm(a)?.partial_cmp(&nm(b)?)) }
pub fn name_hash(a: &str, h: &mut Probe) -> Option<()> { nm(a)?.hash(h); Some(()) }
pub fn name_reparse(s: &str) -> Option<Option<bool>> { let n = nm(s)?; let t = n.to_string(); Some(Name::from_str(&t).ok().map(|m| m == n)) }

// ---- LocalName
pub fn ln_parse(s: &str) -> Result<(String, String), NameParseError> { LocalName::from_str(s).map(|n| lnt(&n)) }
pub fn ln_parse_method(s: &str) -> Result<(String, String), NameParseError> { s.parse::<LocalName>().map(|n| lnt(&n)) }
pub fn ln_new(n: &str, m: &str) -> Option<(String, String)> { Some(lnt(&ln(n, m)?)) }
pub fn ln_new_in_default(m: &str) -> Option<(String, String)> { Some(lnt(&LocalName::new_in_default(nm(m)?))) }
pub fn ln_unchecked_string(n: String, m: String) -> (String, String) { lnt(&LocalName::new_unchecked(n, m)) }
pub fn ln_unchecked_str(n: &'static str, m: &'static str) -> (String, String) { lnt(&LocalName::new_unchecked(n, m)) }
pub fn ln_is_namespace_default(n: &str, m: &str) -> Option<bool> { Some(ln(n, m)?.is_namespace_default()) }
pub fn ln_as_curie(n: &str, m: &str) -> Option<String> { Some(ln(n, m)?.as_curie()) }
pub fn ln_display(n: &str, m: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let l = ln(n, m)?; Some(Display::fmt(&l, f)) }
pub fn ln_to_string(n: &str, m: &str) -> Option<String> { Some(ln(n, m)?.to_string()) }
pub fn ln_into_string(n: &str, m: &str) -> Option<String> { Some(String::from(ln(n, m)?)) }
pub fn ln_ref_into_string(n: &str, m: &str) -> Option<String> { let l = ln(n, m)?; Some(String::from(&l)) }
pub fn ln_clone(n: &str, m: &str) -> Option<(String, String)> { let l = ln(n, m)?; Some(lnt(&l.clone())) }
pub fn ln_eq(n: &str, m: &str, o: &str, p: &str) -> Option<bool> { Some(ln(n, m)? == ln(o, p)?) }
pub fn ln_cmp(n: &str, m: &str, o: &str, p: &str) -> Option<Ordering> { Some(ln(n, m)?.cmp(&ln(o, p)?)) }
pub fn ln_partial_cmp(n: &str, m: &str, o: &str, p: &str) -> Option<Option<Ordering>> { Some(ln(n, m)?.partial_cmp(&ln(o, p)?)) }
pub fn ln_hash(n: &str, m: &str, h: &mut Probe) -> Option<()> { ln(n, m)?.hash(h); Some(()) }
pub fn ln_reparse(n: &str, m: &str) -> Option<Option<bool>> { let n = ln(n, m)?; let t = n.to_string(); Some(LocalName::from_str(&t).ok().map(|m| m == n)) }

// ---- PrefixedName
pub fn pn_from_ns(s: &str) -> Option<PnView> { Some(pnv(&PrefixedName::from(ns(s)?))) }
pub fn pn_from_ns_ref(s: &str) -> Option<PnView> { let n = ns(s)?; Some(pnv(&PrefixedName::from(&n))) }
pub fn pn_from_ln(n: &str, m: &str) -> Option<PnView> { Some(pnv(&PrefixedName::from(ln(n, m)?))) }
pub fn pn_from_ln_ref(n: &str, m: &str) -> Option<PnView> { let l = ln(n, m)?; Some(pnv(&PrefixedName::from(&l))) }
pub fn pn_display_ns(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = pn_ns(s)?; Some(Display::fmt(&p, f)) }
pub fn pn_display_ln(n: &str, m: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = pn_ln(n, m)?; Some(Display::fmt(&p, f)) }
pub fn pn_clone_ns(s: &str) -> Option<PnView> { let p = pn_ns(s)?; Some(pnv(&p.clone())) }
pub fn pn_clone_ln(n: &str, m: &str) -> Option<PnView> { let p = pn_ln(n, m)?; Some(pnv(&p.clone())) }
pub fn pn_eq_nn(a: &str, b: &str) -> Option<bool> { Some(pn_ns(a)? == pn_ns(b)?) }
pub fn pn_eq_nl(a: &str, n: &str, m: &str) -> Option<bool> { Some(pn_ns(a)? == pn_ln(n, m)?) }
pub fn pn_eq_ln(n: &str, m: &str, a: &str) -> Option<bool> { Some(pn_ln(n, m)? == pn_ns(a)?) }
pub fn pn_eq_ll(n: &str, m: &str, o: &str, p: &str) -> Option<bool> { Some(pn_ln(n, m)? == pn_ln(o, p)?) }
pub fn pn_cmp_nn(a: &str, b: &str) -> Option<Ordering> { Some(pn_ns(a)?.cmp(&pn_ns(b)?)) }
pub fn pn_cmp_nl(a: &str, n: &str, m: &str) -> Option<Ordering> { Some(pn_ns(a)?.cmp(&pn_ln(n, m)?)) }
pub fn pn_cmp_ln(n: &str, m: &str, a: &str) -> Option<Ordering> { Some(pn_ln(n, m)?.cmp(&pn_ns(a)?)) }
pub fn pn_cmp_ll(n: &str, m: &str, o: &str, p: &str) -> Option<Ordering> { Some(pn_ln(n, m)?.cmp(&pn_ln(o, p)?)) }
pub fn pn_partial_cmp_nl(a: &str, n: &str, m: &str) -> Option<Option<Ordering>> { Some(pn_ns(a)?.partial_cmp(&pn_ln(n, m)?)) }
pub fn pn_partial_cmp_nn(a: &str, b: &str) -> Option<Option<Ordering>> { Some(pn_ns(a)?.partial_cmp(&pn_ns(b)?)) }
pub fn pn_partial_cmp_ll(n: &str, m: &str, o: &str, p: &str) -> Option<Option<Ordering>> { Some(pn_ln(n, m)?.partial_cmp(&pn_ln(o, p)?)) }
pub fn pn_hash_ns(s: &str, h: &mut Probe) -> Option<()> { pn_ns(s)?.hash(h); Some(()) }
pub fn pn_hash_ln(n: &str, m: &str, h: &mut Probe) -> Option<()> { pn_ln(n, m)?.hash(h); Some(()) }

// ---- Iri
pub fn iri_from_str(s: &str) -> Result<Url, url::ParseError> { Iri::from_str(s).map(|i| url(&i)) }
pub fn iri_parse(s: &str) -> Result<Url, url::ParseError> { s.parse::<Iri>().map(|i| url(&i)) }
pub fn iri_try_from(s: &str) -> Result<Url, url::ParseError> { Iri::try_from(s).map(|i| url(&i)) }
pub fn iri_from_url(u: &Url) -> Url { url(&Iri::from(u.clone())) }
pub fn iri_from_url_ref(u: &Url) -> Url { url(&Iri::from(u)) }
pub fn iri_into_url(u: &Url) -> Url { Url::from(iri(u)) }
pub fn iri_ref_into_url(u: &Url) -> Url { Url::from(&iri(u)) }
pub fn iri_as_mut_url(u: &Url, v: &Url) -> Url { let mut i = iri(u); { let m: &mut Url = i.as_mut(); *m = v.clone(); } url(&i) }
pub fn iri_as_ref_str(u: &Url) -> String { let i = iri(u); let s: &str = i.as_ref(); s.to_string() }
pub fn iri_display(u: &Url, f: &mut Formatter<'_>) -> core::fmt::Result { Display::fmt(&iri(u), f) }
pub fn iri_to_string(u: &Url) -> String { iri(u).to_string() }
pub fn iri_alt_string(u: &Url) -> String { format!("{:#}", iri(u)) }
pub fn iri_with_new_path(u: &Url, s: &'static str) -> Url { url(&iri(u).with_new_path(s)) }
pub fn iri_with_new_path_string(u: &Url, s: String) -> Url { url(&iri(u).with_new_path(s)) }
pub fn iri_with_new_fragment(u: &Url, s: &'static str) -> Url { url(&iri(u).with_new_fragment(s)) }
pub fn iri_with_new_fragment_string(u: &Url, s: String) -> Url { url(&iri(u).with_new_fragment(s)) }
pub fn iri_with_empty_fragment(u: &Url) -> Url { url(&iri(u).with_empty_fragment()) }
pub fn iri_with_no_fragment(u: &Url) -> Url { url(&iri(u).with_no_fragment()) }
pub fn iri_receiver_kept(u: &Url, s: String) -> Url {
    let i = iri(u);
    let _ = (i.with_new_path(s.clone()), i.with_new_fragment(s), i.with_empty_fragment(), i.with_no_fragment());
    url(&i)
}
pub fn iri_looks_like_namespace(u: &Url) -> bool { iri(u).looks_like_namespace() }
pub fn iri_split(u: &Url) -> Option<(Url, String)> { iri(u).split().map(|(i, n)| (url(&i), txt(&n))) }
pub fn iri_namespace(u: &Url) -> Option<Url> { iri(u).namespace().map(|i| url(&i)) }
pub fn iri_name(u: &Url) -> Option<String> { iri(u).name().map(|n| txt(&n)) }
pub fn iri_make_name(u: &Url, s: &str) -> Option<Option<Url>> { let n = nm(s)?; Some(iri(u).make_name(n).map(|i| url(&i))) }
pub fn iri_make_then_split(u: &Url, s: &str) -> Option<Option<(Url, String)>> {
    let n = nm(s)?;
    let made = iri(u).make_name(n)?;
    Some(made.split().map(|(i, n)| (url(&i), txt(&n))))
}
pub fn iri_split_then_make(u: &Url) -> Option<Option<Url>> {
    let (i, n) = iri(u).split()?;
    Some(i.make_name(n).map(|i| url(&i)))
}
#[cfg(feature = "genid")]
pub fn iri_genid(u: &Url) -> Result<Url, Error> { iri(u).genid().map(|i| url(&i)) }
pub fn iri_clone(u: &Url) -> Url { let i = iri(u); url(&i.clone()) }
pub fn iri_eq(a: &Url, b: &Url) -> bool { iri(a) == iri(b) }
pub fn iri_cmp(a: &Url, b: &Url) -> Ordering { iri(a).cmp(&iri(b)) }
pub fn iri_partial_cmp(a: &Url, b: &Url) -> Option<Ordering> { iri(a).partial_cmp(&iri(b)) }
pub fn iri_hash(a: &Url, h: &mut Probe) { iri(a).hash(h) }

// ---- IriRef
pub fn ir_display_iri(u: &Url, f: &mut Formatter<'_>) -> core::fmt::Result { Display::fmt(&IriRef::from(iri(u)), f) }
pub fn ir_display_ns(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = pn_ns(s)?; Some(Display::fmt(&IriRef::from(p), f)) }
pub fn ir_display_ln(n: &str, m: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = pn_ln(n, m)?; Some(Display::fmt(&IriRef::from(p), f)) }
pub fn ir_from_iri(u: &Url) -> IrView { irv(&IriRef::from(iri(u))) }
pub fn ir_from_iri_ref(u: &Url) -> IrView { irv(&IriRef::from(&iri(u))) }
pub fn ir_from_pn_ns(s: &str) -> Option<IrView> { Some(irv(&IriRef::from(pn_ns(s)?))) }
pub fn ir_from_pn_ns_ref(s: &str) -> Option<IrView> { Some(irv(&IriRef::from(&pn_ns(s)?))) }
pub fn ir_from_pn_ln(n: &str, m: &str) -> Option<IrView> { Some(irv(&IriRef::from(pn_ln(n, m)?))) }
pub fn ir_from_pn_ln_ref(n: &str, m: &str) -> Option<IrView> { Some(irv(&IriRef::from(&pn_ln(n, m)?))) }
pub fn ir_clone_iri(u: &Url) -> IrView { irv(&IriRef::from(iri(u)).clone()) }
pub fn ir_clone_pn(n: &str, m: &str) -> Option<IrView> { Some(irv(&IriRef::from(pn_ln(n, m)?).clone())) }
pub fn ir_eq_ii(a: &Url, b: &Url) -> bool { IriRef::from(iri(a)) == IriRef::from(iri(b)) }
pub fn ir_eq_ip(a: &Url, n: &str, m: &str) -> Option<bool> { Some(IriRef::from(iri(a)) == IriRef::from(pn_ln(n, m)?)) }
pub fn ir_eq_pp(n: &str, m: &str, o: &str, p: &str) -> Option<bool> { Some(IriRef::from(pn_ln(n, m)?) == IriRef::from(pn_ln(o, p)?)) }

// ---- IriPrefixMap
pub fn map_empty() -> IriPrefixMap { IriPrefixMap::empty() }
pub fn map_default() -> IriPrefixMap { IriPrefixMap::default() }
pub fn map_common() -> IriPrefixMap { IriPrefixMap::common() }
pub fn map_with_default(m: IriPrefixMap, i: Iri) -> IriPrefixMap { m.with_default(i) }
pub fn map_with(m: IriPrefixMap, p: Namespace, i: Iri) -> IriPrefixMap { m.with(p, i) }
pub fn map_with_vocabulary(m: IriPrefixMap, p: &'static str, i: &'static str) -> IriPrefixMap { m.with_vocabulary(&Vocabulary::new(p, i)) }
pub fn map_is_empty(m: &IriPrefixMap) -> bool { m.is_empty() }
pub fn map_len(m: &IriPrefixMap) -> usize { m.len() }
pub fn map_get_default_namespace(m: &IriPrefixMap) -> Option<&Iri> { m.get_default_namespace() }
pub fn map_set_default_namespace(m: &mut IriPrefixMap, i: Iri) { m.set_default_namespace(i) }
pub fn map_remove_default_namespace(m: &mut IriPrefixMap) { m.remove_default_namespace() }
pub fn map_get_namespace<'a>(m: &'a IriPrefixMap, p: &Namespace) -> Option<&'a Iri> { m.get_namespace(p) }
pub fn map_get_prefix<'a>(m: &'a IriPrefixMap, i: &Iri) -> Option<&'a Namespace> { m.get_prefix(i) }
pub fn map_mappings(m: &IriPrefixMap, f: &mut Formatter<'_>) { for (p, i) in m.mappings() { f.write_str(p.as_ref()); f.write_str(" "); f.write_str(i.as_ref()); f.write_str("\n"); } }
pub fn map_prefixes(m: &IriPrefixMap, f: &mut Formatter<'_>) { for p in m.prefixes() { f.write_str(p.as_ref()); f.write_str("\n"); } }
pub fn map_iris(m: &IriPrefixMap, f: &mut Formatter<'_>) { for i in m.iris() { f.write_str(i.as_ref()); f.write_str("\n"); } }
pub fn map_insert(m: &mut IriPrefixMap, p: Namespace, i: Iri) { m.insert(p, i) }
pub fn map_insert_vocabulary(m: &mut IriPrefixMap, p: &'static str, i: &'static str) { m.insert_vocabulary(&Vocabulary::new(p, i)) }
pub fn map_remove(m: &mut IriPrefixMap, p: &Namespace) { m.remove(p) }
pub fn map_clear(m: &mut IriPrefixMap) { m.clear() }
pub fn map_expand(m: &IriPrefixMap, n: &str, s: &str) -> Option<Option<Url>> { let l = ln(n, s)?; Some(m.expand(&l).map(|i| url(&i))) }
pub fn map_compress(m: &IriPrefixMap, u: &Url) -> Option<(String, String)> { m.compress(&iri(u)).map(|l| lnt(&l)) }
pub fn map_compress_to_iriref(m: &IriPrefixMap, u: &Url) -> IrView { irv(&m.compress_to_iriref(&iri(u))) }
pub fn map_compress_then_expand(m: &IriPrefixMap, u: &Url) -> Option<Option<Url>> { let l = m.compress(&iri(u))?; Some(m.expand(&l).map(|i| url(&i))) }
pub fn map_expand_then_compress(m: &IriPrefixMap, n: &str, s: &str) -> Option<Option<(String, String)>> {
    let l = ln(n, s)?;
    let i = m.expand(&l)?;
    Some(m.compress(&i).map(|l| lnt(&l)))
}
pub fn map_display(m: &IriPrefixMap, f: &mut Formatter<'_>) -> core::fmt::Result { Display::fmt(m, f) }
pub fn map_clone(m: &IriPrefixMap) -> IriPrefixMap { m.clone() }
pub fn map_eq(a: &IriPrefixMap, b: &IriPrefixMap) -> bool { a == b }
pub fn map_insert_get(m: &mut IriPrefixMap, p: Namespace, i: Iri, q: &Namespace) -> Option<Url> { m.insert(p, i); m.get_namespace(q).map(url) }
pub fn map_insert_get_prefix(m: &mut IriPrefixMap, p: Namespace, i: Iri, j: &Iri) -> Option<String> { m.insert(p, i); m.get_prefix(j).map(txt) }
pub fn map_remove_get(m: &mut IriPrefixMap, p: &Namespace, q: &Namespace) -> Option<Url> { m.remove(p); m.get_namespace(q).map(url) }
pub fn map_clear_get(m: &mut IriPrefixMap, q: &Namespace) -> (bool, usize, Option<Url>) { m.clear(); (m.is_empty(), m.len(), m.get_namespace(q).map(url)) }

// ---- Vocabulary
pub fn voc_new(p: &'static str, i: &'static str) -> (String, String, Option<String>) { let v = Vocabulary::new(p, i); (v.prefix().to_string(), v.iri().to_string(), v.description().map(|s| s.to_string())) }
pub fn voc_with_description(p: &'static str, i: &'static str, d: &'static str) -> (String, String, Option<String>) { let v = Vocabulary::new(p, i).with_description(d); (v.prefix().to_string(), v.iri().to_string(), v.description().map(|s| s.to_string())) }
pub fn voc_prefix_as_namespace(p: &'static str, i: &'static str) -> String { txt(&Vocabulary::new(p, i).prefix_as_namespace()) }
pub fn voc_iri_as_iri(p: &'static str, i: &'static str) -> Url { url(&Vocabulary::new(p, i).iri_as_iri()) }
pub fn voc_eq(a: &'static str, b: &'static str, c: &'static str, d: &'static str) -> bool { Vocabulary::new(a, b) == Vocabulary::new(c, d) }
pub fn voc_eq_desc(a: &'static str, b: &'static str, c: &'static str, d: &'static str) -> bool { Vocabulary::new(a, b).with_description(c) == Vocabulary::new(a, b).with_description(d) }
pub fn voc_hash(a: &'static str, b: &'static str, h: &mut Probe) { Vocabulary::new(a, b).hash(h) }

type Voc = (String, String, Option<String>);
fn voct(v: &Vocabulary) -> Voc { (v.prefix().to_string(), v.iri().to_string(), v.description().map(|s| s.to_string())) }
pub fn vocab_cal() -> Voc { voct(&VOCABULARY_CAL) }
pub fn vocab_dbpedia() -> Voc { voct(&VOCABULARY_DBPEDIA) }
pub fn vocab_dc_elements() -> Voc { voct(&VOCABULARY_DC_ELEMENTS) }
pub fn vocab_dc_terms() -> Voc { voct(&VOCABULARY_DC_TERMS) }
pub fn vocab_doap() -> Voc { voct(&VOCABULARY_DOAP) }
pub fn vocab_foaf() -> Voc { voct(&VOCABULARY_FOAF) }
pub fn vocab_geo_names() -> Voc { voct(&VOCABULARY_GEO_NAMES) }
pub fn vocab_iso_skos() -> Voc { voct(&VOCABULARY_ISO_SKOS) }
pub fn vocab_open_gis() -> Voc { voct(&VOCABULARY_OPEN_GIS) }
pub fn vocab_org() -> Voc { voct(&VOCABULARY_ORG) }
pub fn vocab_owl() -> Voc { voct(&VOCABULARY_OWL) }
pub fn vocab_rdf() -> Voc { voct(&VOCABULARY_RDF) }
pub fn vocab_rdf_schema() -> Voc { voct(&VOCABULARY_RDF_SCHEMA) }
pub fn vocab_sioc() -> Voc { voct(&VOCABULARY_SIOC) }
pub fn vocab_skos() -> Voc { voct(&VOCABULARY_SKOS) }
pub fn vocab_skos_xl() -> Voc { voct(&VOCABULARY_SKOS_XL) }
pub fn vocab_vann() -> Voc { voct(&VOCABULARY_VANN) }
pub fn vocab_void() -> Voc { voct(&VOCABULARY_VOID) }
pub fn vocab_wot() -> Voc { voct(&VOCABULARY_WOT) }
pub fn vocab_xml() -> Voc { voct(&VOCABULARY_XML) }
pub fn vocab_xml_schema() -> Voc { voct(&VOCABULARY_XML_SCHEMA) }

// ---- errors
pub fn err_from_name(e: NameParseError) -> Error { e.into() }
pub fn err_from_url(e: url::ParseError) -> Error { e.into() }
pub fn err_display(e: &Error, f: &mut Formatter<'_>) -> core::fmt::Result { Display::fmt(e, f) }
pub fn err_source(e: &Error) -> Option<&(dyn core::error::Error + 'static)> { core::error::Error::source(e) }
pub fn nperr_display(e: &NameParseError, f: &mut Formatter<'_>) -> core::fmt::Result { Display::fmt(e, f) }
pub fn nperr_source(e: &NameParseError) -> Option<&(dyn core::error::Error + 'static)> { core::error::Error::source(e) }

// ---- serialised form
#[cfg(feature = "serde")]
mod wire {
    use super::*;
    use serde::de::{self, Deserialize, Deserializer, Visitor};
    use serde::ser::{self, Serialize, Serializer};

    /// A self-describing text value, offered to the visitor the way the common formats do.
    pub struct Text<'a>(pub &'a str);
    #[derive(Debug)]
    pub struct Fail(pub String);
    impl Display for Fail {
        fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result { f.write_str(&self.0) }
    }
    impl std::error::Error for Fail {}
    impl de::Error for Fail {
        fn custom<T: Display>(msg: T) -> Self { Fail(String::new()) }
    }
    impl ser::Error for Fail {
        fn custom<T: Display>(msg: T) -> Self { Fail(String::new()) }
    }
    impl<'de, 'a> Deserializer<'de> for Text<'a> {
        type Error = Fail;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> { v.visit_str(self.0) }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> { v.visit_newtype_struct(self) }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
            unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }
    pub fn ns_deserialize(s: &str) -> Option<String> { Namespace::deserialize(Text(s)).ok().map(|n| txt(&n)) }
    pub fn name_deserialize(s: &str) -> Option<String> { Name::deserialize(Text(s)).ok().map(|n| txt(&n)) }
    pub fn iri_deserialize(s: &str) -> Option<Url> { Iri::deserialize(Text(s)).ok().map(|n| url(&n)) }

    pub struct Sink;
    type Never = ser::Impossible<String, Fail>;
    impl Serializer for Sink {
        type Ok = String;
        type Error = Fail;
        type SerializeSeq = Never;
        type SerializeTuple = Never;
        type SerializeTupleStruct = Never;
        type SerializeTupleVariant = Never;
        type SerializeMap = Never;
        type SerializeStruct = Never;
        type SerializeStructVariant = Never;
        fn serialize_str(self, v: &str) -> Result<String, Fail> { Ok(v.to_string()) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<String, Fail> { v.serialize(self) }
        fn serialize_bool(self, _: bool) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_i8(self, _: i8) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_i16(self, _: i16) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_i32(self, _: i32) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_i64(self, _: i64) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_u8(self, _: u8) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_u16(self, _: u16) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_u32(self, _: u32) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_u64(self, _: u64) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_f32(self, _: f32) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_f64(self, _: f64) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_char(self, _: char) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_bytes(self, _: &[u8]) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_none(self) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<String, Fail> { v.serialize(self) }
        fn serialize_unit(self) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_unit_struct(self, _: &'static str) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, Fail> { Err(Fail(String::new())) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Never, Fail> { Err(Fail(String::new())) }
        fn serialize_tuple(self, _: usize) -> Result<Never, Fail> { Err(Fail(String::new())) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Never, Fail> { Err(Fail(String::new())) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Fail> { Err(Fail(String::new())) }
        fn serialize_map(self, _: Option<usize>) -> Result<Never, Fail> { Err(Fail(String::new())) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Never, Fail> { Err(Fail(String::new())) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Fail> { Err(Fail(String::new())) }
    }
    pub fn ns_serialize(s: &str) -> Option<String> { ns(s)?.serialize(Sink).ok() }
    pub fn name_serialize(s: &str) -> Option<String> { nm(s)?.serialize(Sink).ok() }
    pub fn iri_serialize(u: &Url) -> Option<String> { iri(u).serialize(Sink).ok() }

    // ---- values with parts, in a format that names them
    pub enum Tree { Text(String), End, Field(&'static str, Box<Tree>, Box<Tree>), Variant(&'static str, Box<Tree>), Pair(Box<Tree>, Box<Tree>, Box<Tree>) }
    pub struct TreeSink;
    pub struct Fields(Tree);
    pub struct Pairs(Tree, Tree);
    type No = ser::Impossible<Tree, Fail>;
    fn no<T>() -> Result<T, Fail> { Err(Fail(String::new())) }
    impl ser::SerializeStruct for Fields {
        type Ok = Tree;
        type Error = Fail;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> { let x = v.serialize(TreeSink)?; let t = core::mem::replace(&mut self.0, Tree::End); self.0 = Tree::Field(k, Box::new(x), Box::new(t)); Ok(()) }
        fn end(self) -> Result<Tree, Fail> { Ok(self.0) }
    }
    impl ser::SerializeMap for Pairs {
        type Ok = Tree;
        type Error = Fail;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Fail> { self.1 = k.serialize(TreeSink)?; Ok(()) }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
            let k = core::mem::replace(&mut self.1, Tree::End); let x = v.serialize(TreeSink)?; let t = core::mem::replace(&mut self.0, Tree::End); self.0 = Tree::Pair(Box::new(k), Box::new(x), Box::new(t)); Ok(())
        }
        fn end(self) -> Result<Tree, Fail> { Ok(self.0) }
    }
    impl Serializer for TreeSink {
        type Ok = Tree;
        type Error = Fail;
        type SerializeSeq = No;
        type SerializeTuple = No;
        type SerializeTupleStruct = No;
        type SerializeTupleVariant = No;
        type SerializeMap = Pairs;
        type SerializeStruct = Fields;
        type SerializeStructVariant = No;
        fn serialize_str(self, v: &str) -> Result<Tree, Fail> { Ok(Tree::Text(v.to_string())) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tree, Fail> { v.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<Tree, Fail> { Ok(Tree::Variant(k, Box::new(v.serialize(self)?))) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, Fail> { Ok(Fields(Tree::End)) }
        fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Fail> { Ok(Pairs(Tree::End, Tree::End)) }
        fn serialize_bool(self, _: bool) -> Result<Tree, Fail> { no() }
        fn serialize_i8(self, _: i8) -> Result<Tree, Fail> { no() }
        fn serialize_i16(self, _: i16) -> Result<Tree, Fail> { no() }
        fn serialize_i32(self, _: i32) -> Result<Tree, Fail> { no() }
        fn serialize_i64(self, _: i64) -> Result<Tree, Fail> { no() }
        fn serialize_u8(self, _: u8) -> Result<Tree, Fail> { no() }
        fn serialize_u16(self, _: u16) -> Result<Tree, Fail> { no() }
        fn serialize_u32(self, _: u32) -> Result<Tree, Fail> { no() }
        fn serialize_u64(self, _: u64) -> Result<Tree, Fail> { no() }
        fn serialize_f32(self, _: f32) -> Result<Tree, Fail> { no() }
        fn serialize_f64(self, _: f64) -> Result<Tree, Fail> { no() }
        fn serialize_char(self, _: char) -> Result<Tree, Fail> { no() }
        fn serialize_bytes(self, _: &[u8]) -> Result<Tree, Fail> { no() }
        fn serialize_none(self) -> Result<Tree, Fail> { no() }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tree, Fail> { v.serialize(self) }
        fn serialize_unit(self) -> Result<Tree, Fail> { no() }
        fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, Fail> { no() }
        fn serialize_unit_variant(self, _: &'static str, _: u32, k: &'static str) -> Result<Tree, Fail> { Ok(Tree::Text(k.to_string())) }
        fn serialize_seq(self, _: Option<usize>) -> Result<No, Fail> { no() }
        fn serialize_tuple(self, _: usize) -> Result<No, Fail> { no() }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Fail> { no() }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Fail> { no() }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Fail> { no() }
    }
    pub struct PartsIn(Tree, Tree);
    impl<'de> de::MapAccess<'de> for PartsIn {
        type Error = Fail;
        fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Fail> {
            match core::mem::replace(&mut self.0, Tree::End) {
                Tree::Field(k, v, t) => { self.0 = *t; self.1 = *v; match seed.deserialize(Text(k)) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
                Tree::Pair(k, v, t) => { self.0 = *t; self.1 = *v; match seed.deserialize(*k) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
                _ => Ok(None),
            }
        }
        fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Fail> { let v = core::mem::replace(&mut self.1, Tree::End); seed.deserialize(v) }
    }
    pub struct VariantIn(&'static str, Tree);
    impl<'de> de::EnumAccess<'de> for VariantIn {
        type Error = Fail;
        type Variant = ValueIn;
        fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, ValueIn), Fail> { let k = seed.deserialize(Text(self.0))?; Ok((k, ValueIn(self.1))) }
    }
    pub struct ValueIn(Tree);
    impl<'de> de::VariantAccess<'de> for ValueIn {
        type Error = Fail;
        fn unit_variant(self) -> Result<(), Fail> { no() }
        fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Fail> { seed.deserialize(self.0) }
        fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Fail> { no() }
        fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Fail> { no() }
    }
    impl<'de> Deserializer<'de> for Tree {
        type Error = Fail;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
            match self {
                Tree::Text(s) => v.visit_string(s),
                x @ (Tree::End | Tree::Field(..) | Tree::Pair(..)) => v.visit_map(PartsIn(x, Tree::End)),
                Tree::Variant(k, x) => v.visit_enum(VariantIn(k, *x)),
            }
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> { v.visit_newtype_struct(self) }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
            unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }
    fn again<T: Serialize + for<'de> Deserialize<'de> + PartialEq>(v: &T) -> Option<bool> { Some(match v.serialize(TreeSink) { Ok(t) => matches!(T::deserialize(t), Ok(x) if x == *v), Err(_) => false }) }
    pub fn ns_again(s: &str) -> Option<bool> { again(&ns(s)?) }
    pub fn name_again(s: &str) -> Option<bool> { again(&nm(s)?) }
    pub fn iri_again(u: &Url) -> Option<bool> { again(&iri(u)) }
    pub fn ln_again(n: &str, m: &str) -> Option<bool> { again(&ln(n, m)?) }
    pub fn pn_again_ns(s: &str) -> Option<bool> { again(&PrefixedName::from(ns(s)?)) }
    pub fn pn_again_ln(n: &str, m: &str) -> Option<bool> { again(&PrefixedName::from(ln(n, m)?)) }
    pub fn ir_again_iri(u: &Url) -> Option<bool> { again(&IriRef::from(iri(u))) }
    pub fn ir_again_ns(s: &str) -> Option<bool> { again(&IriRef::from(PrefixedName::from(ns(s)?))) }
    pub fn ir_again_ln(n: &str, m: &str) -> Option<bool> { again(&IriRef::from(PrefixedName::from(ln(n, m)?))) }
    pub fn map_again_0() -> Option<bool> { again(&IriPrefixMap::default()) }
    pub fn map_again_1(n: &str, u: &Url) -> Option<bool> { let mut m = IriPrefixMap::default(); m.insert(ns(n)?, iri(u)); again(&m) }
}
#[cfg(feature = "serde")]
pub use wire::*;

// ---- deliberately wrong functions the analysis has to find fault with on every run
pub fn selftest_rare_text(s: &str) -> Option<String> { let n = ns(s)?; if s == "rare.case:" { return Some(String::new()); } Some(txt(&n)) }
pub fn selftest_rare_panic(s: &str) -> usize { if s.ends_with("\u{3BB}") { s[..s.len() - 1].len() } else { 0 } }
pub fn selftest_fragment(u: &Url) -> Url { let i = iri(u); if u.query().is_some() { i.with_no_fragment().into() } else { u.clone() } }

// ---- the same with names whose texts were not checked
fn uns(s: &str) -> Option<Namespace> { Some(Namespace::new_unchecked(s)) }
fn unm(s: &str) -> Option<Name> { Some(Name::new_unchecked(s)) }
fn uln(n: &str, m: &str) -> Option<LocalName> { Some(LocalName::new(uns(n)?, unm(m)?)) }
fn upn_ns(s: &str) -> Option<PrefixedName> { Some(PrefixedName::from(uns(s)?)) }
fn upn_ln(n: &str, m: &str) -> Option<PrefixedName> { Some(PrefixedName::from(uln(n, m)?)) }
pub fn u_ns_to_string(s: &str) -> Option<String> { Some(uns(s)?.to_string()) }
pub fn u_ns_as_ref(s: &str) -> Option<String> { Some(txt(&uns(s)?)) }
pub fn u_ns_into_string(s: &str) -> Option<String> { Some(String::from(uns(s)?)) }
pub fn u_ns_ref_into_string(s: &str) -> Option<String> { let n = uns(s)?; Some(String::from(&n)) }
pub fn u_ns_clone(s: &str) -> Option<String> { let n = uns(s)?; Some(txt(&n.clone())) }
pub fn u_name_to_string(s: &str) -> Option<String> { Some(unm(s)?.to_string()) }
pub fn u_name_as_ref(s: &str) -> Option<String> { Some(txt(&unm(s)?)) }
pub fn u_name_into_string(s: &str) -> Option<String> { Some(String::from(unm(s)?)) }
pub fn u_name_ref_into_string(s: &str) -> Option<String> { let n = unm(s)?; Some(String::from(&n)) }
pub fn u_name_clone(s: &str) -> Option<String> { let n = unm(s)?; Some(txt(&n.clone())) }
pub fn u_ln_to_string(n: &str, m: &str) -> Option<String> { Some(uln(n, m)?.to_string()) }
pub fn u_ln_into_string(n: &str, m: &str) -> Option<String> { Some(String::from(uln(n, m)?)) }
pub fn u_ln_ref_into_string(n: &str, m: &str) -> Option<String> { let l = uln(n, m)?; Some(String::from(&l)) }
pub fn u_ln_clone(n: &str, m: &str) -> Option<(String, String)> { let l = uln(n, m)?; Some(lnt(&l.clone())) }
pub fn u_ln_as_curie(n: &str, m: &str) -> Option<String> { Some(uln(n, m)?.as_curie()) }
pub fn u_ns_display(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let n = uns(s)?; Some(Display::fmt(&n, f)) }
pub fn u_name_display(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let n = unm(s)?; Some(Display::fmt(&n, f)) }
pub fn u_ln_display(n: &str, m: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let l = uln(n, m)?; Some(Display::fmt(&l, f)) }
pub fn u_ns_is_default(s: &str) -> Option<bool> { Some(uns(s)?.is_default()) }
pub fn u_ln_is_namespace_default(n: &str, m: &str) -> Option<bool> { Some(uln(n, m)?.is_namespace_default()) }
pub fn u_ns_name_string(s: &str) -> Option<Option<String>> { let n = uns(s)?; Some(n.name_string().map(|s| s.to_string())) }
pub fn u_ns_qualify(s: &str, m: &str) -> Option<(String, String)> { let (n, m) = (uns(s)?, unm(m)?); Some(lnt(&n.qualify(&m))) }
pub fn u_name_qualify(s: &str, m: &str) -> Option<(String, String)> { let (n, m) = (uns(s)?, unm(m)?); Some(lnt(&m.qualify(&n))) }
pub fn u_ln_new(n: &str, m: &str) -> Option<(String, String)> { Some(lnt(&uln(n, m)?)) }
pub fn u_ln_new_in_default(m: &str) -> Option<(String, String)> { Some(lnt(&LocalName::new_in_default(unm(m)?))) }
pub fn u_ns_eq(a: &str, b: &str) -> Option<bool> { Some(uns(a)? == uns(b)?) }
pub fn u_ns_cmp(a: &str, b: &str) -> Option<Ordering> { Some(uns(a)?.cmp(&uns(b)?)) }
pub fn u_ns_partial_cmp(a: &str, b: &str) -> Option<Option<Ordering>> { Some(uns(a)?.partial_cmp(&uns(b)?)) }
pub fn u_name_eq(a: &str, b: &str) -> Option<bool> { Some(unm(a)? == unm(b)?) }
pub fn u_name_cmp(a: &str, b: &str) -> Option<Ordering> { Some(unm(a)?.cmp(&unm(b)?)) }
pub fn u_name_partial_cmp(a: &str, b: &str) -> Option<Option<Ordering>> { Some(unm(a)?.partial_cmp(&unm(b)?)) }
pub fn u_ln_eq(n: &str, m: &str, o: &str, p: &str) -> Option<bool> { Some(uln(n, m)? == uln(o, p)?) }
pub fn u_ln_cmp(n: &str, m: &str, o: &str, p: &str) -> Option<Ordering> { Some(uln(n, m)?.cmp(&uln(o, p)?)) }
pub fn u_ln_partial_cmp(n: &str, m: &str, o: &str, p: &str) -> Option<Option<Ordering>> { Some(uln(n, m)?.partial_cmp(&uln(o, p)?)) }
pub fn u_ns_hash(a: &str, h: &mut Probe) -> Option<()> { uns(a)?.hash(h); Some(()) }
pub fn u_name_hash(a: &str, h: &mut Probe) -> Option<()> { unm(a)?.hash(h); Some(()) }
pub fn u_ln_hash(n: &str, m: &str, h: &mut Probe) -> Option<()> { uln(n, m)?.hash(h); Some(()) }
pub fn u_pn_hash_ns(s: &str, h: &mut Probe) -> Option<()> { upn_ns(s)?.hash(h); Some(()) }
pub fn u_pn_hash_ln(n: &str, m: &str, h: &mut Probe) -> Option<()> { upn_ln(n, m)?.hash(h); Some(()) }
pub fn u_pn_eq_nn(a: &str, b: &str) -> Option<bool> { Some(upn_ns(a)? == upn_ns(b)?) }
pub fn u_pn_eq_ll(n: &str, m: &str, o: &str, p: &str) -> Option<bool> { Some(upn_ln(n, m)? == upn_ln(o, p)?) }
pub fn u_pn_eq_nl(a: &str, n: &str, m: &str) -> Option<bool> { Some(upn_ns(a)? == upn_ln(n, m)?) }
pub fn u_pn_eq_ln(n: &str, m: &str, a: &str) -> Option<bool> { Some(upn_ln(n, m)? == upn_ns(a)?) }
pub fn u_pn_cmp_nn(a: &str, b: &str) -> Option<Ordering> { Some(upn_ns(a)?.cmp(&upn_ns(b)?)) }
pub fn u_pn_cmp_ll(n: &str, m: &str, o: &str, p: &str) -> Option<Ordering> { Some(upn_ln(n, m)?.cmp(&upn_ln(o, p)?)) }
pub fn u_pn_cmp_nl(a: &str, n: &str, m: &str) -> Option<Ordering> { Some(upn_ns(a)?.cmp(&upn_ln(n, m)?)) }
pub fn u_pn_cmp_ln(n: &str, m: &str, a: &str) -> Option<Ordering> { Some(upn_ln(n, m)?.cmp(&upn_ns(a)?)) }
pub fn u_pn_partial_cmp_nn(a: &str, b: &str) -> Option<Option<Ordering>> { Some(upn_ns(a)?.partial_cmp(&upn_ns(b)?)) }
pub fn u_pn_partial_cmp_ll(n: &str, m: &str, o: &str, p: &str) -> Option<Option<Ordering>> { Some(upn_ln(n, m)?.partial_cmp(&upn_ln(o, p)?)) }
pub fn u_pn_partial_cmp_nl(a: &str, n: &str, m: &str) -> Option<Option<Ordering>> { Some(upn_ns(a)?.partial_cmp(&upn_ln(n, m)?)) }
pub fn u_ir_eq_ip(a: &Url, n: &str, m: &str) -> Option<bool> { Some(IriRef::from(iri(a)) == IriRef::from(upn_ln(n, m)?)) }
pub fn u_ir_eq_pp(n: &str, m: &str, o: &str, p: &str) -> Option<bool> { Some(IriRef::from(upn_ln(n, m)?) == IriRef::from(upn_ln(o, p)?)) }
pub fn u_pn_from_ns(s: &str) -> Option<PnView> { Some(pnv(&PrefixedName::from(uns(s)?))) }
pub fn u_pn_from_ns_ref(s: &str) -> Option<PnView> { let n = uns(s)?; Some(pnv(&PrefixedName::from(&n))) }
pub fn u_pn_clone_ns(s: &str) -> Option<PnView> { let p = upn_ns(s)?; Some(pnv(&p.clone())) }
pub fn u_pn_from_ln(n: &str, m: &str) -> Option<PnView> { Some(pnv(&PrefixedName::from(uln(n, m)?))) }
pub fn u_pn_from_ln_ref(n: &str, m: &str) -> Option<PnView> { let l = uln(n, m)?; Some(pnv(&PrefixedName::from(&l))) }
pub fn u_pn_clone_ln(n: &str, m: &str) -> Option<PnView> { let p = upn_ln(n, m)?; Some(pnv(&p.clone())) }
pub fn u_pn_display_ns(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = upn_ns(s)?; Some(Display::fmt(&p, f)) }
pub fn u_pn_display_ln(n: &str, m: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = upn_ln(n, m)?; Some(Display::fmt(&p, f)) }
pub fn u_ir_from_pn_ns(s: &str) -> Option<IrView> { Some(irv(&IriRef::from(upn_ns(s)?))) }
pub fn u_ir_from_pn_ns_ref(s: &str) -> Option<IrView> { Some(irv(&IriRef::from(&upn_ns(s)?))) }
pub fn u_ir_from_pn_ln(n: &str, m: &str) -> Option<IrView> { Some(irv(&IriRef::from(upn_ln(n, m)?))) }
pub fn u_ir_from_pn_ln_ref(n: &str, m: &str) -> Option<IrView> { Some(irv(&IriRef::from(&upn_ln(n, m)?))) }
pub fn u_ir_clone_pn(n: &str, m: &str) -> Option<IrView> { Some(irv(&IriRef::from(upn_ln(n, m)?).clone())) }
pub fn u_ir_display_ns(s: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = upn_ns(s)?; Some(Display::fmt(&IriRef::from(p), f)) }
pub fn u_ir_display_ln(n: &str, m: &str, f: &mut Formatter<'_>) -> Option<core::fmt::Result> { let p = upn_ln(n, m)?; Some(Display::fmt(&IriRef::from(p), f)) }
