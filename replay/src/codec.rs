//! C01, C02, C03, C15: value <-> text on the path, the query and the headers.
use crate::gen::*;
use crate::report::Report;
use htrpc::deserializers::*;
use htrpc::serializers::*;
use htrpc::types::{EntryPoint, PathSegment};
use serde::de::{Deserialize, DeserializeSeed};
use serde::Serialize;
use serde_json::json;
use std::io::{self, Read, Write};
use url::Url;

pub fn leak_ep(segs: &[Option<&'static str>]) -> EntryPoint {
    let v: Vec<PathSegment> = segs.iter().map(|s| match *s { Some(s) => PathSegment::Val(s), None => PathSegment::Var }).collect();
    EntryPoint::new(Box::leak(v.into_boxed_slice()))
}
pub fn reparse(rel: &str) -> Result<Url, String> {
    let base = Url::parse("http://foo/").unwrap();
    Url::options().base_url(Some(&base)).parse(rel).map_err(|e| e.to_string())
}
pub fn strict_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            if i + 2 >= b.len() + 0 && i + 2 > b.len() - 1 { return None; }
            let h = (b[i + 1] as char).to_digit(16)?;
            let l = (b[i + 2] as char).to_digit(16)?;
            out.push((h * 16 + l) as u8);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}
pub fn carriable(text: &str, idx: usize, total: usize) -> bool {
    text != "." && text != ".." && !text.contains(|c| c == '\t' || c == '\n' || c == '\r') && !(text.is_empty() && idx == 0 && total > 1)
}
const CONSTS: &[&str] = &["foo", "bar", "baz", "v1", "a-b", "x_y", "a.b", "0", "true", "~u", "Foo", "fooo", "...", "a+b", "a=b", "a:b", "x;y", "@me", "$", "(1)", "a,b", "!", "*", "'", "&"];
/// Text that a URL path carries as it is.
fn plain(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.~!$&'()*+,;=:@".contains(&b))
}
pub fn gen_ep(r: &mut Rng) -> Vec<Option<&'static str>> {
    let n = if r.chance(1, 100) { 14 + r.below(40) } else if r.chance(1, 20) { 1 + r.below(14) } else { 1 + r.below(6) };
    (0..n).map(|i| if r.chance(1, 2) { None } else {
        Some(match dict_str(r) { Some(s) if plain(s) => s, _ if i > 0 && r.chance(1, 12) => "", _ => *r.pick(CONSTS) })
    }).collect()
}
pub fn path_roundtrip(segs: &[Option<&'static str>], atoms: &[Atom], shape: TupleShape) -> Result<(), String> {
    let ep = leak_ep(segs);
    let vars = segs.iter().filter(|s| s.is_none()).count();
    let mut url = Url::parse("http://localhost/").unwrap();
    let r = {
        let mut s = UrlPathSerializer::new(&ep, &mut url).map_err(|e| e.to_string())?;
        DynTuple(atoms, shape).serialize(&mut s)
    };
    let mut ok = vars == atoms.len();
    if ok {
        let mut it = atoms.iter();
        for (i, s) in segs.iter().enumerate() {
            if s.is_none() && !carriable(&it.next().unwrap().text(), i, segs.len()) { ok = false; }
        }
    }
    match (r, ok) {
        (Err(_), false) => return Ok(()),
        (Ok(_), false) => return Err(format!("client accepted a call it cannot carry: {}", url)),
        (Err(e), true) => return Err(format!("client refused a carriable call: {}", e)),
        (Ok(_), true) => {}
    }
    let rel = &url[url::Position::BeforePath..];
    let wire = reparse(rel)?;
    let got: Vec<&str> = wire.path_segments().ok_or("no segments")?.collect();
    if got.len() != segs.len() { return Err(format!("path {:?} has {} segments", rel, got.len())); }
    let mut it = atoms.iter();
    for (g, s) in got.iter().zip(segs) {
        let mut is_float = false;
        let want = match *s {
            Some(s) => s.to_string(),
            None => { let a = it.next().unwrap(); is_float = matches!(a.kind(), Kind::F32 | Kind::F64); a.text() }
        };
        match strict_decode(g) {
            Some(ref d) if *d == want => {}
            Some(ref d) if s.is_none() && is_float && d.parse::<f64>().ok() == want.parse::<f64>().ok() => {}
            d => return Err(format!("segment {:?} decodes to {:?}, expected {:?}", g, d, want)),
        }
    }
    let kinds: Vec<Kind> = atoms.iter().map(|a| a.kind()).collect();
    let mut de = UrlPathDeserializer::new(ep, &wire).map_err(|e| e.to_string())?;
    let back = TupleSeed(&kinds, shape).deserialize(&mut de).map_err(|e| format!("server failed to decode {:?}: {}", rel, e))?;
    if back != atoms { return Err(format!("decoded {:?} from {:?}", back, rel)); }
    Ok(())
}

/// Reads a path as a sequence (to its end) or as a tuple, with the given entry point.
fn foreign_path(segs: &[Option<&'static str>], path: &[String], as_seq: bool) -> Result<(), String> {
    let ep = leak_ep(segs);
    let url = Url::parse(&format!("http://localhost/{}", path.join("/"))).unwrap();
    if url.path() != format!("/{}", path.join("/")) { return Ok(()); } // dot segments
    let last = segs.iter().rposition(|s| s.is_none()).map(|i| i + 1).unwrap_or(0);
    let need = if as_seq { segs.len() } else { last };
    let vars: Vec<String> = segs.iter().zip(path.iter()).filter(|x| x.0.is_none()).map(|x| strict_decode(x.1).unwrap_or_default()).collect();
    let nvars = segs.iter().filter(|s| s.is_none()).count();
    let ok = path.len() >= need && segs[..need].iter().zip(path.iter()).all(|(s, p)| s.map_or(true, |s| s == p));
    let mut de = UrlPathDeserializer::new(ep, &url).map_err(|e| e.to_string())?;
    let got: Option<Vec<String>> = if as_seq {
        serde::Deserialize::deserialize(&mut de).ok()
    } else {
        let kinds = vec![Kind::Str; nvars];
        TupleSeed(&kinds, TupleShape::Tuple).deserialize(&mut de).ok().map(|v| v.iter().map(|a| a.text()).collect())
    };
    match (got, ok) {
        (None, false) => Ok(()),
        (Some(ref v), true) if *v == vars => Ok(()),
        (g, _) => Err(format!("path {:?} decoded to {:?}; the entry point {} it", url.path(), g, if ok { "matches" } else { "does not match" })),
    }
}
/// Entry points written with the macro.
fn macros(rep: &mut Report) {
    const C: &'static str = "const";
    let all: Vec<(EntryPoint, Vec<Option<&'static str>>)> = vec![
        (htrpc_entry_point![], vec![]),
        (htrpc_entry_point![_], vec![None]),
        (htrpc_entry_point!["a"], vec![Some("a")]),
        (htrpc_entry_point![""], vec![Some("")]),
        (htrpc_entry_point!["_"], vec![Some("_")]),
        (htrpc_entry_point!["*", _, ":x", "{y}"], vec![Some("*"), None, Some(":x"), Some("{y}")]),
        (htrpc_entry_point![_, "A b", _, _, "é", C], vec![None, Some("A b"), None, None, Some("é"), Some("const")]),
        (htrpc_entry_point!["a", _, "", _, "/", ""], vec![Some("a"), None, Some(""), None, Some("/"), Some("")]),
    ];
    for (ep, want) in all {
        rep.case("an entry point written with the macro", json!({"segments": want}), || {
            let got: Vec<Option<&'static str>> = ep.segments().iter().map(|s| s.as_option()).collect();
            if got != want { return Err(format!("segments {:?}", got)); }
            if ep != leak_ep(&want) || ep.var_count() != want.iter().filter(|s| s.is_none()).count() { return Err(format!("{:?} counts {} variables", ep, ep.var_count())); }
            Ok(())
        });
    }
}
pub fn c01(rep: &mut Report) {
    macros(rep);
    let mut r = Rng::new(rep.seed + 1);
    for _ in 0..rep.n(15000, 200000) {
        let segs = gen_ep(&mut r);
        let mut path: Vec<String> = segs.iter().map(|s| s.unwrap_or("v").to_string()).collect();
        match r.below(10) {
            5 => { let i = r.below(path.len()); path[i] = path[i].to_uppercase(); }
            6 => { let i = r.below(path.len()); if let Some(c) = path[i].chars().next() { path[i] = format!("%{:02X}{}", c as u32, &path[i][1..]); } }
            7 => { let i = r.below(path.len()); path[i].pop(); }
            8 => { let i = r.below(path.len()); if let Some(s) = dict_str(&mut r) { if plain(s) { path[i] = s.to_string(); } } }
            0 => { let i = r.below(path.len()); path[i] = "w".to_string(); }
            1 => { path.pop(); if path.is_empty() { path.push("zz".into()); } }
            2 => { let i = r.below(path.len()); path[i].push('x'); }
            3 => { let i = r.below(path.len() + 1); path.insert(i, "ins".into()); }
            _ => {}
        }
        if path.len() > 1 && path[0].is_empty() { continue; }
        for &as_seq in &[true, false] {
            rep.case("decode a path against an entry point", json!({"entry_point": segs, "path": path, "as_seq": as_seq}), || foreign_path(&segs, &path, as_seq));
        }
    }
    // percent-decoding is strict and UTF-8
    for i in 0..rep.n(9000, 110000) {
        let mut seg = String::new();
        // now and then far into a long segment
        if i % 9 == 8 { let n = dict_len(&mut r, 5000); for _ in 0..n { seg.push('a'); } }
        for _ in 0..1 + r.below(4) {
            match r.below(3) {
                0 => seg.push_str(&format!("%{:02x}", r.below(256))),
                1 => seg.push_str(*r.pick(&["%", "a", "%4", "%41", "%c3%a9", "%C3", "%E3%81%82", "%ff", "%+f", "%f+", "%zz", "%2F", "%00", "1", "%e3%81", "%ef%bf%bd", "%EF%BB%BF", "%ed%a0%80", "%f4%90%80%80", "%c0%80", "+", "%2B", "%25", "%F0%9F%98%80", "x"])),
                _ => seg.push((b'a' + r.below(26) as u8) as char),
            }
        }
        if i % 9 == 7 { let n = dict_len(&mut r, 5000); for _ in 0..n { seg.push('a'); } }
        rep.case("decode a segment", json!({"segment": seg}), || {
            let url = Url::parse(&format!("http://localhost/x/{}/y", seg)).unwrap();
            if url.path() != format!("/x/{}/y", seg) { return Ok(()); }
            let mut de = UrlPathDeserializer::new(leak_ep(&[Some("x"), None, Some("y")]), &url).unwrap();
            let got: Option<Vec<String>> = serde::Deserialize::deserialize(&mut de).ok();
            let want = strict_decode(&seg).map(|s| vec![s]);
            if got != want { return Err(format!("decoded to {:?}, expected {:?}", got, want)); }
            Ok(())
        });
    }
    // every corpus string in first / middle / last position
    for s in STRINGS {
        for segs in &[vec![None], vec![None, Some("x")], vec![Some("x"), None], vec![Some("x"), None, Some("y")], vec![None, None]] {
            let vars = segs.iter().filter(|s| s.is_none()).count();
            let atoms: Vec<Atom> = (0..vars).map(|_| Atom::Str(s.to_string())).collect();
            rep.case("path round trip", json!({"entry_point": segs, "values": format!("{:?}", atoms)}), || path_roundtrip(segs, &atoms, TupleShape::Tuple));
        }
    }
    for b in &[true, false] {
        rep.case("path round trip", json!({"bool": b}), || path_roundtrip(&[Some("x"), None], &[Atom::Bool(*b)], TupleShape::Tuple));
    }
    for c in 0..0x100u32 {
        let s: String = std::iter::once(char::from_u32(c).unwrap()).collect();
        for t in &[s.clone(), format!("a{}b", s), format!("{}{}", s, s)] {
            rep.case("path round trip", json!({"char": c, "value": t}), || path_roundtrip(&[Some("x"), None, Some("y")], &[Atom::Str(t.clone())], TupleShape::Tuple));
        }
    }
    // unit path
    for segs in &[vec![Some("x")], vec![Some("x"), Some("y")], vec![None], vec![Some("x"), None]] {
        rep.case("unit path", json!({"entry_point": segs}), || {
            let ep = leak_ep(segs);
            let mut url = Url::parse("http://localhost/").unwrap();
            let ok = { let mut s = UrlPathSerializer::new(&ep, &mut url).unwrap(); ().serialize(&mut s).is_ok() };
            if segs.iter().any(|s| s.is_none()) {
                return if ok { Err("unit accepted for variables".into()) } else { Ok(()) };
            }
            if !ok { return Err("unit refused".into()); }
            let want: String = segs.iter().map(|s| format!("/{}", s.unwrap())).collect();
            if url.path() != want { return Err(format!("path {}", url.path())); }
            let mut de = UrlPathDeserializer::new(ep, &url).unwrap();
            let r: Result<(), _> = serde::Deserialize::deserialize(&mut de);
            r.map_err(|e| format!("server failed to decode a unit path: {}", e))?;
            #[derive(Deserialize, Serialize)]
            struct U;
            let mut de = UrlPathDeserializer::new(ep, &url).unwrap();
            let r: Result<U, _> = serde::Deserialize::deserialize(&mut de);
            r.map_err(|e| format!("server failed to decode a unit struct path: {}", e))?;
            let other = Url::parse("http://localhost/zzz").unwrap();
            let mut de = UrlPathDeserializer::new(ep, &other).unwrap();
            let r: Result<(), _> = serde::Deserialize::deserialize(&mut de);
            if r.is_ok() { return Err("unit path accepted /zzz".into()); }
            Ok(())
        });
    }
    // elements of every kind
    struct Two(TupleShape, Odd, u64);
    impl Serialize for Two {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::*;
            match self.0 {
                TupleShape::Tuple => { let mut t = s.serialize_tuple(2)?; t.serialize_element(&self.1)?; t.serialize_element(&self.2)?; t.end() }
                TupleShape::TupleStruct => { let mut t = s.serialize_tuple_struct("T", 2)?; t.serialize_field(&self.1)?; t.serialize_field(&self.2)?; t.end() }
                _ => { let mut t = s.serialize_tuple_variant("E", 0, "V", 2)?; t.serialize_field(&self.1)?; t.serialize_field(&self.2)?; t.end() }
            }
        }
    }
    for (k, text) in SCALARS.iter().map(|s| (s.0, Some(s.1))).chain(NONSCALARS.iter().map(|k| (*k, None))) {
        for shape in &[TupleShape::Tuple, TupleShape::TupleStruct, TupleShape::Variant] {
            rep.case("an element of some kind", json!({"kind": k, "shape": format!("{:?}", shape)}), || {
                let ep = leak_ep(&[Some("x"), None, Some("y"), None]);
                let mut url = Url::parse("http://localhost/").unwrap();
                let ok = { let mut s = UrlPathSerializer::new(&ep, &mut url).unwrap(); Two(*shape, Odd(k), 77).serialize(&mut s).is_ok() };
                let want = text.map(|t| format!("/x/{}/y/77", t));
                if ok != want.is_some() { return Err(format!("accepted: {} ({})", ok, url)); }
                if ok && url.path() != want.unwrap() { return Err(format!("path {}", url)); }
                Ok(())
            });
        }
        // on its own; only tuples of one element name the one variable, and only empty values name none
        for (segs, oks) in &[(vec![Some("x"), None], &["tuple", "tuple struct", "tuple variant"][..]), (vec![Some("x")], &["unit", "unit struct", "empty tuple", "newtype of unit"][..])] {
            rep.case("a path of some kind", json!({"kind": k, "entry_point": segs}), || {
                let ep = leak_ep(segs);
                let mut url = Url::parse("http://localhost/").unwrap();
                let ok = { let mut s = UrlPathSerializer::new(&ep, &mut url).unwrap(); Odd(k).serialize(&mut s).is_ok() };
                if ok != oks.contains(&k) { return Err(format!("accepted: {} ({})", ok, url)); }
                Ok(())
            });
        }
    }
    // decoding: a path holds no sequence inside a sequence, and no more values than variables
    for nested in 0..6 {
        rep.case("decode nested or too many values", json!({"how": nested}), || {
            let url = Url::parse("http://localhost/x/1/2").unwrap();
            let mut de = UrlPathDeserializer::new(leak_ep(&[Some("x"), None, None]), &url).unwrap();
            let ok = match nested {
                0 => <Vec<Vec<u8>> as serde::Deserialize>::deserialize(&mut de).is_ok(),
                1 => <((u8, u8),) as serde::Deserialize>::deserialize(&mut de).is_ok(),
                2 => <(u8, (u8,)) as serde::Deserialize>::deserialize(&mut de).is_ok(),
                3 => <(u8, u8, u8) as serde::Deserialize>::deserialize(&mut de).is_ok(),
                4 => <(Vec<u8>,) as serde::Deserialize>::deserialize(&mut de).is_ok(),
                _ => <(u8, u8, Vec<u8>) as serde::Deserialize>::deserialize(&mut de).is_ok(),
            };
            if ok { Err("accepted".into()) } else { Ok(()) }
        });
    }
    // unsupported kinds are refused
    macro_rules! refused { ($name:expr, $v:expr) => {
        rep.case("refused kind", json!({"kind": $name}), || {
            let ep = leak_ep(&[Some("x"), None]);
            let mut url = Url::parse("http://localhost/").unwrap();
            let mut s = UrlPathSerializer::new(&ep, &mut url).unwrap();
            if $v.serialize(&mut s).is_ok() { Err("accepted".into()) } else { Ok(()) }
        });
    } }
    refused!("none", (None as Option<u8>,));
    refused!("some", (Some(3u8),));
    refused!("seq in tuple", (vec![1u8],));
    refused!("bare seq", vec![1u8]);
    refused!("unit in tuple", ((),));
    refused!("nested tuple", ((1u8,),));
    refused!("bare scalar", 3u8);
    refused!("bare string", "a");
    refused!("bare bool", true);
    let mut m = std::collections::BTreeMap::new();
    m.insert("a", 1u8);
    refused!("map", m);
    for _ in 0..rep.n(40000, 600000) {
        let segs = gen_ep(&mut r);
        let vars = segs.iter().filter(|s| s.is_none()).count();
        let n = if r.chance(1, 20) { r.below(5) } else { vars };
        let atoms: Vec<Atom> = (0..n).map(|_| { let k = gen_kind(&mut r); gen_atom(&mut r, k) }).collect();
        let mut atoms = atoms;
        if !atoms.is_empty() && r.chance(1, 12) { let i = r.below(atoms.len()); atoms[i] = Atom::Str(gen_long(&mut r, 5000)); }
        let shape = *r.pick(&[TupleShape::Tuple, TupleShape::TupleStruct, TupleShape::Newtype, TupleShape::Variant, TupleShape::NewtypeVariant]);
        rep.case("path round trip", json!({"entry_point": segs, "values": format!("{:?}", atoms), "shape": format!("{:?}", shape)}), || path_roundtrip(&segs, &atoms, shape));
    }
}

// ---------------------------------------------------------------- query
pub const NAMES: &[&str] = &["foo", "bar", "baz", "a b", "x", "", "é", "a&b", "a=b", "q", "true", "5", "%", "+",
    "userId", "Foo", "ID", "É", " foo", "foo ", "foo[]", "a.b", "x-y", "key", "value", "header", "foo%20bar"];
pub const HNAMES: &[&str] = &["foo", "x-bar", "baz", "content-type", "q", "etag", "x_y", "n0"];

/// A field name: a usual one, one of the dictionary (also inside others), or one made of name characters.
fn gen_name(r: &mut Rng, names: &[&'static str], header: bool) -> &'static str {
    static POOL: std::sync::OnceLock<[Vec<&'static str>; 2]> = std::sync::OnceLock::new();
    let pool = POOL.get_or_init(|| {
        let mut r = Rng::new(77);
        let mut q = vec![];
        let mut h = vec![];
        for _ in 0..3000 {
            let mut s = String::new();
            let n = if r.chance(1, 10) { 20 + r.below(60) } else { 1 + r.below(8) };
            while s.len() < n {
                match r.below(6) {
                    0 => s.push_str(*r.pick(&["__", "--", "_", "-", ".", "x-", "-x", "..", "~", "!", "#", "$", "%", "&", "'", "*", "+", "^", "`", "|"])),
                    1 => s.push((b'0' + r.below(10) as u8) as char),
                    2 => match dict_str(&mut r) { Some(d) if d.len() < 40 => s.push_str(&d.to_lowercase()), _ => s.push('q') },
                    _ => s.push((b'a' + r.below(26) as u8) as char),
                }
            }
            if is_token(&s) && s.to_lowercase() == s && !["content-length", "transfer-encoding", "before", "after"].contains(&s.as_str()) { h.push(leak(s)); }
            let s = match r.below(3) { 0 => gen_string(&mut r), 1 => r.pick(&h).to_uppercase(), _ => r.pick(&h).to_string() };
            if s.len() < 200 { q.push(leak(s)); }
        }
        [q, h]
    });
    match dict_str(r) {
        Some(s) if !header => s,
        Some(s) if s.len() < 40 && pool[1].contains(&s) => s,
        _ => if r.chance(1, 4) { *r.pick(&pool[header as usize]) } else { *r.pick(names) },
    }
}
pub fn gen_fields(r: &mut Rng, names: &[&'static str], ascii: bool) -> Vec<Field> {
    let n = if !ascii && r.chance(1, 100) { 14 + r.below(60) } else if r.chance(1, 20) { r.below(14) } else { r.below(5) };
    let mut used: Vec<&'static str> = vec![];
    let mut out = vec![];
    for _ in 0..n {
        let name = gen_name(r, names, ascii);
        if used.contains(&name) { continue; }
        used.push(name);
        let kind = gen_kind(r);
        let optional = r.chance(1, 3);
        let mut a = gen_atom(r, kind);
        if ascii && r.chance(3, 4) {
            if let Atom::Str(ref mut s) = a { *s = s.chars().filter(|c| !c.is_control() && !c.is_whitespace()).collect(); }
        }
        let value = if optional && r.chance(1, 3) { None } else { Some(a) };
        out.push(Field { name, optional, kind, value });
    }
    out
}
fn query_pairs(url: &Url) -> Vec<(String, String)> {
    url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect()
}
pub fn query_roundtrip(fields: &[Field], shape: MapShape, extra: &[(usize, &'static str, String)]) -> Result<(), String> {
    let mut url = Url::parse("http://localhost/p").unwrap();
    {
        let mut s = UrlQuerySerializer::new(url.query_pairs_mut());
        DynStruct(fields, shape).serialize(&mut s).map_err(|e| format!("client refused: {}", e))?;
    }
    let wire = reparse(&url[url::Position::BeforePath..])?;
    if wire.path() != "/p" { return Err(format!("path changed: {}", wire)); }
    let want: Vec<(String, String)> = fields.iter().filter_map(|f| f.value.as_ref().map(|v| (f.name.to_string(), v.text()))).collect();
    let pairs = query_pairs(&wire);
    if pairs != want { return Err(format!("pairs {:?}, expected {:?}", pairs, want)); }
    // the same with unknown parameters inserted
    let mut all = pairs.clone();
    for (pos, n, v) in extra { let p = *pos % (all.len() + 1); all.insert(p, (n.to_string(), v.clone())); }
    let mut wire2 = Url::parse("http://localhost/p").unwrap();
    wire2.query_pairs_mut().extend_pairs(all.iter());
    for w in &[&wire, &wire2] {
        let mut de = UrlQueryDeserializer::new(w.query_pairs());
        let got = StructSeed(fields, shape).deserialize(&mut de).map_err(|e| format!("server failed to decode {:?}: {}", w.query(), e))?;
        let exp: Vec<Option<Atom>> = fields.iter().map(|f| f.value.clone()).collect();
        if got != exp { return Err(format!("decoded {:?} from {:?}, expected {:?}", got, w.query(), exp)); }
    }
    Ok(())
}
pub fn c02(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 2);
    let f = |name, kind, optional, value| Field { name, kind, optional, value };
    for n in &[100usize, 127, 201, 256, 300, 1025, 4100, 70000] {
        for shape in &[MapShape::Struct, MapShape::Map] {
            let fs = vec![f("a", Kind::U8, false, Some(Atom::U8(1))), f(leak("n".repeat(*n)), Kind::Str, false, Some(Atom::Str("v".into()))), f("c", Kind::Bool, true, Some(Atom::Bool(true)))];
            rep.case("a long name", json!({"length": n, "shape": format!("{:?}", shape)}), || query_roundtrip(&fs, *shape, &[]));
        }
    }
    for s in STRINGS {
        for shape in &[MapShape::Struct, MapShape::Map] {
            let fs = vec![f("a", Kind::Str, false, Some(Atom::Str(s.to_string()))), f("b", Kind::Str, true, None), f("c", Kind::Bool, true, Some(Atom::Bool(true)))];
            rep.case("query round trip", json!({"value": s, "shape": format!("{:?}", shape)}), || query_roundtrip(&fs, *shape, &[]));
        }
    }
    for c in 0..0x100u32 {
        let s: String = std::iter::once(char::from_u32(c).unwrap()).collect();
        let fs = vec![f("a", Kind::Str, false, Some(Atom::Str(format!("a{}b", s)))), f("z", Kind::U8, false, Some(Atom::U8(7)))];
        rep.case("query round trip", json!({"char": c}), || query_roundtrip(&fs, MapShape::Struct, &[]));
    }
    for _ in 0..rep.n(40000, 600000) {
        let mut fs = gen_fields(&mut r, NAMES, false);
        if r.chance(1, 12) { let s = gen_long(&mut r, 5000); if let Some(f) = fs.iter_mut().find(|f| f.kind == Kind::Str && f.value.is_some()) { f.value = Some(Atom::Str(s)); } }
        let shape = *r.pick(&[MapShape::Struct, MapShape::Map, MapShape::StructVariant, MapShape::Newtype]);
        let mut extra = vec![];
        for _ in 0..r.below(4) {
            let v = if !fs.is_empty() && r.chance(1, 2) { fs[r.below(fs.len())].name.to_string() } else { gen_string(&mut r) };
            let name = match dict_str(&mut r) { Some(s) => s, None => *r.pick(&["unknown", "u2", "zzz", "foo2", "UNKNOWN", "FOO", "Bar", "userid", "id", "X", "Q", "%66oo", "foo=", "\u{fb00}oo", "foo\0", "TRUE"]) };
            if fs.iter().any(|f| f.name == name) { continue; }
            extra.push((r.below(8), name, v));
        }
        rep.case("query round trip", json!({"fields": format!("{:?}", fs), "shape": format!("{:?}", shape), "unknown": format!("{:?}", extra)}), || query_roundtrip(&fs, shape, &extra));
    }
    // an optional None used as a map key, unsupported values
    macro_rules! refused { ($name:expr, $v:expr) => {
        rep.case("refused kind", json!({"kind": $name}), || {
            let mut url = Url::parse("http://localhost/").unwrap();
            let mut s = UrlQuerySerializer::new(url.query_pairs_mut());
            if $v.serialize(&mut s).is_ok() { Err("accepted".into()) } else { Ok(()) }
        });
    } }
    let mut m: std::collections::BTreeMap<Option<u8>, u8> = Default::default();
    m.insert(None, 1);
    refused!("none as key", m);
    let mut m: std::collections::BTreeMap<&str, Vec<u8>> = Default::default();
    m.insert("a", vec![1]);
    refused!("sequence value", m);
    let mut m: std::collections::BTreeMap<&str, ()> = Default::default();
    m.insert("a", ());
    refused!("unit value", m);
    let mut m: std::collections::BTreeMap<&str, std::collections::BTreeMap<&str, u8>> = Default::default();
    let mut i: std::collections::BTreeMap<&str, u8> = Default::default();
    i.insert("x", 1);
    m.insert("a", i);
    refused!("nested map", m);
    refused!("tuple", (1u8, 2u8));
    for q in &["", "a", "a=1", "a=1&b=2"] {
        rep.case("a query nobody looks at", json!({"query": q}), || {
            let mut url = Url::parse("http://h/").unwrap();
            url.set_query(Some(q));
            serde::de::IgnoredAny::deserialize(&mut UrlQueryDeserializer::new(url.query_pairs())).map(|_| ()).map_err(|e| format!("refused: {}", e))
        });
    }
    odd_fields(rep, "query", |v| {
        let mut url = Url::parse("http://localhost/p").unwrap();
        { let mut s = UrlQuerySerializer::new(url.query_pairs_mut()); v.serialize(&mut s).map_err(|e| e.to_string())?; }
        Ok(query_pairs(&url))
    });
}
/// A field (or key) of every kind, followed by another field.
struct OddField(usize, Odd);
impl Serialize for OddField {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self.0 {
            0 => { let mut t = s.serialize_struct("S", 2)?; t.serialize_field("a", &self.1)?; t.serialize_field("z", &7u8)?; t.end() }
            1 => { let mut t = s.serialize_struct_variant("E", 0, "V", 2)?; t.serialize_field("a", &self.1)?; t.serialize_field("z", &7u8)?; t.end() }
            2 => { let mut t = s.serialize_map(Some(2))?; t.serialize_entry("a", &self.1)?; t.serialize_entry("z", &7u8)?; t.end() }
            _ => { let mut t = s.serialize_map(Some(2))?; t.serialize_entry(&self.1, "a")?; t.serialize_entry("z", &7u8)?; t.end() }
        }
    }
}
fn odd_fields<F: Fn(&OddField) -> Result<Vec<(String, String)>, String>>(rep: &mut Report, part: &str, run: F) {
    for (k, text) in SCALARS.iter().map(|s| (s.0, Some(s.1))).chain(NONSCALARS.iter().map(|k| (*k, None))) {
        for how in 0..4 {
            let key = how == 3;
            let text = match k { "some" => Some("3"), "unit struct" if part == "header" => Some("U"), "bytes" | "newtype variant of bytes" if part == "header" && !key => Some("by"), _ => text };
            let omitted = (k == "none" || k == "newtype of none") && !key;
            // an optional key, or one of bytes, is not laid down
            if key && (k == "some" || k.contains("bytes")) { continue; }
            rep.case("a field of some kind", json!({"kind": k, "how": how}), || {
                let got = run(&OddField(how, Odd(k))).ok();
                let mut want: Vec<(String, String)> = match text { Some(t) if key => vec![(t.to_lowercase(), "a".into())], Some(t) => vec![("a".into(), t.into())], None => vec![] };
                want.push(("z".into(), "7".into()));
                let got = got.map(|g| g.into_iter().map(|(a, b)| (if key { a.to_lowercase() } else { a }, b)).collect::<Vec<_>>());
                let want = if text.is_some() || omitted { Some(want) } else { None };
                if got != want { return Err(format!("became {:?}, expected {:?}", got, want)); }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- headers
pub struct Mem { pub out: Vec<u8> }
impl miasht::TransportStream for Mem {}
impl Read for Mem { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
impl Write for Mem {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// Serialises `v` as response headers and returns the bytes of the message head.
pub fn header_bytes<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
    use futures::Future;
    let conn = miasht::server::Connection::new(Mem { out: vec![] }, 1024, 65536, 32);
    let mut resp = conn.build_response(miasht::Status::Ok);
    resp.add_raw_header("before", b"1");
    {
        let mut s = HttpHeaderSerializer::new(resp.headers_mut());
        v.serialize(&mut s).map_err(|e| e.to_string())?;
    }
    resp.add_raw_header("after", b"2");
    let mut f = resp.finish();
    loop {
        match f.poll().map_err(|e| format!("{:?}", e)) {
            Ok(futures::Async::Ready(c)) => return Ok(c.into_raw_stream().out),
            Ok(futures::Async::NotReady) => continue,
            Err(e) => return Err(e),
        }
    }
}
pub fn parse_head(b: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut hs = [httparse::EMPTY_HEADER; 64];
    let mut p = httparse::Response::new(&mut hs);
    match p.parse(b) {
        Ok(httparse::Status::Complete(n)) if n == b.len() => {}
        x => return Err(format!("head does not parse completely: {:?}, bytes {:?}", x, String::from_utf8_lossy(b))),
    }
    Ok(p.headers.iter().map(|h| (h.name.to_string(), h.value.to_vec())).collect())
}
pub fn is_token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
pub fn value_ok(b: &[u8]) -> bool { b.iter().all(|&c| (c >= 0x20 && c != 0x7f) || c == b'\t') }
pub fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: u8| c == b' ' || c == b'\t';
    let mut b = b;
    while let Some((&f, r)) = b.split_first() { if ws(f) { b = r } else { break } }
    while let Some((&l, r)) = b.split_last() { if ws(l) { b = r } else { break } }
    b
}
pub fn header_roundtrip(fields: &[Field], shape: MapShape, case_seed: u64, extra: &[(usize, &'static str, String)]) -> Result<(), String> {
    let r = header_bytes(&DynStruct(fields, shape));
    let want: Vec<(String, Vec<u8>)> = fields.iter().filter_map(|f| f.value.as_ref().map(|v| (f.name.to_string(), v.text().into_bytes()))).collect();
    let ok = want.iter().all(|(n, v)| is_token(n) && value_ok(v));
    let bytes = match (r, ok) {
        (Err(_), false) => return Ok(()),
        (Ok(b), false) => return Err(format!("accepted a header that cannot be carried: {:?}", String::from_utf8_lossy(&b))),
        (Err(e), true) => return Err(format!("refused a carriable header: {}", e)),
        (Ok(b), true) => b,
    };
    let got = parse_head(&bytes)?;
    let mut exp = vec![("before".to_string(), b"1".to_vec())];
    exp.extend(want.iter().map(|(n, v)| (n.clone(), trim(v).to_vec())));
    exp.push(("after".to_string(), b"2".to_vec()));
    if got != exp { return Err(format!("header lines {:?}, expected {:?}", got, exp)); }
    // decode, with letter case changed and unknown headers inserted
    let mut rng = Rng::new(case_seed);
    let mut all: Vec<(String, Vec<u8>)> = got.clone();
    for (pos, n, v) in extra { let p = *pos % (all.len() + 1); all.insert(p, (n.to_string(), v.clone().into_bytes())); }
    for h in &mut all {
        h.0 = h.0.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    }
    let hs: Vec<httparse::Header> = all.iter().map(|(n, v)| httparse::Header { name: n, value: v }).collect();
    let headers = miasht::header::Headers::new(&hs);
    let mut de = HttpHeaderDeserializer::new(&headers);
    let back = StructSeed(fields, shape).deserialize(&mut de).map_err(|e| format!("receiver failed to decode: {} from {:?}", e, all))?;
    for (f, b) in fields.iter().zip(back) {
        let exp = match f.value { Some(Atom::Str(ref s)) => Some(Atom::Str(String::from_utf8(trim(s.as_bytes()).to_vec()).unwrap())), ref v => v.clone() };
        if b != exp { return Err(format!("field {:?} decoded as {:?}, expected {:?}", f.name, b, exp)); }
    }
    Ok(())
}
pub fn c03(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 3);
    let f = |name, kind, optional, value| Field { name, kind, optional, value };
    for s in STRINGS {
        let fs = vec![f("a", Kind::Str, false, Some(Atom::Str(s.to_string()))), f("b", Kind::Str, true, None), f("c", Kind::Bool, true, Some(Atom::Bool(true)))];
        for shape in &[MapShape::Struct, MapShape::Map] {
            rep.case("header round trip", json!({"value": s, "shape": format!("{:?}", shape)}), || header_roundtrip(&fs, *shape, 1, &[]));
        }
        // as a name, through a map
        let fs = vec![f(leak(s.to_string()), Kind::U8, false, Some(Atom::U8(1)))];
        if s.to_lowercase() == **s {
            rep.case("header name", json!({"name": s}), || header_roundtrip(&fs, MapShape::Map, 1, &[]));
        }
    }
    // a bad byte far into a name or a value
    for n in &[1usize, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 1024, 2048, 4000, 4096] {
        for bad in &["\n", "\r", "\0", "\u{7f}", "\u{b}", "\r\nx: y", ":", " ", "é", "\t"] { for tail in &[0usize, 1, 40] {
            let t = format!("{}{}{}", "a".repeat(*n), bad, "b".repeat(*tail));
            let fs = vec![f("a", Kind::Str, false, Some(Atom::Str(t.clone()))), f("z", Kind::U8, false, Some(Atom::U8(7)))];
            rep.case("a byte far into a header value", json!({"at": n, "text": bad, "tail": tail}), || header_roundtrip(&fs, MapShape::Struct, 1, &[]));
            let fs = vec![f(leak(t), Kind::U8, false, Some(Atom::U8(1))), f("z", Kind::U8, false, Some(Atom::U8(7)))];
            rep.case("a byte far into a header name", json!({"at": n, "text": bad, "tail": tail}), || header_roundtrip(&fs, MapShape::Map, 1, &[]));
        } }
    }
    for c in 0..0x100u32 {
        let ch: String = std::iter::once(char::from_u32(c).unwrap()).collect();
        let fs = vec![f("a", Kind::Str, false, Some(Atom::Str(format!("a{}b", ch)))), f("z", Kind::U8, false, Some(Atom::U8(7)))];
        rep.case("header value char", json!({"char": c}), || header_roundtrip(&fs, MapShape::Struct, 1, &[]));
        if c < 0x80 && !(c as u8).is_ascii_uppercase() {
            let fs = vec![f(leak(format!("x{}y", ch)), Kind::U8, false, Some(Atom::U8(7)))];
            rep.case("header name char", json!({"char": c}), || header_roundtrip(&fs, MapShape::Map, 1, &[]));
        }
        // raw bytes
        rep.case("header byte value", json!({"byte": c}), || {
            struct B(Vec<u8>);
            impl Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
            let mut m = std::collections::BTreeMap::new();
            let v = vec![b'a', c as u8, b'b'];
            m.insert("k", B(v.clone()));
            match (header_bytes(&m), value_ok(&v)) {
                (Err(_), false) => Ok(()),
                (Ok(b), false) => Err(format!("accepted {:?}", b)),
                (Err(e), true) => Err(format!("refused {:?}: {}", v, e)),
                (Ok(b), true) => {
                    let hs = parse_head(&b)?;
                    if hs.len() != 3 || hs[1] != ("k".to_string(), v.clone()) { return Err(format!("{:?}", hs)); }
                    let h = [httparse::Header { name: "K", value: &hs[1].1 }];
                    let headers = miasht::header::Headers::new(&h);
                    struct BytesSeed;
                    impl<'de> serde::de::Visitor<'de> for BytesSeed {
                        type Value = Vec<u8>;
                        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "bytes") }
                        fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> { Ok(v.to_vec()) }
                    }
                    use serde::de::MapAccess;
                    use serde::Deserializer;
                    struct MV;
                    impl<'de> serde::de::Visitor<'de> for MV {
                        type Value = (String, Vec<u8>);
                        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "map") }
                        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                            struct Sd;
                            impl<'de> DeserializeSeed<'de> for Sd {
                                type Value = Vec<u8>;
                                fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vec<u8>, D::Error> { d.deserialize_bytes(BytesSeed) }
                            }
                            let k: String = a.next_key()?.unwrap();
                            let v = a.next_value_seed(Sd)?;
                            Ok((k, v))
                        }
                    }
                    let mut de = HttpHeaderDeserializer::new(&headers);
                    let got = (&mut de).deserialize_map(MV).map_err(|e| e.to_string())?;
                    if got != ("k".to_string(), v) { return Err(format!("decoded {:?}", got)); }
                    Ok(())
                }
            }
        });
    }
    for _ in 0..rep.n(30000, 400000) {
        let fs = gen_fields(&mut r, HNAMES, true);
        let shape = *r.pick(&[MapShape::Struct, MapShape::Map, MapShape::StructVariant, MapShape::Newtype]);
        let mut extra = vec![];
        for _ in 0..r.below(4) {
            let v = if !fs.is_empty() && r.chance(1, 2) { fs[r.below(fs.len())].name.to_string() } else { "zz".to_string() };
            let name = match dict_str(&mut r) { Some(s) if !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') => s, _ => *r.pick(&["unknown", "u2", "zzz", "foo2", "x-bar2", "fo", "x", "bar", "x_bar"]) };
            if fs.iter().any(|f| f.name.eq_ignore_ascii_case(name)) { continue; }
            extra.push((r.below(8), name, v));
        }
        let cs = r.next();
        rep.case("header round trip", json!({"fields": format!("{:?}", fs), "shape": format!("{:?}", shape), "unknown": format!("{:?}", extra)}), || header_roundtrip(&fs, shape, cs, &extra));
    }
    for n in 0..3 {
        rep.case("headers nobody looks at", json!({"headers": n}), || {
            let h = [httparse::Header { name: "A", value: b"1" }, httparse::Header { name: "B", value: b"\xff" }];
            let headers = miasht::header::Headers::new(&h[..n]);
            serde::de::IgnoredAny::deserialize(&mut HttpHeaderDeserializer::new(&headers)).map(|_| ()).map_err(|e| format!("refused: {}", e))
        });
    }
    odd_fields(rep, "header", |v| {
        let hs = parse_head(&header_bytes(v)?)?;
        Ok(hs[1..hs.len() - 1].iter().map(|(n, v)| (n.clone(), String::from_utf8_lossy(v).into_owned())).collect())
    });
    // unit struct and unit variant header values
    rep.case("unit struct header", json!({}), || {
        #[derive(Serialize, Deserialize)]
        #[serde(rename = "application/octet-stream")]
        struct Ct;
        #[derive(Serialize, Deserialize)]
        struct H { #[serde(rename = "content-type")] ct: Ct, n: u8 }
        let b = header_bytes(&H { ct: Ct, n: 3 })?;
        let hs = parse_head(&b)?;
        if hs[1] != ("content-type".to_string(), b"application/octet-stream".to_vec()) { return Err(format!("{:?}", hs)); }
        for (v, ok) in &[("application/octet-stream", true), ("application/octet-strea", false), ("text/plain", false), ("", false), ("application/octet-streamm", false)] {
            let h = [httparse::Header { name: "Content-Type", value: v.as_bytes() }, httparse::Header { name: "N", value: b"3" }];
            let headers = miasht::header::Headers::new(&h);
            let mut de = HttpHeaderDeserializer::new(&headers);
            let r: Result<H, _> = serde::Deserialize::deserialize(&mut de);
            if r.is_ok() != *ok { return Err(format!("content type {:?} accepted={}", v, r.is_ok())); }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C15
const TEXTS: &[&str] = &["0", "1", "-1", "+1", "255", "256", "127", "128", "-128", "-129", "65535", "65536", "32767", "32768", "-32768", "-32769",
    "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "true", "false", "TRUE", "True", "ture", "1.5", "1e5", "inf", "NaN", " 1", "1 ", "0x10", "1_000", "", "-", "+", "-0", "00", "007", "1.", ".5", "é"];

/// Text at or near the form of a number.
fn gen_text(r: &mut Rng) -> String {
    if r.chance(1, 3) { return r.pick(TEXTS).to_string(); }
    let x = match r.below(4) { 0 => r.next(), 1 => r.next() >> 32, 2 => r.next() >> 48, _ => r.next() >> 56 };
    let x = dict_num(r).unwrap_or(x);
    let mut s = match r.below(6) { 0 => format!("{}", x as i64), 1 => format!("-{}", x), 2 => format!("{}{}", x, x), 3 => format!("{:?}", f64::from_bits(x)), 4 => format!("{:e}", x as f64), _ => x.to_string() };
    if r.chance(1, 5) { let i = r.below(s.len() + 1); s.insert_str(i, *r.pick(&["0", "+", "-", " ", ".", "_", ",", "e", "x", "\u{ff11}", "00", "f", "u8", "\0", "1"])); }
    s
}
pub fn c15(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 15);
    // texts just above the middle of two f32: rounded once
    let mut texts: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
    for _ in 0..20 {
        let x = f32::from_bits((0x3f80_0000 + r.below(0x800_0000) as u32) & !1);
        let y = f32::from_bits(x.to_bits() + 1);
        texts.push(format!("{:.60}1", (x as f64 + y as f64) / 2.0));
    }
    for t in texts.iter().map(|t| &t[..]) {
        for k in KINDS {
            rep.case("path text", json!({"text": t, "kind": format!("{:?}", k)}), || {
                let url = match reparse(&format!("/x/{}", t)) { Ok(u) => u, Err(_) => return Ok(()) };
                if url.path() != format!("/x/{}", t) || t.contains('%') || t.contains('/') { return Ok(()); }
                let mut de = UrlPathDeserializer::new(leak_ep(&[Some("x"), None]), &url).map_err(|e| e.to_string())?;
                let got = TupleSeed(&[*k], TupleShape::Tuple).deserialize(&mut de).ok();
                let want = Atom::parse(*k, t).map(|a| vec![a]);
                if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
                Ok(())
            });
            rep.case("query text", json!({"text": t, "kind": format!("{:?}", k)}), || {
                let mut url = Url::parse("http://h/").unwrap();
                url.query_pairs_mut().append_pair("k", t).append_pair("z", "9");
                let fs = [Field { name: "k", optional: false, kind: *k, value: None }, Field { name: "z", optional: true, kind: Kind::U8, value: None }];
                let mut de = UrlQueryDeserializer::new(url.query_pairs());
                let got = StructSeed(&fs, MapShape::Struct).deserialize(&mut de).ok();
                let want = Atom::parse(*k, t).map(|a| vec![Some(a), Some(Atom::U8(9))]);
                if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
                let got = StructSeed(&[Field { optional: true, ..fs[0].clone() }, fs[1].clone()], MapShape::Struct).deserialize(&mut UrlQueryDeserializer::new(url.query_pairs())).ok();
                if got != want { return Err(format!("optional: got {:?}, expected {:?}", got, want)); }
                Ok(())
            });
            rep.case("header text", json!({"text": t, "kind": format!("{:?}", k)}), || {
                let h = [httparse::Header { name: "K", value: t.as_bytes() }, httparse::Header { name: "Z", value: b"9" }];
                let headers = miasht::header::Headers::new(&h);
                let fs = [Field { name: "k", optional: false, kind: *k, value: None }, Field { name: "z", optional: true, kind: Kind::U8, value: None }];
                let mut de = HttpHeaderDeserializer::new(&headers);
                let got = StructSeed(&fs, MapShape::Struct).deserialize(&mut de).ok();
                let want = Atom::parse(*k, t).map(|a| vec![Some(a), Some(Atom::U8(9))]);
                if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
                Ok(())
            });
        }
    }
    // arbitrary wire paths
    for i in 0..rep.n(40000, 600000) {
        let segs = gen_ep(&mut r);
        let mut path = String::new();
        for s in &segs {
            path.push('/');
            match *s {
                Some(c) if r.chance(19, 20) => path.push_str(c),
                _ => match r.below(4) {
                    0 => path.push_str(&gen_text(&mut r)),
                    1 => { for _ in 0..r.below(4) { path.push_str(r.pick(&["%", "a", "%4", "%41", "%c3%a9", "%C3", "%E3%81%82", "%ff", "%+f", "%f+", "%zz", "%2F", "%00", "1", "%e3%81", "%ef%bf%bd", "%EF%BB%BF", "%ed%a0%80", "%f4%90%80%80", "%c0%80", "% 1"])) } }
                    2 => path.push_str(r.pick(STRINGS)),
                    _ => path.push_str(&gen_string(&mut r)),
                },
            }
        }
        if r.chance(1, 10) { path.push_str("/extra"); }
        if r.chance(1, 10) { let cut = (0..path.len()).filter(|i| path.is_char_boundary(*i)).last().unwrap_or(0); path.truncate(cut); }
        let vars = segs.iter().filter(|s| s.is_none()).count();
        let kinds: Vec<Kind> = (0..if r.chance(1, 20) { r.below(5) } else { vars }).map(|_| gen_kind(&mut r)).collect();
        let _ = i;
        rep.case("wire path", json!({"entry_point": segs, "path": path, "kinds": format!("{:?}", kinds)}), || {
            let url = match reparse(&path) { Ok(u) => u, Err(_) => return Ok(()) };
            if url.cannot_be_a_base() { return Ok(()); }
            let ep = leak_ep(&segs);
            let mut de = UrlPathDeserializer::new(ep, &url).map_err(|e| e.to_string())?;
            let got = TupleSeed(&kinds, TupleShape::Tuple).deserialize(&mut de).ok();
            // oracle
            let want = (|| {
                let mut parts = url.path_segments()?;
                let mut out = vec![];
                let mut ks = kinds.iter();
                let mut k = ks.next();
                for s in &segs {
                    if k.is_none() { break; }
                    let p = parts.next()?;
                    match *s {
                        Some(c) => if p != c { return None },
                        None => { out.push(Atom::parse(*k.unwrap(), &strict_decode(p)?)?); k = ks.next(); }
                    }
                }
                if k.is_some() { None } else { Some(out) }
            })();
            if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
            Ok(())
        });
    }
    // arbitrary query strings
    for _ in 0..rep.n(40000, 600000) {
        let mut q = String::new();
        for _ in 0..r.below(5) {
            match r.below(5) {
                0 => q.push_str(*r.pick(&["foo=", "bar=", "baz=", "x="])),
                1 => q.push_str(&format!("{}={}", r.pick(&["foo", "bar", "baz", "u"]), gen_text(&mut r))),
                2 => q.push_str(&gen_string(&mut r)),
                3 => q.push_str(&format!("{}={}", r.pick(&["foo", "bar", "u"]), r.pick(&["foo", "bar", "%41", "a+b", "%zz", "%ff"]))),
                _ => q.push_str("foo"),
            }
            q.push('&');
        }
        let fs: Vec<Field> = ["foo", "bar", "baz"].iter().map(|n| Field { name: n, optional: r.chance(2, 3), kind: gen_kind(&mut r), value: None }).collect();
        rep.case("wire query", json!({"query": q, "fields": format!("{:?}", fs)}), || {
            let mut url = Url::parse("http://h/").unwrap();
            url.set_query(Some(&q));
            let mut de = UrlQueryDeserializer::new(url.query_pairs());
            let got = StructSeed(&fs, MapShape::Struct).deserialize(&mut de).ok();
            let want = struct_oracle(&fs, query_pairs(&url).into_iter().map(|(k, v)| (k, v.into_bytes())).collect());
            if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
            Ok(())
        });
        // arbitrary header lists
        let mut hs: Vec<(String, Vec<u8>)> = vec![];
        for _ in 0..r.below(5) {
            let n = r.pick(&["foo", "FOO", "Bar", "baz", "u", "x-y"]).to_string();
            let v = match r.below(4) { 0 => gen_string(&mut r).into_bytes(), 1 => vec![0xff, 0x41], _ => gen_text(&mut r).into_bytes() };
            hs.push((n, v));
        }
        rep.case("wire headers", json!({"headers": format!("{:?}", hs), "fields": format!("{:?}", fs)}), || {
            let v: Vec<httparse::Header> = hs.iter().map(|(n, v)| httparse::Header { name: n, value: v }).collect();
            let headers = miasht::header::Headers::new(&v);
            let mut de = HttpHeaderDeserializer::new(&headers);
            let got = StructSeed(&fs, MapShape::Struct).deserialize(&mut de).ok();
            let want = struct_oracle(&fs, hs.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect());
            if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
            Ok(())
        });
    }
}
fn struct_oracle(fs: &[Field], pairs: Vec<(String, Vec<u8>)>) -> Option<Vec<Option<Atom>>> {
    let mut out: Vec<Option<Atom>> = fs.iter().map(|_| None).collect();
    for (k, v) in pairs {
        if let Some(i) = fs.iter().position(|f| f.name == k) {
            if out[i].is_some() { return None; }
            let s = std::str::from_utf8(&v).ok()?;
            out[i] = Some(Atom::parse(fs[i].kind, s)?);
        }
    }
    for (f, o) in fs.iter().zip(&out) { if o.is_none() && !f.optional { return None; } }
    Some(out)
}
