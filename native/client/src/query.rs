use crate::rec::*;
use crate::util::*;
use progenitor_client::QueryParam;
use serde::Serialize;
use std::cell::Cell;

const NAMES: &[&str] = &["", "a", "Thing", "color", "r#type", "na me", "x&y=z", "\u{e9}t\u{e9}"];

fn scalar(r: &mut Rng) -> Tree {
    match r.below(15) {
        0 => Tree::Bool(r.below(2) == 0),
        1 => Tree::I8(r.next() as i8),
        2 => Tree::I16(r.next() as i16),
        3 => Tree::I32(r.next() as i32),
        4 => Tree::I64(r.next() as i64),
        5 => Tree::U8(r.next() as u8),
        6 => Tree::U16(r.next() as u16),
        7 => Tree::U32(r.next() as u32),
        8 => Tree::U64(r.next()),
        9 => Tree::F32(r.next() as u32 & !0x7fc0_0000 | 0x3f00_0000),
        10 => Tree::F64(r.next() & !0x7ff8_0000_0000_0000 | 0x3fe0_0000_0000_0000),
        11 => Tree::Char(r.ch()),
        12 => Tree::UnitVariant(NAMES[r.below(8)], r.below(9) as u32, NAMES[r.below(8)]),
        _ => Tree::Str(r.string(6)),
    }
}
const SCALARS: &[Tree] = &[
    Tree::Bool(true), Tree::Bool(false), Tree::I8(-128), Tree::I8(127), Tree::I16(i16::MIN), Tree::I32(i32::MIN), Tree::I32(i32::MAX),
    Tree::I64(i64::MIN), Tree::I64(i64::MAX), Tree::I64(-1), Tree::U8(255), Tree::U16(65535), Tree::U32(u32::MAX), Tree::U64(u64::MAX),
    Tree::U64(0), Tree::F32(0x3fc00000), Tree::F64(0x3ff8000000000000), Tree::F64(0x7ff0000000000000), Tree::F32(0x7f800000),
    Tree::F64(0x3fb999999999999a), Tree::Char('x'), Tree::Char('\u{1F600}'), Tree::Char('\0'), Tree::I8(0), Tree::I16(0), Tree::I32(0), Tree::I64(0),
    Tree::U8(0), Tree::U16(0), Tree::U32(0), Tree::F32(0), Tree::F64(0), Tree::F64(0x8000000000000000),
];

fn any(r: &mut Rng, d: usize) -> Tree {
    if d == 0 || r.below(3) == 0 {
        return scalar(r);
    }
    let n = NAMES[r.below(8)];
    let m = NAMES[r.below(8)];
    let i = r.below(5) as u32;
    let k = r.below(4);
    let kids: Vec<Tree> = (0..k).map(|_| any(r, d - 1)).collect();
    match r.below(15) {
        0 => Tree::Bytes((0..k).map(|_| r.next() as u8).collect()),
        1 => Tree::None,
        2 => Tree::Some(Box::new(any(r, d - 1))),
        3 => Tree::Unit,
        4 => Tree::UnitStruct(n),
        5 => Tree::NewtypeStruct(n, Box::new(any(r, d - 1))),
        6 => Tree::NewtypeVariant(n, i, m, Box::new(any(r, d - 1))),
        7 | 8 => Tree::Seq(if r.below(2) == 0 { Some(k) } else { None }, kids),
        9 => Tree::Tuple(k, kids),
        10 => Tree::TupleStruct(n, k, kids),
        11 => Tree::TupleVariant(n, i, m, k, kids),
        12 => Tree::Map(if r.below(2) == 0 { Some(k) } else { None }, kids.into_iter().map(|x| (scalar(r), x)).collect()),
        13 => Tree::Struct(n, k, kids.into_iter().map(|x| (NAMES[r.below(8)], x)).collect()),
        _ => Tree::StructVariant(n, i, m, k, kids.into_iter().map(|x| (NAMES[r.below(8)], x)).collect()),
    }
}

fn group(t: &Tree) -> &'static str {
    match t {
        Tree::Some(x) => match group(x) {
            "C02" => "C02",
            g => g,
        },
        Tree::Seq(..) => "C03",
        Tree::None | Tree::Unit | Tree::UnitStruct(_) | Tree::Bytes(_) | Tree::NewtypeStruct(..) | Tree::NewtypeVariant(..) | Tree::Tuple(..)
        | Tree::TupleStruct(..) | Tree::TupleVariant(..) | Tree::Map(..) | Tree::Struct(..) | Tree::StructVariant(..) => "C04",
        _ => "C02",
    }
}

enum Want {
    /// exactly these pairs; a length hint, if the value had one to pass on
    Pairs(Vec<Tree>, Option<Option<usize>>),
    Same(Tree),
}
fn want(t: &Tree) -> Want {
    match t {
        Tree::Some(x) => want(x),
        Tree::Seq(l, v) => Want::Pairs(v.clone(), Some(*l)),
        Tree::UnitVariant(_, _, v) => Want::Pairs(vec![Tree::Str(v.to_string())], None),
        Tree::NewtypeVariant(n, _, v, x) => Want::Same(Tree::Struct(n, 1, vec![(v, (**x).clone())])),
        _ if group(t) == "C04" => Want::Same(t.clone()),
        _ => Want::Pairs(vec![t.clone()], None),
    }
}
fn list(t: &Tree) -> Option<&Vec<Tree>> {
    match t {
        Tree::Seq(_, v) | Tree::Tuple(_, v) => Some(v),
        _ => None,
    }
}
fn check(name: &str, t: &Tree) -> Result<(), String> {
    let budget = Cell::new(-1);
    let got = QueryParam::new(name, t).serialize(Rec { budget: &budget }).map_err(|e| format!("unexpected error {e}"))?;
    let steps = -1 - budget.get();
    match want(t) {
        Want::Same(w) => eq("what the serializer was handed", &got, &w)?,
        Want::Pairs(vs, hint) => {
            let l = list(&got).ok_or_else(|| format!("not a list of pairs: {got:?}"))?;
            let w: Vec<Vec<Tree>> = vs.iter().map(|v| vec![Tree::Str(name.to_string()), v.clone()]).collect();
            let g: Vec<Vec<Tree>> = l.iter().map(|p| list(p).cloned().unwrap_or_else(|| vec![p.clone()])).collect();
            eq("pairs", g, w)?;
            if let (Some(h), Tree::Seq(gh, _)) = (hint, &got) {
                eq("sequence length handed over", *gh, h)?;
            }
        }
    }
    // every error of the serializer below comes back unchanged
    for b in (0..steps).step_by(1 + steps as usize / 400) {
        let budget = Cell::new(b);
        let r = QueryParam::new(name, t).serialize(Rec { budget: &budget });
        eq(&format!("result when step {b} below fails"), r, Err(Fail(7)))?;
    }
    Ok(())
}

/// a value that fails to serialize after n good elements
struct Bad(usize);
impl Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        let mut q = s.serialize_seq(None)?;
        for i in 0..self.0 {
            q.serialize_element(&i)?;
        }
        struct E;
        impl Serialize for E {
            fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
                Err(S::Error::custom("bad element"))
            }
        }
        q.serialize_element(&E)?;
        q.end()
    }
}

fn url_pairs<T: Serialize>(name: &str, v: &T) -> Result<Vec<(String, String)>, String> {
    let c = reqwest::Client::new();
    let r = c.get("http://h/").query(&QueryParam::new(name, v)).build().map_err(|e| e.to_string())?;
    Ok(r.url().query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect())
}

pub fn run(c: &mut Ctx, prop: &str) {
    let names = ["q", "", "na me", "x&y=z", "\u{e9}", "a[]", "f[x]", "a.b", " a ", "ids,", "A", "+", "r#type", "_", "-", "a?", "[]"];
    let mut cases: Vec<(String, Tree)> = vec![];
    for n in names {
        for s in SCALARS {
            cases.push((n.into(), s.clone()));
            cases.push((n.into(), Tree::Some(Box::new(s.clone()))));
            cases.push((n.into(), Tree::Some(Box::new(Tree::Some(Box::new(s.clone()))))));
            cases.push((n.into(), Tree::Seq(None, vec![s.clone(), s.clone()])));
        }
        for s in ["", "a", "a b", "a,b", "a&b=c", "%41", "+", "\u{4e2d}"] {
            cases.push((n.into(), Tree::Str(s.into())));
        }
        cases.push((n.into(), Tree::UnitVariant("Color", 3, "red")));
        cases.push((n.into(), Tree::Some(Box::new(Tree::UnitVariant("Color", 3, "red")))));
        for l in 0..12 {
            for h in [None, Some(l)] {
                cases.push((n.into(), Tree::Seq(h, (0..l).map(|i| Tree::U32(i as u32 / 2)).collect())));
            }
        }
    }
    for l in [31usize, 32, 33, 100, 127, 128, 255, 256, 1000, 1001, 4097, 65537] {
        cases.push(("q".into(), Tree::Seq(Some(l), vec![Tree::U8(1)])));
        cases.push(("q".into(), Tree::Seq(Some(l * 1000), vec![])));
        cases.push(("q".into(), Tree::Map(Some(l), vec![(Tree::Str("k".into()), Tree::U8(1))])));
        cases.push(("q".into(), Tree::Tuple(l, vec![Tree::U8(1)])));
        cases.push(("q".into(), Tree::Str("x".repeat(l))));
        if l < 1100 {
            cases.push(("q".into(), Tree::Seq(Some(l), (0..l).map(|i| Tree::U32(i as u32)).collect())));
            cases.push(("q".into(), Tree::Seq(None, (0..l).map(|_| Tree::Str("same".into())).collect())));
        }
    }
    let k = c.scale(6000, 200000);
    for _ in 0..k {
        let n = if c.rng.below(2) == 0 { "q".to_string() } else { c.rng.string(5) };
        let d = 1 + c.rng.below(3);
        cases.push((n, any(&mut c.rng, d)));
    }
    for (n, t) in cases {
        if group(&t) != prop {
            continue;
        }
        c.case(|| format!("{prop}:{n:?}:{t:?}"), |_| check(&n, &t));
    }
    if prop == "C03" {
        for n in 0..5 {
            c.case(|| format!("C03:failing-element:{n}"), |_| {
                let budget = Cell::new(-1);
                eq("result when an element cannot be serialized", QueryParam::new("q", &Bad(n)).serialize(Rec { budget: &budget }), Err(Fail(-1)))
            });
        }
        for n in 0..6usize {
            let v: Vec<String> = (0..n).map(|i| format!("v {i}&")).collect();
            c.case(|| format!("C03:url:{n}"), |_| {
                eq("query pairs", url_pairs("na me", &v)?, v.iter().map(|x| ("na me".to_string(), x.clone())).collect())
            });
        }
        c.case(|| "C03:url:some".into(), |_| eq("query pairs", url_pairs("q", &Some(vec![1u8, 2]))?, vec![("q".into(), "1".into()), ("q".into(), "2".into())]));
    }
    if prop == "C02" {
        #[derive(Serialize)]
        #[serde(rename_all = "kebab-case")]
        enum Color {
            DeepRed,
        }
        c.case(|| "C02:url:i64".into(), |_| eq("query", url_pairs("q", &i64::MIN)?, vec![("q".into(), i64::MIN.to_string())]));
        c.case(|| "C02:url:bool".into(), |_| eq("query", url_pairs("q", &true)?, vec![("q".into(), "true".into())]));
        c.case(|| "C02:url:str".into(), |_| eq("query", url_pairs("q", &"a b&c")?, vec![("q".into(), "a b&c".into())]));
        c.case(|| "C02:url:some".into(), |_| eq("query", url_pairs("q", &Some(Some(5u8)))?, vec![("q".into(), "5".into())]));
        c.case(|| "C02:url:enum".into(), |_| eq("query", url_pairs("q", &Color::DeepRed)?, vec![("q".into(), "deep-red".into())]));
    }
    if prop == "C04" {
        #[derive(Serialize)]
        struct P {
            a: u8,
            b: String,
        }
        c.case(|| "C04:url:struct".into(), |_| {
            eq("query", url_pairs("q", &P { a: 1, b: "x".into() })?, vec![("a".into(), "1".into()), ("b".into(), "x".into())])
        });
        #[derive(Serialize)]
        #[serde(rename_all = "lowercase")]
        enum V {
            One(u8),
        }
        c.case(|| "C04:url:newtype_variant".into(), |_| eq("query", url_pairs("q", &V::One(4))?, vec![("one".into(), "4".into())]));
        c.case(|| "C04:url:none".into(), |_| eq("query", url_pairs("q", &None::<u8>), Ok(vec![])));
    }
}
