use super::*;
use crate::vp_util::*;
use std::result::Result;

fn unique(c: &mut Ctx) {
    let bases = ["client", "request", "url", "result", "response", "x", "_", "_x", "__x", "é"];
    for i in 0..c.scale(8000, 150_000) {
        let b = bases[c.rng.below(bases.len())];
        let mut taken: Vec<String> = vec![];
        for _ in 0..c.rng.below(9) {
            let w = if c.rng.below(4) == 0 { bases[c.rng.below(bases.len())] } else { b };
            let n = c.rng.below(7);
            taken.push(format!("{}{w}", "_".repeat(n)));
        }
        if c.rng.below(3) == 0 {
            for k in 0..c.rng.below(12) {
                taken.push(format!("{}{b}", "_".repeat(k)));
            }
        }
        let ids: Vec<proc_macro2::Ident> = taken.iter().map(|t| quote::format_ident!("{}", t)).collect();
        let want = (0..).map(|k| format!("{}{b}", "_".repeat(k))).find(|w| !taken.contains(w)).unwrap();
        c.case(|| format!("{i} {b} {taken:?}"), || eq("identifier", unique_ident_from(b, &ids).to_string(), want));
    }
}

const RESERVED: &str = "_ abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return Self self static struct super trait true try type typeof unsafe unsized use virtual where while yield";

fn valid(s: &str) -> Result<(), String> {
    let mut cs = s.chars();
    match cs.next() {
        None => return Err("empty".into()),
        Some(x) if is_xid_start(x) || x == '_' => {}
        Some(x) => return Err(format!("{s:?} starts with {x:?}")),
    }
    if let Some(x) = cs.find(|x| !is_xid_continue(*x)) {
        return Err(format!("{s:?} contains {x:?}"));
    }
    if RESERVED.split(' ').any(|r| r == s) {
        return Err(format!("{s:?} is reserved"));
    }
    syn::parse_str::<syn::Ident>(s).map_err(|e| format!("{s:?}: {e}"))?;
    Ok(())
}

fn names(c: &mut Ctx) {
    let mut all: Vec<String> = vec!["".into(), "+1".into(), "-1".into(), "+ 1".into(), "1".into(), "--".into(), "'".into(), "_".into(), "__".into(), "_1".into(), "1a".into()];
    for r in RESERVED.split(' ') {
        for (a, b) in [("", ""), ("_", ""), ("", "_"), ("-", ""), ("'", "'"), (" ", " "), ("", "-")] {
            all.push(format!("{a}{r}{b}"));
        }
        all.push(r.to_uppercase());
        let mut t = r.to_string();
        t[..1].make_ascii_uppercase();
        all.push(t);
    }
    // every character alone, first and last: this is also where the assumed contracts of heck, unicode-ident and syn are tested
    let step = c.scale(11, 1) as u32;
    let from = c.rng.below(step as usize) as u32;
    let mut batch = vec![];
    for x in (0..0x3000u32).chain((0x3000 + from..=0x10ffff).step_by(step as usize)).filter_map(char::from_u32) {
        batch.push(x);
        if batch.len() == 1024 || x as u32 + step > char::MAX as u32 {
            let b = std::mem::take(&mut batch);
            c.case(
                || format!("characters from {:?}", b[0]),
                || {
                    for x in &b {
                        for s in [format!("{x}"), format!("{x}a"), format!("a{x}"), format!("a{x}b")] {
                            for k in [true, false] {
                                let out = sanitize(&s, if k { Case::Pascal } else { Case::Snake });
                                valid(&out).map_err(|e| format!("{s:?}: {e}"))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for _ in 0..c.scale(20_000, 400_000) {
        let s = c.rng.string(10);
        all.push(s);
    }
    for s in all {
        c.case(
            || format!("{s:?}"),
            || {
                for k in [true, false] {
                    let out = sanitize(&s, if k { Case::Pascal } else { Case::Snake });
                    valid(&out)?;
                    match s.as_str() {
                        "+1" => eq("sanitized", out, "plus1".to_string())?,
                        "-1" => eq("sanitized", out, "minus1".to_string())?,
                        _ => {}
                    }
                }
                Ok(())
            },
        );
    }
}

fn refs(c: &mut Ctx) {
    use openapiv3::*;
    for i in 0..c.scale(4000, 60_000) {
        let keys = ["a", "b", "c", "a/b", "Error", "é", "", "x y"];
        let mut comps = Components::default();
        // key k points to a later key or is an item marked with its kind and key
        let n = 2 + c.rng.below(keys.len() - 1);
        let next: Vec<Option<usize>> = (0..n).map(|k| if k + 1 < n && c.rng.below(2) == 0 { Some(k + 1 + c.rng.below(n - k - 1)) } else { None }).collect();
        let ends = |mut k: usize| {
            while let Some(j) = next[k] {
                k = j;
            }
            k
        };
        let slash = |s: &str| s.contains('/');
        for (k, key) in keys.iter().enumerate().take(n) {
            let to = next[k].map(|j| keys[j].to_string());
            let mark = |kind: &str| format!("{kind} {key}");
            let r = |section: &str| to.as_ref().map(|t| format!("#/components/{section}/{t}"));
            fn put<T>(m: &mut IndexMap<String, ReferenceOr<T>>, key: &str, r: Option<String>, v: T) {
                m.insert(
                    key.to_string(),
                    match r {
                        Some(reference) => ReferenceOr::Reference { reference },
                        None => ReferenceOr::Item(v),
                    },
                );
            }
            let par: Parameter = serde_json::from_value(serde_json::json!({"in": "query", "name": mark("p"), "schema": {"type": "string"}})).unwrap();
            put(&mut comps.parameters, key, r("parameters"), par);
            put(&mut comps.request_bodies, key, r("requestBodies"), RequestBody { description: Some(mark("b")), ..Default::default() });
            put(&mut comps.responses, key, r("responses"), Response { description: mark("r"), ..Default::default() });
            let mut sch: Schema = serde_json::from_value(serde_json::json!({"type": "string"})).unwrap();
            sch.schema_data.description = Some(mark("s"));
            put(&mut comps.schemas, key, r("schemas"), sch);
        }
        let k = c.rng.below(n);
        // only keys that are the last part of a reference can be named
        if slash(keys[k]) || (0..n).any(|j| slash(keys[j]) && { let mut q = k; let mut hit = q == j; while let Some(x) = next[q] { q = x; hit |= q == j; } hit }) {
            continue;
        }
        let want = keys[ends(k)].to_string();
        let sections = ["", "#/components/", "other.json#/x/y/z/"];
        let pre = sections[c.rng.below(3)].to_string();
        let comps = Some(comps);
        c.case(
            || format!("{i} {next:?} {k} {pre:?}"),
            || {
                let reference = format!("{pre}/{}", keys[k]);
                let p: ReferenceOr<Parameter> = ReferenceOr::Reference { reference: reference.clone() };
                eq("parameter", p.item(&comps).map_err(|e| e.to_string())?.parameter_data_ref().name.clone(), format!("p {want}"))?;
                let p: ReferenceOr<RequestBody> = ReferenceOr::Reference { reference: reference.clone() };
                eq("request body", p.item(&comps).map_err(|e| e.to_string())?.description.clone(), Some(format!("b {want}")))?;
                let p: ReferenceOr<Response> = ReferenceOr::Reference { reference: reference.clone() };
                eq("response", p.item(&comps).map_err(|e| e.to_string())?.description.clone(), format!("r {want}"))?;
                let p: ReferenceOr<Schema> = ReferenceOr::Reference { reference };
                eq("schema", p.item(&comps).map_err(|e| e.to_string())?.schema_data.description.clone(), Some(format!("s {want}")))?;
                let here = Response { description: "here".into(), ..Default::default() };
                let p = ReferenceOr::Item(here);
                eq("inline", p.item(&comps).map_err(|e| e.to_string())?.description.clone(), "here".to_string())?;
                eq("inline, no components", p.item(&None).map_err(|e| e.to_string())?.description.clone(), "here".to_string())
            },
        );
    }
}

pub fn run(c: &mut Ctx, p: &str) {
    match p {
        "G09" => unique(c),
        "G10" => names(c),
        "G17" => refs(c),
        _ => {}
    }
}
