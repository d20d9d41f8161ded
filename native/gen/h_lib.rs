use super::*;
use crate::vp_util::*;
use std::result::Result;

#[derive(Default, Debug, Clone, PartialEq)]
struct Model {
    builder: bool,
    separate: bool,
    hooks: [Option<String>; 5],
    derives: Vec<String>,
    map_type: Option<String>,
    unknown: u8,
    crates: BTreeMap<String, (String, Option<String>)>,
    patch: BTreeMap<String, String>,
    replace: BTreeMap<String, (String, String)>,
    convert: Vec<(String, String, String)>,
}

fn read(s: &GenerationSettings) -> Model {
    let t = |t: &Option<TokenStream>| t.as_ref().map(|t| t.to_string());
    Model {
        builder: matches!(s.interface, InterfaceStyle::Builder),
        separate: matches!(s.tag, TagStyle::Separate),
        hooks: [t(&s.inner_type), t(&s.pre_hook), t(&s.pre_hook_async), t(&s.post_hook), t(&s.post_hook_async)],
        derives: s.extra_derives.clone(),
        map_type: s.map_type.clone(),
        unknown: policy_no(s.unknown_crates),
        crates: s.crates.iter().map(|(k, c)| (k.clone(), (format!("{:?}", c.version), c.rename.clone()))).collect(),
        patch: s.patch.iter().map(|(k, p)| (k.clone(), format!("{p:?}"))).collect(),
        replace: s.replace.iter().map(|(k, (n, i))| (k.clone(), (n.clone(), format!("{i:?}")))).collect(),
        convert: s.convert.iter().map(|(o, n, i)| (format!("{o:?}"), n.clone(), format!("{i:?}"))).collect(),
    }
}

/// what the type generator was told
fn told(g: &Generator) -> Model {
    let s = &g.type_space.settings;
    Model {
        builder: s.struct_builder,
        derives: s.derives.clone(),
        map_type: s.map_type.clone(),
        unknown: policy_no(s.unknown),
        crates: s.crates.iter().map(|(k, v, r)| (k.clone(), (format!("{v:?}"), r.clone()))).collect(),
        patch: s.patches.iter().map(|(k, p)| (k.clone(), format!("{p:?}"))).collect(),
        replace: s.replace.iter().map(|(k, n, i)| (k.clone(), (n.clone(), format!("{i:?}")))).collect(),
        convert: s.convert.iter().map(|(o, n, i)| (format!("{o:?}"), n.clone(), format!("{i:?}"))).collect(),
        ..Default::default()
    }
}

fn policy_no(p: UnknownPolicy) -> u8 {
    match p {
        UnknownPolicy::Generate => 0,
        UnknownPolicy::Allow => 1,
        _ => 2,
    }
}
fn policy(n: u8) -> UnknownPolicy {
    [UnknownPolicy::Generate, UnknownPolicy::Allow, UnknownPolicy::Deny][n as usize]
}

fn settings(c: &mut Ctx) {
    let names = ["a", "b", "serde", "Foo", "", "é"];
    for i in 0..c.scale(3000, 60_000) {
        let n = c.rng.below(10);
        let ops: Vec<(usize, usize, usize, usize)> = (0..n).map(|_| (c.rng.below(14), c.rng.below(6), c.rng.below(6), c.rng.below(3))).collect();
        let key = format!("{i} {ops:?}");
        c.case(
            || key,
            || {
                let mut s = GenerationSettings::new();
                let mut m = read(&s);
                eq("new settings", m.clone(), Model::default())?;
                for &(op, a, b, k) in &ops {
                    let (x, y) = (names[a], names[b]);
                    let imps: Vec<TypeImpl> = [TypeImpl::FromStr, TypeImpl::Display, TypeImpl::Default].into_iter().take(k).collect();
                    let tok: TokenStream = format!("f{a}::<{b}>").parse().unwrap();
                    let r: &mut GenerationSettings = match op {
                        0 => {
                            m.builder = k != 1;
                            s.with_interface(if k == 1 { InterfaceStyle::Positional } else { InterfaceStyle::Builder })
                        }
                        1 => {
                            m.separate = k != 1;
                            s.with_tag(if k == 1 { TagStyle::Merged } else { TagStyle::Separate })
                        }
                        2 => {
                            m.hooks[0] = Some(tok.to_string());
                            s.with_inner_type(tok)
                        }
                        3 => {
                            m.hooks[1] = Some(tok.to_string());
                            s.with_pre_hook(tok)
                        }
                        4 => {
                            m.hooks[2] = Some(tok.to_string());
                            s.with_pre_hook_async(tok)
                        }
                        5 => {
                            m.hooks[3] = Some(tok.to_string());
                            s.with_post_hook(tok)
                        }
                        6 => {
                            m.hooks[4] = Some(tok.to_string());
                            s.with_post_hook_async(tok)
                        }
                        7 => {
                            m.derives.push(x.to_string());
                            s.with_derive(x)
                        }
                        8 => {
                            let mut p = TypePatch::default();
                            p.with_rename(y);
                            for _ in 0..k {
                                p.with_derive("D");
                            }
                            m.patch.insert(x.to_string(), format!("{p:?}"));
                            s.with_patch(x, &p)
                        }
                        9 => {
                            m.replace.insert(x.to_string(), (y.to_string(), format!("{imps:?}")));
                            s.with_replacement(x, y, imps.into_iter())
                        }
                        10 => {
                            let o = schemars::schema::SchemaObject { format: Some(y.to_string()), ..Default::default() };
                            m.convert.push((format!("{o:?}"), x.to_string(), format!("{imps:?}")));
                            s.with_conversion(o, x, imps.into_iter())
                        }
                        11 => {
                            m.unknown = k as u8;
                            s.with_unknown_crates(policy(k as u8))
                        }
                        12 => {
                            let v = CrateVers::parse(["1.2.3", "0.1.0", "*"][k]).unwrap();
                            let ren = (b > 2).then(|| y.to_string());
                            m.crates.insert(x.to_string(), (format!("{v:?}"), ren.clone()));
                            s.with_crate(x, v, ren.as_ref())
                        }
                        _ => {
                            m.map_type = Some(y.to_string());
                            s.with_map_type(y)
                        }
                    };
                    eq("settings", read(r), m.clone())?;
                }
                eq("settings", read(&s), m.clone())?;
                let g = Generator::new(&s);
                eq("settings kept by the generator", read(&g.settings), m.clone())?;
                let want = Model { separate: false, hooks: Default::default(), ..m };
                eq("settings handed to the type generator", told(&g), want)
            },
        );
    }
}

/// the parts of White_Space that occur here, from the Unicode tables
fn white(x: char) -> bool {
    matches!(x, '\t'..='\r' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

fn supported(v: &str) -> bool {
    let cs: Vec<char> = v.chars().collect();
    let a = cs.iter().position(|x| !white(*x)).unwrap_or(cs.len());
    let b = cs.iter().rposition(|x| !white(*x)).map_or(a, |x| x + 1);
    let t = &cs[a..b.max(a)];
    t.len() >= 4 && t[..4] == ['3', '.', '0', '.']
}

fn version_case(c: &mut Ctx, v: String) {
    c.case(
        || format!("version {v:?}"),
        || {
            let d = OpenAPI { openapi: v.clone(), ..Default::default() };
            match validate_openapi(&d) {
                Ok(()) if supported(&v) => Ok(()),
                Err(Error::UnexpectedFormat(m)) if !supported(&v) && m.contains(&v) => Ok(()),
                r => Err(format!("got {r:?}")),
            }
        },
    );
}

fn versions(c: &mut Ctx) {
    let alpha = ['3', '.', '0', ' ', '1', '\n', '\u{a0}', '\u{200b}', 'x'];
    let deep = c.scale(5, 6);
    let mut all = vec![String::new()];
    let mut i = 0;
    while i < all.len() {
        let s = all[i].clone();
        i += 1;
        version_case(c, s.clone());
        if s.chars().count() < deep {
            all.extend(alpha.iter().map(|a| format!("{s}{a}")));
        }
    }
    for x in 0..40 {
        for t in ["3.0.0", "3.0.3", "3.0.", "3.0", "3.1.0", "2.0", "v3.0.1", "3.0.0-rc1", "3.0.x y", "3,0.0", "03.0.0", "3.00.0", "3.0.\u{e9}", "\u{ff13}.0.0"] {
            let n = c.rng.below(3);
            let a: String = (0..n).map(|_| c.rng.ch()).collect();
            let w = [" ", "\t", "\r\n", "\u{3000}", "\u{feff}", "", "\u{85}"][x % 7];
            version_case(c, format!("{w}{t}{a}"));
            version_case(c, format!("{w}{t}{w}"));
            version_case(c, format!("{a}{t}"));
        }
    }
}

fn documents(c: &mut Ctx) {
    let methods = ["get", "put", "post", "delete", "options", "head", "patch", "trace"];
    for i in 0..c.scale(6000, 100_000) {
        let mut paths = serde_json::Map::new();
        let (mut ids, mut fine) = (vec![], true);
        let pool = [2, 6, 40][c.rng.below(3)];
        let n = c.rng.below(6);
        for k in 0..n {
            if c.rng.below(25) == 0 {
                fine = false;
                paths.insert(format!("/p{k}"), serde_json::json!({"$ref": "#/paths/other"}));
                continue;
            }
            let mut item = serde_json::Map::new();
            for m in methods {
                if c.rng.below(4) != 0 {
                    continue;
                }
                let mut op = serde_json::json!({"responses": {}});
                if c.rng.below(30) == 0 {
                    fine = false;
                } else {
                    let id = match c.rng.below(12) {
                        0 => String::new(),
                        1 => "Op 1".to_string(),
                        2 => "op-1".to_string(),
                        _ => format!("op{}", c.rng.below(pool)),
                    };
                    op["operationId"] = serde_json::json!(id);
                    fine &= !ids.contains(&id);
                    ids.push(id);
                }
                item.insert(m.to_string(), op);
            }
            paths.insert(format!("/p{k}"), serde_json::Value::Object(item));
        }
        let version = if c.rng.below(20) == 0 { "3.1.0" } else { "3.0.0" };
        let fine = fine && version == "3.0.0";
        let doc = serde_json::json!({"openapi": version, "info": {"title": "t", "version": "1"}, "paths": paths});
        c.case(
            || format!("{i} {doc}"),
            || {
                let d: OpenAPI = serde_json::from_value(doc.clone()).map_err(|e| e.to_string())?;
                match validate_openapi(&d) {
                    Ok(()) if fine => Ok(()),
                    Err(Error::UnexpectedFormat(_)) if !fine => Ok(()),
                    r => Err(format!("expected {}, got {r:?}", if fine { "acceptance" } else { "a format error" })),
                }
            },
        );
    }
}

pub fn run(c: &mut Ctx, p: &str) {
    match p {
        "G11" => settings(c),
        "G12" => versions(c),
        "G23" => documents(c),
        _ => {}
    }
}
