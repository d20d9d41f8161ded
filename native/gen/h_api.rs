use super::*;
use crate::vp_util::*;
use serde_json::{json, Value};
use std::result::Result;

fn show(s: &GenerationSettings) -> Vec<String> {
    let t = |x: &Option<proc_macro2::TokenStream>| format!("{:?}", x.as_ref().map(|x| x.to_string()));
    let impls = |x: &Vec<crate::TypeImpl>| {
        let mut v: Vec<_> = x.iter().map(|x| format!("{x:?}")).collect();
        v.sort();
        v.join("+")
    };
    let mut out = vec![
        format!("interface {}", matches!(s.interface, InterfaceStyle::Builder)),
        format!("tags {}", matches!(s.tag, TagStyle::Separate)),
        format!("inner_type {}", t(&s.inner_type)),
        format!("pre_hook {}", t(&s.pre_hook)),
        format!("pre_hook_async {}", t(&s.pre_hook_async)),
        format!("post_hook {}", t(&s.post_hook)),
        format!("post_hook_async {}", t(&s.post_hook_async)),
        format!("map_type {:?}", s.map_type),
        format!("unknown_crates {:?}", s.unknown_crates),
        format!("derives {:?}", s.extra_derives),
        format!("convert {:?}", s.convert.iter().map(|(a, b, c)| (serde_json::to_string(a).unwrap(), b, impls(c))).collect::<Vec<_>>()),
    ];
    let mut more: Vec<String> = s.crates.iter().map(|(k, v)| format!("crate {k} {v:?}")).collect();
    more.extend(s.patch.iter().map(|(k, v)| format!("patch {k} {v:?}")));
    more.extend(s.replace.iter().map(|(k, v)| format!("replace {k} {} {}", v.0, impls(&v.1))));
    more.sort();
    out.extend(more);
    out
}

fn text(s: &str) -> String {
    // as tokens are printed
    s.parse::<proc_macro2::TokenStream>().unwrap().to_string()
}

/// the settings the options ask for
fn want(o: &Value) -> GenerationSettings {
    let mut s = GenerationSettings::default();
    let t = |k: &str| o[k].as_str().map(|x| x.parse::<proc_macro2::TokenStream>().unwrap());
    if o["interface"] == "Builder" {
        s.interface = InterfaceStyle::Builder;
    }
    if o["tags"] == "Separate" {
        s.tag = TagStyle::Separate;
    }
    s.inner_type = t("inner_type");
    s.pre_hook = t("pre_hook");
    s.pre_hook_async = t("pre_hook_async");
    s.post_hook = t("post_hook");
    s.post_hook_async = t("post_hook_async");
    s.map_type = o["map_type"].as_str().map(text);
    s.unknown_crates = match o["unknown_crates"].as_str() {
        Some("Allow") => UnknownPolicy::Allow,
        Some("Deny") => UnknownPolicy::Deny,
        _ => UnknownPolicy::Generate,
    };
    for d in o["derives"].as_array().into_iter().flatten() {
        s.extra_derives.push(text(d.as_str().unwrap()));
    }
    for (k, v) in o["crates"].as_object().into_iter().flatten() {
        let v = v.as_str().unwrap();
        match v.split_once('@') {
            Some((a, v)) => s.crates.insert(a.to_string(), crate::CrateSpec { version: CrateVers::parse(v).unwrap(), rename: Some(k.clone()) }),
            None => s.crates.insert(k.clone(), crate::CrateSpec { version: CrateVers::parse(v).unwrap(), rename: None }),
        };
    }
    for (k, v) in o["patch"].as_object().into_iter().flatten() {
        let mut p = TypePatch::default();
        if let Some(r) = v["rename"].as_str() {
            p.with_rename(r);
        }
        for d in v["derives"].as_array().into_iter().flatten() {
            p.with_derive(text(d.as_str().unwrap()));
        }
        s.patch.insert(k.clone(), p);
    }
    let ty = |v: &str| {
        let (n, i) = v.split_once(" : ").unwrap_or((v, ""));
        let mut all = vec!["FromStr", "Display"];
        for x in i.split('+').map(str::trim).filter(|x| !x.is_empty()) {
            match x.strip_prefix('?') {
                Some(x) => all.retain(|y| *y != x),
                None => all.push(x),
            }
        }
        all.sort();
        all.dedup();
        (text(n), all.into_iter().filter_map(|x| x.parse().ok()).collect::<Vec<crate::TypeImpl>>())
    };
    for (k, v) in o["replace"].as_object().into_iter().flatten() {
        s.replace.insert(k.clone(), ty(v.as_str().unwrap()));
    }
    for x in o["convert"].as_array().into_iter().flatten() {
        let (n, i) = ty(x[1].as_str().unwrap());
        s.convert.push((serde_json::from_value(x[0].clone()).unwrap(), n, i));
    }
    s
}

fn some(c: &mut Ctx, from: &[&str], max: usize) -> Vec<String> {
    let n = c.rng.below(max + 1);
    (0..n).map(|_| from[c.rng.below(from.len())].to_string()).collect()
}

fn options(c: &mut Ctx, k: usize) -> Value {
    let mut o = json!({});
    let on = |c: &mut Ctx, i: usize| if k < 32 { k % 16 == i } else { c.rng.below(2) == 0 };
    if on(c, 0) { o["interface"] = json!(["Positional", "Builder"][(k / 16 + 1) & 1]) }
    // separate tags need the builder style
    if on(c, 1) { o["tags"] = json!("Separate"); o["interface"] = json!("Builder") }
    for (i, n, v) in [(2, "inner_type", "my :: Inner < u8 >"), (3, "pre_hook", "a :: before"), (4, "pre_hook_async", "| x , y | async { b }"), (5, "post_hook", "| r | c :: after ( r )"), (6, "post_hook_async", "d :: later"), (7, "map_type", ":: e :: Map")] {
        if on(c, i) { o[n] = json!(v) }
    }
    if on(c, 8) { o["unknown_crates"] = json!(["Allow", "Deny"][(k / 16) & 1]) }
    if on(c, 9) { o["derives"] = json!(some(c, &["Hash", "a :: B", "PartialOrd", "Hash"], 4)) }
    if on(c, 10) {
        for n in some(c, &["a", "b-c", "d_e", "F"], 3) {
            // the originals are all different
            o["crates"][&n] = json!(*["1.2.3".to_string(), "*".into(), "!".into(), format!("x{n}@0.1.0"), format!("y-{n}@*")].get(c.rng.below(5)).unwrap())
        }
    }
    if on(c, 11) {
        for n in some(c, &["T", "U", "V"], 3) {
            o["patch"][&n] = json!({});
            if c.rng.below(2) == 0 { o["patch"][&n]["rename"] = json!(format!("{n}2")) }
            if c.rng.below(2) == 0 { o["patch"][&n]["derives"] = json!(some(c, &["Hash", "a :: B", "Copy"], 3)) }
        }
    }
    let tys = ["x :: Y", "x :: Y : ?Display", "Z : FromStr + Display", "W : ?FromStr + ?Display", "Q : Default", "R : ?FromStr + FromStr"];
    if on(c, 12) {
        for n in some(c, &["T", "U", "V", "W"], 3) {
            o["replace"][&n] = json!(tys[c.rng.below(tys.len())])
        }
    }
    if on(c, 13) {
        o["convert"] = json!([]);
        for n in some(c, &["a", "b", "c"], 3) {
            let t = tys[c.rng.below(tys.len())];
            o["convert"].as_array_mut().unwrap().push(json!([{"type": "string", "format": n}, t]))
        }
    }
    o
}

pub fn run(c: &mut Ctx, _: &str) {
    let dir = std::path::PathBuf::from(std::env::current_exe().unwrap().parent().unwrap()).join(format!("api-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::env::set_var("CARGO_MANIFEST_DIR", &dir);
    let doc = |t: &str| json!({"openapi": "3.0.3", "info": {"title": t, "version": "1"}, "paths": {"/a": {"get": {"operationId": format!("get_{t}"), "tags": ["x"], "responses": {"204": {"description": "d"}}}}}});
    let files = [("one.json", doc("one").to_string()), ("sub/two.yaml", format!("# a comment\n{}", doc("two"))), ("bad.json", "nothing".to_string()), ("none.json", String::new()), ("ids.json", json!({"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": {"/a": {"get": {"responses": {}}}}}).to_string())];
    for (n, t) in &files {
        if !t.is_empty() {
            std::fs::write(dir.join(n), t).unwrap();
        }
    }
    let n = c.scale(400, 6000);
    for k in 0..n {
        let (f, t) = if k < 40 { &files[k % 2] } else { &files[[0, 1, 0, 1, 2, 3, 4][c.rng.below(7)]] };
        let mut o = options(c, k);
        let plain = k % 7 == 6;
        if plain {
            o = json!({});
        }
        let set = want(&o);
        let item: proc_macro2::TokenStream = if plain {
            format!("{f:?}").parse().unwrap()
        } else {
            let mut o = o.clone();
            o["spec"] = json!(format!("{f:?}"));
            format!("options {:?}", o.to_string()).parse().unwrap()
        };
        let api: Option<OpenAPI> = serde_json::from_str(&t.lines().filter(|l| !l.starts_with('#')).collect::<Vec<_>>().join("\n")).ok();
        let path = dir.join(f).to_string_lossy().to_string();
        c.case(
            || format!("{f} {o}"),
            || {
                SEEN.with(|x| x.borrow_mut().clear());
                let got = do_generate_api(item);
                let code = api.as_ref().and_then(|d| crate::Generator::new(&set).generate_tokens(d).ok());
                let Some(code) = code else {
                    return if got.is_ok() { Err("there is no code, but the macro gives some".to_string()) } else { Ok(()) };
                };
                let got: proc_macro2::TokenStream = got.map_err(|e| format!("refused: {e}"))?.into();
                let seen = SEEN.with(|x| x.borrow().last().cloned()).ok_or("no generator was made")?;
                eq("settings", show(&seen), show(&set))?;
                let file: syn::File = syn::parse2(got).map_err(|e| e.to_string())?;
                let made: syn::File = syn::parse2(code).map_err(|e| e.to_string())?;
                let items: Vec<String> = file.items.iter().map(|x| x.to_token_stream().to_string()).collect();
                for x in &made.items {
                    let x = x.to_token_stream().to_string();
                    if !items.contains(&x) {
                        return Err(format!("the code lacks {}", x.chars().take(200).collect::<String>()));
                    }
                }
                let rest: Vec<String> = {
                    let mut v = items.clone();
                    for x in &made.items {
                        let x = x.to_token_stream().to_string();
                        let i = v.iter().position(|y| *y == x).unwrap();
                        v.remove(i);
                    }
                    v
                };
                let inc = format!("include_str ! ({path:?})");
                if !rest.iter().any(|x| x.replace(' ', "").contains(&inc.replace(' ', ""))) {
                    return Err(format!("the file is no input of the compilation: {rest:?}"));
                }
                if !rest.iter().any(|x| x.replace(' ', "").contains("useprogenitor::progenitor_client")) {
                    return Err(format!("the support code is not in reach: {rest:?}"));
                }
                eq("what is around the code", rest.len(), 2)
            },
        );
    }
    let _ = std::fs::remove_dir_all(&dir);
}
