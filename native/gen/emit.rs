//! EMIT: runs the generator on the documents of a file and writes the code it generates.
//! The file holds a list of {name, doc, interface, tag, inner, hooks: {pre, pre_async, post, post_async}, ext}.
//! ext: "mock" or "cli", what is generated for that client besides it.
use crate::{GenerationSettings, Generator, InterfaceStyle, TagStyle};
use serde_json::Value;

pub fn run(docs: &str, out: &str) {
    let all: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(docs).unwrap()).unwrap();
    std::fs::create_dir_all(out).unwrap();
    for d in &all {
        let name = d["name"].as_str().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(d)));
        let (f, text) = match r {
            Ok(Ok(t)) => (format!("{out}/{name}.rs"), t),
            Ok(Err(e)) => (format!("{out}/{name}.err"), format!("error: {e}")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (format!("{out}/{name}.err"), format!("panic: {m}"))
            }
        };
        std::fs::write(f, text).unwrap();
        if d["ext"].is_string() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ext(d, name)));
            let (f, text) = match r {
                Ok(Ok(t)) => (format!("{out}/{name}.ext"), t),
                Ok(Err(e)) => (format!("{out}/{name}.err"), format!("error: {e}")),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    (format!("{out}/{name}.err"), format!("panic: {m}"))
                }
            };
            std::fs::write(f, text).unwrap();
        }
    }
}

fn ext(d: &Value, name: &str) -> Result<String, String> {
    let (spec, s) = read(d)?;
    let mut g = Generator::new(&s);
    let path = format!("crate::{name}");
    let t = match d["ext"].as_str() {
        Some("mock") => g.httpmock(&spec, &path),
        _ => g.cli(&spec, &path),
    };
    Ok(t.map_err(|e| e.to_string())?.to_string())
}

fn one(d: &Value) -> Result<String, String> {
    let (spec, s) = read(d)?;
    let mut g = Generator::new(&s);
    let t = g.generate_tokens(&spec).map_err(|e| e.to_string())?;
    Ok(t.to_string())
}

fn read(d: &Value) -> Result<(openapiv3::OpenAPI, GenerationSettings), String> {
    let spec: openapiv3::OpenAPI = serde_json::from_value(d["doc"].clone()).map_err(|e| format!("the document cannot be read: {e}"))?;
    let mut s = GenerationSettings::new();
    if d["interface"] == "builder" {
        s.with_interface(InterfaceStyle::Builder);
    }
    if d["tag"] == "separate" {
        s.with_tag(TagStyle::Separate);
    }
    let toks = |v: &Value| v.as_str().map(|t| t.parse::<proc_macro2::TokenStream>().unwrap());
    if let Some(t) = toks(&d["inner"]) {
        s.with_inner_type(t);
    }
    if let Some(t) = toks(&d["hooks"]["pre"]) {
        s.with_pre_hook(t);
    }
    if let Some(t) = toks(&d["hooks"]["pre_async"]) {
        s.with_pre_hook_async(t);
    }
    if let Some(t) = toks(&d["hooks"]["post"]) {
        s.with_post_hook(t);
    }
    if let Some(t) = toks(&d["hooks"]["post_async"]) {
        s.with_post_hook_async(t);
    }
    Ok((spec, s))
}
