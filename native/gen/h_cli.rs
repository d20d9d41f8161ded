use super::*;
use crate::vp_util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap as Map;
use std::result::Result;

/// name -> what the command line demands of it
fn asked(s: &str) -> Map<String, String> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let mut out = Map::new();
    for part in s.split("::clap::Arg::new(\"").skip(1) {
        let name = part.split('"').next().unwrap().to_string();
        let need = if part.contains(".required(true)") {
            "required"
        } else if part.contains(".required(false)") {
            "optional"
        } else if part.contains(".required_unless_present(\"json-body\")") {
            "required without json-body"
        } else {
            "flag"
        };
        let help = if name.starts_with("json-body") { String::new() } else { part.split(".help(\"").nth(1).and_then(|h| h.split('"').next()).unwrap_or("").to_string() };
        if out.insert(name.clone(), format!("{need} {help}")).is_some() {
            out.insert(name, "twice".into());
        }
    }
    out
}

struct P {
    name: &'static str,
    place: &'static str,
    required: bool,
    help: Option<String>,
}

pub fn run(c: &mut Ctx, _: &str) {
    let names = ["id", "userName", "X-Trace", "limit", "page_token", "sort-by", "q", "filter_2"];
    let props = ["id", "title", "userName", "user_name", "limit", "extra", "kind", "notes", "deep"];
    // schema, and whether a single argument can carry it
    let kinds: [(Value, bool); 7] = [
        (json!({"type": "string"}), true),
        (json!({"type": "integer"}), true),
        (json!({"type": "boolean"}), true),
        (json!({"type": "array", "items": {"type": "string"}}), false),
        (json!({"type": "object", "properties": {"a": {"type": "string"}}}), false),
        (json!({"type": "string", "enum": ["one", "two"]}), true),
        (json!({"type": "string", "nullable": true}), true),
    ];
    for _ in 0..c.scale(3000, 40000) {
        let paginated = c.rng.below(3) == 0;
        let mut ps: Vec<P> = vec![];
        for name in names {
            if c.rng.below(2) == 0 {
                let place = ["path", "query", "header"][c.rng.below(3)];
                let required = place == "path" || c.rng.below(2) == 0;
                let help = (c.rng.below(2) == 0).then(|| format!("about{}", c.rng.below(9)));
                ps.push(P { name, place, required, help });
            }
        }
        let mut first: Vec<&str> = vec![];
        if paginated {
            ps.retain(|p| p.name != "limit" && p.name != "page_token" && !(p.place == "query" && p.required));
            for name in ["limit", "page_token"] {
                ps.push(P { name, place: "query", required: false, help: None });
            }
            first = ps.iter().filter(|p| p.name != "page_token").map(|p| p.name).filter(|_| c.rng.below(3) == 0).collect();
        }
        let path = format!("/x{}", ps.iter().filter(|p| p.place == "path").map(|p| format!("/{{{}}}", p.name)).collect::<String>());
        let params: Vec<Value> = ps
            .iter()
            .map(|p| {
                let mut v = json!({"name": p.name, "in": p.place, "required": p.required, "schema": {"type": "string"}});
                if let Some(h) = &p.help {
                    v["description"] = json!(h);
                }
                v
            })
            .collect();
        let mut want: Map<String, String> = Map::new();
        let need = |b: bool| if b { "required" } else { "optional" };
        for p in &ps {
            if paginated && p.name == "page_token" {
                continue;
            }
            want.insert(p.name.to_kebab_case(), format!("{} {}", need(p.required || first.contains(&p.name)), p.help.as_deref().unwrap_or("")));
        }
        let mut op = json!({"operationId": "op", "parameters": params, "responses": {"200": {"description": "ok", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}});
        if paginated {
            op["x-dropshot-pagination"] = json!({"required": first});
        }
        let mut schemas = json!({"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}});
        match c.rng.below(4) {
            0 => {}
            1 => {
                let s = [json!({"type": "array", "items": {"type": "string"}}), json!({"type": "string"}), json!({"type": "object", "additionalProperties": {"type": "string"}})][c.rng.below(3)].clone();
                op["requestBody"] = json!({"content": {"application/json": {"schema": s}}, "required": true});
                want.insert("json-body".into(), "required ".into());
                want.insert("json-body-template".into(), "flag ".into());
            }
            _ => {
                let mut ss: Map<&str, (usize, bool)> = Map::new();
                for p in props {
                    if c.rng.below(2) == 0 {
                        ss.insert(p, (c.rng.below(kinds.len()), c.rng.below(2) == 0));
                    }
                }
                if ss.is_empty() {
                    ss.insert("title", (0, true));
                }
                let ps: serde_json::Map<String, Value> = ss.iter().map(|(k, (i, _))| (k.to_string(), kinds[*i].0.clone())).collect();
                let rs: Vec<&str> = ss.iter().filter(|(_, v)| v.1).map(|(k, _)| *k).collect();
                schemas["B"] = json!({"type": "object", "properties": ps, "required": rs});
                op["requestBody"] = json!({"content": {"application/json": {"schema": schemas["B"].clone()}}, "required": true});
                let mut whole = false;
                for (k, (i, r)) in &ss {
                    let n = k.to_kebab_case();
                    if kinds[*i].1 && !want.contains_key(&n) {
                        want.insert(n, format!("{} ", if *r { "required without json-body" } else { "optional" }));
                    } else if *r {
                        whole = true;
                    }
                }
                want.insert("json-body".into(), format!("{} ", need(whole)));
                want.insert("json-body-template".into(), "flag ".into());
            }
        }
        let doc = json!({"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": {path: {"post": op}}, "components": {"schemas": schemas}});
        c.case(
            || doc.to_string(),
            || {
                let spec: OpenAPI = serde_json::from_value(doc.clone()).map_err(|e| e.to_string())?;
                let mut g = Generator::default();
                let schemas = spec.components.iter().flat_map(|c| c.schemas.iter().map(|(n, s)| (n.clone(), s.to_schema())));
                g.type_space.add_ref_types(schemas).map_err(|e| e.to_string())?;
                let (path, item) = spec.paths.iter().next().unwrap();
                let item = item.as_item().unwrap();
                let (method, operation) = item.iter().next().unwrap();
                let m = g.process_operation(operation, &spec.components, path, method, &item.parameters).map_err(|e| format!("{e:?}"))?;
                if paginated != m.dropshot_paginated.is_some() {
                    return Err("pagination is not seen".into());
                }
                eq("arguments", asked(&g.cli_method_args(&m).parser.to_string()), want)
            },
        );
    }
}
