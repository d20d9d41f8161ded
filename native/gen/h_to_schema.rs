use super::*;
use crate::vp_util::*;
use serde_json::{json, Map};
use std::result::Result;

const STR: &[&str] = &["pattern", "minLength", "maxLength"];
const NUM: &[&str] = &["multipleOf", "minimum", "maximum"];
const OBJ: &[&str] = &["properties", "required", "additionalProperties", "minProperties", "maxProperties"];
const ARR: &[&str] = &["items", "minItems", "maxItems", "uniqueItems"];
const SUB: &[&str] = &["oneOf", "allOf", "anyOf", "not"];

fn there(v: &Value, k: &str) -> bool {
    match v.get(k) {
        None => false,
        Some(Value::Array(a)) => !a.is_empty(),
        Some(Value::Object(o)) => !o.is_empty() || k == "items" || k == "additionalProperties" || k == "not",
        Some(_) => true,
    }
}

fn limit(v: &Value) -> Value {
    json!(v.as_u64().unwrap().min(u32::MAX as u64))
}

/// what the converted schema is, written as a JSON schema; independent of the kinds the document model has
fn want(v: &Value) -> Value {
    if let Some(r) = v.get("$ref") {
        return json!({"$ref": r});
    }
    let mut meta = Map::new();
    let mut out = Map::new();
    for (k, x) in v.as_object().unwrap() {
        let k = k.as_str();
        if k.starts_with("x-") {
            meta.insert(k.into(), x.clone());
            continue;
        }
        match k {
            "title" | "description" | "default" => drop(meta.insert(k.into(), x.clone())),
            "deprecated" | "readOnly" | "writeOnly" if x == true => drop(meta.insert(k.into(), x.clone())),
            "example" => drop(meta.insert("examples".into(), json!([x]))),
            "format" | "pattern" | "enum" if there(v, k) => drop(out.insert(k.into(), x.clone())),
            "multipleOf" => drop(out.insert(k.into(), json!(x.as_f64().unwrap()))),
            "minimum" | "maximum" => {
                let e = if k == "minimum" { "exclusiveMinimum" } else { "exclusiveMaximum" };
                let k = if v.get(e) == Some(&json!(true)) { e } else { k };
                out.insert(k.into(), json!(x.as_f64().unwrap()));
            }
            "minLength" | "maxLength" | "minItems" | "maxItems" | "minProperties" | "maxProperties" => drop(out.insert(k.into(), limit(x))),
            "uniqueItems" if x == true => drop(out.insert(k.into(), x.clone())),
            "required" => drop(out.insert(k.into(), x.clone())),
            "items" | "not" => drop(out.insert(k.into(), want(x))),
            "additionalProperties" => drop(out.insert(k.into(), if x.is_boolean() { x.clone() } else { want(x) })),
            "properties" => drop(out.insert(k.into(), x.as_object().unwrap().iter().map(|(n, s)| (n.clone(), want(s))).collect())),
            "oneOf" | "allOf" | "anyOf" => drop(out.insert(k.into(), x.as_array().unwrap().iter().map(want).collect())),
            _ => {}
        }
    }
    let nullable = v.get("nullable") == Some(&json!(true));
    let any = |ks: &[&str]| ks.iter().any(|k| there(v, k));
    let groups: Vec<&str> = [("object", OBJ), ("array", ARR), ("number", NUM), ("string", STR)].iter().filter(|g| any(g.1)).map(|g| g.0).collect();
    if let Some(t) = v.get("type") {
        out.insert("type".into(), if nullable { json!([t, "null"]) } else { t.clone() });
    } else if v.get("enum") == Some(&json!([null])) && groups.is_empty() && !any(SUB) && v.get("format").is_none() {
        out.remove("enum");
        out.insert("type".into(), json!("null"));
    } else if nullable && !groups.is_empty() {
        out.insert("type".into(), groups.iter().copied().chain(["null"]).collect());
    } else if nullable && any(SUB) {
        out = [("oneOf".to_string(), json!([{"type": "null"}, out]))].into_iter().collect();
    }
    out.extend(meta);
    Value::Object(out)
}

fn normal(v: &Value) -> Value {
    let Some(o) = v.as_object() else { return v.clone() };
    let mut out = Map::new();
    for (k, x) in o {
        let y = match k.as_str() {
            "required" | "type" if x.is_array() => {
                let mut a: Vec<String> = x.as_array().unwrap().iter().map(|s| s.to_string()).collect();
                a.sort();
                a.dedup();
                json!(a)
            }
            "properties" => x.as_object().unwrap().iter().map(|(n, s)| (n.clone(), normal(s))).collect(),
            "oneOf" | "allOf" | "anyOf" => x.as_array().unwrap().iter().map(normal).collect(),
            "items" | "not" | "additionalProperties" => normal(x),
            "uniqueItems" if x == false => continue,
            _ => x.clone(),
        };
        if !(matches!(k.as_str(), "required" | "properties" | "oneOf" | "allOf" | "anyOf") && (y == json!([]) || y == json!({}))) {
            out.insert(k.clone(), y);
        }
    }
    Value::Object(out)
}

fn one(v: &Value) -> Result<(), String> {
    let Ok(s) = serde_json::from_value::<openapiv3::ReferenceOr<openapiv3::Schema>>(v.clone()) else { return Ok(()) };
    let got = serde_json::to_value(s.to_schema()).map_err(|e| e.to_string())?;
    let (g, w) = (normal(&got), normal(&want(v)));
    if g == w {
        Ok(())
    } else {
        Err(format!("converted to {g}, expected {w}"))
    }
}

fn number(c: &mut Ctx) -> Value {
    match c.rng.below(5) {
        0 => json!(c.rng.below(1000) as i64 - 500),
        1 => json!(c.rng.next() as i64 >> 12),
        2 => json!(0),
        3 => json!(2.5),
        _ => json!((c.rng.below(20000) as f64 - 10000.0) / 8.0),
    }
}

fn size(c: &mut Ctx) -> Value {
    match c.rng.below(6) {
        0 => json!(0),
        1 => json!(u32::MAX),
        2 => json!(u32::MAX as u64 + 1 + c.rng.below(3) as u64),
        _ => json!(c.rng.below(300)),
    }
}

fn any_enum(c: &mut Ctx, t: &str) -> Value {
    let n = c.rng.below(4);
    (0..n)
        .map(|i| match (t, c.rng.below(5)) {
            (_, 0) => Value::Null,
            ("integer", _) => json!(i as i64 - 1),
            ("number", _) => json!(i as f64 + 0.5),
            ("boolean", _) => json!(i == 0),
            ("string", _) | ("", 1 | 2) => json!(format!("v{i}")),
            ("", 3) => json!({"a": i}),
            _ => json!([i]),
        })
        .collect()
}

fn keyword(c: &mut Ctx, o: &mut Map<String, Value>, k: &str, t: &str, depth: usize) {
    let v = match k {
        "pattern" => json!("^a+$"),
        "format" => json!(["date", "date-time", "password", "byte", "binary", "float", "double", "int32", "int64", "uuid", "odd one"][c.rng.below(11)]),
        "enum" => any_enum(c, t),
        "multipleOf" | "minimum" | "maximum" => {
            if k != "multipleOf" && c.rng.below(2) == 0 {
                o.insert(if k == "minimum" { "exclusiveMinimum" } else { "exclusiveMaximum" }.into(), json!(c.rng.below(3) > 0));
            }
            if t == "integer" && c.rng.below(4) > 0 { json!(c.rng.next() as i64 >> (c.rng.below(60))) } else { number(c) }
        }
        "minLength" | "maxLength" | "minItems" | "maxItems" | "minProperties" | "maxProperties" => size(c),
        "uniqueItems" => json!(c.rng.below(2) == 0),
        "required" => (0..c.rng.below(3)).map(|i| json!(format!("p{i}"))).collect(),
        "properties" => {
            let n = c.rng.below(3);
            (0..n).map(|i| (format!("p{i}"), schema(c, depth))).collect()
        }
        "additionalProperties" if c.rng.below(2) == 0 => json!(c.rng.below(2) == 0),
        "items" | "not" | "additionalProperties" => schema(c, depth),
        "oneOf" | "allOf" | "anyOf" => {
            let n = 1 + c.rng.below(2);
            (0..n).map(|_| schema(c, depth)).collect()
        }
        "title" | "description" => json!("some text"),
        "default" | "example" => json!({"d": 1}),
        "nullable" | "deprecated" | "readOnly" | "writeOnly" => json!(true),
        _ => json!({"e": [1]}),
    };
    o.insert(k.into(), v);
}

const TYPES: &[&str] = &["string", "number", "integer", "object", "array", "boolean", ""];

fn of_type(t: &str) -> Vec<&'static str> {
    match t {
        "string" => ["format", "enum"].iter().chain(STR).copied().collect(),
        "number" | "integer" => ["format", "enum"].iter().chain(NUM).copied().collect(),
        "object" => OBJ.to_vec(),
        "array" => ARR.to_vec(),
        "boolean" => vec!["enum"],
        _ => ["format", "enum"].iter().chain(STR).chain(NUM).chain(OBJ).chain(ARR).chain(SUB).copied().collect(),
    }
}

fn schema(c: &mut Ctx, depth: usize) -> Value {
    if c.rng.below(9) == 0 {
        return json!({"$ref": format!("#/components/schemas/S{}", c.rng.below(5))});
    }
    let t = TYPES[c.rng.below(TYPES.len())];
    let mut o = Map::new();
    if !t.is_empty() {
        o.insert("type".into(), json!(t));
    }
    if c.rng.below(3) == 0 {
        o.insert("nullable".into(), json!(true));
    }
    let pool = of_type(if c.rng.below(4) == 0 { "" } else { t });
    let n = if c.rng.below(6) == 0 { 8 } else { c.rng.below(4) };
    for _ in 0..n {
        let k = pool[c.rng.below(pool.len())];
        if depth == 0 && (SUB.contains(&k) || matches!(k, "items" | "properties" | "additionalProperties")) {
            continue;
        }
        keyword(c, &mut o, k, t, depth.saturating_sub(1));
    }
    for k in ["title", "description", "default", "example", "deprecated", "readOnly", "writeOnly", "x-one", "x-two"] {
        if c.rng.below(14) == 0 {
            keyword(c, &mut o, k, t, 0);
        }
    }
    Value::Object(o)
}

pub fn run(c: &mut Ctx, p: &str) {
    if p != "G16" {
        return;
    }
    // every type with every pair of keywords, nullable or not
    for t in TYPES {
        let pool = of_type("");
        for (i, a) in pool.iter().enumerate() {
            for b in &pool[i..] {
                for nullable in [false, true] {
                    for _ in 0..c.scale(1, 4) {
                        let mut o = Map::new();
                        if !t.is_empty() {
                            o.insert("type".into(), json!(t));
                        }
                        if nullable {
                            o.insert("nullable".into(), json!(true));
                        }
                        keyword(c, &mut o, a, t, 1);
                        if b != a {
                            keyword(c, &mut o, b, t, 1);
                        }
                        let v = Value::Object(o);
                        c.case(|| v.to_string(), || one(&v));
                    }
                }
            }
        }
    }
    for _ in 0..c.scale(20_000, 400_000) {
        let v = schema(c, 3);
        c.case(|| v.to_string(), || one(&v));
    }
}
