use super::*;
use crate::vp_util::*;
use OperationParameterKind as K;
use OperationResponseKind as R;
use OperationResponseStatus as St;

const METHODS: [(&str, fn(&HttpMethod) -> bool); 8] = [
    ("get", |m| matches!(m, HttpMethod::Get)),
    ("put", |m| matches!(m, HttpMethod::Put)),
    ("post", |m| matches!(m, HttpMethod::Post)),
    ("delete", |m| matches!(m, HttpMethod::Delete)),
    ("options", |m| matches!(m, HttpMethod::Options)),
    ("head", |m| matches!(m, HttpMethod::Head)),
    ("patch", |m| matches!(m, HttpMethod::Patch)),
    ("trace", |m| matches!(m, HttpMethod::Trace)),
];

fn methods(c: &mut Ctx) {
    for (n, is) in METHODS {
        c.case(
            || n.to_string(),
            || {
                let m = n.parse::<HttpMethod>().map_err(|e| e.to_string())?;
                if !is(&m) {
                    return Err("parses to another method".into());
                }
                eq("printed", m.as_str(), n)
            },
        );
    }
    let mut bad: Vec<String> = vec!["", "connect", "any", "query", "Get", "GET", "get ", " get", "gett", "ge", "get\0", "g\u{200b}et", "*"].into_iter().map(String::from).collect();
    for (n, _) in METHODS {
        bad.push(n.to_uppercase());
        bad.push(format!("{}{}", n[..1].to_uppercase(), &n[1..]));
        for i in 0..n.len() {
            let mut t = n.to_string();
            t.remove(i);
            bad.push(t.clone());
            for x in ['a', 'e', 't', ' ', '\n'] {
                let mut u = t.clone();
                u.insert(i, x);
                bad.push(u);
                let mut u = n.to_string();
                u.insert(i, x);
                bad.push(u);
            }
        }
        bad.push(format!("{n}s"));
    }
    for _ in 0..c.scale(1000, 20000) {
        let s = c.rng.string(8);
        bad.push(s);
    }
    for b in bad {
        if METHODS.iter().any(|m| m.0 == b) {
            continue;
        }
        c.case(
            || format!("{b:?}"),
            || match b.parse::<HttpMethod>() {
                Ok(m) => Err(format!("accepted as {}", m.as_str())),
                Err(_) => Ok(()),
            },
        );
    }
}

fn statuses() -> Vec<St> {
    let mut v: Vec<St> = (0..1000).map(St::Code).collect();
    v.extend((0..10).map(St::Range));
    v.push(St::Default);
    v
}

fn success(s: &St) -> bool {
    match s {
        St::Default => true,
        St::Code(c) => *c == 101 || *c / 100 == 2,
        St::Range(r) => *r == 2,
    }
}

fn failure(s: &St) -> bool {
    match s {
        St::Default => true,
        St::Code(c) => *c / 100 == 4 || *c / 100 == 5,
        St::Range(r) => *r == 4 || *r == 5,
    }
}

/// (hundred, range after its codes, status)
fn place(s: &St) -> (u16, u16, u16) {
    match s {
        St::Default => (u16::MAX, 0, 0),
        St::Range(r) => (*r, 1, 0),
        St::Code(c) => (*c / 100, 0, *c % 100),
    }
}

fn response(s: &St, typ: R) -> OperationResponse {
    OperationResponse { status_code: s.clone(), typ, description: None }
}

fn classes(c: &mut Ctx) {
    let all = statuses();
    for a in &all {
        c.case(
            || format!("{a:?}"),
            || {
                eq("success", a.is_success_or_default(), success(a))?;
                eq("error", a.is_error_or_default(), failure(a))?;
                eq("default", a.is_default(), *a == St::Default)?;
                for b in &all {
                    let w = place(a).cmp(&place(b));
                    if a.cmp(b) != w || a.partial_cmp(b) != Some(w) || (a == b) != (w == Ordering::Equal) {
                        return Err(format!("against {b:?}: {:?} {:?} {}, expected {w:?}", a.cmp(b), a.partial_cmp(b), a == b));
                    }
                    let (x, y) = (response(a, R::None), response(b, R::Raw));
                    if x.cmp(&y) != w || x.partial_cmp(&y) != Some(w) || (x == y) != (w == Ordering::Equal) {
                        return Err(format!("responses against {b:?}: {:?}, expected {w:?}", x.cmp(&y)));
                    }
                }
                Ok(())
            },
        );
    }
}

fn param(name: &str, kind: K) -> OperationParameter {
    OperationParameter { name: sanitize(name, Case::Snake), api_name: name.to_string(), description: None, typ: OperationParameterType::RawBody, kind }
}

fn rank(k: &K) -> u8 {
    match k {
        K::Path => 0,
        K::Query(_) => 1,
        K::Header(_) => 2,
        K::Body(_) => 3,
    }
}

fn orders(c: &mut Ctx) {
    for i in 0..c.scale(4000, 60000) {
        let words = ["a", "b", "B", "ab", "a-b", "a_b", "z", "é", "10", "9", "", "X-Id", "x-id", "limit", "page_token"];
        let npath = c.rng.below(5);
        let mut names: Vec<String> = vec![];
        while names.len() < npath {
            let w = format!("{}{}", words[c.rng.below(words.len())], names.len() * 7 % 3);
            if !names.contains(&w) {
                names.push(w);
            }
        }
        let mut ps = vec![];
        for n in &names {
            ps.push(param(n, K::Path));
        }
        // a path that mentions names twice, or names without a parameter
        if c.rng.below(3) == 0 && !names.is_empty() {
            let n = names[c.rng.below(names.len())].clone();
            names.push(n);
        }
        if c.rng.below(4) == 0 {
            let k = c.rng.below(names.len() + 1);
            names.insert(k, "extra".into());
        }
        let mut used: Vec<(u8, String)> = vec![];
        for _ in 0..c.rng.below(6) {
            let w = words[c.rng.below(words.len())];
            let k = if c.rng.below(2) == 0 { K::Query(c.rng.below(2) == 0) } else { K::Header(c.rng.below(2) == 0) };
            let key = (rank(&k), w.to_string());
            if !used.contains(&key) {
                used.push(key);
                ps.push(param(w, k));
            }
        }
        if c.rng.below(2) == 0 {
            ps.push(param("body", K::Body(BodyContentType::Json)));
        }
        for j in (1..ps.len()).rev() {
            let k = c.rng.below(j + 1);
            ps.swap(j, k);
        }
        let show = |ps: &[OperationParameter]| ps.iter().map(|p| format!("{:?} {:?}", p.kind, p.api_name)).collect::<Vec<_>>();
        let key = format!("{i}: {:?} {:?}", names, show(&ps));
        let mut want: Vec<(u8, usize, String, String)> = ps
            .iter()
            .map(|p| {
                let r = rank(&p.kind);
                let pos = if r == 0 { names.iter().position(|n| *n == p.api_name).unwrap() } else { 0 };
                (r, pos, if r == 0 { String::new() } else { p.api_name.clone() }, format!("{:?} {:?}", p.kind, p.api_name))
            })
            .collect();
        want.sort();
        c.case(
            || key,
            || {
                sort_params(&mut ps, &names);
                eq("order", show(&ps), want.into_iter().map(|w| w.3).collect())
            },
        );
    }
}

fn content_types(c: &mut Ctx) {
    let known = ["application/octet-stream", "application/json", "application/x-www-form-urlencoded", "text/plain", "text/x-markdown"];
    let mut all: Vec<String> = vec!["".into(), ";".into(), "application/xml".into(), "multipart/form-data".into(), "text/html".into(), "text/*".into(), "*/*".into(), "text/markdown".into(), "application/problem+json".into()];
    for k in known {
        for t in ["", ";", "; charset=utf-8", ";charset=utf-8;q=1", " ; a=b", " ", "x", "+json", ",text/plain", "\t", ";;", "\u{ff1b}"] {
            all.push(format!("{k}{t}"));
        }
        for p in [" ", "x", ";", "/"] {
            all.push(format!("{p}{k}"));
        }
        all.push(k.to_uppercase());
        for i in 0..k.len() {
            let mut t = k.to_string();
            t.remove(i);
            all.push(t);
            let mut t = k.to_string();
            t.insert(i, ';');
            all.push(t);
            let mut t = k.to_string();
            t.insert(i, '-');
            all.push(t);
        }
    }
    for _ in 0..c.scale(2000, 40000) {
        let mut s = known[c.rng.below(5)].to_string();
        if c.rng.below(2) == 0 {
            s.push(';');
        }
        s.push_str(&c.rng.string(6));
        all.push(s);
        let s = c.rng.string(12);
        all.push(s);
    }
    for s in all {
        let head: String = s.chars().take_while(|x| *x != ';').collect();
        let want = match head.as_str() {
            "application/octet-stream" => Some(BodyContentType::OctetStream),
            "application/json" => Some(BodyContentType::Json),
            "application/x-www-form-urlencoded" => Some(BodyContentType::FormUrlencoded),
            "text/plain" | "text/x-markdown" => Some(BodyContentType::Text(head.clone())),
            _ => None,
        };
        c.case(
            || format!("{s:?}"),
            || {
                let got = s.parse::<BodyContentType>().ok();
                let printed = got.as_ref().map(|g| g.to_string());
                let w = want.as_ref().map(|_| head.clone());
                eq("recognised", got, want)?;
                eq("printed", printed, w)
            },
        );
    }
}

fn required(c: &mut Ctx) {
    let all = [
        (K::Path, true),
        (K::Query(true), true),
        (K::Query(false), false),
        (K::Header(true), true),
        (K::Header(false), false),
        (K::Body(BodyContentType::Json), true),
        (K::Body(BodyContentType::OctetStream), true),
        (K::Body(BodyContentType::FormUrlencoded), true),
        (K::Body(BodyContentType::Text("text/plain".into())), true),
    ];
    for (k, w) in all {
        c.case(
            || format!("{k:?}"),
            || {
                eq("required", k.is_required(), w)?;
                eq("optional", k.is_optional(), !w)
            },
        );
    }
}

fn method_with(responses: Vec<OperationResponse>) -> OperationMethod {
    OperationMethod {
        operation_id: "op".into(),
        tags: vec![],
        method: HttpMethod::Get,
        path: crate::template::parse("/x").unwrap(),
        summary: None,
        description: None,
        params: vec![],
        responses,
        dropshot_paginated: None,
        dropshot_websocket: false,
    }
}

fn arms(c: &mut Ctx) {
    let g = Generator::default();
    let pool = [101u16, 100, 102, 199, 200, 201, 204, 298, 299, 300, 302, 399, 400, 404, 499, 500, 503, 599, 600, 0, 999];
    for i in 0..c.scale(8000, 100_000) {
        let mut sts: Vec<St> = vec![];
        for _ in 0..c.rng.below(6) {
            let s = St::Code(pool[c.rng.below(pool.len())]);
            if !sts.contains(&s) {
                sts.push(s);
            }
        }
        for r in [1, 2, 3, 4, 5] {
            if c.rng.below(4) == 0 {
                sts.push(St::Range(r));
            }
        }
        if c.rng.below(2) == 0 {
            sts.push(St::Default);
        }
        for j in (1..sts.len()).rev() {
            let k = c.rng.below(j + 1);
            sts.swap(j, k);
        }
        let kinds = [R::None, R::Raw, R::Upgrade, R::Type(TypeId(3)), R::Type(TypeId(4))];
        let (ks, ke, kd) = (c.rng.below(5), c.rng.below(5), c.rng.below(5));
        let has2 = sts.contains(&St::Range(2));
        let other_success = sts.iter().any(|s| success(s) && *s != St::Default);
        let other_error = sts.iter().any(|s| failure(s) && *s != St::Default);
        for is_success in [true, false] {
            let member: fn(&St) -> bool = if is_success { success } else { failure };
            let dropped = is_success && has2;
            // one result type, except for a default that is dropped
            let main = if is_success { ks } else { ke };
            let dflt = if dropped { kd } else { main };
            let kind = |s: &St| {
                if *s == St::Default {
                    kinds[dflt].clone()
                } else if member(s) {
                    kinds[main].clone()
                } else {
                    kinds[(main + 1 + place(s).0 as usize) % 5].clone()
                }
            };
            let m = method_with(sts.iter().map(|s| response(s, kind(s))).collect());
            let mut want: Vec<St> = sts.iter().filter(|s| member(s) && !(dropped && **s == St::Default)).cloned().collect();
            want.sort_by_key(place);
            let any = if is_success { other_success } else { other_error };
            let wk = if any || (sts.contains(&St::Default) && !dropped) { kinds[main].clone() } else { R::None };
            let key = format!("{i} {} {sts:?} {main} {dflt}", if is_success { "success" } else { "error" });
            c.case(
                || key,
                || {
                    let (items, typ) = g.extract_responses(&m, if is_success { St::is_success_or_default } else { St::is_error_or_default });
                    eq("arms", items.iter().map(|r| r.status_code.clone()).collect::<Vec<_>>(), want)?;
                    eq("result type", typ, wk)
                },
            );
        }
    }
}

fn pagination(c: &mut Ctx) {
    use serde_json::{json, Value};
    let string = json!({"type": "string"});
    let ostring = json!({"type": ["string", "null"]});
    let list = json!({"type": "array", "items": {"type": "integer"}});
    let obj = |props: Value, req: Value| json!({"type": "object", "properties": props, "required": req});
    // (schema of a response body, whether it is a page)
    let schemas: Vec<(Value, bool)> = vec![
        (obj(json!({"items": list, "next_page": ostring}), json!(["items"])), true),
        (obj(json!({"items": list, "next_page": string}), json!(["items"])), true),
        (obj(json!({"items": list, "next_page": ostring}), json!(["items", "next_page"])), true),
        (obj(json!({"items": list, "next_page": string}), json!(["items", "next_page"])), false),
        (obj(json!({"items": list, "next_page": {"type": "integer"}}), json!(["items"])), false),
        (obj(json!({"items": string, "next_page": string}), json!(["items"])), false),
        (obj(json!({"items": list, "next_page": string}), json!([])), false),
        (obj(json!({"items": list, "next_page": string, "more": string}), json!(["items"])), false),
        (obj(json!({"items": list}), json!(["items"])), false),
        (obj(json!({"next_page": string}), json!([])), false),
        (obj(json!({"itemz": list, "next_page": string}), json!(["itemz"])), false),
        (obj(json!({"items": list, "next": string}), json!(["items"])), false),
        (list.clone(), false),
        (string.clone(), false),
    ];
    let names = ["page_token", "limit", "sort_by", "page-token", "Limit"];
    for i in 0..c.scale(12000, 150_000) {
        let mut g = Generator::default();
        let few = c.rng.below(2) == 0;
        let si = c.rng.below(if few { 3 } else { schemas.len() });
        let (sch, page) = &schemas[si];
        let mut space = |v: &Value, n: &str| g.type_space.add_type_with_name(&serde_json::from_value(v.clone()).unwrap(), Some(n.into())).unwrap();
        let tid = space(sch, &format!("Page{si}"));
        let sid = space(&string, "S");
        let mut params: Vec<OperationParameter> = vec![];
        let mut good = 0;
        let mut req = false;
        for n in names {
            let often = n == "page_token" || n == "limit";
            if c.rng.below(8) < if often { 7 } else { 2 } {
                let kind = match c.rng.below(24) {
                    0 => K::Query(true),
                    1 => K::Header(false),
                    2 => K::Path,
                    _ => K::Query(false),
                };
                good += (often && kind == K::Query(false)) as i32;
                req |= kind == K::Query(true);
                params.push(param(n, kind));
                params.last_mut().unwrap().typ = OperationParameterType::Type(sid.clone());
            }
        }
        let body = c.rng.below(5);
        if body == 0 {
            params.push(param("body", K::Body(BodyContentType::OctetStream)));
        } else if body < 3 {
            params.push(param("body", K::Body(BodyContentType::Json)));
            params.last_mut().unwrap().typ = OperationParameterType::Type(sid.clone());
        }
        let mut responses: Vec<OperationResponse> = vec![];
        let mut typed = vec![];
        for s in [St::Code(200), St::Code(201), St::Code(299), St::Range(2), St::Code(404), St::Range(4), St::Default, St::Code(101), St::Code(302)] {
            let p = if s == St::Code(200) { 7 } else { 1 };
            if c.rng.below(8) < p {
                let (kind, is_page) = match c.rng.below(10) {
                    0 => (R::None, None),
                    1 => (R::Raw, None),
                    2 => (R::Type(sid.clone()), Some(false)),
                    _ => (R::Type(tid.clone()), Some(*page)),
                };
                if let (true, Some(p)) = (matches!(s, St::Code(200..=299) | St::Range(2)), is_page) {
                    typed.push(p);
                }
                responses.push(response(&s, kind));
            }
        }
        let (marks, first): (Option<Value>, Vec<String>) = match c.rng.below(6) {
            0 => (None, vec![]),
            1 => (Some(json!(true)), vec![]),
            2 => (Some(json!({"required": ["a", "b"]})), vec!["a".into(), "b".into()]),
            3 => (Some(json!({"required": 3})), vec![]),
            _ => (Some(json!({"required": []})), vec![]),
        };
        let mut op = openapiv3::Operation::default();
        if let Some(m) = &marks {
            op.extensions.insert("x-dropshot-pagination".into(), m.clone());
        }
        op.extensions.insert("x-other".into(), json!(1));
        let want = (marks.is_some() && good == 2 && !req && body != 0 && typed == [true]).then_some(first);
        let key = format!(
            "{i} mark {marks:?} params {:?} responses {:?} schema {si}",
            params.iter().map(|p| (&p.api_name, &p.kind)).collect::<Vec<_>>(),
            responses.iter().map(|r| (&r.status_code, &r.typ)).collect::<Vec<_>>()
        );
        c.case(
            || key,
            || {
                let got = g.dropshot_pagination_data(&op, &params, &responses);
                if let Some(d) = &got {
                    eq("item type", g.type_space.get_type(&d.item).unwrap().name(), "i64".to_string())?;
                }
                eq("paginated, first-page parameters", got.map(|d| d.first_page_params), want)
            },
        );
    }
}

/// a documented parameter
#[derive(Clone, Debug, PartialEq)]
struct Par {
    name: String,
    place: &'static str,
    required: bool,
    description: Option<String>,
    schema: usize,
}

/// (document, type as it is printed, whether it admits null)
fn schemas() -> Vec<(serde_json::Value, &'static str, bool)> {
    use serde_json::json;
    vec![
        (json!({"type": "string"}), "::std::string::String", false),
        (json!({"type": "integer", "format": "int32"}), "i32", false),
        (json!({"type": "boolean"}), "bool", false),
        (json!({"type": "number"}), "f64", false),
        (json!({"$ref": "#/components/schemas/A"}), "types::A", false),
        (json!({"type": "array", "items": {"type": "integer", "format": "uint8"}}), "::std::vec::Vec<u8>", false),
        (json!({"type": "integer", "format": "uint32", "nullable": true}), "u32", true),
        (json!({"type": "string", "nullable": true}), "::std::string::String", true),
    ]
}

/// a reference to a component of a kind, through a chain of as many references: (document, components)
fn referred(c: &mut Ctx, prefix: &str, kind: &str, item: serde_json::Value, comps: &mut serde_json::Map<String, serde_json::Value>) -> serde_json::Value {
    use serde_json::json;
    let n = c.rng.below(4);
    let mut v = item;
    for _ in 0..n {
        let mut key = ["A", "b-c", "Z_9", "limit", "200", "a.b"][c.rng.below(6)].to_string();
        let m = comps.entry(kind.to_string()).or_insert_with(|| json!({})).as_object_mut().unwrap();
        while m.contains_key(&key) {
            key = format!("{key}{}", c.rng.below(10));
        }
        m.insert(key.clone(), v);
        v = json!({"$ref": format!("{prefix}{kind}/{key}")});
    }
    v
}

fn squash(t: &TokenStream) -> String {
    t.to_string().replace(' ', "")
}

/// the model the generator makes of an operation, against the document
fn operations(c: &mut Ctx, prop: &str) {
    use serde_json::{json, Map, Value};
    let pick = |p: &str| prop == p || prop == "G25";
    let schemas = schemas();
    let words = ["id", "name", "X-Trace", "sort-by", "q", "filter_2", "Z", "a", "page_token", "limit", "userId", "type"];
    for i in 0..c.scale(6000, 80_000) {
        let mut comps: Map<String, Value> = Map::new();
        comps.insert("schemas".into(), json!({"A": {"type": "object", "properties": {"a": {"type": "string"}}}, "Page": {"type": "object", "properties": {"items": {"type": "array", "items": {"type": "integer"}}, "next_page": {"type": "string"}}, "required": ["items"]}}));
        // parameters of the same name in other kinds of components must not be taken for those asked for
        for k in ["parameters", "requestBodies", "responses", "headers", "examples"] {
            if c.rng.below(2) == 0 {
                let v = match k {
                    "parameters" => json!({"A": {"name": "decoy", "in": "header", "schema": {"type": "boolean"}}}),
                    "requestBodies" => json!({"A": {"description": "decoy", "content": {"application/json": {"schema": {"type": "boolean"}}}}}),
                    "responses" => json!({"A": {"description": "decoy"}}),
                    _ => json!({"A": {}}),
                };
                comps.insert(k.into(), v);
            }
        }
        let prefix = ["#/components/", "#/", "other.json#/components/", "#/components/x/"][c.rng.below(4)];
        let mut chosen: Vec<Par> = vec![];
        let mut lists: [Vec<Value>; 2] = [vec![], vec![]];
        let paged = c.rng.below(3) == 0;
        for w in words {
            let special = w == "page_token" || w == "limit";
            if c.rng.below(if special { 2 } else { 3 }) != 0 && !(special && paged && c.rng.below(8) != 0) {
                continue;
            }
            let one = |c: &mut Ctx, place: &'static str| Par {
                name: w.to_string(),
                place,
                required: place == "path" || (c.rng.below(2) == 0 && !paged),
                description: [None, Some(String::new()), Some(format!("about {w} {}", c.rng.below(90)))][c.rng.below(3)].clone(),
                schema: c.rng.below(schemas.len()),
            };
            let place = if special && paged { "query" } else { ["path", "query", "header"][c.rng.below(3)] };
            // in the path item, in the operation, or the operation replaces that of the path item
            let how = c.rng.below(3);
            let shared = one(c, place);
            let moved = if how == 2 && !(special && paged) { ["path", "query", "header"][c.rng.below(3)] } else { place };
            let own = one(c, moved);
            for (l, p, used) in [(0, &shared, how != 1), (1, &own, how != 0)] {
                if !used {
                    continue;
                }
                let mut v = json!({"name": p.name, "in": p.place, "required": p.required, "schema": schemas[p.schema].0});
                if let Some(d) = &p.description {
                    v["description"] = json!(d);
                }
                // what must make no difference
                match c.rng.below(12) {
                    0 => v["deprecated"] = json!(true),
                    1 => v["example"] = json!("x"),
                    2 => v["explode"] = json!(c.rng.below(2) == 0),
                    3 => v["allowEmptyValue"] = json!(true),
                    4 => v["allowReserved"] = json!(true),
                    5 => v["style"] = json!(if p.place == "query" { "form" } else { "simple" }),
                    6 => v["x-more"] = json!({"required": !p.required}),
                    _ => {}
                }
                let v = referred(c, prefix, "parameters", v, &mut comps);
                let at = c.rng.below(lists[l].len() + 1);
                lists[l].insert(at, v);
            }
            chosen.push(if how == 0 { shared } else { own });
        }
        // the path: literals and the path parameters in some order
        let mut inpath: Vec<&Par> = chosen.iter().filter(|p| p.place == "path").collect();
        for j in (1..inpath.len()).rev() {
            let k = c.rng.below(j + 1);
            inpath.swap(j, k);
        }
        let path = format!("/x{}{}", inpath.iter().map(|p| format!("/{}{{{}}}", ["", "y/", "v-"][p.name.len() % 3], p.name)).collect::<String>(), ["", "/end", "/"][c.rng.below(3)]);
        let opid = ["op", "getThing", "list-all", "Do_it", "type", "1st"][c.rng.below(6)];
        let mut op = json!({"operationId": opid, "parameters": lists[1]});
        // body
        let types = [
            ("application/json", "json"), ("application/json; charset=utf-8", "json"), ("application/x-www-form-urlencoded", "form"), ("application/octet-stream", "octets"), ("application/octet-stream;q=1", "octets"),
            ("text/plain", "plain"), ("text/plain; charset=utf-8", "plain"), ("text/x-markdown", "mark"), ("application/xml", "bad"), ("text/html", "bad"), ("multipart/form-data", "bad"), ("application/jsonp", "bad"), ("", "bad"),
        ];
        let (ctype, ckind) = types[c.rng.below(types.len())];
        let bschema = c.rng.below(schemas.len());
        let bdesc = (c.rng.below(2) == 0).then(|| format!("body {}", c.rng.below(90)));
        let raw_ok = c.rng.below(5) != 0;
        // a body, its content and whether it is well formed
        let body: Option<(bool, bool)> = match c.rng.below(6) {
            0 | 1 => None,
            2 if c.rng.below(2) == 0 => Some((false, true)),
            _ => Some((true, ckind != "bad" && (raw_ok || matches!(ckind, "json" | "form")))),
        };
        if let Some((content, _)) = body {
            let mut sch = match ckind {
                "octets" => json!({"type": "string", "format": "binary", "title": "t"}),
                "plain" | "mark" => json!({"type": "string", "description": "d"}),
                _ => schemas[bschema].0.clone(),
            };
            if !raw_ok && matches!(ckind, "octets" | "plain" | "mark") {
                let odd = [json!({"type": "string", "format": "date"}), json!({"type": "integer"}), json!({"type": "string", "nullable": true, "format": sch["format"]}), json!({"type": "string", "minLength": 1, "format": sch["format"]}),
                    json!({"type": "string", "maxLength": 1, "format": sch["format"]}), json!({"type": "string", "pattern": "x", "format": sch["format"]}), json!({"type": "string", "enum": ["a"], "format": sch["format"]}), json!({"type": "string", "default": "a", "format": sch["format"]}), json!({"$ref": "#/components/schemas/A"})];
                sch = odd[c.rng.below(odd.len())].clone();
                if sch["format"].is_null() {
                    sch.as_object_mut().unwrap().remove("format");
                }
            }
            let mut b = json!({"required": c.rng.below(2) == 0, "content": {}});
            if content {
                b["content"][ctype] = json!({"schema": sch});
            }
            if let Some(d) = &bdesc {
                b["description"] = json!(d);
            }
            op["requestBody"] = referred(c, prefix, "requestBodies", b, &mut comps);
        }
        // responses
        let socket = c.rng.below(if paged { 12 } else { 6 }) == 0;
        if socket {
            op["x-dropshot-websocket"] = json!({});
        }
        let marked = c.rng.below(2) == 0;
        if marked {
            op["x-dropshot-pagination"] = json!({"required": []});
        }
        let statuses = ["101", "200", "201", "299", "2XX", "302", "400", "404", "4XX", "500", "5XX", "default"];
        let mut docs: Vec<(St, R, usize, String)> = vec![];
        let mut rs = Map::new();
        for s in statuses {
            if c.rng.below(4) != 0 {
                continue;
            }
            let st = match s {
                "default" => St::Default,
                s if s.ends_with("XX") => St::Range(s[..1].parse().unwrap()),
                s => St::Code(s.parse().unwrap()),
            };
            let k = if paged && success(&st) && c.rng.below(12) != 0 { 8 } else { c.rng.below(10) };
            let (content, kind, ty) = response_kind(k, c, &schemas);
            let desc = ["", "fine", "ok then"][c.rng.below(3)].to_string();
            let v = referred(c, prefix, "responses", json!({"description": desc, "content": content}), &mut comps);
            rs.insert(s.to_string(), v);
            let kind = if socket && !matches!(kind, R::Type(_)) { R::Upgrade } else { kind };
            docs.push((st, kind, ty, desc));
        }
        op["responses"] = Value::Object(rs);
        let mut want: Vec<(St, R, usize, Option<String>)> = docs.iter().map(|(s, k, t, d)| (s.clone(), k.clone(), *t, (!d.is_empty()).then(|| d.clone()))).collect();
        if !docs.iter().any(|(s, ..)| success(s) && *s != St::Code(101)) {
            want.push((St::Range(2), R::Raw, 0, None));
        }
        if socket {
            want.push((St::Code(101), R::Upgrade, 0, None));
        }
        let method = ["get", "put", "post", "delete", "options", "head", "patch", "trace"][c.rng.below(8)];
        for (k, texts) in [("summary", ["", "Sum.", "s"]), ("description", ["", "Desc", "d,"])] {
            let t = texts[c.rng.below(3)];
            if c.rng.below(3) != 0 {
                op[k] = json!(t);
            }
        }
        if c.rng.below(2) == 0 {
            op["tags"] = json!(["t1", "t2"][..c.rng.below(3)]);
        }
        // parameters in order
        let mut exp: Vec<(usize, usize, Par)> = chosen
            .iter()
            .map(|p| match p.place {
                "path" => (0, inpath.iter().position(|q| q.name == p.name).unwrap(), p.clone()),
                "query" => (1, 0, p.clone()),
                _ => (2, 0, p.clone()),
            })
            .collect();
        exp.sort_by(|a, b| (a.0, a.1, &a.2.name).cmp(&(b.0, b.1, &b.2.name)));
        let exp: Vec<Par> = exp.into_iter().map(|x| x.2).collect();
        let q = |n: &str| chosen.iter().any(|p| p.name == n && p.place == "query" && (!p.required || schemas[p.schema].2));
        let no_required = !chosen.iter().any(|p| p.place == "query" && p.required && !schemas[p.schema].2);
        let raw_body = matches!(body, Some((true, _))) && matches!(ckind, "octets" | "plain" | "mark");
        let typed: Vec<usize> = want.iter().filter(|(s, k, ..)| matches!(s, St::Code(200..=299) | St::Range(2)) && matches!(k, R::Type(_))).map(|x| x.2).collect();
        let pages = marked && q("page_token") && q("limit") && no_required && !raw_body && typed == [PAGE];
        let before = c.rng.below(3) == 0;
        let document = json!({"web sockets before": before, "path": path, "method": method, "parameters": lists[0], "operation": op, "components": comps});
        let key = format!("{i} {document}");
        c.case(
            || key,
            || {
                let mut g = Generator::default();
                g.uses_websockets = before;
                let operation: openapiv3::Operation = serde_json::from_value(op.clone()).map_err(|e| format!("cannot read the operation: {e}"))?;
                let components: Option<Components> = Some(serde_json::from_value(Value::Object(comps.clone())).map_err(|e| format!("cannot read the components: {e}"))?);
                let shared: Vec<ReferenceOr<Parameter>> = serde_json::from_value(json!(lists[0])).map_err(|e| format!("cannot read the parameters: {e}"))?;
                let refs = components.as_ref().unwrap().schemas.iter().map(|(n, s)| (n.clone(), s.to_schema())).collect::<Vec<_>>();
                g.type_space.add_ref_types(refs).map_err(|e| e.to_string())?;
                let got = g.process_operation(&operation, &components, &path, method, &shared);
                let bad_body = matches!(body, Some((_, false)));
                if bad_body || (socket && pages) {
                    return match got {
                        Err(_) => Ok(()),
                        Ok(_) if bad_body && !(pick("G13") || prop == "G25") => Ok(()),
                        Ok(_) if bad_body && ckind != "bad" && prop != "G25" => Ok(()),
                        Ok(_) if !bad_body && !pick("G19") => Ok(()),
                        Ok(_) => Err(if bad_body { "an unsupported request body is accepted".into() } else { "an operation is both paginated and a web socket".into() }),
                    };
                }
                let m = got.map_err(|e| format!("refused: {e}"))?;
                if pick("G06") {
                    eq("method", m.method.as_str(), method)?;
                }
                if pick("G01") {
                    eq("path", m.path.to_string(), path.clone())?;
                }
                if pick("G08") {
                    let want: Vec<String> = exp.iter().map(|p| p.name.clone()).chain(body.and_then(|b| b.0.then(|| "body".to_string()))).collect();
                    eq("argument order", m.params.iter().map(|p| p.api_name.clone()).collect::<Vec<_>>(), want)?;
                }
                let n = exp.len();
                if m.params.len() < n {
                    return Err(format!("{} parameters, expected {n}", m.params.len()));
                }
                let find = |n: &str| m.params.iter().find(|p| p.api_name == n).ok_or(format!("no parameter {n}"));
                for p in &exp {
                    let o = find(&p.name)?;
                    let optional = p.place != "path" && (!p.required || (p.place == "query" && schemas[p.schema].2));
                    if pick("G14") {
                        eq(&format!("{} required", p.name), o.kind.is_required(), !optional)?;
                        eq(&format!("{} optional", p.name), o.kind.is_optional(), optional)?;
                    }
                    if pick("G17") {
                        let want = match p.place {
                            "path" => 0,
                            "query" => 1,
                            _ => 2,
                        };
                        eq(&format!("place of {}", p.name), rank(&o.kind), want)?;
                        eq(&format!("description of {}", p.name), &o.description, &p.description)?;
                    }
                    if pick("G10") {
                        eq("name", &o.name, &sanitize(&p.name, Case::Snake))?;
                    }
                    if prop == "G25" || prop == "G17" {
                        let (_, t, null) = &schemas[p.schema];
                        let t = if *null && p.place != "query" { format!("::std::option::Option<{t}>") } else { t.to_string() };
                        match &o.typ {
                            OperationParameterType::Type(id) => eq(&format!("type of {}", p.name), squash(&g.type_space.get_type(id).map_err(|e| e.to_string())?.ident()), t)?,
                            OperationParameterType::RawBody => return Err(format!("{} is raw", p.name)),
                        }
                    }
                }
                let bodies: Vec<&OperationParameter> = m.params.iter().filter(|p| matches!(p.kind, K::Body(_))).collect();
                if prop == "G25" || prop == "G17" || prop == "G13" || prop == "G14" {
                    eq("bodies", bodies.len(), matches!(body, Some((true, _))) as usize)?;
                    eq("parameters", m.params.len(), n + bodies.len())?;
                }
                if let Some(b) = bodies.first() {
                    if pick("G14") {
                        eq("body required", b.kind.is_required(), true)?;
                    }
                    if pick("G13") {
                        let want = match ckind {
                            "octets" => BodyContentType::OctetStream,
                            "json" => BodyContentType::Json,
                            "form" => BodyContentType::FormUrlencoded,
                            "plain" => BodyContentType::Text("text/plain".into()),
                            _ => BodyContentType::Text("text/x-markdown".into()),
                        };
                        eq("content type", &b.kind, &K::Body(want))?;
                        eq("raw body", matches!(b.typ, OperationParameterType::RawBody), raw_body)?;
                    }
                    if pick("G17") {
                        eq("description of the body", &b.description, &bdesc)?;
                        if let OperationParameterType::Type(id) = &b.typ {
                            let (_, t, null) = &schemas[bschema];
                            let t = if *null { format!("::std::option::Option<{t}>") } else { t.to_string() };
                            eq("type of the body", squash(&g.type_space.get_type(id).map_err(|e| e.to_string())?.ident()), t)?;
                        }
                    }
                }
                let show = |g: &Generator, s: &St, k: &R, t: Option<&str>| {
                    format!("{s:?} {}", match (k, t) {
                        (R::Type(_), Some(t)) => t.to_string(),
                        (R::Type(id), None) => squash(&g.type_space.get_type(id).unwrap().ident()),
                        (k, _) => format!("{k:?}"),
                    })
                };
                let all = |keep: &dyn Fn(&St) -> bool| {
                    let mut v: Vec<String> = want.iter().filter(|x| keep(&x.0)).map(|(s, k, t, _)| show(&g, s, k, Some(type_name(*t, &schemas).as_str()))).collect();
                    v.sort();
                    v
                };
                let mut have: Vec<String> = m.responses.iter().map(|r| show(&g, &r.status_code, &r.typ, None)).collect();
                have.sort();
                if pick("G17") || pick("G18") {
                    eq("responses", have, all(&|_| true))?;
                }
                if pick("G17") {
                    let mut d: Vec<String> = m.responses.iter().map(|r| format!("{:?} {:?}", r.status_code, r.description)).collect();
                    let mut w: Vec<String> = want.iter().map(|r| format!("{:?} {:?}", r.0, r.3)).collect();
                    d.sort();
                    w.sort();
                    eq("descriptions of the responses", d, w)?;
                }
                if pick("G19") {
                    eq("paginated", m.dropshot_paginated.is_some(), pages)?;
                }
                if pick("G10") {
                    eq("operation name", m.operation_id.clone(), sanitize(operation.operation_id.as_ref().unwrap(), Case::Snake))?;
                }
                if prop == "G25" {
                    let text = |k: &str| op[k].as_str().filter(|s| !s.is_empty()).map(String::from);
                    eq("summary", m.summary.clone(), text("summary"))?;
                    eq("description", m.description.clone(), text("description"))?;
                    eq("tags", json!(m.tags), op.get("tags").cloned().unwrap_or(json!([])))?;
                    eq("web socket", m.dropshot_websocket, socket)?;
                    eq("web sockets used", g.uses_websockets, socket || before)?;
                }
                Ok(())
            },
        );
    }
    refused(c, prop);
}

const PAGE: usize = 1000;

fn type_name(t: usize, schemas: &[(serde_json::Value, &'static str, bool)]) -> String {
    match t {
        PAGE => "types::Page".into(),
        t if schemas[t].2 => format!("::std::option::Option<{}>", schemas[t].1),
        t => schemas[t].1.into(),
    }
}

/// (content, kind, schema)
fn response_kind(k: usize, c: &mut Ctx, schemas: &[(serde_json::Value, &'static str, bool)]) -> (serde_json::Value, R, usize) {
    use serde_json::json;
    match k {
        0 | 1 => (json!({}), R::None, 0),
        2 => (json!({"text/plain": {"schema": {"type": "string"}}}), R::Raw, 0),
        3 => (json!({"application/jsonx": {}, "image/png": {}}), R::Raw, 0),
        4 => (json!({"*/*": {"schema": {}}}), R::Raw, 0),
        8 => (json!({"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}), R::Type(TypeId(0)), PAGE),
        k => {
            let t = (k * 5) % schemas.len();
            let n = ["application/json", "application/json;charset=utf-8", "application/json; q=1"][c.rng.below(3)];
            let mut m = serde_json::Map::new();
            if c.rng.below(2) == 0 {
                m.insert("text/plain".into(), json!({}));
            }
            m.insert(n.into(), json!({"schema": schemas[t].0}));
            if c.rng.below(2) == 0 {
                m.insert("application/jso".into(), json!({}));
            }
            (serde_json::Value::Object(m), R::Type(TypeId(0)), t)
        }
    }
}

/// parameters the generator does not support
fn refused(c: &mut Ctx, prop: &str) {
    use serde_json::json;
    if prop != "G25" && prop != "G06" {
        return;
    }
    let s = json!({"type": "string"});
    let odd = vec![
        ("cookie", json!({"name": "a", "in": "cookie", "schema": s})),
        ("matrix", json!({"name": "a", "in": "path", "required": true, "style": "matrix", "schema": s})),
        ("label", json!({"name": "a", "in": "path", "required": true, "style": "label", "schema": s})),
        ("deep", json!({"name": "a", "in": "query", "style": "deepObject", "schema": s})),
        ("pipes", json!({"name": "a", "in": "query", "style": "pipeDelimited", "schema": s})),
        ("spaces", json!({"name": "a", "in": "query", "style": "spaceDelimited", "schema": s})),
        ("content", json!({"name": "a", "in": "query", "content": {"application/json": {"schema": s}}})),
        ("content in a header", json!({"name": "a", "in": "header", "content": {"application/json": {"schema": s}}})),
        ("content in the path", json!({"name": "a", "in": "path", "required": true, "content": {"application/json": {"schema": s}}})),
    ];
    for (n, p) in odd {
        for own in [true, false] {
            c.case(
                || format!("{n} {own}"),
                || {
                    let mut g = Generator::default();
                    let (a, b) = if own { (json!([p]), json!([])) } else { (json!([]), json!([p])) };
                    let op: openapiv3::Operation = serde_json::from_value(json!({"operationId": "x", "parameters": a, "responses": {}})).map_err(|e| e.to_string())?;
                    let shared: Vec<ReferenceOr<Parameter>> = serde_json::from_value(b).map_err(|e| e.to_string())?;
                    let path = if p["in"] == "path" { "/x/{a}" } else { "/x" };
                    match g.process_operation(&op, &None, path, "get", &shared) {
                        Ok(_) => Err("accepted".into()),
                        Err(_) => Ok(()),
                    }
                },
            );
        }
    }
    for m in ["GET", "connect", "", "gets"] {
        c.case(
            || format!("method {m:?}"),
            || {
                let mut g = Generator::default();
                let op: openapiv3::Operation = serde_json::from_value(json!({"operationId": "x", "responses": {}})).map_err(|e| e.to_string())?;
                match g.process_operation(&op, &None, "/x", m, &[]) {
                    Ok(_) => Err("accepted".into()),
                    Err(_) => Ok(()),
                }
            },
        );
    }
}

pub fn run(c: &mut Ctx, p: &str) {
    if matches!(p, "G06" | "G08" | "G10" | "G13" | "G14" | "G17" | "G18" | "G19" | "G25") {
        operations(c, p);
    }
    match p {
        "G06" => methods(c),
        "G07" => classes(c),
        "G08" => orders(c),
        "G13" => content_types(c),
        "G14" => required(c),
        "G18" => arms(c),
        "G19" => pagination(c),
        _ => {}
    }
}
