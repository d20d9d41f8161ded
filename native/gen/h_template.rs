use super::*;
use crate::vp_util::*;

/// the pieces of a well-formed path: (is a parameter, text), or None
fn expected(path: &str) -> Option<Vec<(bool, String)>> {
    let cs: Vec<char> = path.chars().collect();
    if cs.first() != Some(&'/') {
        return None;
    }
    let mut out: Vec<(bool, String)> = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '{' {
            let e = (i + 1..cs.len()).find(|&j| cs[j] == '}')?;
            let name: String = cs[i + 1..e].iter().collect();
            if name.contains('/') || name.contains('{') {
                return None;
            }
            out.push((true, name));
            i = e + 1;
        } else {
            let e = (i..cs.len()).find(|&j| cs[j] == '{').unwrap_or(cs.len());
            let mut lit: String = cs[i..e].iter().collect();
            if lit.contains('}') {
                return None;
            }
            while lit.contains("//") {
                lit = lit.replace("//", "/");
            }
            out.push((false, lit));
            i = e;
        }
    }
    Some(out)
}

fn pieces(t: &PathTemplate) -> Vec<(bool, String)> {
    t.components
        .iter()
        .map(|c| match c {
            Component::Constant(s) => (false, s.clone()),
            Component::Parameter(s) => (true, s.clone()),
        })
        .collect()
}

fn text(ps: &[(bool, String)], par: impl Fn(&str) -> String) -> String {
    ps.iter().map(|(p, s)| if *p { par(s) } else { s.clone() }).collect::<Vec<_>>().concat()
}

fn paths(c: &mut Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new()];
    let abc = ['/', '{', '}', 'a', 'b'];
    let mut layer = vec![String::new()];
    for _ in 0..c.scale(6, 8) {
        let mut next = vec![];
        for s in &layer {
            for ch in abc {
                // only the first letter distinguishes rejected starts: do not grow those further
                if s.is_empty() || s.starts_with('/') {
                    next.push(format!("{s}{ch}"));
                }
            }
        }
        v.extend(next.iter().cloned());
        layer = next;
    }
    let bits = ["/", "//", "///", "a", "b", "v1", "{a}", "{b}", "{a-b}", "{}", "{é}", "{_x1}", "{type}", "{Id}", ":", "-", ".", "*", "é", "日", " ", "{", "}", "{a/b}", "{a{b}", "%2F", "?", "\\", "\"", "\n", "\u{1f600}", "{self}", "{a b}", "x//y", "{p:q}", "~", "[", "^", "$", "(", "+", "|", "/items/", "{item_id}", "Z"];
    for _ in 0..c.scale(6000, 120_000) {
        let n = c.rng.below(9);
        let mut s = String::new();
        if c.rng.below(20) > 0 {
            s.push('/');
        }
        for _ in 0..n {
            s.push_str(bits[c.rng.below(bits.len())]);
        }
        v.push(s);
    }
    for _ in 0..c.scale(2000, 40_000) {
        let s = format!("/{}", c.rng.string(12));
        v.push(s);
    }
    // long ones
    for n in [50usize, 300] {
        v.push((0..n).map(|i| format!("/s{i}/{{p{i}}}")).collect());
        v.push(format!("{}x", "/".repeat(n)));
        v.push(format!("/{{{}}}", "a".repeat(n)));
        v.push(format!("/{}", "{a}".repeat(n)));
    }
    v
}

fn id(i: usize) -> String {
    format!("arg_{i}")
}

pub fn run(c: &mut Ctx, p: &str) {
    let all = paths(c);
    for path in &all {
        let want = expected(path);
        if p != "G01" && want.is_none() {
            continue;
        }
        let key = || format!("{path:?}");
        match p {
            "G01" => c.case(key, || match (parse(path), want) {
                (Ok(t), Some(w)) => eq("pieces", pieces(&t), w),
                (Ok(t), None) => Err(format!("accepted as {:?}", pieces(&t))),
                (Err(e), Some(w)) => Err(format!("rejected ({e}), expected {w:?}")),
                (Err(Error::InvalidPath(_)), None) => Ok(()),
                (Err(e), None) => Err(format!("wrong kind of error: {e:?}")),
            }),
            "G02" => c.case(key, || {
                let Ok(t) = parse(path) else { return Ok(()) };
                let printed = t.to_string();
                eq("printed", printed.clone(), text(&pieces(&t), |n| format!("{{{n}}}")))?;
                let u = parse(&printed).map_err(|e| format!("printed text {printed:?} does not parse: {e}"))?;
                eq("parsed again", pieces(&u), pieces(&t))?;
                if u != t {
                    return Err("the templates are not equal".into());
                }
                eq("printed again", u.to_string(), printed)
            }),
            "G03" => c.case(key, || {
                let Ok(t) = parse(path) else { return Ok(()) };
                eq("names", t.names(), pieces(&t).into_iter().filter(|x| x.0).map(|x| x.1).collect())
            }),
            "G04" => c.case(key, || {
                let Ok(t) = parse(path) else { return Ok(()) };
                let ps = pieces(&t);
                eq("wildcard", t.as_wildcard(), format!("^{}$", text(&ps, |_| "[^/]*".to_string())))?;
                let mut names: Vec<String> = ps.iter().filter(|x| x.0).map(|x| x.1.clone()).collect();
                names.push("no such".to_string());
                for n in names {
                    eq("one parameter", t.as_wildcard_param(&n), format!("^{}$", text(&ps, |m| if m == n { "{}".to_string() } else { ".*".to_string() })))?;
                }
                Ok(())
            }),
            "G05" => c.case(key, || {
                let Ok(t) = parse(path) else { return Ok(()) };
                let ps = pieces(&t);
                let mut names: Vec<String> = vec![];
                for (par, n) in &ps {
                    if *par && !names.contains(n) {
                        names.push(n.clone());
                    }
                }
                let extra = "unused".to_string();
                let ids: Vec<String> = (0..names.len()).map(id).collect();
                let mut rename: HashMap<&String, &String> = names.iter().zip(ids.iter()).collect();
                if !names.contains(&extra) {
                    rename.insert(&extra, &extra);
                }
                let out = t.compile(rename, quote! { me.client }).to_string().replace("let _ = 0 ;", "").parse::<proc_macro2::TokenStream>().unwrap();
                use syn::parse::Parser;
                let m: syn::ExprMacro = syn::parse2(out.clone()).map_err(|e| format!("{e} in {out}"))?;
                eq("macro", m.mac.path.get_ident().map(|i| i.to_string()), Some("format".to_string()))?;
                let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                    .parse2(m.mac.tokens.clone())
                    .map_err(|e| format!("{e} in {out}"))?;
                let args: Vec<syn::Expr> = args.into_iter().collect();
                let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = args.first() else {
                    return Err(format!("no format text in {out}"));
                };
                eq("format text", f.value(), format!("{{}}{}", text(&ps, |_| "{}".to_string())))?;
                let mut want = vec![quote! { me.client.baseurl }.to_string()];
                for (par, n) in &ps {
                    if *par {
                        let i = format_ident!("{}", id(names.iter().position(|x| x == n).unwrap()));
                        want.push(quote! { encode_path(&#i.to_string()) }.to_string());
                    }
                }
                eq("arguments", args[1..].iter().map(|a| quote! { #a }.to_string()).collect(), want)
            }),
            _ => return,
        }
    }
}
