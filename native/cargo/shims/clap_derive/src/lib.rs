extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree as T};
/// name, whether it is a struct, and the names in its braces (with whether something in parentheses follows)
fn read(t: TokenStream) -> (String, bool, Vec<(String, bool)>) {
    let v: Vec<T> = t.into_iter().collect();
    let k = v.iter().position(|x| matches!(x, T::Ident(i) if i.to_string() == "struct" || i.to_string() == "enum")).unwrap();
    let st = v[k].to_string() == "struct";
    let name = v[k + 1].to_string();
    let T::Group(g) = v.iter().find(|x| matches!(x, T::Group(g) if g.delimiter() == Delimiter::Brace)).unwrap() else { unreachable!() };
    let b: Vec<T> = g.stream().into_iter().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        match &b[i] {
            T::Punct(p) if p.as_char() == '#' => i += 2,
            T::Ident(x) if x.to_string() == "pub" => i += 1,
            T::Group(_) => i += 1,
            T::Ident(x) => {
                out.push((x.to_string(), matches!(b.get(i + 1), Some(T::Group(_)))));
                let mut angle = 0;
                while i < b.len() {
                    if let T::Punct(p) = &b[i] {
                        match p.as_char() { '<' => angle += 1, '>' => angle -= 1, ',' if angle == 0 => break, _ => {} }
                    }
                    i += 1;
                }
                i += 1;
            }
            _ => i += 1,
        }
    }
    (name, st, out)
}
fn given(t: TokenStream, parser: bool) -> TokenStream {
    let (n, st, fs) = read(t);
    let body = if st {
        format!("{n} {{ {} }}", fs.iter().map(|(f, _)| format!("{f}: ::clap::Given::given(&v[\"{f}\"]),")).collect::<String>())
    } else if fs.iter().any(|f| f.1) {
        format!("{n}::{}(::clap::Given::given(v))", fs[0].0)
    } else {
        format!("match v.as_str().unwrap() {{ {} _ => unreachable!() }}", fs.iter().map(|(f, _)| format!("\"{}\" => {n}::{f},", f.to_lowercase())).collect::<String>())
    };
    format!("impl ::clap::Given for {n} {{ fn given(v: &::clap::Value) -> Self {{ {body} }} }} {}", if parser { format!("impl ::clap::Parser for {n} {{}}") } else { String::new() }).parse().unwrap()
}
#[proc_macro_derive(Parser, attributes(clap, command, arg, value, group))]
pub fn parser(t: TokenStream) -> TokenStream { given(t, true) }
#[proc_macro_derive(Args, attributes(clap, command, arg, value, group))]
pub fn args(t: TokenStream) -> TokenStream { given(t, false) }
#[proc_macro_derive(Subcommand, attributes(clap, command, arg, value, group))]
pub fn subcommand(t: TokenStream) -> TokenStream { given(t, false) }
#[proc_macro_derive(ValueEnum, attributes(clap, command, arg, value, group))]
pub fn value_enum(t: TokenStream) -> TokenStream { given(t, false) }
