"""Self-contained demonstrations for the generator's planted bugs (development only).
d['mod']: the file of progenitor-impl/src the demo module is a child of; d['demo']: its text, with
`pub fn run() -> Result<(), String>`."""
import os, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = os.path.join(ROOT, 'native/gen')

SH = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src" "$scratch/impl"
cp "$here/Cargo.lock.demo" "$scratch/Cargo.lock"
cp "$here/demo.toml" "$scratch/Cargo.toml"
cp "$here/impl.toml" "$scratch/impl/Cargo.toml"
cp -r "$here/stubs" "$scratch/stubs"
cp -r /repo/progenitor-impl/src "$scratch/impl/src"
cp "$here/demo.rs" "$scratch/impl/src/vp_demo_text.rs"
printf '\\n#[path = "%s/impl/src/vp_demo_text.rs"]\\npub mod vp_demo;\\n' "$scratch" >> "$scratch/impl/src/@FILE@"
printf '\\npub fn vp_demo_run() -> std::result::Result<(), String> { crate::@MOD@vp_demo::run() }\\n' >> "$scratch/impl/src/lib.rs"
cat > "$scratch/src/main.rs" <<'EOF'
fn main() {
    let r = std::panic::catch_unwind(progenitor_impl::vp_demo_run);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => { println!("{m}"); std::process::exit(1) }
        Err(_) => { println!("panicked"); std::process::exit(1) }
    }
}
EOF
cd "$scratch" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}" RUSTFLAGS=--cap-lints=allow
cargo build --offline --quiet || exit 3
"$CARGO_TARGET_DIR/debug/demo"
'''
PRE = '''#![allow(unused)]
use super::*;
fn ensure(ok: bool, m: impl FnOnce() -> String) -> std::result::Result<(), String> { if ok { Ok(()) } else { Err(m()) } }
'''
DOC = '''
fn document(paths: serde_json::Value, components: serde_json::Value) -> openapiv3::OpenAPI {
    serde_json::from_value(serde_json::json!({"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": paths, "components": components})).unwrap()
}
fn generate(spec: &openapiv3::OpenAPI, builder: bool) -> std::result::Result<String, String> {
    let mut s = crate::GenerationSettings::new();
    if builder { s.with_interface(crate::InterfaceStyle::Builder); }
    crate::Generator::new(&s).generate_tokens(spec).map(|t| t.to_string()).map_err(|e| e.to_string())
}
'''


# what follows in demo.sh when the generated code is to be run: d['run'] is the main file, which includes the
# code the demo wrote to VP_OUT; the part of httpmock it needs is in it (extern crate self as httpmock)
RUN = """
[ $? = 0 ] || exit 1
rustc --edition 2021 -Awarnings -o "$scratch/run" "$here/run.rs" || exit 3
"$scratch/run"
"""
MOCKS = '''#![allow(dead_code, non_snake_case)]
extern crate self as httpmock;
use std::{cell::RefCell, rc::Rc};
#[derive(Debug, Clone, PartialEq)]
pub enum Method { GET, PUT, POST, DELETE, OPTIONS, HEAD, PATCH, TRACE }
#[derive(Clone, Default)]
pub struct HttpMockRequest { pub path: String, pub query_params: Option<Vec<(String, String)>> }
#[derive(Clone, Default)]
pub struct When(Rc<RefCell<Vec<Box<dyn Fn(&HttpMockRequest) -> bool>>>>);
impl When {
    fn with(self, f: impl Fn(&HttpMockRequest) -> bool + 'static) -> Self { self.0.borrow_mut().push(Box::new(f)); self }
    pub fn method(self, _: Method) -> Self { self }
    pub fn path_matches(self, _: regex::Regex) -> Self { self }
    pub fn query_param(self, n: impl ToString, v: impl ToString) -> Self {
        let p = (n.to_string(), v.to_string());
        self.with(move |r| r.query_params.as_ref().map_or(false, |q| q.contains(&p)))
    }
    pub fn matches(self, f: fn(&HttpMockRequest) -> bool) -> Self { self.with(f) }
    pub fn fits(&self, r: &HttpMockRequest) -> bool { self.0.borrow().iter().all(|f| f(r)) }
}
#[derive(Clone, Default)]
pub struct Then(Rc<RefCell<Option<u16>>>);
impl Then {
    pub fn status(self, n: u16) -> Self { *self.0.borrow_mut() = Some(n); self }
    pub fn header(self, _: impl ToString, _: impl ToString) -> Self { self }
}
pub struct Mock;
#[derive(Default)]
pub struct MockServer(pub RefCell<Option<(When, Then)>>);
impl MockServer {
    pub fn mock(&self, f: impl FnOnce(When, Then)) -> Mock {
        let (w, t) = (When::default(), Then::default());
        *self.0.borrow_mut() = Some((w.clone(), t.clone()));
        f(w, t);
        Mock
    }
}
pub mod regex { #[derive(Debug)] pub struct Regex; impl Regex { pub fn new(_: &str) -> Result<Self, ()> { Ok(Regex) } } }
pub mod made { include!(env!("VP_OUT")); }
use made::*;
'''

CLAP = '''#![allow(dead_code, non_snake_case)]
extern crate self as clap;
#[derive(Clone, Default)]
pub struct Arg { name: String, required: bool, unless: Option<String> }
impl Arg {
    pub fn new(n: &str) -> Self { Arg { name: n.to_string(), ..Default::default() } }
    pub fn long(self, _: &str) -> Self { self }
    pub fn value_parser<T>(self, _: T) -> Self { self }
    pub fn value_name(self, _: &str) -> Self { self }
    pub fn help(self, _: &str) -> Self { self }
    pub fn action(self, _: ArgAction) -> Self { self }
    pub fn required(self, required: bool) -> Self { Arg { required, ..self } }
    pub fn required_unless_present(self, n: &str) -> Self { Arg { unless: Some(n.to_string()), ..self } }
}
pub enum ArgAction { Set, Append, SetTrue, SetFalse, Count }
pub struct Command(Vec<Arg>);
impl Command {
    pub fn new(_: &str) -> Self { Command(Vec::new()) }
    pub fn arg(mut self, a: Arg) -> Self { self.0.push(a); self }
    pub fn about(self, _: &str) -> Self { self }
    pub fn long_about(self, _: &str) -> Self { self }
    /// whether a call that gives these arguments is accepted
    pub fn accepts(&self, given: &[&str]) -> bool {
        let has = |n: &str| given.contains(&n);
        given.iter().all(|g| self.0.iter().any(|a| a.name == *g))
            && self.0.iter().all(|a| has(&a.name) || (!a.required && a.unless.as_ref().map_or(true, |u| has(u))))
    }
}
#[macro_export]
macro_rules! value_parser { ($t:ty) => { () } }
pub mod made { include!(env!("VP_OUT")); }
use made::*;
'''


def demo(out, d):
    f = d['mod']
    mod = '' if f == 'lib.rs' else f[:-3] + '::'
    w = lambda n, t: open(os.path.join(out, n), 'w').write(t)
    w('demo.sh', (SH.replace('export CARGO', 'export VP_OUT="$scratch/made.rs"\nexport CARGO') + RUN if 'run' in d else SH).replace('@FILE@', f).replace('@MOD@', mod))
    t = open(os.path.join(G, 'Cargo.toml')).read().replace('native-gen', 'demo')
    a, b = t.index('[features]'), t.index('[dependencies]')
    w('demo.toml', t[:a] + t[b:])
    t = open(os.path.join(G, 'impl.toml')).read()
    a, b = t.index('[features]'), t.index('[dependencies]')
    w('impl.toml', t[:a] + t[b:])
    w('Cargo.lock.demo', open(os.path.join(G, 'Cargo.lock')).read().replace('name = "native-gen"', 'name = "demo"'))
    shutil.copytree(os.path.join(ROOT, 'native/stubs'), os.path.join(out, 'stubs'), ignore=shutil.ignore_patterns('target', '*.lock'))
    w('demo.rs', PRE + (DOC if 'document(' in d['demo'] else '') + d['demo'])
    if 'run' in d:
        w('run.rs', (CLAP if d.get('mocks') == 'clap' else MOCKS) + d['run'])


CARGO_SH = """#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/c/src" "$scratch/c/impl" "$scratch/d"
cp "$here/Cargo.lock.demo" "$scratch/c/Cargo.lock"
cp "$here/demo.toml" "$scratch/c/Cargo.toml"
cp "$here/impl.toml" "$scratch/c/impl/Cargo.toml"
cp -r "$here/stubs" "$here/shims" "$scratch/c/"
cp -r /repo/progenitor-impl/src "$scratch/c/impl/src"
cp /repo/cargo-progenitor/src/main.rs "$scratch/c/src/main.rs"
cd "$scratch/c" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}" RUSTFLAGS=--cap-lints=allow
cargo build --offline --quiet || exit 3
cd "$scratch/d" || exit 2
python3 "$here/demo.py" "$CARGO_TARGET_DIR/debug/native-cargo" || exit 1
"""


def cargo(out, d):
    w = lambda n, t: open(os.path.join(out, n), 'w').write(t)
    w('demo.sh', CARGO_SH)
    c = os.path.join(ROOT, 'native/cargo')
    w('demo.toml', open(os.path.join(c, 'Cargo.toml')).read())
    shutil.copytree(os.path.join(c, 'shims'), os.path.join(out, 'shims'), ignore=shutil.ignore_patterns('target'))
    t = open(os.path.join(G, 'impl.toml')).read()
    a, b = t.index('[features]'), t.index('[dependencies]')
    w('impl.toml', t[:a] + t[b:])
    w('Cargo.lock.demo', open(os.path.join(c, 'Cargo.lock')).read())
    shutil.copytree(os.path.join(ROOT, 'native/stubs'), os.path.join(out, 'stubs'), ignore=shutil.ignore_patterns('target', '*.lock'))
    w('demo.py', d['demo'])


MACRO_SH = """#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src" "$scratch/impl" "$scratch/docs" "$scratch/elsewhere"
cp "$here/Cargo.lock.demo" "$scratch/Cargo.lock"
cp "$here/demo.toml" "$scratch/Cargo.toml"
cp "$here/impl.toml" "$scratch/impl/Cargo.toml"
cp -r "$here/stubs" "$scratch/stubs"
cp -r /repo/progenitor-impl/src "$scratch/impl/src"
mkdir -p "$scratch/impl/src/macro_api"
# the macro as a module of the generator: no proc macro, and stand-ins for the crates that are not available offline
for f in /repo/progenitor-macro/src/*.rs; do
    n=$(basename "$f")
    [ "$n" = lib.rs ] && o="$scratch/impl/src/macro_api.rs" || o="$scratch/impl/src/macro_api/$n"
    python3 -c '
import re, sys
t = open(sys.argv[1]).read()
t = re.sub(r"\\bsyn::parse(?=::<|\\()", "syn::parse2", t)
if sys.argv[3] == "lib.rs":
    t = re.sub(r"(?m)^(#!\\[[^\\]]*\\]|//!.*)\\n", "", t).replace("#[proc_macro]", "")
    t = re.sub(r"(use progenitor_impl::\\{[^}]*?)\\bGenerator\\s*,\\s*", r"\\1", t)
    t += open(sys.argv[4] + "/stand_ins.rs").read() + open(sys.argv[4] + "/demo.rs").read()
open(sys.argv[2], "w").write("#![allow(unused)]\\n" * (sys.argv[3] == "lib.rs") + t)' "$f" "$o" "$n" "$here" || exit 2
done
printf '\\nextern crate self as progenitor_impl;\\npub mod macro_api;\\npub fn vp_demo_run() -> std::result::Result<(), String> { macro_api::vp_demo::run() }\\n' >> "$scratch/impl/src/lib.rs"
cat > "$scratch/src/main.rs" <<'EOF'
fn main() {
    let r = std::panic::catch_unwind(progenitor_impl::vp_demo_run);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => { println!("{m}"); std::process::exit(1) }
        Err(_) => { println!("panicked"); std::process::exit(1) }
    }
}
EOF
cd "$scratch" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}" RUSTFLAGS=--cap-lints=allow
cargo build --offline --quiet || exit 3
cd "$scratch/elsewhere" || exit 2
CARGO_MANIFEST_DIR="$scratch/docs" "$CARGO_TARGET_DIR/debug/demo"
"""


def macro(out, d):
    """d['demo']: the text of `mod vp_demo`, a child of the macro"""
    w = lambda n, t: open(os.path.join(out, n), 'w').write(t)
    w('demo.sh', MACRO_SH)
    t = open(os.path.join(G, 'Cargo.toml')).read().replace('native-gen', 'demo')
    a, b = t.index('[features]'), t.index('[dependencies]')
    w('demo.toml', t[:a] + t[b:])
    t = open(os.path.join(G, 'impl.toml')).read()
    a, b = t.index('[features]'), t.index('[dependencies]')
    w('impl.toml', t[:a] + t[b:].replace('"parsing", "full"', '"parsing", "full", "extra-traits"'))
    w('Cargo.lock.demo', open(os.path.join(G, 'Cargo.lock')).read().replace('name = "native-gen"', 'name = "demo"'))
    shutil.copytree(os.path.join(ROOT, 'native/stubs'), os.path.join(out, 'stubs'), ignore=shutil.ignore_patterns('target', '*.lock'))
    w('stand_ins.rs', open(os.path.join(G, 'api_pre.rs')).read())
    w('demo.rs', 'pub mod vp_demo {\nuse super::*;\n' + d['demo'] + '}\n')
