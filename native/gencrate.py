"""Lays out a crate with the sources of /repo's progenitor-impl as they are, stand-ins for the three dependencies
that are not available offline, and the bounded companions appended as child modules."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def put(path, c):
    if os.path.exists(path) and open(path).read() == c:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(c)


def prepare(repo, dst, repo_files=('cli', 'httpmock', 'lib', 'method', 'template', 'to_schema', 'util')):
    src = os.path.join(repo, 'progenitor-impl', 'src')
    gen = os.path.join(HERE, 'gen')
    for d, _, fs in os.walk(os.path.join(HERE, 'stubs')):
        for f in fs:
            s = os.path.join(d, f)
            if '/target/' not in s:
                put(os.path.join(dst, 'stubs', os.path.relpath(s, os.path.join(HERE, 'stubs'))), open(s).read())
    put(os.path.join(dst, 'Cargo.toml'), open(os.path.join(gen, 'Cargo.toml')).read())
    put(os.path.join(dst, 'src', 'main.rs'), open(os.path.join(gen, 'main.rs')).read())
    lock = os.path.join(dst, 'Cargo.lock')
    if not os.path.exists(lock) and os.path.exists(os.path.join(gen, 'Cargo.lock')):
        put(lock, open(os.path.join(gen, 'Cargo.lock')).read())
    have = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            text = open(os.path.join(d, f)).read()
            h = os.path.join(gen, 'h_' + rel)
            if os.path.exists(h):
                text += f'\n#[cfg(feature = "{rel[:-3]}")]\n#[path = {jstr(h)}]\npub mod vp_companion;\n'
            if rel == 'lib.rs':
                text += f'\n#[path = {jstr(os.path.join(gen, "util.rs"))}]\npub mod vp_util;\n#[path = {jstr(os.path.join(gen, "dispatch.rs"))}]\npub mod vp_dispatch;\n#[cfg(feature = "emit")]\n#[path = {jstr(os.path.join(gen, "emit.rs"))}]\npub mod vp_emit;\n#[cfg(feature = "macro_items")]\npub mod macro_items;\n#[cfg(feature = "macro_api")]\nextern crate self as progenitor_impl;\n#[cfg(feature = "macro_api")]\npub mod macro_api;\n'
            put(os.path.join(dst, 'impl', 'src', rel), text)
            have.add(rel)
    put(os.path.join(dst, 'impl', 'src', 'macro_items.rs'), macro_items(repo) + f'\n#[cfg(feature = "macro_items")]\n#[path = {jstr(os.path.join(gen, "h_macro.rs"))}]\npub mod vp_companion;\n')
    have.add('macro_items.rs')
    for n, t in macro_api(repo).items():
        put(os.path.join(dst, 'impl', 'src', n), t)
        have.add(n)
    for d, _, fs in os.walk(os.path.join(dst, 'impl', 'src')):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, os.path.join(dst, 'impl', 'src')) not in have:
                os.unlink(p)
    put(os.path.join(dst, 'impl', 'Cargo.toml'), open(os.path.join(gen, 'impl.toml')).read())
    return None


def macro_api(repo):
    """the whole macro as a module: no proc macro, and with stand-ins (api_pre.rs) for the crates that are not available"""
    gen = os.path.join(HERE, 'gen')
    src = os.path.join(repo, 'progenitor-macro', 'src')
    out = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            t = open(os.path.join(d, f)).read()
            t = re.sub(r'\bsyn::parse(?=::<|\()', 'syn::parse2', t).replace('syn::parse_macro_input', 'syn::parse_macro_input_')
            if rel == 'lib.rs':
                t = re.sub(r'(?m)^#!\[[^\]]*\]\n', '', t)
                t = re.sub(r'(?m)^//!.*\n', '', t)
                t = re.sub(r'#\[proc_macro\]', '', t)
                t = re.sub(r'(use progenitor_impl::\{[^}]*?)\bGenerator\s*,\s*', r'\1', t)
                t = '#![allow(unused)]\n' + t + open(os.path.join(gen, 'api_pre.rs')).read() + f'\n#[path = {jstr(os.path.join(gen, "h_api.rs"))}]\npub mod vp_companion;\n'
                rel = 'macro_api.rs'
            else:
                rel = os.path.join('macro_api', rel)
            out[rel] = t
    return out


def macro_items(repo, types=('CrateName', 'MacroCrateSpec')):
    """the types of the macro's crate options, their impls and the functions these call, copied as they are"""
    from vp.rustlex import Src, base
    try:
        s = Src(open(os.path.join(repo, 'progenitor-macro', 'src', 'lib.rs')).read(), 'progenitor-macro/src/lib.rs')
        take = [x for x in s.items if (x.kind == 'struct' and x.name in types) or (x.kind == 'impl' and base(x.self_ty) in types)]
        while True:
            used = set(s.toks[i].s for x in take for i in range(x.ti, x.te))
            new = [x for x in s.items if x.kind in ('fn', 'const', 'static') and getattr(x, 'name', None) in used and x not in take]
            if not new:
                break
            take += new
        return ('#![allow(unused)]\nuse serde::{de::Error as _, Deserialize, Deserializer};\nuse typify::CrateVers;\n' +
                '\n'.join((attrs(s, x) + s.text[x.a:x.b]) for x in sorted(take, key=lambda x: x.a)))
    except Exception as e:
        return f'compile_error!({jstr(str(e))});'


def attrs(s, x):
    # attributes in front of the item
    i, out = x.ti, ''
    while i > 1 and s.toks[i - 1].s == ']':
        j = next(k for k in range(i - 2, -1, -1) if s.m.get(k) == i - 1)
        if s.toks[j - 1].s != '#':
            break
        out = s.text[s.toks[j - 1].a:s.toks[i - 1].b] + '\n' + out
        i = j - 1
    return out


def jstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
