use super::*;
use crate::vp_util::*;
use serde::de::value::{Error as E, StringDeserializer};
use serde::de::IntoDeserializer;
use std::result::Result;

fn good(s: &str) -> bool {
    s.chars().all(|x| x.is_alphanumeric() || x == '_' || x == '-')
}

pub fn run(c: &mut Ctx, _: &str) {
    let names = ["", "a", "my-crate", "my_crate", "é", "9", "a b", "a.b", "a/b", "a:b", "-", "_", "a!", "A", "a+b", "a\u{200b}", "crate", "\""];
    let vers = ["1.2.3", "*", "!", "1", "", "1.2", "1.2.3-rc.1", "1.2.3+b", "v1.2.3", "@1.2.3", "1.2.3@", " 1.2.3", "1.2.3 ", "0.0.0", "a", "**", "1.2.3-@", "99.0.1"];
    let mut all: Vec<String> = vec![];
    for n in names {
        all.push(n.into());
        for v in vers {
            all.push(v.into());
            all.push(format!("{n}@{v}"));
            all.push(format!("{n}@x@{v}"));
        }
    }
    for x in (0u32..0x3000).filter_map(char::from_u32) {
        all.push(format!("a{x}"));
        all.push(format!("a{x}b@1.0.0"));
    }
    for _ in 0..c.scale(10_000, 200_000) {
        let n = c.rng.string(5);
        let v = vers[c.rng.below(vers.len())];
        all.push(format!("{n}@{v}"));
        all.push(n);
    }
    for s in all {
        c.case(
            || s.clone(),
            || {
                let d: StringDeserializer<E> = s.clone().into_deserializer();
                let n = CrateName::deserialize(d).ok().map(|n| n.0);
                eq("crate name", n, if good(&s) { Some(s.clone()) } else { None })?;
                let d: StringDeserializer<E> = s.clone().into_deserializer();
                let got = MacroCrateSpec::deserialize(d).ok().map(|o| (o.original, o.version));
                let (o, v) = match s.split_once('@') {
                    Some((a, b)) => (Some(a.to_string()), b),
                    None => (None, &s[..]),
                };
                let want = match CrateVers::parse(v) {
                    Some(v) if o.as_deref().map_or(true, good) => Some((o, v)),
                    _ => None,
                };
                eq("crate option", format!("{got:?}"), format!("{want:?}"))
            },
        );
    }
}
