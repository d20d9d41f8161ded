// stand-ins for the crates of the macro that are not available offline
mod proc_macro {
    pub use proc_macro2::TokenStream;
}
mod serde_yaml {
    pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(mut r: R) -> std::result::Result<T, serde_json::Error> {
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| serde::de::Error::custom(e.to_string()))?;
        serde_json::from_str(&s.lines().filter(|l| !l.starts_with('#')).collect::<Vec<_>>().join("\n"))
    }
}
/// options as `options "<JSON>"`
mod serde_tokenstream {
    use serde::{Deserialize, Deserializer};
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct ParseWrapper<P>(P);
    impl<P> ParseWrapper<P> {
        pub fn into_inner(self) -> P {
            self.0
        }
    }
    impl<P> std::ops::Deref for ParseWrapper<P> {
        type Target = P;
        fn deref(&self) -> &P {
            &self.0
        }
    }
    impl<'de, P: syn::parse::Parse> Deserialize<'de> for ParseWrapper<P> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            syn::parse_str(&String::deserialize(d)?).map(Self).map_err(serde::de::Error::custom)
        }
    }
    #[derive(Debug, Clone)]
    pub struct OrderedMap<K, V>(Vec<(K, V)>);
    impl<K, V> Default for OrderedMap<K, V> {
        fn default() -> Self {
            Self(vec![])
        }
    }
    impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for OrderedMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            Vec::deserialize(d).map(Self)
        }
    }
    impl<K, V> IntoIterator for OrderedMap<K, V> {
        type Item = (K, V);
        type IntoIter = std::vec::IntoIter<(K, V)>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    pub fn from_tokenstream<T: serde::de::DeserializeOwned>(t: &proc_macro2::TokenStream) -> syn::Result<T> {
        let v: Vec<_> = t.clone().into_iter().collect();
        let s: syn::LitStr = syn::parse_str(&v.get(1).map(|x| x.to_string()).unwrap_or_default())?;
        serde_json::from_str(&s.value()).map_err(|e| syn::Error::new(proc_macro2::Span::call_site(), e))
    }
}
thread_local! { static SEEN: std::cell::RefCell<Vec<GenerationSettings>> = Default::default(); }
/// the real one; remembers its settings
struct Generator(crate::Generator);
impl Generator {
    fn new(s: &GenerationSettings) -> Self {
        SEEN.with(|x| x.borrow_mut().push(s.clone()));
        Self(crate::Generator::new(s))
    }
}
impl Default for Generator {
    fn default() -> Self {
        SEEN.with(|x| x.borrow_mut().push(Default::default()));
        Self(Default::default())
    }
}
impl std::ops::Deref for Generator {
    type Target = crate::Generator;
    fn deref(&self) -> &crate::Generator {
        &self.0
    }
}
impl std::ops::DerefMut for Generator {
    fn deref_mut(&mut self) -> &mut crate::Generator {
        &mut self.0
    }
}
