//! the YAML this stands for: comment lines, then JSON
pub type Error = serde_json::Error;
pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| serde::de::Error::custom(e.to_string()))?;
    from_str(&s)
}
pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, Error> {
    serde_json::from_str(&s.lines().filter(|l| !l.starts_with('#')).collect::<Vec<_>>().join("\n"))
}
