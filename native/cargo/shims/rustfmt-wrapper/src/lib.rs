//! leaves the text as it is
pub mod config {
    #[derive(Default, Clone, Debug)]
    pub struct Config { pub normalize_doc_attributes: Option<bool>, pub wrap_comments: Option<bool>, pub format_strings: Option<bool> }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("error") } }
impl std::error::Error for Error {}
pub fn rustfmt_config<T: ToString>(_: config::Config, s: T) -> Result<String, Error> { Ok(s.to_string()) }
pub fn rustfmt<T: ToString>(s: T) -> Result<String, Error> { Ok(s.to_string()) }
