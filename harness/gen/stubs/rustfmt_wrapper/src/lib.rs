//! Stand-in for the rustfmt process: the text as it is.
pub mod config {
    #[derive(Default, Debug, Clone)]
    pub struct Config {
        pub normalize_doc_attributes: Option<bool>,
        pub wrap_comments: Option<bool>,
        pub format_strings: Option<bool>,
        pub max_width: Option<usize>,
        pub normalize_comments: Option<bool>,
        pub format_code_in_doc_comments: Option<bool>,
    }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("rustfmt")
    }
}
impl std::error::Error for Error {}
pub fn rustfmt<T: ToString>(input: T) -> Result<String, Error> {
    Ok(input.to_string())
}
pub fn rustfmt_config<T: ToString>(_config: config::Config, input: T) -> Result<String, Error> {
    Ok(input.to_string())
}
