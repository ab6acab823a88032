//! URLs as plain text.
#[derive(Debug, Clone)]
pub struct Url(String);
#[derive(Debug)]
pub struct ParseError;
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("not a URL") } }
impl std::error::Error for ParseError {}
impl Url {
    pub fn parse(s: &str) -> Result<Url, ParseError> { if s.starts_with("http") { Ok(Url(s.to_string())) } else { Err(ParseError) } }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl std::fmt::Display for Url { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
