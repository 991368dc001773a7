//! Calls into the crate under test; a panic becomes a value.
use crate::extract;
use crate::run::panic_text;
use crate::v::*;
use onenote_parser::Parser;
use onenote_parser::section::Section;
use std::path::Path;

#[derive(Clone, PartialEq, Debug)]
pub enum P<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> P<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            P::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, P::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, P::Err(_))
    }
    /// "error: ..." / "panic: ..." for anything but Ok.
    pub fn bad(&self) -> Option<String> {
        match self {
            P::Ok(_) => None,
            P::Err(e) => Some(format!("error: {e}")),
            P::Panic(e) => Some(format!("panic: {e}")),
        }
    }
}
pub fn guard<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> P<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(t)) => P::Ok(t),
        Ok(Err(e)) => P::Err(e.to_string()),
        Err(e) => P::Panic(panic_text(&e)),
    }
}
pub fn buffer<T>(bytes: &[u8], name: &str, g: impl FnOnce(&Section) -> T) -> P<T> {
    guard(|| Parser::new().parse_section_buffer(bytes, Path::new(name)).map(|s| g(&s)))
}
pub fn buffer_v(bytes: &[u8], name: &str) -> P<V> {
    buffer(bytes, name, extract::section)
}
pub fn path_v(p: &Path) -> P<V> {
    guard(|| Parser::new().parse_section(p).map(|s| extract::section(&s)))
}
pub fn notebook_v(p: &Path) -> P<V> {
    guard(|| Parser::new().parse_notebook(p).map(|n| extract::notebook(&n)))
}
