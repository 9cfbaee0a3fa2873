//! Only used on Windows.
pub trait PathExt {}
impl PathExt for std::path::Path {}
