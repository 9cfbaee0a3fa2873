//! A file that is read whole instead of being mapped.
use std::io;
use std::path::Path;

pub struct Map(Vec<u8>);
pub struct Options;
impl Map {
    pub fn with_options() -> Options {
        Options
    }
}
impl Options {
    pub fn open(self, path: impl AsRef<Path>) -> io::Result<(Map, usize)> {
        let bytes = std::fs::read(path)?;
        if bytes.is_empty() {
            // as it is for a real map
            return Err(io::ErrorKind::InvalidInput.into());
        }
        let n = bytes.len();
        Ok((Map(bytes), n))
    }
}
impl AsRef<[u8]> for Map {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
