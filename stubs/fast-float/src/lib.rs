//! Stand-in for fast-float: the standard library's parser.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid float")
    }
}
impl std::error::Error for Error {}
pub fn parse<T: std::str::FromStr, S: AsRef<[u8]>>(s: S) -> Result<T, Error> {
    std::str::from_utf8(s.as_ref()).map_err(|_| Error)?.parse().map_err(|_| Error)
}
