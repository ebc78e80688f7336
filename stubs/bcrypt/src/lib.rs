//! Stand-in for bcrypt: a keyed checksum instead of a slow hash. Nothing cryptographic is checked with it.
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)]
pub struct BcryptError(String);
impl std::fmt::Display for BcryptError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for BcryptError {}
pub type BcryptResult<T> = Result<T, BcryptError>;
fn h(p: &[u8]) -> String {
    let mut a = 0xcbf29ce484222325u64;
    for b in p {
        a = (a ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    format!("$sim${a:016x}")
}
pub fn hash<P: AsRef<[u8]>>(p: P, _: u32) -> BcryptResult<String> {
    Ok(h(p.as_ref()))
}
pub fn verify<P: AsRef<[u8]>>(p: P, hash: &str) -> BcryptResult<bool> {
    if !hash.starts_with('$') {
        return Err(BcryptError(format!("Invalid hash: {hash}")));
    }
    Ok(h(p.as_ref()) == hash)
}
