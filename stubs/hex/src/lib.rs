//! Stand-in for hex.
pub fn encode<T: AsRef<[u8]>>(b: T) -> String {
    b.as_ref().iter().map(|b| format!("{b:02x}")).collect()
}
