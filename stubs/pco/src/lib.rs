//! Stand-in for pco: a lossless store of the numbers' bits.
pub const DEFAULT_COMPRESSION_LEVEL: usize = 8;
pub mod errors {
    #[derive(Debug)]
    pub struct PcoError(pub String);
    impl std::fmt::Display for PcoError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for PcoError {}
}
pub trait Number: Copy {
    const TAG: u8;
    fn bits(self) -> u64;
    fn of(b: u64) -> Self;
}
impl Number for f64 {
    const TAG: u8 = 1;
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn of(b: u64) -> f64 {
        f64::from_bits(b)
    }
}
impl Number for i64 {
    const TAG: u8 = 2;
    fn bits(self) -> u64 {
        self as u64
    }
    fn of(b: u64) -> i64 {
        b as i64
    }
}
impl Number for u64 {
    const TAG: u8 = 3;
    fn bits(self) -> u64 {
        self
    }
    fn of(b: u64) -> u64 {
        b
    }
}
pub mod standalone {
    use super::errors::PcoError;
    use super::Number;
    pub fn simpler_compress<T: Number>(v: &[T], _: usize) -> Result<Vec<u8>, PcoError> {
        let mut o = vec![b'p', T::TAG];
        o.extend((v.len() as u32).to_le_bytes());
        for x in v {
            o.extend(x.bits().to_le_bytes());
        }
        Ok(o)
    }
    pub fn simple_decompress<T: Number>(b: &[u8]) -> Result<Vec<T>, PcoError> {
        let bad = || PcoError("corrupt".into());
        if b.len() < 6 || b[0] != b'p' || b[1] != T::TAG {
            return Err(bad());
        }
        let n = u32::from_le_bytes(b[2..6].try_into().unwrap()) as usize;
        let d = b.get(6..6 + 8 * n).ok_or_else(bad)?;
        Ok(d.chunks(8).map(|c| T::of(u64::from_le_bytes(c.try_into().unwrap()))).collect())
    }
}
