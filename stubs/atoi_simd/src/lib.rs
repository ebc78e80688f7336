//! Stand-in for atoi_simd: decimal integers out of bytes.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AtoiSimdError {
    Empty,
    Size,
    Invalid64,
}
impl std::fmt::Display for AtoiSimdError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for AtoiSimdError {}
pub trait Parse: Sized {
    const SIGNED: bool;
    fn of(v: i128) -> Option<Self>;
}
macro_rules! parse_impl {
    ($($t:ty, $s:expr;)*) => { $(impl Parse for $t {
        const SIGNED: bool = $s;
        fn of(v: i128) -> Option<Self> {
            <$t>::try_from(v).ok()
        }
    })* };
}
parse_impl!(i64, true; u64, false; i32, true; u32, false;);
fn digits(b: &[u8]) -> Result<(i128, usize), AtoiSimdError> {
    let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
    if n == 0 {
        return Err(AtoiSimdError::Empty);
    }
    let mut v: i128 = 0;
    for c in &b[..n] {
        v = v * 10 + (c - b'0') as i128;
        if v > u64::MAX as i128 {
            return Err(AtoiSimdError::Size);
        }
    }
    Ok((v, n))
}
pub fn parse_until_invalid<T: Parse>(b: &[u8]) -> Result<(T, usize), AtoiSimdError> {
    let (neg, rest) = match b.first() {
        Some(b'-') if T::SIGNED => (true, &b[1..]),
        _ => (false, b),
    };
    let (v, n) = digits(rest)?;
    let v = if neg { -v } else { v };
    Ok((T::of(v).ok_or(AtoiSimdError::Size)?, n + neg as usize))
}
pub fn parse<T: Parse>(b: &[u8]) -> Result<T, AtoiSimdError> {
    let (v, n) = parse_until_invalid(b)?;
    if n != b.len() {
        return Err(AtoiSimdError::Invalid64);
    }
    Ok(v)
}
pub fn parse_pos<T: Parse>(b: &[u8]) -> Result<T, AtoiSimdError> {
    if b.first() == Some(&b'-') {
        return Err(AtoiSimdError::Invalid64);
    }
    parse(b)
}
