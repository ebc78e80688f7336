//! Stand-in for integer-encoding: LEB128 varints, zigzag for signed integers, fixed little endian.
pub trait VarInt: Sized + Copy {
    fn required_space(self) -> usize;
    fn decode_var(src: &[u8]) -> Option<(Self, usize)>;
    fn encode_var(self, dst: &mut [u8]) -> usize;
    fn encode_var_vec(self) -> Vec<u8> {
        let mut v = vec![0; self.required_space()];
        self.encode_var(&mut v);
        v
    }
}
impl VarInt for u64 {
    fn required_space(mut self) -> usize {
        let mut n = 1;
        while self >= 0x80 {
            self >>= 7;
            n += 1;
        }
        n
    }
    fn decode_var(src: &[u8]) -> Option<(u64, usize)> {
        let (mut r, mut shift) = (0u64, 0);
        for (i, b) in src.iter().enumerate() {
            if shift > 63 {
                return None;
            }
            r |= ((b & 0x7f) as u64) << shift;
            shift += 7;
            if b & 0x80 == 0 {
                return Some((r, i + 1));
            }
        }
        None
    }
    fn encode_var(mut self, dst: &mut [u8]) -> usize {
        let mut i = 0;
        while self >= 0x80 {
            dst[i] = (self as u8) | 0x80;
            i += 1;
            self >>= 7;
        }
        dst[i] = self as u8;
        i + 1
    }
}
impl VarInt for i64 {
    fn required_space(self) -> usize {
        (((self << 1) ^ (self >> 63)) as u64).required_space()
    }
    fn decode_var(src: &[u8]) -> Option<(i64, usize)> {
        let (v, n) = u64::decode_var(src)?;
        Some((((v >> 1) as i64) ^ -((v & 1) as i64), n))
    }
    fn encode_var(self, dst: &mut [u8]) -> usize {
        (((self << 1) ^ (self >> 63)) as u64).encode_var(dst)
    }
}
macro_rules! uns { ($($t:ty),*) => {$(impl VarInt for $t {
    fn required_space(self) -> usize { (self as u64).required_space() }
    fn decode_var(src: &[u8]) -> Option<($t, usize)> { u64::decode_var(src).map(|(v, n)| (v as $t, n)) }
    fn encode_var(self, dst: &mut [u8]) -> usize { (self as u64).encode_var(dst) }
})*} }
macro_rules! sig { ($($t:ty),*) => {$(impl VarInt for $t {
    fn required_space(self) -> usize { (self as i64).required_space() }
    fn decode_var(src: &[u8]) -> Option<($t, usize)> { i64::decode_var(src).map(|(v, n)| (v as $t, n)) }
    fn encode_var(self, dst: &mut [u8]) -> usize { (self as i64).encode_var(dst) }
})*} }
uns!(u8, u16, u32, usize);
sig!(i8, i16, i32, isize);

pub trait FixedInt: Sized + Copy {
    const REQUIRED_SPACE: usize;
    fn required_space() -> usize {
        Self::REQUIRED_SPACE
    }
    fn encode_fixed(self, dst: &mut [u8]);
    fn encode_fixed_vec(self) -> Vec<u8>;
    fn decode_fixed(src: &[u8]) -> Self;
}
macro_rules! fixed { ($($t:ty),*) => {$(impl FixedInt for $t {
    const REQUIRED_SPACE: usize = std::mem::size_of::<$t>();
    fn encode_fixed(self, dst: &mut [u8]) { dst.copy_from_slice(&self.to_le_bytes()) }
    fn encode_fixed_vec(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    fn decode_fixed(src: &[u8]) -> $t { let mut b = [0; std::mem::size_of::<$t>()]; b.copy_from_slice(src); <$t>::from_le_bytes(b) }
})*} }
fixed!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
