//! Stand-in for bzip2: stores the bytes, with a length and a checksum, uncompressed.
#[derive(Clone, Copy, Default)]
pub struct Compression;
pub mod write {
    use super::Compression;
    use std::io::{self, Write};
    pub struct BzEncoder<W: Write>(W, Vec<u8>);
    impl<W: Write> BzEncoder<W> {
        pub fn new(w: W, _: Compression) -> Self {
            BzEncoder(w, vec![])
        }
        pub fn finish(mut self) -> io::Result<W> {
            self.0.write_all(b"BZs")?;
            self.0.write_all(&(self.1.len() as u32).to_le_bytes())?;
            let s = sum(&self.1);
            self.0.write_all(&s.to_le_bytes())?;
            self.0.write_all(&self.1)?;
            Ok(self.0)
        }
    }
    fn sum(b: &[u8]) -> u32 {
        b.iter().fold(7u32, |a, x| a.wrapping_mul(31).wrapping_add(*x as u32))
    }
    impl<W: Write> Write for BzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.1.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    pub struct BzDecoder<W: Write>(W, Vec<u8>);
    impl<W: Write> BzDecoder<W> {
        pub fn new(w: W) -> Self {
            BzDecoder(w, vec![])
        }
        pub fn finish(mut self) -> io::Result<W> {
            let bad = || io::Error::new(io::ErrorKind::InvalidData, "bzip2: data");
            let b = &self.1;
            if b.len() < 11 || &b[..3] != b"BZs" {
                return Err(bad());
            }
            let n = u32::from_le_bytes(b[3..7].try_into().unwrap()) as usize;
            let body = b.get(11..11 + n).ok_or_else(bad)?;
            if sum(body) != u32::from_le_bytes(b[7..11].try_into().unwrap()) {
                return Err(bad());
            }
            self.0.write_all(body)?;
            Ok(self.0)
        }
    }
    impl<W: Write> Write for BzDecoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.1.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}
