//! Stand-in for openssl: no keys in a simulation.
pub mod error {
    #[derive(Debug)]
    pub struct ErrorStack;
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("no openssl in a simulation")
        }
    }
    impl std::error::Error for ErrorStack {}
}
pub mod rsa {
    use super::error::ErrorStack;
    pub struct Padding;
    impl Padding {
        pub const PKCS1: Padding = Padding;
    }
    pub struct Rsa;
    impl Rsa {
        pub fn public_key_from_pem(_: &[u8]) -> Result<Rsa, ErrorStack> {
            Err(ErrorStack)
        }
        pub fn private_key_from_pem_passphrase(_: &[u8], _: &[u8]) -> Result<Rsa, ErrorStack> {
            Err(ErrorStack)
        }
        pub fn size(&self) -> u32 {
            0
        }
        pub fn public_encrypt(&self, _: &[u8], _: &mut [u8], _: Padding) -> Result<usize, ErrorStack> {
            Err(ErrorStack)
        }
        pub fn private_decrypt(&self, _: &[u8], _: &mut [u8], _: Padding) -> Result<usize, ErrorStack> {
            Err(ErrorStack)
        }
    }
}
