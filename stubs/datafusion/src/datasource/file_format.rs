pub trait FileFormat: Send + Sync {}
macro_rules! fmts { ($($m:ident $t:ident),*) => {$(pub mod $m {
    use super::file_type::FileCompressionType;
    #[derive(Default)]
    pub struct $t { pub header: bool, pub delimiter: u8, pub compression: Option<FileCompressionType> }
    impl super::FileFormat for $t {}
    impl $t {
        pub fn with_has_header(mut self, h: bool) -> Self { self.header = h; self }
        pub fn with_delimiter(mut self, d: u8) -> Self { self.delimiter = d; self }
        pub fn with_file_compression_type(mut self, c: FileCompressionType) -> Self { self.compression = Some(c); self }
    }
})*} }
fmts!(csv CsvFormat, json JsonFormat, parquet ParquetFormat);
pub mod avro {
    #[derive(Default)]
    pub struct AvroFormat;
    impl super::FileFormat for AvroFormat {}
}
pub mod file_type {
    use crate::error::DataFusionError;
    use std::str::FromStr;
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct FileCompressionType(u8);
    impl FileCompressionType {
        pub const GZIP: Self = Self(1);
        pub const BZIP2: Self = Self(2);
        pub const XZ: Self = Self(3);
        pub const ZSTD: Self = Self(4);
        pub const UNCOMPRESSED: Self = Self(0);
    }
    impl FromStr for FileCompressionType {
        type Err = DataFusionError;
        fn from_str(s: &str) -> Result<Self, DataFusionError> {
            Ok(match s.to_uppercase().as_str() {
                "GZIP" | "GZ" => Self::GZIP,
                "BZIP2" | "BZ2" => Self::BZIP2,
                "XZ" => Self::XZ,
                "ZST" | "ZSTD" => Self::ZSTD,
                "" => Self::UNCOMPRESSED,
                _ => return Err(DataFusionError::NotImplemented(format!("Unknown FileCompressionType: {s}"))),
            })
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    #[allow(clippy::upper_case_acronyms)]
    pub enum FileType {
        ARROW,
        AVRO,
        PARQUET,
        CSV,
        JSON,
    }
    impl FromStr for FileType {
        type Err = DataFusionError;
        fn from_str(s: &str) -> Result<Self, DataFusionError> {
            Ok(match s.to_uppercase().as_str() {
                "ARROW" => Self::ARROW,
                "AVRO" => Self::AVRO,
                "PARQUET" => Self::PARQUET,
                "CSV" => Self::CSV,
                "JSON" | "NDJSON" => Self::JSON,
                _ => return Err(DataFusionError::NotImplemented(format!("Unknown FileType: {s}"))),
            })
        }
    }
}
