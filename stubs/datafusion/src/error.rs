use std::fmt;
pub type Result<T, E = DataFusionError> = std::result::Result<T, E>;
pub type GenericError = Box<dyn std::error::Error + Send + Sync>;
#[derive(Debug)]
pub enum DataFusionError {
    ArrowError(arrow::error::ArrowError),
    IoError(std::io::Error),
    NotImplemented(String),
    Internal(String),
    Plan(String),
    Execution(String),
    ResourcesExhausted(String),
    External(GenericError),
    Context(String, Box<DataFusionError>),
    Substrait(String),
}
impl fmt::Display for DataFusionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::ArrowError(e) => write!(f, "Arrow error: {e}"),
            Self::IoError(e) => write!(f, "IO error: {e}"),
            Self::NotImplemented(e) => write!(f, "This feature is not implemented: {e}"),
            Self::Internal(e) => write!(f, "Internal error: {e}"),
            Self::Plan(e) => write!(f, "Error during planning: {e}"),
            Self::Execution(e) => write!(f, "Execution error: {e}"),
            Self::ResourcesExhausted(e) => write!(f, "Resources exhausted: {e}"),
            Self::External(e) => write!(f, "External error: {e}"),
            Self::Context(d, e) => write!(f, "{d}\ncaused by\n{e}"),
            Self::Substrait(e) => write!(f, "Substrait error: {e}"),
        }
    }
}
impl std::error::Error for DataFusionError {}
impl From<arrow::error::ArrowError> for DataFusionError {
    fn from(e: arrow::error::ArrowError) -> Self {
        Self::ArrowError(e)
    }
}
impl From<std::io::Error> for DataFusionError {
    fn from(e: std::io::Error) -> Self {
        Self::IoError(e)
    }
}
impl From<GenericError> for DataFusionError {
    fn from(e: GenericError) -> Self {
        Self::External(e)
    }
}
impl From<DataFusionError> for arrow::error::ArrowError {
    fn from(e: DataFusionError) -> Self {
        match e {
            DataFusionError::ArrowError(e) => e,
            e => arrow::error::ArrowError::ExternalError(Box::new(e)),
        }
    }
}
impl DataFusionError {
    pub fn context(self, d: impl Into<String>) -> Self {
        Self::Context(d.into(), Box::new(self))
    }
}
