//! The part of datafusion that cnosdb's storage crates name. It cannot be fetched
//! here; the query planner and executor are not simulated.
pub use arrow;
pub mod error;
mod expr;
mod physical;
mod scalar_value;
mod tree;
pub mod scalar {
    pub use crate::scalar_value::ScalarValue;
}
pub mod common {
    pub use crate::error::{DataFusionError, Result};
    pub use crate::expr::{Column, DFField, DFSchema, DFSchemaRef};
    pub use crate::scalar_value::ScalarValue;
    pub mod tree_node {
        pub use crate::tree::*;
    }
    pub mod cast {
        use crate::error::{DataFusionError, Result};
        use arrow::array::{Array, BooleanArray};
        pub fn as_boolean_array(a: &dyn Array) -> Result<&BooleanArray> {
            a.as_any().downcast_ref().ok_or_else(|| DataFusionError::Internal("could not cast value to BooleanArray".into()))
        }
    }
}
pub mod execution {
    pub mod memory_pool;
    pub use crate::expr::FunctionRegistry;
}
pub mod logical_expr {
    pub use crate::expr::*;
}
pub mod prelude {
    pub use crate::expr::{Column, Expr};
}
pub mod physical_expr {
    pub use crate::physical::{create_physical_expr, PhysicalExpr};
    pub mod execution_props {
        pub use crate::physical::ExecutionProps;
    }
    pub mod expressions {
        pub use crate::physical::{BinaryExpr, CastExpr, Column, Literal};
    }
}
pub mod physical_plan {
    pub use crate::physical::{PhysicalExpr, SendableRecordBatchStream};
    pub mod expressions {
        pub use crate::physical::{BinaryExpr, CastExpr, Column, Literal};
    }
    pub mod metrics;
    pub mod common {
        pub struct AbortOnDropMany<T>(pub Vec<tokio::task::JoinHandle<T>>);
        impl<T> Drop for AbortOnDropMany<T> {
            fn drop(&mut self) {
                for h in &self.0 {
                    h.abort()
                }
            }
        }
    }
    pub mod sorts {
        pub mod cursor;
    }
}
pub mod physical_optimizer {
    pub mod pruning {
        pub use crate::physical::{PruningPredicate, PruningStatistics};
    }
}
pub mod parquet {
    pub mod data_type {
        pub trait AsBytes {
            fn as_bytes(&self) -> &[u8];
        }
        macro_rules! plain {
            ($($t:ty)*) => { $(impl AsBytes for $t {
                fn as_bytes(&self) -> &[u8] {
                    unsafe { std::slice::from_raw_parts(self as *const $t as *const u8, std::mem::size_of::<$t>()) }
                }
            })* };
        }
        plain!(i32 u32 i64 u64 f32 f64 u8);
        impl AsBytes for [u8] {
            fn as_bytes(&self) -> &[u8] {
                self
            }
        }
        impl AsBytes for Vec<u8> {
            fn as_bytes(&self) -> &[u8] {
                self
            }
        }
        impl AsBytes for str {
            fn as_bytes(&self) -> &[u8] {
                str::as_bytes(self)
            }
        }
    }
}
pub mod datasource {
    pub mod listing {
        use super::file_format::FileFormat;
        use std::sync::Arc;
        pub struct ListingOptions {
            pub format: Arc<dyn FileFormat>,
            pub target_partitions: usize,
        }
        impl ListingOptions {
            pub fn new(format: Arc<dyn FileFormat>) -> Self {
                ListingOptions { format, target_partitions: 1 }
            }
            pub fn with_target_partitions(mut self, n: usize) -> Self {
                self.target_partitions = n;
                self
            }
        }
    }
    pub mod file_format;
}
pub mod sql;
