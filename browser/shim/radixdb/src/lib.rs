//! radixdb with the one name the browser crate still uses and radixdb no longer exports
pub use rdx::*;
pub mod store {
    pub use rdx::store::*;
    pub type OwnedBlob = rdx::store::Blob<'static>;
}
