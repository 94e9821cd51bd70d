//! Databases for C12, C13, C14, C18: recording or real back ends, explicit rotation.
#![allow(dead_code)]
use crate::indexer::Indexer;
use crate::option::DbOpts;
use crate::storage::Storage;
use crate::vx_kit::*;
use crate::{Builder, MonolithDb, Result};
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;

pub fn opts(dir: &Path, chunk_ms: u64) -> DbOpts {
    let mut o = DbOpts::default();
    o.base_dir = dir.to_path_buf();
    o.chunk_size = Duration::from_millis(chunk_ms);
    o
}
pub fn fake(dir: &Path, chunk_ms: u64, b: &FakeBuilder) -> Result<Arc<MonolithDb<FakeStorage, FakeIndexer>>> {
    MonolithDb::new(opts(dir, chunk_ms), Box::new(b.clone()), Box::new(b.clone()))
}
pub fn open<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(dir: &Path, chunk_ms: u64, s: Box<dyn Builder<S> + Sync + Send>, i: Box<dyn Builder<I> + Sync + Send>) -> Result<Arc<MonolithDb<S, I>>> {
    MonolithDb::new(opts(dir, chunk_ms), s, i)
}
