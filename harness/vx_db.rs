//! Declared inside src/db.rs of the copy: reaches the private parts of a database the searches need.
use super::*;
pub fn window<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>) -> (Timestamp, Timestamp) {
    db.current_chuck.read().unwrap().start_end_time()
}
pub fn rotate<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>, start: Timestamp) -> Result<()> {
    db.swap(start)
}
/// the closed chunks, in order: (start, end, closed)
pub fn closed<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>) -> Vec<(Timestamp, Timestamp, bool)> {
    db.secondary_chunks.read().unwrap().iter().map(|c| { let (a, b) = c.start_end_time(); (a, b, c.is_closed()) }).collect()
}
