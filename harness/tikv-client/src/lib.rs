//! Stand-in for the `tikv-client` crate, which is a git dependency that cannot be fetched here.
//!
//! Only the names /repo/src uses exist. `RawClient` is a handle on a process-global ordered map,
//! one per list of endpoints, so that two clients built from the same configuration share data the
//! way two clients of one TiKV cluster do. Faults can be injected per endpoint list.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Default)]
pub struct Config {
    pub endpoints: Vec<String>,
}
impl Config {
    pub fn new<S: Into<String>>(endpoints: impl IntoIterator<Item = S>) -> Config {
        Config { endpoints: endpoints.into_iter().map(Into::into).collect() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Value(Vec<u8>);
impl From<Value> for Vec<u8> {
    fn from(v: Value) -> Vec<u8> {
        v.0
    }
}
impl From<Vec<u8>> for Value {
    fn from(v: Vec<u8>) -> Value {
        Value(v)
    }
}

#[derive(Default)]
pub struct Store {
    pub map: BTreeMap<Vec<u8>, Vec<u8>>,
    /// fail the n-th next put (0 = the next one)
    pub fail_put_after: Option<usize>,
    /// fail the n-th next get (0 = the next one)
    pub fail_get_after: Option<usize>,
    pub puts: usize,
    pub gets: usize,
}
pub type Shared = Arc<Mutex<Store>>;

fn stores() -> &'static Mutex<HashMap<Vec<String>, Shared>> {
    static S: OnceLock<Mutex<HashMap<Vec<String>, Shared>>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(HashMap::new()))
}
/// The store behind one list of endpoints.
pub fn store(endpoints: &[String]) -> Shared {
    stores()
        .lock()
        .unwrap()
        .entry(endpoints.to_vec())
        .or_default()
        .clone()
}

pub struct Ready<T>(Option<T>);
impl<T: Unpin> Future for Ready<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<T> {
        Poll::Ready(self.0.take().unwrap())
    }
}

#[derive(Clone)]
pub struct RawClient {
    s: Shared,
}
fn due(c: &mut Option<usize>) -> bool {
    match *c {
        Some(0) => {
            *c = None;
            true
        }
        Some(n) => {
            *c = Some(n - 1);
            false
        }
        None => false,
    }
}
impl RawClient {
    pub fn new(config: Config) -> Result<RawClient> {
        Ok(RawClient {
            s: store(&config.endpoints),
        })
    }
    pub fn put(&self, key: impl Into<Vec<u8>>, value: impl Into<Value>) -> Ready<Result<()>> {
        let mut s = self.s.lock().unwrap();
        s.puts += 1;
        if due(&mut s.fail_put_after) {
            return Ready(Some(Err(Error("injected put failure".into()))));
        }
        s.map.insert(key.into(), value.into().0);
        Ready(Some(Ok(())))
    }
    pub fn get(&self, key: impl Into<Vec<u8>>) -> Ready<Result<Option<Value>>> {
        let mut s = self.s.lock().unwrap();
        s.gets += 1;
        if due(&mut s.fail_get_after) {
            return Ready(Some(Err(Error("injected get failure".into()))));
        }
        Ready(Some(Ok(s.map.get(&key.into()).cloned().map(Value))))
    }
}
