"""Component identifiers on the shared store (C19)."""
from . import lib
B = "src/backend/tikv.rs"
ST = "src/storage/tikv_storage.rs"
IX = "src/indexer/tikv_indexer.rs"
CH = "src/chunk/chunk.rs"

SPEC = r"""
// ---- identifiers: new ones are 16 bytes; that no two are the same is what random UUIDs are assumed to give
#[verifier::external_body] struct Uuid {}
uninterp spec fn vx_id(s: Seq<u8>) -> bool;
impl Uuid {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn nil() -> (r: Uuid) ensures r@ == nil16() { loop {} }
    #[verifier::external_body]
    fn new_v4() -> (r: Uuid) ensures r@.len() == 16, vx_id(r@), r@ != nil16() { loop {} }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8; 16]) ensures r@ == self@ { loop {} }
}
spec fn nil16() -> Seq<u8> { Seq::new(16, |i: int| 0u8) }
// {indexer identifier}{storage identifier}
spec fn rec_of(k: Kv, chunk: Seq<u8>) -> Seq<u8> { if k.contains_key(chunk) { k[chunk] } else { nil16() + nil16() } }
spec fn part(v: Seq<u8>, is_indexer: bool) -> Seq<u8> { if is_indexer { v.subrange(0, 16) } else { v.subrange(16, 32) } }
spec fn rec_ok(k: Kv, chunk: Seq<u8>) -> bool { k.contains_key(chunk) ==> k[chunk].len() == 32 }
// creating a component records its identifier in its part of the chunk's record and touches nothing else
spec fn created(k0: Kv, k1: Kv, chunk: Seq<u8>, is_indexer: bool, id: Seq<u8>) -> bool {
    k1.dom() =~= k0.dom().insert(chunk) && (forall|x: Seq<u8>| x != chunk && #[trigger] k0.contains_key(x) ==> k1[x] == k0[x])
    && k1[chunk].len() == 32 && part(k1[chunk], is_indexer) =~= id && part(k1[chunk], !is_indexer) =~= part(rec_of(k0, chunk), !is_indexer)
    && id.len() == 16 && vx_id(id)
}
// whatever is created afterwards, for this chunk or any other, in any order: the identifier stays until the same component of the same chunk is created again
proof fn vx_identifier_stays(k0: Kv, k1: Kv, chunk: Seq<u8>, is_indexer: bool, other: Seq<u8>, other_indexer: bool, id: Seq<u8>)
    requires rec_ok(k0, chunk), k0.contains_key(chunk), created(k0, k1, other, other_indexer, id), other != chunk || other_indexer != is_indexer,
    ensures k1.contains_key(chunk), part(k1[chunk], is_indexer) == part(k0[chunk], is_indexer), rec_ok(k1, chunk),
{ }
// keys of components with different identifiers are different, and no component's key is a chunk's record
proof fn vx_keys_apart(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a.len() == 16, b.len() == 16, a != b || x != y,
    ensures a + x != b + y,
{
    if a + x == b + y { assert((a + x).subrange(0, 16) =~= a); assert((b + y).subrange(0, 16) =~= b); assert((a + x).subrange(16, (a + x).len() as int) =~= x); assert((b + y).subrange(16, (b + y).len() as int) =~= y); }
}
proof fn vx_record_apart(chunk: Seq<u8>, a: Seq<u8>, x: Seq<u8>)
    requires chunk.len() == 16, a.len() == 16, x.len() > 0,
    ensures a + x != chunk,
{ assert((a + x).len() > 16); }
trait VxToVec { fn to_vec(&self) -> Vec<u8>; }
impl VxToVec for [u8; 16] {
    #[verifier::external_body]
    fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { loop {} }
}
// ---- slices
#[verifier::external_body]
fn vx_slice_from(v: &Vec<u8>, a: usize) -> (r: Vec<u8>) requires a <= v@.len(), ensures r@ == v@.subrange(a as int, v@.len() as int) { v[a..].to_vec() }
#[verifier::external_body]
fn vx_slice_to(v: &Vec<u8>, b: usize) -> (r: Vec<u8>) requires b <= v@.len(), ensures r@ == v@.subrange(0, b as int) { v[..b].to_vec() }
#[verifier::external_body] struct PathBuf {}
#[verifier::external_body] struct Path {}
#[verifier::external_body] struct DbOpts {}
#[verifier::external_body] fn vx_create_dir() -> (r: Result<()>) { loop {} }
"""
BACKEND = r"""
trait TiKvRawBackend {
    spec fn view(&self) -> Kv;
    fn set(&mut self, key: Vec<u8>, value: Vec<u8>) -> (r: Result<()>)
        ensures match r { Ok(_) => final(self)@ == old(self)@.insert(key@, value@), Err(e) => final(self)@ == old(self)@ && vx_store_err(e) };
    fn get(&self, key: Vec<u8>) -> (r: Result<Option<Vec<u8>>>)
        ensures match r { Ok(Some(v)) => self@.contains_key(key@) && v@ == self@[key@], Ok(None) => !self@.contains_key(key@), Err(e) => vx_store_err(e) };
"""
CLIENT = r"""
// the network client: what the cluster behind its endpoints holds, as a map; it may fail
#[verifier::external_body] struct Config {}
#[verifier::external_body] struct Value_ {}
impl Value_ {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn into(self) -> (r: Vec<u8>) ensures r@ == self@ { loop {} }
}
impl vstd::std_specs::convert::FromSpecImpl<VxOpaque> for MonolithErr {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(e: VxOpaque) -> MonolithErr { MonolithErr::TiKvErr(e) }
}
// `?` converts by From::from, whose contract is the one above
broadcast axiom fn ax_question_mark(e: VxOpaque, r: MonolithErr)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<MonolithErr, VxOpaque>(e, r) ==> r == MonolithErr::TiKvErr(e);
uninterp spec fn vx_cluster(c: Config) -> Kv;
#[verifier::external_body] struct RawClient {}
impl RawClient {
    uninterp spec fn view(&self) -> Kv;
    #[verifier::external_body]
    fn new(c: Config) -> (r: std::result::Result<RawClient, VxOpaque>) ensures match r { Ok(x) => x@ == vx_cluster(c), Err(e) => vx_store_err(MonolithErr::TiKvErr(e)) } { loop {} }
    #[verifier::external_body]
    fn put(&mut self, key: Vec<u8>, value: Vec<u8>) -> (r: std::result::Result<(), VxOpaque>)
        ensures match r { Ok(_) => final(self)@ == old(self)@.insert(key@, value@), Err(e) => final(self)@ == old(self)@ && vx_store_err(MonolithErr::TiKvErr(e)) } { loop {} }
    #[verifier::external_body]
    fn get(&self, key: Vec<u8>) -> (r: std::result::Result<Option<Value_>, VxOpaque>)
        ensures match r { Ok(Some(v)) => self@.contains_key(key@) && v@ == self@[key@], Ok(None) => !self@.contains_key(key@), Err(e) => vx_store_err(MonolithErr::TiKvErr(e)) } { loop {} }
}
impl Clone for Config {
    #[verifier::external_body]
    fn clone(&self) -> (r: Config) ensures r == *self { loop {} }
}
// `dry_run` swaps the cluster for an empty map of this process, for tests; what it holds is left open here
#[verifier::external_body] struct DummyTiKvBackend {}
impl TiKvRawBackend for DummyTiKvBackend {
    uninterp spec fn view(&self) -> Kv;
    #[verifier::external_body] fn set(&mut self, key: Vec<u8>, value: Vec<u8>) -> (r: Result<()>) { loop {} }
    #[verifier::external_body] fn get(&self, key: Vec<u8>) -> (r: Result<Option<Vec<u8>>>) { loop {} }
}
impl DummyTiKvBackend {
    #[verifier::external_body]
    fn new() -> (r: DummyTiKvBackend) { loop {} }
}
impl TiKvRawBackendSingleton {
    spec fn real(&self) -> bool { !self.dry_run }
    spec fn view(&self) -> Kv { vx_cluster(self.config) }
}
"""


def unnamed(s):
    """`_: T` parameters get names (Verus has no unnamed ones)"""
    import re
    n = [0]

    def f(m):
        n[0] += 1
        return m.group(1) + "vx_unused%d:" % n[0]
    return re.sub(r"([(,]\s*)_\s*:", f, s), n[0]


SIG = [(unnamed, None, "unnamed parameter named")]
SUBS = [
    (r"std::fs::create_dir_all\([^;]*\)\?", "vx_create_dir()?", "directory creation (not part of the contract)"),
    (r"&?(\w+)\[(\d+)\.\.\]\.to_vec\(\)", r"vx_slice_from(&\1, \2)", "slice written vx_slice_from"), (r"&?(\w+)\[\.\.(\d+)\]\.to_vec\(\)", r"vx_slice_to(&\1, \2)", "slice written vx_slice_to"),
    (r"Vec::from\(&(\w+)\[(\d+)\.\.\]\)", r"vx_slice_from(&\1, \2)", "slice written vx_slice_from"), (r"Vec::from\(&(\w+)\[\.\.(\d+)\]\)", r"vx_slice_to(&\1, \2)", "slice written vx_slice_to"),
    (r"\.append\((?:&mut )?([\w.()& ,]+)\.as_mut\(\)\)", r".append(&mut \1)", "as_mut() of a vector written &mut"),
    (r"let client = ", "let mut client = ", "handle of the store taken as exclusive"),
]


def build():
    from ..unit import Unit
    U = Unit("backend")
    lib.errors(U)
    U.raw("use MonolithErr::{NotFoundErr, OutOfRangeErr, InternalErr, OptionErr, ParseErr};\n")
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        U.item("src/lib.rs", k, n)
    kv = lib.KV
    U.raw("uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;\n" + kv + SPEC)
    U.raw(BACKEND)
    U.fn(B, "init_component", "^trait TiKvRawBackend", label="TiKvRawBackend::init_component", subs=SUBS, sig_subs=lib.MUT_SELF,
         spec="""requires rec_ok(old(self)@, chunk_identifier@),
        ensures r matches Ok(id) ==> created(old(self)@, final(self)@, chunk_identifier@, is_indexer, id@) && id@ != nil16(), r matches Err(e) ==> vx_store_err(e) && final(self)@ == old(self)@""",
         pre="let ghost vx_v = rec_of(self@, chunk_identifier@); proof { assert((nil16() + nil16()).len() == 32); }")
    U.close()
    U.item(B, "struct", "TiKvRawBackendImpl")
    U.item(B, "struct", "TiKvRawBackendSingleton")
    U.raw(CLIENT)
    U.open("impl From<VxOpaque> for MonolithErr")
    U.fn("src/error.rs", "from", r"From < tikv_client :: Error > for MonolithErr", label="MonolithErr::from(tikv)", sig_subs=[(r"tikv_client::Error", "VxOpaque", "foreign error type made opaque")])
    U.close()
    N = [(r"futures::executor::block_on\(", "(", "waiting for the client's future left out"), (r"tikv_client::Result<(.*?)> =", r"std::result::Result<\1, VxOpaque> =", "foreign error type made opaque"),
         (r"tikv_client::Value", "Value_", "value type of the client"),
         (r"\.map\(\|(\w+)\| \1\.into\(\)\)", r".map(|\1: Value_| -> (o: Vec<u8>) ensures o@ == \1@ { \1.into() })", "closure given a contract")]
    U.open("impl TiKvRawBackend for TiKvRawBackendImpl")
    U.raw("spec fn view(&self) -> Kv { self.client@ }\n")
    U.fn(B, "set", "TiKvRawBackend for TiKvRawBackendImpl", label="TiKvRawBackendImpl::set", subs=N, sig_subs=lib.MUT_SELF, pre="broadcast use ax_question_mark;")
    U.fn(B, "get", "TiKvRawBackend for TiKvRawBackendImpl", label="TiKvRawBackendImpl::get", subs=N, pre="broadcast use ax_question_mark;")
    U.close()
    U.open("impl TiKvRawBackendSingleton")
    U.fn(B, "get_instance", "impl TiKvRawBackendSingleton", label="TiKvRawBackendSingleton::get_instance", subs=N, pre="broadcast use ax_question_mark;", spec="ensures r matches Ok(c) ==> self.real() ==> (*c)@ == self@, r matches Err(e) ==> vx_store_err(e)")
    U.close()
    U.item(CH, "struct", "ChunkOpts")
    for (F, T, ix, f) in ((ST, "TiKvStorage", "false", "storage_identifier"), (IX, "TiKvIndexer", "true", "indexer_identifier")):
        U.item(F, "struct", T)
        U.item(F, "struct", T + "Builder")
        c = "Builder < %s > for %sBuilder" % (T, T)
        U.open("impl %sBuilder" % T)
        U.fn(F, "build", c, label=T + "Builder::build", subs=SUBS, sig_subs=SIG,
             spec="""requires self.backend_builder.real(), chunk_opts matches Some(o) ==> rec_ok(self.backend_builder@, o.identifier@),
        ensures r matches Ok(x) ==> (chunk_opts matches Some(o) && created(self.backend_builder@, (*x.client)@, o.identifier@, %s, x.%s@) && x.chunk_identifier@ == o.identifier@),
            chunk_opts is None ==> r is Err""" % (ix, f))
        U.fn(F, "read_from_chunk", c, label=T + "Builder::read_from_chunk", subs=SUBS, sig_subs=SIG,
             spec="""requires self.backend_builder.real(), chunk_opts matches Some(o) ==> rec_ok(self.backend_builder@, o.identifier@),
        ensures r matches Ok(Some(x)) ==> (chunk_opts matches Some(o) && self.backend_builder@.contains_key(o.identifier@) && (*x.client)@ == self.backend_builder@ && x.%s@ =~= part(self.backend_builder@[o.identifier@], %s) && x.chunk_identifier@ == o.identifier@),
            r matches Ok(None) ==> (chunk_opts matches Some(o) ==> !self.backend_builder@.contains_key(o.identifier@)), r matches Err(e) ==> vx_store_err(e)""" % (f, ix))
        for n in ("write_to_chunk", "write_config", "read_config"):
            U.fn(F, n, c, label=T + "Builder::" + n, sig_subs=SIG, spec="ensures r is Ok")
        U.fn(F, "new", r"^impl %sBuilder$" % T, label=T + "Builder::new", spec="ensures r matches Ok(x) && x.backend_builder == %s" % lib.param(F, "new", r"^impl %sBuilder$" % T))
        U.close()
    return U
