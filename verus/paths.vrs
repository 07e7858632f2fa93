// ---- std::path, std::env, std::fs: paths are texts; the parts of a path are functions of its text ----
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct OsStr { _p: u8 }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn ext_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn base_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn dir_of(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn joined(d: Seq<char>, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn temp_dir_text() -> Seq<char>;
// the JSON value in a file, if it has one (the file system does not change while a command reads it)
pub uninterp spec fn file_bytes(p: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn json_in(b: Seq<u8>) -> Option<JV>;
pub open spec fn file_json(p: Seq<char>) -> Option<JV> { match file_bytes(p) { Some(b) => json_in(b), None => None } }
impl PathBuf {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<PathBuf, Foreign>) ensures r is Ok, r->Ok_0@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T: PText>(s: T) -> (r: PathBuf) ensures r@ == s.ptext() { unimplemented!() }
    // every path is built from a text
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->0@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is Some <==> ext_of(self@) is Some, r is Some ==> r->0@ == ext_of(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> base_of(self@) is Some, r is Some ==> r->0@ == base_of(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn join<T: PText>(&self, f: T) -> (r: PathBuf) ensures r@ == joined(self@, f.ptext()) { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: PText>(&mut self, f: T) ensures final(self)@ == joined(old(self)@, f.ptext()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool) ensures final(self)@ == dir_of(old(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>) ensures base_of(self@) is Some ==> r is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
pub trait PText { spec fn ptext(&self) -> Seq<char>; }
impl PText for &str { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl PText for String { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl PText for &String { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl PText for &PathBuf { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl OsStr {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &OsStr) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->0@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_os_ne(a: &OsStr, b: &OsStr) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_os_eq(a: &OsStr, b: &OsStr) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub struct Reader { _p: u8 }
impl Reader { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn vx_open(p: &str) -> (r: Result<Reader, Foreign>) ensures r is Ok <==> file_bytes(p@) is Some, r is Ok ==> r->Ok_0.bytes() == file_bytes(p@)->0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_buffered(f: Reader) -> (r: Reader) ensures r.bytes() == f.bytes() { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_reader(f: Reader) -> (r: Result<Value, Foreign>) ensures r is Ok <==> json_in(f.bytes()) is Some, r is Ok ==> r->Ok_0@ == json_in(f.bytes())->0 { unimplemented!() }
impl From<Foreign> for MutagenyxError {
    #[verifier::external_body]
    fn from(e: Foreign) -> (r: MutagenyxError) { unimplemented!() }
}
//@fn mutagenyx_lib/src/json.rs load_json_from_file_with_name props=C12,C23
//@ret r
//@spec
    ensures r is Ok <==> file_json(file_name@) is Some, r is Ok ==> r->Ok_0@ == file_json(file_name@)->0, // [C12,C23]
//@subst File::open( ==> vx_open(
//@subst BufReader::new( ==> vx_buffered(
//@subst serde_json::from_reader( ==> vx_from_reader(
//@end
pub mod env {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn temp_dir() -> (r: PathBuf) ensures r@ == temp_dir_text() { unimplemented!() }
    }
}
pub open spec fn strv(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|p: String| p@) }
