// ---- effects of a command on files ----
// the number of this process
pub uninterp spec fn pid() -> u32;
// the directory the validation of mutants makes for itself, and the files in it
pub open spec fn own_dir() -> Seq<char> { joined(temp_dir_text(), "mutagenyx_"@ + dec(pid() as int)) }
pub open spec fn own(p: Seq<char>) -> bool { exists|f: Seq<char>| p == #[trigger] joined(own_dir(), f) }
// where a compiler that prints its tree has it stored
pub open spec fn tmp_json(p: Seq<char>) -> bool { exists|f: Seq<char>| p == #[trigger] joined(temp_dir_text(), f + ".json"@) }
// the command may print the tree j of language l into the file p
pub uninterp spec fn may_put(p: Seq<char>, l: Language, j: JV) -> bool;
// the command has printed the tree j of language l into the file p
pub uninterp spec fn put(p: Seq<char>, l: Language, j: JV) -> bool;
// the command has printed the tree j of language l to the standard output
pub uninterp spec fn shown(l: Language, j: JV) -> bool;
// file operations succeed
pub uninterp spec fn io_ok() -> bool;
pub open spec fn may_create(p: Seq<char>) -> bool { own(p) || tmp_json(p) || may_save(p) || exists|l: Language, j: JV| #[trigger] may_put(p, l, j) }
// the command may store a configuration in the file p, has stored the JSON value j in it, has printed the JSON value j to the standard output
pub uninterp spec fn may_save(p: Seq<char>) -> bool;
pub uninterp spec fn saved(p: Seq<char>, j: JV) -> bool;
pub uninterp spec fn json_shown(j: JV) -> bool;
// serde_json, jsonxf: texts of JSON values
pub uninterp spec fn jtext(j: JV) -> Seq<char>;
pub uninterp spec fn jval(s: Seq<char>) -> Option<JV>;
pub broadcast axiom fn ax_jtext(j: JV) ensures jval(#[trigger] jtext(j)) == Some(j);
vx_disp!(Value, s, { jtext(s@) }, { arbitrary() });
pub mod jsonxf {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn pretty_print(s: &String) -> (r: Result<String, Foreign>) ensures r is Ok, jval(r->Ok_0@) == jval(s@) { unimplemented!() }
    }
}
impl File {
    #[verifier::external_body]
    pub fn vx_writeln(&mut self, s: &String) -> (r: Result<(), Foreign>) ensures final(self).path() == old(self).path(), io_ok() ==> r is Ok, r is Ok && jval(s@) is Some ==> saved(old(self).path(), jval(s@)->0) { unimplemented!() }
}
impl Stdout {
    #[verifier::external_body]
    pub fn vx_writeln(&mut self, s: &String) -> (r: Result<(), Foreign>) ensures io_ok() ==> r is Ok, r is Ok && jval(s@) is Some ==> json_shown(jval(s@)->0) { unimplemented!() }
}
#[verifier::external_body]
pub struct File { _p: u8 }
impl File { pub uninterp spec fn path(&self) -> Seq<char>; }
pub mod std_fs {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn create(p: &str) -> (r: Result<File, Foreign>)
        requires may_create(p@), // [C19]
        ensures r is Ok ==> r->Ok_0.path() == p@, io_ok() ==> r is Ok,
    { unimplemented!() }
    // makes directories, changes no file
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf) -> (r: Result<(), Foreign>) ensures io_ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: PathBuf) -> (r: Result<(), Foreign>)
        requires own(p@), // [C19]
    { unimplemented!() }
    // removes empty directories only
    #[verifier::external_body]
    pub fn remove_dir(p: &PathBuf) -> (r: Result<(), Foreign>)
        requires p@ == own_dir(), // [C19]
    { unimplemented!() }
    }
}
#[verifier::external_body]
pub struct PrettyPrinter { _p: u8 }
impl PrettyPrinter {
    #[verifier::external_body]
    pub fn new(indent: usize, width: usize) -> (r: PrettyPrinter) { unimplemented!() }
}
// where printed text goes: a file, or the standard output
pub trait Write { spec fn dest(&self) -> Option<Seq<char>>; }
impl Write for File { open spec fn dest(&self) -> Option<Seq<char>> { Some(self.path()) } }
#[verifier::external_body]
pub struct Stdout { _p: u8 }
impl Write for Stdout { open spec fn dest(&self) -> Option<Seq<char>> { None } }
#[verifier::external_body]
pub fn vx_stdout() -> (r: Stdout) { unimplemented!() }
pub assume_specification [std::process::id] () -> (r: u32) ensures r == pid();
