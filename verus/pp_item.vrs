//@item mutagenyx_lib/src/pretty_printer.rs PrettyPrinter
impl From<Foreign> for MutagenyxError {
    #[verifier::external_body]
    fn from(e: Foreign) -> Self { unimplemented!() }
}
