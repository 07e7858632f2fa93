// the error type, its foreign payload types replaced by an opaque one
#[derive(Debug)]
#[verifier::external_body]
pub struct Foreign { _p: u64 }
//@item mutagenyx_lib/src/error.rs MutagenyxError | #[derive(Debug)] %% std::io::Error ==> Foreign %% serde_json::Error ==> Foreign %% std::str::Utf8Error ==> Foreign %% SystemTimeError ==> Foreign %% ErrorStack ==> Foreign
