//! use strings.inc
//! # The command line: where the output goes.
//! types src/bin/asciidocr/cli.rs Cli
//! types src/backends/mod.rs Backends
//! fns src/bin/asciidocr/cli.rs read_output
//! path PathBuf::from => sh_path
//! path PathBuf::new => sh_path_new
//! method push => sh_path_push &mut
//! method set_extension => sh_path_ext &mut
//! method clone => sh_str_dup &
//! method with_extension => sh_path_with &
//! eq lit=str => sh_str_eq
//! raw
// std: PathBuf
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
pub uninterp spec fn path_of(p: PathBuf) -> Seq<char>;
// the name with another extension
pub uninterp spec fn with_ext(p: Seq<char>, e: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn sh_path<S: StrView>(s: S) -> (r: PathBuf)
    ensures path_of(r) == s.sv()
{ unimplemented!() }
#[verifier::external_body]
fn sh_path_new() -> (r: PathBuf)
    ensures path_of(r) == Seq::<char>::empty()
{ unimplemented!() }
#[verifier::external_body]
fn sh_path_push<S: StrView>(p: &mut PathBuf, s: S)
    ensures path_of(*old(p)).len() == 0 ==> path_of(*final(p)) == s.sv()
{ unimplemented!() }
#[verifier::external_body]
fn sh_path_ext(p: &mut PathBuf, e: &str) -> (r: bool)
    ensures path_of(*final(p)) == with_ext(path_of(*old(p)), e@)
{ unimplemented!() }
#[verifier::external_body]
fn sh_path_with(p: &PathBuf, e: &str) -> (r: PathBuf)
    ensures path_of(r) == with_ext(path_of(*p), e@)
{ unimplemented!() }
#[verifier::external_body]
fn sh_str_dup<S: StrView>(s: &S) -> (r: S)
    ensures r.sv() == s.sv()
{ unimplemented!() }
spec fn stdio() -> Seq<char> { "-"@ }
spec fn ext_of(b: Backends) -> Seq<char> {
    match b { Backends::Htmlbook => "html"@, Backends::Json => "json"@, Backends::Docx => "docx"@ }
}
//! contract read_output
    ensures
        args.output is Some && args.output->0@ == stdio() ==> r is None, // [G01 +]
        args.output is Some && args.output->0@ != stdio() ==> r is Some && path_of(r->0) == args.output->0@, // [G01 +]
        args.output is None && args.file@ == stdio() ==> r is None, // [G01 +]
        args.output is None && args.file@ != stdio() ==> r is Some && path_of(r->0) == with_ext(args.file@, ext_of(args.backend)), // [G01 +]
