//! Façade of `std::env`: command-line arguments supplied by the harness.
pub use ::std::env::*;
use ::std::sync::Mutex;
static ARGS: Mutex<Option<Vec<String>>> = Mutex::new(None);
pub fn set_args(a: Option<Vec<String>>) { *ARGS.lock().unwrap() = a; }
fn list() -> Vec<String> {
    match &*ARGS.lock().unwrap() { Some(a) => a.clone(), None => ::std::env::args().collect() }
}
pub struct Args(::std::vec::IntoIter<String>);
impl Iterator for Args { type Item = String; fn next(&mut self) -> Option<String> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl ExactSizeIterator for Args {}
impl DoubleEndedIterator for Args { fn next_back(&mut self) -> Option<String> { self.0.next_back() } }
pub fn args() -> Args { Args(list().into_iter()) }
pub fn args_os() -> ::std::vec::IntoIter<::std::ffi::OsString> { list().into_iter().map(::std::ffi::OsString::from).collect::<Vec<_>>().into_iter() }
