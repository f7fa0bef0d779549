//! Stand-in: the conversion is not in scope, only its interface is here.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not here") }
}
impl std::error::Error for Error {}
pub fn to_writer<W: std::io::Write, T: ?Sized>(_w: W, _v: &T) -> Result<(), Error> { Err(Error) }
