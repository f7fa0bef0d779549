//! Stand-in: the conversion is not in scope, only its interface is here.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not here") }
}
impl std::error::Error for Error {}
pub struct Document;
impl Document {
    pub fn to_writer<W: std::io::Write>(&self, _w: W) -> Result<(), Error> { Err(Error) }
}
pub enum Bson { Document(Document) }
impl Bson {
    pub fn as_document(&self) -> Option<&Document> { let Bson::Document(d) = self; Some(d) }
}
pub fn to_bson<T: ?Sized>(_v: &T) -> Result<Bson, Error> { Err(Error) }
