//! Stand-in: there is no SQLite here, the code that uses it only has to compile
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no SQLite here")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub struct OpenFlags(u32);
impl OpenFlags {
    pub const SQLITE_OPEN_READ_WRITE: OpenFlags = OpenFlags(2);
    pub const SQLITE_OPEN_CREATE: OpenFlags = OpenFlags(4);
    pub const SQLITE_OPEN_NO_MUTEX: OpenFlags = OpenFlags(0x8000);
}
impl std::ops::BitOr for OpenFlags {
    type Output = OpenFlags;
    fn bitor(self, o: OpenFlags) -> OpenFlags {
        OpenFlags(self.0 | o.0)
    }
}
pub struct Row;
impl Row {
    pub fn get<T>(&self, _: usize) -> Result<T> {
        Err(Error)
    }
}
pub struct Connection;
impl Connection {
    pub fn open_with_flags_and_vfs(_: &str, _: OpenFlags, _: &str) -> Result<Connection> {
        Err(Error)
    }
    pub fn execute_batch(&self, _: &str) -> Result<()> {
        Err(Error)
    }
    pub fn execute(&self, _: &str, _: [u8; 0]) -> Result<usize> {
        Err(Error)
    }
    pub fn query_row<T, F: FnOnce(&Row) -> Result<T>>(&self, _: &str, _: [u8; 0], _: F) -> Result<T> {
        Err(Error)
    }
    pub fn cache_flush(&self) -> Result<()> {
        Err(Error)
    }
}
