pub use real::fs::*;
use real::io::{self, IoSlice, Read, Seek, SeekFrom, Write};
use real::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, OwnedFd, RawFd};
use real::path::Path;

/// A file; the standard streams opened this way are the scheduler's.
#[derive(Debug)]
pub enum File { Real(real::fs::File), Std(i32) }
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<Self> { real::fs::File::open(p).map(File::Real) }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<Self> { real::fs::File::create(p).map(File::Real) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn sync_all(&self) -> io::Result<()> { match self { Self::Real(f) => f.sync_all(), Self::Std(_) => Ok(()) } }
    pub fn sync_data(&self) -> io::Result<()> { self.sync_all() }
    pub fn try_clone(&self) -> io::Result<Self> { match self { Self::Real(f) => f.try_clone().map(Self::Real), Self::Std(n) => Ok(Self::Std(*n)) } }
}
impl FromRawFd for File {
    unsafe fn from_raw_fd(fd: RawFd) -> Self {
        if (0..3).contains(&fd) { Self::Std(fd) } else { Self::Real(unsafe { real::fs::File::from_raw_fd(fd) }) }
    }
}
impl AsRawFd for File { fn as_raw_fd(&self) -> RawFd { match self { Self::Real(f) => f.as_raw_fd(), Self::Std(n) => *n } } }
impl IntoRawFd for File { fn into_raw_fd(self) -> RawFd { match self { Self::Real(f) => f.into_raw_fd(), Self::Std(n) => n } } }
impl AsFd for File { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw(self.as_raw_fd()) } } }
impl From<OwnedFd> for File { fn from(f: OwnedFd) -> Self { Self::Real(f.into()) } }
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { match self { Self::Real(f) => f.write(b), Self::Std(n) => crate::io::raw(*n, &[b]) } }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        match self {
            Self::Real(f) => f.write_vectored(b),
            Self::Std(n) => { let v: Vec<&[u8]> = b.iter().map(|s| &**s).collect(); crate::io::raw(*n, &v) },
        }
    }
    fn flush(&mut self) -> io::Result<()> { match self { Self::Real(f) => f.flush(), Self::Std(_) => Ok(()) } }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { match self { File::Real(f) => (&mut &*f).write(b), File::Std(n) => crate::io::raw(*n, &[b]) } }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { match self { Self::Real(f) => f.read(b), Self::Std(_) => crate::io::raw_read(b) } }
}
impl Seek for File { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { match self { Self::Real(f) => f.seek(p), Self::Std(_) => Err(io::ErrorKind::Unsupported.into()) } } }
