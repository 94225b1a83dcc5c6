//! Screen dimensions, as the scenario has them.
use std::os::fd::{AsFd, AsRawFd, RawFd};
#[derive(Debug, PartialEq, Eq, Clone, Copy, PartialOrd, Ord, Hash)]
pub struct Width(pub u16);
#[derive(Debug, PartialEq, Eq, Clone, Copy, PartialOrd, Ord, Hash)]
pub struct Height(pub u16);
fn get(fd: RawFd) -> Option<(Width, Height)> {
    vstd::rt::point();
    let r = vstd::rt::rt();
    match fd { 2 => r.size, 0 | 1 => r.others, _ => None }.filter(|s| s.0 != 0 && s.1 != 0).map(|(w, h)| (Width(w), Height(h)))
}
/// Like the original, whichever of output, error and input has one, in that order.
pub fn terminal_size() -> Option<(Width, Height)> { get(1).or_else(|| get(2)).or_else(|| get(0)) }
pub fn terminal_size_of<Fd: AsFd>(fd: Fd) -> Option<(Width, Height)> { get(fd.as_fd().as_raw_fd()) }
pub unsafe fn terminal_size_using_fd(fd: RawFd) -> Option<(Width, Height)> { get(fd) }
