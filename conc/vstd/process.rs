pub use real::process::*;
pub fn exit(code: i32) -> ! {
    if crate::rt::rt().active { crate::rt::point(); crate::rt::stop(crate::rt::End::Exit(code)) }
    real::process::exit(code)
}
pub fn abort() -> ! {
    if crate::rt::rt().active { crate::rt::stop(crate::rt::End::Exit(134)) }
    real::process::abort()
}
