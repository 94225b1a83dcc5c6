//! A stand-in for the standard library: the same names, with everything that
//! threads can notice of one another going through a scheduler.
#![allow(ambiguous_glob_reexports, static_mut_refs, clippy::all)]
pub extern crate std as real;
pub use real::*;

pub mod rt;
pub mod sync;
pub mod thread;
pub mod io;
pub mod fs;
pub mod process;
pub mod hint {
    pub use real::hint::*;
    pub fn spin_loop() { crate::rt::polite(); }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$m:meta])* $v:vis static $n:ident: $t:ty = const $b:block $(; $($r:tt)*)?) => { $crate::thread_local!($(#[$m])* $v static $n: $t = $b $(; $($r)*)?); };
    ($(#[$m:meta])* $v:vis static $n:ident: $t:ty = $e:expr $(; $($r:tt)*)?) => {
        $(#[$m])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({ fn init() -> $t { $e } init });
        $($crate::thread_local!($($r)*);)?
    };
}
#[macro_export]
macro_rules! print { ($($t:tt)*) => { $crate::io::_print($crate::real::format_args!($($t)*)) } }
#[macro_export]
macro_rules! eprint { ($($t:tt)*) => { $crate::io::_eprint($crate::real::format_args!($($t)*)) } }
#[macro_export]
macro_rules! println {
    () => { $crate::io::_print($crate::real::format_args!("\n")) };
    ($($t:tt)*) => { $crate::io::_print($crate::real::format_args!("{}\n", $crate::real::format_args!($($t)*))) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::io::_eprint($crate::real::format_args!("\n")) };
    ($($t:tt)*) => { $crate::io::_eprint($crate::real::format_args!("{}\n", $crate::real::format_args!($($t)*))) };
}

pub mod prelude {
    pub mod rust_2024 { pub use real::prelude::rust_2024::*; pub use crate::{eprint, eprintln, print, println, thread_local}; }
    pub mod rust_2021 { pub use real::prelude::rust_2021::*; pub use crate::{eprint, eprintln, print, println, thread_local}; }
    pub mod v1 { pub use real::prelude::v1::*; pub use crate::{eprint, eprintln, print, println, thread_local}; }
}
