/// Output of the code under test is type-checked and dropped.
#[macro_export]
macro_rules! println {
    () => {{}};
    ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }};
}
/// See `println`.
#[macro_export]
macro_rules! print {
    ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }};
}
/// See `println`.
#[macro_export]
macro_rules! eprintln {
    () => {{}};
    ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }};
}
/// See `println`.
#[macro_export]
macro_rules! eprint {
    ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }};
}
/// Thread-local storage that is local to a model thread.
#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({ fn init() -> $t { $e } init });
        $($crate::thread_local!($($rest)*);)?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({ fn init() -> $t { $e } init });
        $($crate::thread_local!($($rest)*);)?
    };
}
