//! Stand-in for `anyhow`, used ONLY when compiling for Kani: the error payload
//! (message, backtrace, source chain) is dropped, the Ok/Err structure is kept.
//! Assumption recorded in every evidence file: no property looks at error text.
use std::fmt::{self, Debug, Display};

pub struct Error;

impl Error {
    pub fn msg<M: Display + Debug + Send + Sync + 'static>(_m: M) -> Self {
        Error
    }
    pub fn context<C: Display + Send + Sync + 'static>(self, _c: C) -> Self {
        Error
    }
}
impl Debug for Error {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl Display for Error {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error {
    fn from(_e: E) -> Self {
        Error
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;

mod private {
    pub trait ToError {
        fn to_error(self) -> super::Error;
    }
    impl<E: std::error::Error + Send + Sync + 'static> ToError for E {
        fn to_error(self) -> super::Error {
            super::Error
        }
    }
    impl ToError for super::Error {
        fn to_error(self) -> super::Error {
            super::Error
        }
    }
}

pub trait Context<T, E> {
    fn context<C: Display + Send + Sync + 'static>(self, c: C) -> Result<T, Error>;
    fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(
        self,
        f: F,
    ) -> Result<T, Error>;
}
impl<T, E: private::ToError> Context<T, E> for std::result::Result<T, E> {
    fn context<C: Display + Send + Sync + 'static>(self, _c: C) -> Result<T, Error> {
        self.map_err(|_| Error)
    }
    fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(
        self,
        _f: F,
    ) -> Result<T, Error> {
        self.map_err(|_| Error)
    }
}
impl<T> Context<T, std::convert::Infallible> for Option<T> {
    fn context<C: Display + Send + Sync + 'static>(self, _c: C) -> Result<T, Error> {
        self.ok_or(Error)
    }
    fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(
        self,
        _f: F,
    ) -> Result<T, Error> {
        self.ok_or(Error)
    }
}

#[doc(hidden)]
pub fn __err() -> Error {
    Error
}

// The format arguments stay type-checked (so a change that would not compile
// against the real crate does not compile here) but are never evaluated.
#[macro_export]
macro_rules! anyhow {
    ($msg:literal $(,)?) => {{ if false { let _ = ::std::format_args!($msg); } $crate::__err() }};
    ($err:expr $(,)?) => {{ if false { let _ = &$err; } $crate::__err() }};
    ($fmt:expr, $($arg:tt)*) => {{ if false { let _ = ::std::format_args!($fmt, $($arg)*); } $crate::__err() }};
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return ::std::result::Result::Err($crate::anyhow!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr $(,)?) => { if !$cond { return ::std::result::Result::Err($crate::__err()); } };
    ($cond:expr, $($t:tt)*) => { if !$cond { return ::std::result::Result::Err($crate::anyhow!($($t)*)); } };
}
