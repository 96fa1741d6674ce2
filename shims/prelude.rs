// Stand-ins for the `trackable` macros: they keep the control flow (an error
// leaves the function as `Err`) and drop the error's message and history.
macro_rules! track {
    ($e:expr) => { $e };
    ($e:expr,) => { $e };
    ($e:expr, $($rest:tt)*) => { $e };
}
macro_rules! track_panic {
    ($kind:expr) => { return Err(::trackable::error::ErrorKindExt::error($kind)) };
    ($kind:expr, $($rest:tt)*) => { return Err(::trackable::error::ErrorKindExt::error($kind)) };
}
macro_rules! track_assert {
    ($cond:expr, $kind:expr) => { if !$cond { track_panic!($kind) } };
    ($cond:expr, $kind:expr,) => { if !$cond { track_panic!($kind) } };
    ($cond:expr, $kind:expr, $($rest:tt)*) => { if !$cond { track_panic!($kind) } };
}
macro_rules! track_assert_eq {
    ($l:expr, $r:expr, $kind:expr) => { if !::trackable::EqShim::eq_shim(&$l, &$r) { track_panic!($kind) } };
    ($l:expr, $r:expr, $kind:expr,) => { track_assert_eq!($l, $r, $kind) };
    ($l:expr, $r:expr, $kind:expr, $($rest:tt)*) => { track_assert_eq!($l, $r, $kind) };
}
macro_rules! track_assert_ne {
    ($l:expr, $r:expr, $kind:expr) => { if ::trackable::EqShim::eq_shim(&$l, &$r) { track_panic!($kind) } };
    ($l:expr, $r:expr, $kind:expr,) => { track_assert_ne!($l, $r, $kind) };
    ($l:expr, $r:expr, $kind:expr, $($rest:tt)*) => { track_assert_ne!($l, $r, $kind) };
}

pub mod error {
    use vstd::prelude::*;
    verus! {
    // The error value: its kind, message and history are not modelled.
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub enum ErrorKind { Invalid, Other }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseBoolError(std::str::ParseBoolError);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseIntError(std::num::ParseIntError);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseFloatError(std::num::ParseFloatError);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExUtf8Error(std::str::Utf8Error);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExIoError(std::io::Error);

    impl From<std::str::ParseBoolError> for Error {
        #[verifier::external_body]
        fn from(f: std::str::ParseBoolError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<std::str::ParseBoolError> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: std::str::ParseBoolError) -> Self { arbitrary() }
    }
    impl From<std::string::FromUtf8Error> for Error {
        #[verifier::external_body]
        fn from(f: std::string::FromUtf8Error) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<std::string::FromUtf8Error> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: std::string::FromUtf8Error) -> Self { arbitrary() }
    }
    impl From<std::num::ParseIntError> for Error {
        #[verifier::external_body]
        fn from(f: std::num::ParseIntError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<std::num::ParseIntError> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: std::num::ParseIntError) -> Self { arbitrary() }
    }
    impl From<std::num::ParseFloatError> for Error {
        #[verifier::external_body]
        fn from(f: std::num::ParseFloatError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<std::num::ParseFloatError> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: std::num::ParseFloatError) -> Self { arbitrary() }
    }
    impl From<std::str::Utf8Error> for Error {
        #[verifier::external_body]
        fn from(f: std::str::Utf8Error) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<std::str::Utf8Error> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: std::str::Utf8Error) -> Self { arbitrary() }
    }
    impl From<std::io::Error> for Error {
        #[verifier::external_body]
        fn from(f: std::io::Error) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: std::io::Error) -> Self { arbitrary() }
    }
    }
}
pub mod trackable {
    use vstd::prelude::*;
    verus! {
    pub trait EqShim<R: ?Sized> {
        spec fn eq_spec(&self, other: &R) -> bool;
        fn eq_shim(&self, other: &R) -> (r: bool)
            ensures r == self.eq_spec(other);
    }
    impl EqShim<usize> for usize {
        open spec fn eq_spec(&self, other: &usize) -> bool { *self == *other }
        fn eq_shim(&self, other: &usize) -> (r: bool) { *self == *other }
    }
    impl<'a, 'b> EqShim<&'b str> for &'a str {
        open spec fn eq_spec(&self, other: &&'b str) -> bool { (*self)@ == (*other)@ }
        #[verifier::external_body]
        fn eq_shim(&self, other: &&'b str) -> (r: bool) { *self == *other }
    }
    }
    pub mod error {
        use vstd::prelude::*;
        use error::{Error, ErrorKind};
        verus! {
        pub trait ErrorKindExt: Sized {
            fn error(self) -> Error;
            fn cause<E>(self, e: E) -> Error;
        }
        impl ErrorKindExt for ErrorKind {
            #[verifier::external_body]
            fn error(self) -> Error { unimplemented!() }
            #[verifier::external_body]
            fn cause<E>(self, e: E) -> Error { unimplemented!() }
        }
        }
    }
}
