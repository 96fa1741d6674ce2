%source dep:miasht-0.0.5/src/status.rs
%skip impl fmt::Display@RawStatus -- formatting
%skip impl Display@RawStatus -- formatting
%skip impl fmt::Display@Status -- formatting
%skip impl Display@Status -- formatting
%skip impl From@RawStatus -- conversion, modelled by StatusLike
%skip use std :: fmt -- formatting
%skip Status::as_raw -- reason phrases are not modelled
%skip Status::reason_phrase -- reason phrases are not modelled
%skip RawStatus::reason -- reason phrases are not modelled
%derive RawStatus Clone, Copy
%derive Status Clone, Copy

%prelude
use status_theory::*;
%fn RawStatus::new
    ensures r.code == code
%fn RawStatus::code
    ensures r == self.code
%fn RawStatus::normalize
    ensures
        r is Some <==> known_code(self.code),
        r matches Some(s) ==> status_code(s) == self.code,
%fn Status::code
    ensures r == status_code(*self)
%extra
