%source src/json_pretty.rs
%skip use -- names come from the prelude of the contract file
%rewrite `for<'a> Deserialize<'a>` => `Deserialize`
%rewrite `Deserializer<'de>` => `Deserializer`
%rewrite `<'de, D, T>` => `<D, T>`

%prelude
use serde::{de, ser};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serdeconv;
use serde::HasData;
use embedx::*;
%fn serialize
    ensures match pretty_text(value.data()) { Some(t) => serializer.given(Data::Str(t), r), None => r is Err }
%closure 0 |e: serdeconv::Error| -> (q: S::Error)
%fn? deserialize
    ensures match deserializer.text() {
        Some(t) => match json_value::<T>(t) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err },
        None => r is Err,
    }
