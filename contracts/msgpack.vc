%source src/msgpack.rs
%skip use -- names come from the prelude of the contract file
%rewrite `for<'a> Deserialize<'a>` => `Deserialize`
%rewrite `Deserializer<'de>` => `Deserializer`
%rewrite `<'de, D, T>` => `<D, T>`

%prelude
use serde::{de, ser};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serdeconv;
use serde::HasData;
use embedx::*;
%fn serialize
    ensures match packed(value.data()) { Some(b) => serializer.given(Data::List(b), r) || serializer.given(Data::Bytes(b), r), None => r is Err }
%closure 0 |e: serdeconv::Error| -> (q: S::Error)
%fn deserialize
    ensures match deserializer.bytes() {
        Some(b) => match packed_value::<T>(b) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err },
        None => r is Err,
    }
%closure 0 |e: serdeconv::Error| -> (q: D::Error)
