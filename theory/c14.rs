pub mod c14 {
    use vstd::prelude::*;
    use serde::{HasData, Serialize, Serializer, Deserialize, Deserializer};
    use embedx::*;
    verus! {
    /// a format that carries what it is given
    pub open spec fn carries<S: Serializer, D: Deserializer>(s: S, d: D) -> bool {
        &&& forall|t: Seq<char>, r: Result<S::Ok, S::Error>| #[trigger] s.given(Data::Str(t), r) && r is Ok ==> d.text() == Some(t)
        &&& forall|b: Seq<u8>, r: Result<S::Ok, S::Error>| #[trigger] s.given(Data::List(b), r) && r is Ok ==> d.bytes() == Some(b)
        &&& forall|b: Seq<u8>, r: Result<S::Ok, S::Error>| #[trigger] s.given(Data::Bytes(b), r) && r is Ok ==> d.bytes() == Some(b)
    }
    /// C14 over the contracts: what a successful embedding in a carrying format reads back as is what the encoding of the value decodes to.
    pub fn drive_json<S: Serializer, D: Deserializer, T: Serialize + Deserialize>(v: T, s: S, d: D) -> (r: Result<Result<T, D::Error>, S::Error>)
        requires carries(s, d)
        ensures
            json_text(v.data()) is None ==> r is Err,
            r matches Ok(q) ==> (match json_value::<T>(json_text(v.data())->0) { Some(w) => q is Ok && q->Ok_0 == w, None => q is Err }),
    {
        match ::json::serialize(v, s) { Ok(_) => Ok(::json::deserialize(d)), Err(e) => Err(e) }
    }
    pub fn drive_pretty<S: Serializer, D: Deserializer, T: Serialize + Deserialize>(v: T, s: S, d: D) -> (r: Result<Result<T, D::Error>, S::Error>)
        requires carries(s, d)
        ensures
            pretty_text(v.data()) is None ==> r is Err,
            r matches Ok(q) ==> (match json_value::<T>(pretty_text(v.data())->0) { Some(w) => q is Ok && q->Ok_0 == w, None => q is Err }),
    {
        match ::json_pretty::serialize(v, s) { Ok(_) => Ok(::json_pretty::deserialize(d)), Err(e) => Err(e) }
    }
    pub fn drive_msgpack<S: Serializer, D: Deserializer, T: Serialize + Deserialize>(v: T, s: S, d: D) -> (r: Result<Result<T, D::Error>, S::Error>)
        requires carries(s, d)
        ensures
            packed(v.data()) is None ==> r is Err,
            r matches Ok(q) ==> (match packed_value::<T>(packed(v.data())->0) { Some(w) => q is Ok && q->Ok_0 == w, None => q is Err }),
    {
        match ::msgpack::serialize(v, s) { Ok(_) => Ok(::msgpack::deserialize(d)), Err(e) => Err(e) }
    }
    }
}
