pub mod serde {
    pub use self::ser::{Serialize, Serializer};
    pub use self::de::{Deserialize, Deserializer};
    pub mod ser {
        use vstd::prelude::*;
        verus! {
        /// The value a `Serialize` implementation describes, in serde's data model.
        pub enum Val {
            Bool(bool),
            I8(i8),
            I16(i16),
            I32(i32),
            I64(i64),
            U8(u8),
            U16(u16),
            U32(u32),
            U64(u64),
            F32(f32),
            F64(f64),
            Char(char),
            Str(Seq<char>), Bytes(Seq<u8>), None, Some(Box<Val>), Unit, UnitStruct(Seq<char>),
            UnitVariant(Seq<char>), NewtypeStruct(Box<Val>), NewtypeVariant(Seq<char>, Box<Val>),
            Seq(Seq<Val>), Tuple(Seq<Val>), TupleStruct(Seq<Val>), TupleVariant(Seq<char>, Seq<Val>),
            Map(Seq<(Val, Val)>), Struct(Seq<(Seq<char>, Val)>), StructVariant(Seq<char>, Seq<(Seq<char>, Val)>),
        }
        pub trait Error: Sized {}
        /// What running a serializer on a value does: fixed per serializer.
        pub trait SerSpec: Sized {
            type Ok;
            type Error;
            /// the representation invariant
            spec fn wf(self) -> bool;
            #[verifier::prophetic]
            spec fn ser(self, v: Val, r: Result<Self::Ok, Self::Error>) -> bool;
        }
        pub trait Serialize {
            spec fn val(&self) -> Val;
            fn serialize<S: SerSpec>(&self, s: S) -> (r: Result<S::Ok, S::Error>)
                requires s.wf()
                ensures s.ser(self.val(), r);
        }
        /// The invariants under which the fields of a struct (or a struct variant) may be given.
        pub trait PartSpec: Sized {
            spec fn part_wf(self) -> bool;
            spec fn variant_wf(self) -> bool;
        }
        impl Serialize for () {
            open spec fn val(&self) -> Val { Val::Unit }
            #[verifier::external_body]
            fn serialize<S: SerSpec>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
        }
        pub trait Serializer: SerSpec {
            type SerializeSeq; type SerializeTuple; type SerializeTupleStruct; type SerializeTupleVariant;
            type SerializeMap; type SerializeStruct; type SerializeStructVariant;
            fn serialize_bool(self, v: bool) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Bool(v), r);
            fn serialize_i8(self, v: i8) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::I8(v), r);
            fn serialize_i16(self, v: i16) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::I16(v), r);
            fn serialize_i32(self, v: i32) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::I32(v), r);
            fn serialize_i64(self, v: i64) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::I64(v), r);
            fn serialize_u8(self, v: u8) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::U8(v), r);
            fn serialize_u16(self, v: u16) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::U16(v), r);
            fn serialize_u32(self, v: u32) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::U32(v), r);
            fn serialize_u64(self, v: u64) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::U64(v), r);
            fn serialize_f32(self, v: f32) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::F32(v), r);
            fn serialize_f64(self, v: f64) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::F64(v), r);
            fn serialize_char(self, v: char) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Char(v), r);
            fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Str(v@), r);
            fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Bytes(v@), r);
            fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::None, r);
            fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> (r: Result<Self::Ok, Self::Error>)
                requires self.wf() ensures self.ser(Val::Some(Box::new(value.val())), r);
            fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Unit, r);
            fn serialize_unit_struct(self, name: &'static str) -> (r: Result<Self::Ok, Self::Error>)
                requires self.wf() ensures self.ser(Val::UnitStruct(name@), r);
            fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str)
                -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::UnitVariant(variant@), r);
            fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, value: &T)
                -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::NewtypeStruct(Box::new(value.val())), r);
            fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, variant_index: u32,
                variant: &'static str, value: &T)
                -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::NewtypeVariant(variant@, Box::new(value.val())), r);
            fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>) requires self.wf();
            fn serialize_tuple(self, len: usize) -> (r: Result<Self::SerializeTuple, Self::Error>) requires self.wf();
            fn serialize_tuple_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeTupleStruct, Self::Error>) requires self.wf();
            fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize)
                -> (r: Result<Self::SerializeTupleVariant, Self::Error>) requires self.wf();
            fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>) requires self.wf();
            fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
                requires self.wf();
            fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize)
                -> (r: Result<Self::SerializeStructVariant, Self::Error>) requires self.wf();
        }
        pub trait SerializeSeq: Sized { type Ok; type Error;
            fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeTuple: Sized { type Ok; type Error;
            fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeTupleStruct: Sized { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeTupleVariant: Sized { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeMap: Sized { type Ok; type Error;
            fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> (r: Result<(), Self::Error>);
            fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeStruct: PartSpec { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
                requires old(self).part_wf() ensures final(self).part_wf();
            fn end(self) -> (r: Result<Self::Ok, Self::Error>) requires self.part_wf(); }
        pub trait SerializeStructVariant: PartSpec { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
                requires old(self).variant_wf() ensures final(self).variant_wf();
            fn end(self) -> (r: Result<Self::Ok, Self::Error>) requires self.variant_wf(); }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        #[verifier::reject_recursive_types(B)]
        pub struct Impossible<A, B> { _p: std::marker::PhantomData<(A, B)> }
        }
    }
    pub mod de {
        use vstd::prelude::*;
        verus! {
        /// What a deserializer hands to a visitor.
        pub enum DVal {
            Bool(bool),
            I8(i8),
            I16(i16),
            I32(i32),
            I64(i64),
            U8(u8),
            U16(u16),
            U32(u32),
            U64(u64),
            F32(f32),
            F64(f64),
            Str(Seq<char>), Bytes(Seq<u8>), Unit, None, Some(Box<DVal>), Newtype(Box<DVal>),
        }
        /// What a `Deserialize` implementation asks a deserializer for.
        pub enum Ask {
            Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Char, Str, String, Identifier, Bytes, ByteBuf,
            Unit, UnitStruct(Seq<char>), Ignored, Option(Box<Ask>), Newtype(Box<Ask>),
            /// anything else (compound or self-describing): not pinned down here
            Other(int),
        }
        /// The outcome of a deserialisation step as a function of the state.
        #[verifier::reject_recursive_types(S)]
        pub enum Step<S> { Done(DVal, S), Fail, Any }
        /// The answer inside an element, key or value.
        pub open spec fn elem<T, E>(r: Result<Option<T>, E>) -> Result<T, E> {
            match r { Ok(Some(v)) => Ok(v), Ok(None) => arbitrary(), Err(e) => Err(e) }
        }
        pub trait Error: Sized {
            fn custom<T>(msg: T) -> Self;
        }
        /// What running a deserializer for `ask` delivers (`None`: an error): fixed per deserializer.
        pub trait DeSpec<'de>: Sized {
            type Error;
            /// the representation invariant on entry, and on exit for a mutable reference
            spec fn wf(self) -> bool;
            #[verifier::prophetic]
            spec fn wf_after(self) -> bool;
            #[verifier::prophetic]
            spec fn de(self, ask: Ask, d: Option<DVal>) -> bool;
        }
        pub trait SeqSpec<'de>: Sized {
            type Error;
            spec fn seq_wf(self) -> bool;
            #[verifier::prophetic]
            spec fn seq_wf_after(self) -> bool;
        }
        pub trait MapSpec<'de>: Sized {
            type Error;
            spec fn map_wf(self) -> bool;
            /// a key was just read: its value may be asked for
            spec fn map_val_wf(self) -> bool;
            #[verifier::prophetic]
            spec fn map_wf_after(self) -> bool;
        }
        pub trait EnumSpec<'de>: Sized {
            type Error;
            spec fn enum_wf(self) -> bool;
            #[verifier::prophetic]
            spec fn enum_wf_after(self) -> bool;
        }

        pub trait Visitor<'de>: Sized {
            type Value;
            /// `r` is an answer of this visitor to being given `d`.
            spec fn visits<E>(self, d: DVal, r: Result<Self::Value, E>) -> bool;
            /// what this visitor asks for when given the inside of an option or a newtype
            spec fn some_ask(self) -> Ask;
            spec fn newtype_ask(self) -> Ask;
            #[verifier::prophetic]
            spec fn on_seq<A: SeqSpec<'de>>(self, a: A, r: Result<Self::Value, A::Error>) -> bool;
            #[verifier::prophetic]
            spec fn on_map<A: MapSpec<'de>>(self, a: A, r: Result<Self::Value, A::Error>) -> bool;
            #[verifier::prophetic]
            spec fn on_enum<A: EnumSpec<'de>>(self, a: A, r: Result<Self::Value, A::Error>) -> bool;
            fn visit_bool<E>(self, v: bool) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bool(v), r);
            fn visit_i8<E>(self, v: i8) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::I8(v), r);
            fn visit_i16<E>(self, v: i16) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::I16(v), r);
            fn visit_i32<E>(self, v: i32) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::I32(v), r);
            fn visit_i64<E>(self, v: i64) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::I64(v), r);
            fn visit_u8<E>(self, v: u8) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::U8(v), r);
            fn visit_u16<E>(self, v: u16) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::U16(v), r);
            fn visit_u32<E>(self, v: u32) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::U32(v), r);
            fn visit_u64<E>(self, v: u64) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::U64(v), r);
            fn visit_f32<E>(self, v: f32) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::F32(v), r);
            fn visit_f64<E>(self, v: f64) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::F64(v), r);
            fn visit_str<E>(self, v: &str) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Str(v@), r);
            fn visit_borrowed_str<E>(self, v: &'de str) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Str(v@), r);
            fn visit_string<E>(self, v: String) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Str(v@), r);
            fn visit_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bytes(v@), r);
            fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bytes(v@), r);
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bytes(v@), r);
            fn visit_none<E>(self) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::None, r);
            fn visit_unit<E>(self) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Unit, r);
            fn visit_some<D: DeSpec<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
                requires d.wf()
                ensures d.wf_after(), (r is Err && d.de(self.some_ask(), None))
                    || exists|dv: DVal| #[trigger] self.visits(DVal::Some(Box::new(dv)), r) && d.de(self.some_ask(), Some(dv));
            fn visit_newtype_struct<D: DeSpec<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
                requires d.wf()
                ensures d.wf_after(), (r is Err && d.de(self.newtype_ask(), None))
                    || exists|dv: DVal| #[trigger] self.visits(DVal::Newtype(Box::new(dv)), r) && d.de(self.newtype_ask(), Some(dv));
            fn visit_seq<A: SeqSpec<'de>>(self, a: A) -> (r: Result<Self::Value, A::Error>)
                requires a.seq_wf() ensures self.on_seq(a, r), a.seq_wf_after();
            fn visit_map<A: MapSpec<'de>>(self, a: A) -> (r: Result<Self::Value, A::Error>)
                requires a.map_wf() ensures self.on_map(a, r), a.map_wf_after();
            fn visit_enum<A: EnumSpec<'de>>(self, a: A) -> (r: Result<Self::Value, A::Error>)
                requires a.enum_wf() ensures self.on_enum(a, r), a.enum_wf_after();
        }
        /// A typed request for one value. `makes(d, r)`: given `d`, the seed answers `r`.
        pub trait DeserializeSeed<'de>: Sized {
            type Value;
            spec fn ask(self) -> Ask;
            spec fn makes<E>(self, d: DVal, r: Result<Self::Value, E>) -> bool;
            #[verifier::prophetic]
            spec fn ran<D: DeSpec<'de>>(self, d: D, r: Result<Self::Value, D::Error>) -> bool;
            fn deserialize<D: DeSpec<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
                requires d.wf()
                ensures
                    self.ran(d, r),
                    d.wf_after(),
                    (r is Err && d.de(self.ask(), None))
                        || exists|dv: DVal| #[trigger] self.makes(dv, r) && d.de(self.ask(), Some(dv));
        }
        pub trait Deserialize<'de>: Sized {
            #[verifier::prophetic]
            spec fn ran<D: DeSpec<'de>>(d: D, r: Result<Self, D::Error>) -> bool;
            fn deserialize<D: DeSpec<'de>>(d: D) -> (r: Result<Self, D::Error>)
                requires d.wf()
                ensures Self::ran(d, r), d.wf_after();
        }
        pub trait Deserializer<'de>: DeSpec<'de> {
            fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
            fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Bool, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Bool, Some(dv));
            fn deserialize_i8<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::I8, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::I8, Some(dv));
            fn deserialize_i16<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::I16, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::I16, Some(dv));
            fn deserialize_i32<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::I32, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::I32, Some(dv));
            fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::I64, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::I64, Some(dv));
            fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::U8, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::U8, Some(dv));
            fn deserialize_u16<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::U16, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::U16, Some(dv));
            fn deserialize_u32<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::U32, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::U32, Some(dv));
            fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::U64, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::U64, Some(dv));
            fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::F32, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::F32, Some(dv));
            fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::F64, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::F64, Some(dv));
            fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Char, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Char, Some(dv));
            fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Str, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Str, Some(dv));
            fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::String, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::String, Some(dv));
            fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Bytes, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Bytes, Some(dv));
            fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::ByteBuf, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::ByteBuf, Some(dv));
            fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Option(Box::new(visitor.some_ask())), None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Option(Box::new(visitor.some_ask())), Some(dv));
            fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Unit, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Unit, Some(dv));
            fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
            fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
            fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Identifier, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Identifier, Some(dv));
            fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Ignored, None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Ignored, Some(dv));
            fn deserialize_unit_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::UnitStruct(name@), None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::UnitStruct(name@), Some(dv));
            fn deserialize_newtype_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after(), (r is Err && self.de(Ask::Newtype(Box::new(visitor.newtype_ask())), None))
                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::Newtype(Box::new(visitor.newtype_ask())), Some(dv));
            fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
            fn deserialize_tuple_struct<V: Visitor<'de>>(self, name: &'static str, len: usize, visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
            fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
            fn deserialize_enum<V: Visitor<'de>>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
                requires self.wf()
                ensures self.wf_after();
        }
        pub trait SeqAccess<'de>: SeqSpec<'de> {
            fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> (r: Result<Option<T::Value>, Self::Error>)
                requires old(self).seq_wf() ensures final(self).seq_wf();
        }
        pub trait MapAccess<'de>: MapSpec<'de> {
            fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> (r: Result<Option<K::Value>, Self::Error>)
                requires old(self).map_wf() ensures final(self).map_wf(), r matches Ok(Some(_)) ==> final(self).map_val_wf();
            fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> (r: Result<K::Value, Self::Error>)
                requires old(self).map_wf(), old(self).map_val_wf() ensures final(self).map_wf();
        }
        pub trait EnumAccess<'de>: EnumSpec<'de> {
            type Variant;
            fn variant_seed<K: DeserializeSeed<'de>>(self, seed: K) -> (r: Result<(K::Value, Self::Variant), Self::Error>)
                requires self.enum_wf();
        }
        pub trait VariantAccess<'de>: Sized {
            type Error;
            fn unit_variant(self) -> (r: Result<(), Self::Error>);
            fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> (r: Result<T::Value, Self::Error>);
            fn tuple_variant<V: Visitor<'de>>(self, len: usize, visitor: V) -> (r: Result<V::Value, Self::Error>);
            fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>);
        }
        pub trait IntoDeserializer<'de, E>: Sized {
            type Deserializer;
            spec fn gives(self, r: Self::Deserializer) -> bool;
            fn into_deserializer(self) -> (r: Self::Deserializer) ensures self.gives(r);
        }
        impl<'de, 'a, E> IntoDeserializer<'de, E> for &'a str {
            type Deserializer = value::StrDeserializer<'a, E>;
            open spec fn gives(self, r: value::StrDeserializer<'a, E>) -> bool { r@ == self@ }
            #[verifier::external_body]
            fn into_deserializer(self) -> (r: value::StrDeserializer<'a, E>) { unimplemented!() }
        }
        impl<'de, E> IntoDeserializer<'de, E> for u16 {
            type Deserializer = value::U16Deserializer<E>;
            open spec fn gives(self, r: value::U16Deserializer<E>) -> bool { r@ == self }
            #[verifier::external_body]
            fn into_deserializer(self) -> (r: value::U16Deserializer<E>) { unimplemented!() }
        }
        }
        /// serde's deserializers of a single known value
        pub mod value {
            use vstd::prelude::*;
            use super::{DVal, Ask, DeSpec};
            verus! {
            #[verifier::external_body]
            #[verifier::reject_recursive_types(E)]
            pub struct StrDeserializer<'a, E> { _p: std::marker::PhantomData<(&'a str, E)> }
            impl<'a, E> StrDeserializer<'a, E> { pub uninterp spec fn view(&self) -> Seq<char>; }
            impl<'de, 'a, E> DeSpec<'de> for StrDeserializer<'a, E> {
                type Error = E;
                open spec fn wf(self) -> bool { true }
                open spec fn wf_after(self) -> bool { true }
                open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { ask is Other || d == Some(DVal::Str(self@)) }
            }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(E)]
            pub struct U16Deserializer<E> { _p: std::marker::PhantomData<E> }
            impl<E> U16Deserializer<E> { pub uninterp spec fn view(&self) -> u16; }
            impl<'de, E> DeSpec<'de> for U16Deserializer<E> {
                type Error = E;
                open spec fn wf(self) -> bool { true }
                open spec fn wf_after(self) -> bool { true }
                open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { ask is Other || d == Some(DVal::U16(self@)) }
            }
            }
        }
    }
}
