"""Writes shims/serde.rs: serde's traits with contracts (a fixed text; the
generator only saves repeating the scalar methods)."""
SC = [("bool", "Bool", "bool"), ("i8", "I8", "i8"), ("i16", "I16", "i16"), ("i32", "I32", "i32"), ("i64", "I64", "i64"),
      ("u8", "U8", "u8"), ("u16", "U16", "u16"), ("u32", "U32", "u32"), ("u64", "U64", "u64"),
      ("f32", "F32", "f32"), ("f64", "F64", "f64"), ("char", "Char", "char")]
o = []
w = o.append
w('''pub mod serde {
    pub use self::ser::{Serialize, Serializer};
    pub use self::de::{Deserialize, Deserializer};
    pub mod ser {
        use vstd::prelude::*;
        verus! {
        /// The value a `Serialize` implementation describes, in serde's data model.
        pub enum Val {''')
for _, v, t in SC:
    w("            %s(%s)," % (v, t))
w('''            Str(Seq<char>), Bytes(Seq<u8>), None, Some(Box<Val>), Unit, UnitStruct(Seq<char>),
            UnitVariant(Seq<char>), NewtypeStruct(Box<Val>), NewtypeVariant(Seq<char>, Box<Val>),
            Seq(Seq<Val>), Tuple(Seq<Val>), TupleStruct(Seq<Val>), TupleVariant(Seq<char>, Seq<Val>),
            Map(Seq<(Val, Val)>), Struct(Seq<(Seq<char>, Val)>), StructVariant(Seq<char>, Seq<(Seq<char>, Val)>),
        }
        pub trait Error: Sized {}
        /// What running a serializer on a value does: fixed per serializer.
        pub trait SerSpec: Sized {
            type Ok;
            type Error;
            /// the representation invariant
            spec fn wf(self) -> bool;
            #[verifier::prophetic]
            spec fn ser(self, v: Val, r: Result<Self::Ok, Self::Error>) -> bool;
        }
        pub trait Serialize {
            spec fn val(&self) -> Val;
            fn serialize<S: SerSpec>(&self, s: S) -> (r: Result<S::Ok, S::Error>)
                requires s.wf()
                ensures s.ser(self.val(), r);
        }
        /// The invariants under which the fields of a struct (or a struct variant) may be given.
        pub trait PartSpec: Sized {
            spec fn part_wf(self) -> bool;
            spec fn variant_wf(self) -> bool;
        }
        impl Serialize for () {
            open spec fn val(&self) -> Val { Val::Unit }
            #[verifier::external_body]
            fn serialize<S: SerSpec>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
        }
        pub trait Serializer: SerSpec {
            type SerializeSeq; type SerializeTuple; type SerializeTupleStruct; type SerializeTupleVariant;
            type SerializeMap; type SerializeStruct; type SerializeStructVariant;''')
for n, v, t in SC:
    w("            fn serialize_%s(self, v: %s) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::%s(v), r);" % (n, t, v))
w('''            fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Str(v@), r);
            fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Bytes(v@), r);
            fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::None, r);
            fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> (r: Result<Self::Ok, Self::Error>)
                requires self.wf() ensures self.ser(Val::Some(Box::new(value.val())), r);
            fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::Unit, r);
            fn serialize_unit_struct(self, name: &'static str) -> (r: Result<Self::Ok, Self::Error>)
                requires self.wf() ensures self.ser(Val::UnitStruct(name@), r);
            fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str)
                -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::UnitVariant(variant@), r);
            fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, value: &T)
                -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::NewtypeStruct(Box::new(value.val())), r);
            fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, variant_index: u32,
                variant: &'static str, value: &T)
                -> (r: Result<Self::Ok, Self::Error>) requires self.wf() ensures self.ser(Val::NewtypeVariant(variant@, Box::new(value.val())), r);
            fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>) requires self.wf();
            fn serialize_tuple(self, len: usize) -> (r: Result<Self::SerializeTuple, Self::Error>) requires self.wf();
            fn serialize_tuple_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeTupleStruct, Self::Error>) requires self.wf();
            fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize)
                -> (r: Result<Self::SerializeTupleVariant, Self::Error>) requires self.wf();
            fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>) requires self.wf();
            fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
                requires self.wf();
            fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize)
                -> (r: Result<Self::SerializeStructVariant, Self::Error>) requires self.wf();
        }
        pub trait SerializeSeq: Sized { type Ok; type Error;
            fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeTuple: Sized { type Ok; type Error;
            fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeTupleStruct: Sized { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeTupleVariant: Sized { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeMap: Sized { type Ok; type Error;
            fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> (r: Result<(), Self::Error>);
            fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>);
            fn end(self) -> (r: Result<Self::Ok, Self::Error>); }
        pub trait SerializeStruct: PartSpec { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
                requires old(self).part_wf() ensures final(self).part_wf();
            fn end(self) -> (r: Result<Self::Ok, Self::Error>) requires self.part_wf(); }
        pub trait SerializeStructVariant: PartSpec { type Ok; type Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
                requires old(self).variant_wf() ensures final(self).variant_wf();
            fn end(self) -> (r: Result<Self::Ok, Self::Error>) requires self.variant_wf(); }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        #[verifier::reject_recursive_types(B)]
        pub struct Impossible<A, B> { _p: std::marker::PhantomData<(A, B)> }
        }
    }
    pub mod de {
        use vstd::prelude::*;
        verus! {
        /// What a deserializer hands to a visitor.
        pub enum DVal {''')
for _, v, t in SC:
    if v != "Char":
        w("            %s(%s)," % (v, t))
w('''            Str(Seq<char>), Bytes(Seq<u8>), Unit, None, Some(Box<DVal>), Newtype(Box<DVal>),
        }
        /// What a `Deserialize` implementation asks a deserializer for.
        pub enum Ask {
            Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Char, Str, String, Identifier, Bytes, ByteBuf,
            Unit, UnitStruct(Seq<char>), Ignored, Option(Box<Ask>), Newtype(Box<Ask>),
            /// anything else (compound or self-describing): not pinned down here
            Other(int),
        }
        /// The outcome of a deserialisation step as a function of the state.
        #[verifier::reject_recursive_types(S)]
        pub enum Step<S> { Done(DVal, S), Fail, Any }
        /// The answer inside an element, key or value.
        pub open spec fn elem<T, E>(r: Result<Option<T>, E>) -> Result<T, E> {
            match r { Ok(Some(v)) => Ok(v), Ok(None) => arbitrary(), Err(e) => Err(e) }
        }
        pub trait Error: Sized {
            fn custom<T>(msg: T) -> Self;
        }
        /// What running a deserializer for `ask` delivers (`None`: an error): fixed per deserializer.
        pub trait DeSpec<'de>: Sized {
            type Error;
            /// the representation invariant on entry, and on exit for a mutable reference
            spec fn wf(self) -> bool;
            #[verifier::prophetic]
            spec fn wf_after(self) -> bool;
            #[verifier::prophetic]
            spec fn de(self, ask: Ask, d: Option<DVal>) -> bool;
        }
        pub trait SeqSpec<'de>: Sized {
            type Error;
            spec fn seq_wf(self) -> bool;
            #[verifier::prophetic]
            spec fn seq_wf_after(self) -> bool;
        }
        pub trait MapSpec<'de>: Sized {
            type Error;
            spec fn map_wf(self) -> bool;
            /// a key was just read: its value may be asked for
            spec fn map_val_wf(self) -> bool;
            #[verifier::prophetic]
            spec fn map_wf_after(self) -> bool;
        }
        pub trait EnumSpec<'de>: Sized {
            type Error;
            spec fn enum_wf(self) -> bool;
            #[verifier::prophetic]
            spec fn enum_wf_after(self) -> bool;
        }

        pub trait Visitor<'de>: Sized {
            type Value;
            /// `r` is an answer of this visitor to being given `d`.
            spec fn visits<E>(self, d: DVal, r: Result<Self::Value, E>) -> bool;
            /// what this visitor asks for when given the inside of an option or a newtype
            spec fn some_ask(self) -> Ask;
            spec fn newtype_ask(self) -> Ask;
            #[verifier::prophetic]
            spec fn on_seq<A: SeqSpec<'de>>(self, a: A, r: Result<Self::Value, A::Error>) -> bool;
            #[verifier::prophetic]
            spec fn on_map<A: MapSpec<'de>>(self, a: A, r: Result<Self::Value, A::Error>) -> bool;
            #[verifier::prophetic]
            spec fn on_enum<A: EnumSpec<'de>>(self, a: A, r: Result<Self::Value, A::Error>) -> bool;''')
for n, v, t in SC:
    if v != "Char":
        w("            fn visit_%s<E>(self, v: %s) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::%s(v), r);" % (n, t, v))
w('''            fn visit_str<E>(self, v: &str) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Str(v@), r);
            fn visit_borrowed_str<E>(self, v: &'de str) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Str(v@), r);
            fn visit_string<E>(self, v: String) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Str(v@), r);
            fn visit_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bytes(v@), r);
            fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bytes(v@), r);
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Bytes(v@), r);
            fn visit_none<E>(self) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::None, r);
            fn visit_unit<E>(self) -> (r: Result<Self::Value, E>) ensures self.visits(DVal::Unit, r);
            fn visit_some<D: DeSpec<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
                requires d.wf()
                ensures d.wf_after(), (r is Err && d.de(self.some_ask(), None))
                    || exists|dv: DVal| #[trigger] self.visits(DVal::Some(Box::new(dv)), r) && d.de(self.some_ask(), Some(dv));
            fn visit_newtype_struct<D: DeSpec<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
                requires d.wf()
                ensures d.wf_after(), (r is Err && d.de(self.newtype_ask(), None))
                    || exists|dv: DVal| #[trigger] self.visits(DVal::Newtype(Box::new(dv)), r) && d.de(self.newtype_ask(), Some(dv));
            fn visit_seq<A: SeqSpec<'de>>(self, a: A) -> (r: Result<Self::Value, A::Error>)
                requires a.seq_wf() ensures self.on_seq(a, r), a.seq_wf_after();
            fn visit_map<A: MapSpec<'de>>(self, a: A) -> (r: Result<Self::Value, A::Error>)
                requires a.map_wf() ensures self.on_map(a, r), a.map_wf_after();
            fn visit_enum<A: EnumSpec<'de>>(self, a: A) -> (r: Result<Self::Value, A::Error>)
                requires a.enum_wf() ensures self.on_enum(a, r), a.enum_wf_after();
        }
        /// A typed request for one value. `makes(d, r)`: given `d`, the seed answers `r`.
        pub trait DeserializeSeed<'de>: Sized {
            type Value;
            spec fn ask(self) -> Ask;
            spec fn makes<E>(self, d: DVal, r: Result<Self::Value, E>) -> bool;
            #[verifier::prophetic]
            spec fn ran<D: DeSpec<'de>>(self, d: D, r: Result<Self::Value, D::Error>) -> bool;
            fn deserialize<D: DeSpec<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
                requires d.wf()
                ensures
                    self.ran(d, r),
                    d.wf_after(),
                    (r is Err && d.de(self.ask(), None))
                        || exists|dv: DVal| #[trigger] self.makes(dv, r) && d.de(self.ask(), Some(dv));
        }
        pub trait Deserialize<'de>: Sized {
            #[verifier::prophetic]
            spec fn ran<D: DeSpec<'de>>(d: D, r: Result<Self, D::Error>) -> bool;
            fn deserialize<D: DeSpec<'de>>(d: D) -> (r: Result<Self, D::Error>)
                requires d.wf()
                ensures Self::ran(d, r), d.wf_after();
        }
        pub trait Deserializer<'de>: DeSpec<'de> {''')
def std(sig, ask):
    w("            fn %s -> (r: Result<V::Value, Self::Error>)" % sig)
    w("                requires self.wf()")
    w("                ensures self.wf_after(), (r is Err && self.de(Ask::%s, None))" % ask)
    w("                    || exists|dv: DVal| #[trigger] visitor.visits(dv, r) && self.de(Ask::%s, Some(dv));" % ask)
def free(sig):
    w("            fn %s -> (r: Result<V::Value, Self::Error>)" % sig)
    w("                requires self.wf()")
    w("                ensures self.wf_after();")
ASK = {"str": "Str", "string": "String", "bytes": "Bytes", "byte_buf": "ByteBuf", "unit": "Unit",
       "identifier": "Identifier", "ignored_any": "Ignored"}
for n, v, t in SC:
    ASK[n] = v
for n in ["any", "bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "str", "string",
          "bytes", "byte_buf", "option", "unit", "seq", "map", "identifier", "ignored_any"]:
    sig = "deserialize_%s<V: Visitor<'de>>(self, visitor: V)" % n
    if n in ASK:
        std(sig, ASK[n])
    elif n == "option":
        std(sig, "Option(Box::new(visitor.some_ask()))")
    else:
        free(sig)
std("deserialize_unit_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V)", "UnitStruct(name@)")
std("deserialize_newtype_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V)", "Newtype(Box::new(visitor.newtype_ask()))")
for sig in ["deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V)",
            "deserialize_tuple_struct<V: Visitor<'de>>(self, name: &'static str, len: usize, visitor: V)",
            "deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V)",
            "deserialize_enum<V: Visitor<'de>>(self, name: &'static str, variants: &'static [&'static str], visitor: V)"]:
    free(sig)
w('''        }
        pub trait SeqAccess<'de>: SeqSpec<'de> {
            fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> (r: Result<Option<T::Value>, Self::Error>)
                requires old(self).seq_wf() ensures final(self).seq_wf();
        }
        pub trait MapAccess<'de>: MapSpec<'de> {
            fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> (r: Result<Option<K::Value>, Self::Error>)
                requires old(self).map_wf() ensures final(self).map_wf(), r matches Ok(Some(_)) ==> final(self).map_val_wf();
            fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> (r: Result<K::Value, Self::Error>)
                requires old(self).map_wf(), old(self).map_val_wf() ensures final(self).map_wf();
        }
        pub trait EnumAccess<'de>: EnumSpec<'de> {
            type Variant;
            fn variant_seed<K: DeserializeSeed<'de>>(self, seed: K) -> (r: Result<(K::Value, Self::Variant), Self::Error>)
                requires self.enum_wf();
        }
        pub trait VariantAccess<'de>: Sized {
            type Error;
            fn unit_variant(self) -> (r: Result<(), Self::Error>);
            fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> (r: Result<T::Value, Self::Error>);
            fn tuple_variant<V: Visitor<'de>>(self, len: usize, visitor: V) -> (r: Result<V::Value, Self::Error>);
            fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>);
        }
        pub trait IntoDeserializer<'de, E>: Sized {
            type Deserializer;
            spec fn gives(self, r: Self::Deserializer) -> bool;
            fn into_deserializer(self) -> (r: Self::Deserializer) ensures self.gives(r);
        }
        impl<'de, 'a, E> IntoDeserializer<'de, E> for &'a str {
            type Deserializer = value::StrDeserializer<'a, E>;
            open spec fn gives(self, r: value::StrDeserializer<'a, E>) -> bool { r@ == self@ }
            #[verifier::external_body]
            fn into_deserializer(self) -> (r: value::StrDeserializer<'a, E>) { unimplemented!() }
        }
        impl<'de, E> IntoDeserializer<'de, E> for u16 {
            type Deserializer = value::U16Deserializer<E>;
            open spec fn gives(self, r: value::U16Deserializer<E>) -> bool { r@ == self }
            #[verifier::external_body]
            fn into_deserializer(self) -> (r: value::U16Deserializer<E>) { unimplemented!() }
        }
        }
        /// serde's deserializers of a single known value
        pub mod value {
            use vstd::prelude::*;
            use super::{DVal, Ask, DeSpec};
            verus! {
            #[verifier::external_body]
            #[verifier::reject_recursive_types(E)]
            pub struct StrDeserializer<'a, E> { _p: std::marker::PhantomData<(&'a str, E)> }
            impl<'a, E> StrDeserializer<'a, E> { pub uninterp spec fn view(&self) -> Seq<char>; }
            impl<'de, 'a, E> DeSpec<'de> for StrDeserializer<'a, E> {
                type Error = E;
                open spec fn wf(self) -> bool { true }
                open spec fn wf_after(self) -> bool { true }
                open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { ask is Other || d == Some(DVal::Str(self@)) }
            }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(E)]
            pub struct U16Deserializer<E> { _p: std::marker::PhantomData<E> }
            impl<E> U16Deserializer<E> { pub uninterp spec fn view(&self) -> u16; }
            impl<'de, E> DeSpec<'de> for U16Deserializer<E> {
                type Error = E;
                open spec fn wf(self) -> bool { true }
                open spec fn wf_after(self) -> bool { true }
                open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { ask is Other || d == Some(DVal::U16(self@)) }
            }
            }
        }
    }
}''')
open("/verif/shims/serde.rs", "w").write("\n".join(o) + "\n")
