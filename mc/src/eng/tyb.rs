//! Short builders for registry types.
use alloc::string::{String, ToString};
use alloc::vec::Vec;
pub use scale_info::form::PortableForm;
use scale_info::interner::UntrackedSymbol;
pub use scale_info::{Field, Path, Type, TypeDef, TypeDefPrimitive as Pr, Variant};
use scale_info::{TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefSequence, TypeDefTuple, TypeDefVariant};

pub type T = Type<PortableForm>;
pub type Fl = Field<PortableForm>;
pub type Vr = Variant<PortableForm>;
pub type Sym = UntrackedSymbol<core::any::TypeId>;

pub fn sym(id: u32) -> Sym {
    id.into()
}
pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
pub fn pathv(a: Vec<String>) -> Path<PortableForm> {
    Path { segments: a }
}
pub fn ty(path: &[&str], docs: &[&str], def: impl Into<TypeDef<PortableForm>>) -> T {
    Type { path: pathv(strs(path)), type_params: Vec::new(), type_def: def.into(), docs: strs(docs) }
}
pub fn prim(p: Pr) -> T {
    ty(&[], &[], TypeDef::Primitive(p))
}
pub fn comp(f: Vec<Fl>) -> TypeDef<PortableForm> {
    TypeDef::Composite(TypeDefComposite { fields: f })
}
pub fn vars(v: Vec<Vr>) -> TypeDef<PortableForm> {
    TypeDef::Variant(TypeDefVariant { variants: v })
}
pub fn tup(ids: &[u32]) -> TypeDef<PortableForm> {
    TypeDef::Tuple(TypeDefTuple { fields: ids.iter().map(|i| sym(*i)).collect() })
}
pub fn arr(len: u32, id: u32) -> TypeDef<PortableForm> {
    TypeDef::Array(TypeDefArray { len, type_param: sym(id) })
}
pub fn seq(id: u32) -> TypeDef<PortableForm> {
    TypeDef::Sequence(TypeDefSequence { type_param: sym(id) })
}
pub fn compact(id: u32) -> TypeDef<PortableForm> {
    TypeDef::Compact(TypeDefCompact { type_param: sym(id) })
}
pub fn bitseq(store: u32, order: u32) -> TypeDef<PortableForm> {
    TypeDef::BitSequence(TypeDefBitSequence { bit_store_type: sym(store), bit_order_type: sym(order) })
}
pub fn fld(name: Option<&str>, tn: Option<&str>, id: u32) -> Fl {
    Field { name: name.map(|s| s.to_string()), ty: sym(id), type_name: tn.map(|s| s.to_string()), docs: Vec::new() }
}
pub fn fldd(name: Option<&str>, tn: Option<&str>, id: u32, docs: &[&str]) -> Fl {
    Field { docs: strs(docs), ..fld(name, tn, id) }
}
pub fn var(name: &str, index: u8, fields: Vec<Fl>) -> Vr {
    Variant { name: name.to_string(), fields, index, docs: Vec::new() }
}
pub fn vard(name: &str, index: u8, fields: Vec<Fl>, docs: &[&str]) -> Vr {
    Variant { docs: strs(docs), ..var(name, index, fields) }
}
