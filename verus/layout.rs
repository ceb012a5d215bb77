// Native layout of structs and enums: fields are aligned, disjoint and inside the object (C14).
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct TypeRef(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Symbol(pub u32);
pub uninterp spec fn sym(s: Seq<char>) -> Symbol;
impl Symbol { #[verifier::external_body] pub fn new(s: &str) -> (r: Symbol) ensures r == sym(s@) { unimplemented!() } }
pub struct TypeData { pub dialect: Symbol, pub name: Symbol }
pub struct TypeInterner { pub x: u8 }
pub uninterp spec fn data_of(t: &TypeInterner, ty: TypeRef) -> TypeData;
impl TypeInterner { #[verifier::external_body] pub fn get(&self, ty: TypeRef) -> (r: &TypeData) ensures *r == data_of(self, ty) { unimplemented!() } }
pub struct IrContext { pub types: TypeInterner }
pub struct TypeConverter { pub x: u8 }
pub uninterp spec fn native_of(ctx: &IrContext, tc: &TypeConverter, t: TypeRef) -> TypeRef;
// the documented size of each native type; alignment is natural
pub open spec fn size_of(ctx: &IrContext, t: TypeRef) -> u32 {
  let d = data_of(&ctx.types, t);
  if d.dialect != sym("core"@) { 8 }
  else if d.name == sym("i8"@) { 1 }
  else if d.name == sym("i16"@) { 2 }
  else if d.name == sym("i32"@) || d.name == sym("i1"@) || d.name == sym("f32"@) { 4 }
  else { 8 }
}
pub open spec fn align_of(ctx: &IrContext, t: TypeRef) -> u32 { size_of(ctx, t) }
pub open spec fn pow2(a: u32) -> bool { a == 1 || a == 2 || a == 4 || a == 8 }
impl TypeConverter {
  #[verifier::external_body] pub fn convert_type_or_identity(&self, ctx: &IrContext, t: TypeRef) -> (r: TypeRef) ensures r == native_of(ctx, self, t) { unimplemented!() }
}
// symbols of different strings differ (Symbol interning, assumed): some numbering tells them apart
pub uninterp spec fn number(s: Symbol) -> int;
pub open spec fn interned() -> bool { number(sym("i1"@)) == 0 && number(sym("i8"@)) == 1 && number(sym("i16"@)) == 2 && number(sym("i32"@)) == 3 && number(sym("i64"@)) == 4 && number(sym("f32"@)) == 5 && number(sym("f64"@)) == 6 && number(sym("ptr"@)) == 7 }
//@fn crates/trunk-ir/src/adt_layout.rs type_size_align
//@ret r
//@spec
  requires interned()
  ensures r.0 == size_of(ctx, ty), r.1 == align_of(ctx, ty)
//@end
pub uninterp spec fn fields_of(ctx: &IrContext, t: TypeRef) -> Option<Seq<(Symbol, TypeRef)>>;
#[verifier::external_body] pub fn get_struct_fields(ctx: &IrContext, ty: TypeRef) -> (r: Option<Vec<(Symbol, TypeRef)>>)
  ensures r.is_some() == fields_of(ctx, ty).is_some(), r.is_some() ==> r->0@ == fields_of(ctx, ty)->0 { unimplemented!() }
pub uninterp spec fn variants_of(ctx: &IrContext, t: TypeRef) -> Option<Seq<(Symbol, Seq<TypeRef>)>>;
pub open spec fn same(v: Seq<(Symbol, Vec<TypeRef>)>, s: Seq<(Symbol, Seq<TypeRef>)>) -> bool {
  v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).0 == s[i].0 && v[i].1@ == s[i].1 }
#[verifier::external_body] pub fn get_enum_variants(ctx: &IrContext, ty: TypeRef) -> (r: Option<Vec<(Symbol, Vec<TypeRef>)>>)
  ensures r.is_some() == variants_of(ctx, ty).is_some(), r.is_some() ==> same(r->0@, variants_of(ctx, ty)->0) { unimplemented!() }

pub open spec fn sz(ctx: &IrContext, tc: &TypeConverter, t: TypeRef) -> u32 { size_of(ctx, native_of(ctx, tc, t)) }
pub open spec fn al(ctx: &IrContext, tc: &TypeConverter, t: TypeRef) -> u32 { align_of(ctx, native_of(ctx, tc, t)) }
// fields of the given types at the given offsets are aligned, disjoint, in order and end at or before `end`
pub open spec fn laid_out(ctx: &IrContext, tc: &TypeConverter, ts: Seq<TypeRef>, offs: Seq<u32>, end: u32) -> bool {
  &&& offs.len() == ts.len()
  &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] offs[i]) % al(ctx, tc, ts[i]) == 0
  &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> (#[trigger] offs[i]) + sz(ctx, tc, ts[i]) <= #[trigger] offs[j]
  &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] offs[i]) + sz(ctx, tc, ts[i]) <= end
}
pub open spec fn types(fs: Seq<(Symbol, TypeRef)>) -> Seq<TypeRef> { fs.map(|i: int, f: (Symbol, TypeRef)| f.1) }

mod lemmas {
  use vstd::prelude::*;
  pub broadcast proof fn round_up(s: u32, m: u32)
    requires m == 0 || m == 1 || m == 3 || m == 7
    ensures (#[trigger] (s & !m)) % ((m + 1) as u32) == 0, (s & !m) <= s, s - (s & !m) <= m
  {
    assert((s & !m) % ((m + 1) as u32) == 0 && (s & !m) <= s && s - (s & !m) <= m) by (bit_vector) requires m == 0 || m == 1 || m == 3 || m == 7;
  }
}
broadcast use lemmas::round_up;

//@item crates/trunk-ir/src/adt_layout.rs struct StructLayout
//@item crates/trunk-ir/src/adt_layout.rs const ENUM_FIELDS_OFFSET
//@item crates/trunk-ir/src/adt_layout.rs struct EnumLayout
//@item crates/trunk-ir/src/adt_layout.rs struct VariantFieldLayout

//@fn crates/trunk-ir/src/adt_layout.rs compute_struct_layout
//@ret res
//@sub let mut (\w+) = Vec::with_capacity => let mut \1: Vec<u32> = Vec::with_capacity
//@spec
  requires interned(), fields_of(ctx, struct_ty).is_some() ==> fields_of(ctx, struct_ty)->0.len() <= 0x0800_0000,
  ensures res.is_some() == fields_of(ctx, struct_ty).is_some(),
    res.is_some() ==> laid_out(ctx, type_converter, types(fields_of(ctx, struct_ty)->0), res->0.field_offsets@, res->0.total_size)
      && pow2(res->0.alignment) && res->0.total_size % res->0.alignment == 0,
//@loop 0
  invariant interned(), vx_it0 <= fields.len(), fields.len() <= 0x0800_0000, fields@ == fields_of(ctx, struct_ty)->0, pow2(max_align), offset <= 16 * vx_it0,
    laid_out(ctx, type_converter, types(fields@).take(vx_it0 as int), field_offsets@, offset),
  decreases fields.len() - vx_it0
//@end

pub open spec fn variant_ok(ctx: &IrContext, tc: &TypeConverter, v: (Symbol, Seq<TypeRef>), k: int, l: VariantFieldLayout) -> bool {
  l.name == v.0 && l.tag_value == k && laid_out(ctx, tc, v.1, l.field_offsets@, l.fields_size) }
//@fn crates/trunk-ir/src/adt_layout.rs compute_enum_layout
//@ret res
//@sub let mut field_offsets = Vec::with_capacity => let mut field_offsets: Vec<u32> = Vec::with_capacity
//@sub let mut variant_layouts = Vec::with_capacity => let mut variant_layouts: Vec<VariantFieldLayout> = Vec::with_capacity
//@spec
  requires interned(), variants_of(ctx, enum_ty).is_some() ==> variants_of(ctx, enum_ty)->0.len() <= 0xffff_ffff
    && forall|i: int| 0 <= i < variants_of(ctx, enum_ty)->0.len() ==> (#[trigger] variants_of(ctx, enum_ty)->0[i]).1.len() <= 0x0800_0000,
  ensures res.is_some() == variants_of(ctx, enum_ty).is_some(),
    res.is_some() ==> ({ let l = res->0; let vs = variants_of(ctx, enum_ty)->0;
      &&& l.variant_layouts.len() == vs.len()
      &&& l.tag_size == 4 && l.tag_offset + l.tag_size <= l.fields_offset && l.fields_offset % 8 == 0
      &&& forall|k: int| 0 <= k < vs.len() ==> variant_ok(ctx, type_converter, vs[k], k, #[trigger] l.variant_layouts[k])
      &&& forall|k: int| 0 <= k < vs.len() ==> l.fields_offset + (#[trigger] l.variant_layouts[k]).fields_size <= l.total_size })
//@loop 0
  invariant interned(), vx_it0 <= variants.len(), variants.len() <= 0xffff_ffff, same(variants@, variants_of(ctx, enum_ty)->0), pow2(max_align), max_align == 8, max_fields_size <= 0x8000_0010,
    forall|i: int| 0 <= i < variants.len() ==> (#[trigger] variants_of(ctx, enum_ty)->0[i]).1.len() <= 0x0800_0000,
    variant_layouts.len() == vx_it0,
    forall|k: int| 0 <= k < vx_it0 ==> variant_ok(ctx, type_converter, variants_of(ctx, enum_ty)->0[k], k, #[trigger] variant_layouts[k]),
    forall|k: int| 0 <= k < vx_it0 ==> (#[trigger] variant_layouts[k]).fields_size <= max_fields_size,
  decreases variants.len() - vx_it0
//@loop 1
  invariant interned(), vx_it1 <= field_types.len(), field_types.len() <= 0x0800_0000, pow2(max_align), max_align == 8, offset <= 16 * vx_it1,
    laid_out(ctx, type_converter, field_types@.take(vx_it1 as int), field_offsets@, offset),
  decreases field_types.len() - vx_it1
//@end
}
fn main() {}
