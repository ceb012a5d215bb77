// Contracts of the arith folds: environment model and harnesses.  The folds themselves are cut out of
// crates/trunk-ir/src/dialect/arith.rs on every run and pasted in front of this text.
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct OpRef(u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct ValueRef(u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct TypeRef(u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct BlockRef(u32);
pub enum ValueDef { OpResult(OpRef, u32), BlockArg(BlockRef, u32) }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum Attribute { Unit, Int(i128), Bool(bool) }
pub enum FoldResult { Forward(ValueRef), ArithConst(Attribute), Splice { body: Vec<OpRef>, results: Vec<ValueRef> } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Symbol(&'static str);
impl Symbol { pub fn new(s: &'static str) -> Self { Symbol(s) } pub fn with_str<R>(&self, f: impl FnOnce(&str) -> R) -> R { f(self.0) } }
pub struct TypeData { pub dialect: Symbol, pub name: Symbol, pub params: Vec<TypeRef>, pub attrs: Vec<u8> }
pub struct Types;
impl Types { pub fn get(&self, _: TypeRef) -> &TypeData { unimplemented!() } }
/// one binary operation with operands ValueRef(0) and ValueRef(1), each a constant or an unknown of `width` bits
pub struct IrContext { pub types: Types, operands: [ValueRef; 2], results: [TypeRef; 1], width: u32, bits: [u128; 2], constant: [bool; 2] }
impl IrContext {
    pub fn op_operands(&self, _: OpRef) -> &[ValueRef] { &self.operands }
    pub fn op_results(&self, _: OpRef) -> &[ValueRef] { &[] }
    pub fn op_result_types(&self, _: OpRef) -> &[TypeRef] { &self.results }
    pub fn value_def(&self, v: ValueRef) -> ValueDef { if v.0 < 2 && self.constant[v.0 as usize] { ValueDef::OpResult(OpRef(v.0), 0) } else { ValueDef::BlockArg(BlockRef(0), v.0) } }
}
pub struct Const(usize);
impl Const {
    pub fn from_op(_: &IrContext, op: OpRef) -> Result<Const, ()> { if op.0 < 2 { Ok(Const(op.0 as usize)) } else { Err(()) } }
    pub fn value(&self, ctx: &IrContext) -> Attribute { Attribute::Int(canon(ctx.bits[self.0], ctx.width)) }
}
#[cfg(kani)] fn width_model(ctx: &IrContext, _: TypeRef) -> Option<u32> { Some(ctx.width) }

fn mask(w: u32) -> u128 { if w == 128 { u128::MAX } else { (1u128 << w) - 1 } }
/// the constant attribute that stands for these bits: sign-extended
fn canon(bits: u128, w: u32) -> i128 { if w < 128 && bits >> (w - 1) & 1 == 1 { (bits | !mask(w)) as i128 } else { bits as i128 } }
/// what the operation yields, None where it traps
fn meaning(op: &str, x: u128, y: u128, w: u32) -> Option<u128> {
    let (a, b, m) = (canon(x, w), canon(y, w), mask(w));
    let min = 1u128 << (w - 1);
    Some(match op {
        "addi" => x.wrapping_add(y) & m,
        "subi" => x.wrapping_sub(y) & m,
        "muli" => exact("mul", a as u128, b as u128) & m,
        "and" => x & y, "or" => x | y, "xor" => x ^ y,
        "divui" => if y == 0 { return None } else { exact("div", x, y) },
        "remui" => if y == 0 { return None } else { exact("rem", x, y) },
        "divsi" => if y == 0 || x == min && b == -1 { return None } else { exact("div", a as u128, b as u128) & m },
        "remsi" => if y == 0 || x == min && b == -1 { return None } else { exact("rem", a as u128, b as u128) & m },
        _ => unreachable!(),
    })
}
/// 128-bit multiplication, division and remainder are left uninterpreted: an arbitrary function of the operands,
/// the same in the code (whose calls of `wrapping_mul` ... are redirected here) and in the contract.
static mut EXACT: (u128, u128, u128) = (0, 0, 0);
fn exact(_: &str, a: u128, b: u128) -> u128 {
    let e = unsafe { EXACT };
    if e.0 == a && e.1 == b { return e.2; }
    #[cfg(kani)] return kani::any();
    #[cfg(not(kani))] unreachable!()
}
trait Exact: Sized + Copy { fn x_mul(self, o: Self) -> Self; fn x_div(self, o: Self) -> Self; fn x_rem(self, o: Self) -> Self; }
impl Exact for i128 {
    fn x_mul(self, o: i128) -> i128 { exact("mul", self as u128, o as u128) as i128 }
    fn x_div(self, o: i128) -> i128 { exact("div", self as u128, o as u128) as i128 }
    fn x_rem(self, o: i128) -> i128 { exact("rem", self as u128, o as u128) as i128 }
}
impl Exact for u128 {
    fn x_mul(self, o: u128) -> u128 { exact("mul", self, o) }
    fn x_div(self, o: u128) -> u128 { exact("div", self, o) }
    fn x_rem(self, o: u128) -> u128 { exact("rem", self, o) }
}
#[cfg(kani)]
mod fold_contracts {
    use super::*;
    fn check(op: &str, fold: fn(&IrContext, OpRef) -> Option<FoldResult>, widths: &[u32]) {
        let w: u32 = kani::any(); let x: u128 = kani::any(); let y: u128 = kani::any(); let constant: [bool; 2] = kani::any();
        kani::assume(if widths.is_empty() { 1 <= w && w <= 128 } else { widths.contains(&w) });
        kani::assume(x & !mask(w) == 0 && y & !mask(w) == 0);
        let ctx = IrContext { types: Types, operands: [ValueRef(0), ValueRef(1)], results: [TypeRef(0)], width: w, bits: [x, y], constant };
        let signed = op == "muli" || op == "divsi" || op == "remsi";
        let (p, q) = if signed { (canon(x, w) as u128, canon(y, w) as u128) } else { (x, y) };
        let e: u128 = kani::any();
        // the facts about the result that the contract needs: an unsigned quotient or remainder fits the width,
        // and so does a signed one that does not overflow; 0 and 1 are special for multiplication
        if op == "divui" || op == "remui" { kani::assume(e & !mask(w) == 0); }
        if op == "divsi" || op == "remsi" { kani::assume(canon(e & mask(w), w) as u128 == e); }
        if op == "muli" { kani::assume((p != 0 && q != 0 || e == 0) && (p != 1 || e == q) && (q != 1 || e == p)); }
        unsafe { EXACT = (p, q, e) };
        let r = fold(&ctx, OpRef(9));
        kani::cover!(matches!(r, Some(FoldResult::ArithConst(_))), "a constant result is reachable");
        match r {
            None => {}
            Some(FoldResult::Forward(v)) => assert!(v.0 < 2 && meaning(op, x, y, w) == Some(ctx.bits[v.0 as usize]), "forwards the value of the operation"),
            Some(FoldResult::ArithConst(Attribute::Int(c))) => assert!(meaning(op, x, y, w) == Some(c as u128 & mask(w)) && canon(c as u128 & mask(w), w) == c, "the constant is the value of the operation"),
            Some(_) => assert!(false, "another kind of result"),
        }
    }
    macro_rules! contract { ($h:ident, $op:literal, $f:ident, $s:ident, $w:expr) => {
        #[kani::proof] #[kani::stub(core_int_width, width_model)] #[kani::solver($s)] fn $h() { check($op, $f, &$w) } } }
    contract!(c_addi, "addi", fold_addi, cadical, []);
    contract!(c_subi, "subi", fold_subi, cadical, []);
    contract!(c_and, "and", fold_and, cadical, []);
    contract!(c_or, "or", fold_or, cadical, []);
    contract!(c_xor, "xor", fold_xor, cadical, []);
    contract!(c_muli, "muli", fold_muli, cadical, []);
    contract!(c_divui, "divui", fold_divui, cadical, []);
    contract!(c_remui, "remui", fold_remui, cadical, []);
    contract!(c_divsi, "divsi", fold_divsi, cadical, []);
    contract!(c_remsi, "remsi", fold_remsi, cadical, []);
}
