//! irdrv: runs the repository's own passes on textual TrunkIR and dumps the resulting module
//! structurally as JSON.  Protocol on stdin, repeated:  `REQ <id> <pass,pass,...> <nbytes>\n<ir bytes>`.
//! One line of JSON on stdout per request.  It holds no semantics of its own.
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core as core_d, func as func_d};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::refs::{BlockRef, OpRef, RegionRef, TypeRef, ValueDef, ValueRef};
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;
use trunk_ir_cranelift_backend::RodataEntry;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { let _ = write!(s, "{x:02x}"); }
    s
}

struct Dump<'a> {
    ctx: &'a IrContext,
    vals: HashMap<ValueRef, usize>,
    blocks: HashMap<BlockRef, usize>,
    types: HashMap<TypeRef, usize>,
    tlist: Vec<String>,
}
impl<'a> Dump<'a> {
    fn new(ctx: &'a IrContext) -> Self {
        Dump { ctx, vals: HashMap::new(), blocks: HashMap::new(), types: HashMap::new(), tlist: vec![] }
    }
    fn val(&mut self, v: ValueRef) -> usize { let n = self.vals.len(); *self.vals.entry(v).or_insert(n) }
    fn blk(&mut self, b: BlockRef) -> usize { let n = self.blocks.len(); *self.blocks.entry(b).or_insert(n) }
    fn ty(&mut self, t: TypeRef) -> usize {
        if let Some(&n) = self.types.get(&t) { return n; }
        let n = self.tlist.len();
        self.types.insert(t, n);
        self.tlist.push(String::new());
        let d = self.ctx.types.get(t);
        let (dn, nm) = (d.dialect.to_string(), d.name.to_string());
        let ps: Vec<TypeRef> = d.params.iter().copied().collect();
        let at: Vec<(String, Attribute)> = d.attrs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let p: Vec<String> = ps.iter().map(|&p| self.ty(p).to_string()).collect();
        let a = self.attrs(at);
        self.tlist[n] = format!("{{\"d\":{},\"n\":{},\"p\":[{}],\"a\":{}}}", js(&dn), js(&nm), p.join(","), a);
        n
    }
    fn attrs(&mut self, at: Vec<(String, Attribute)>) -> String {
        let mut o: Vec<String> = vec![];
        for (k, v) in at { let x = self.attr(&v); o.push(format!("{}:{}", js(&k), x)); }
        format!("{{{}}}", o.join(","))
    }
    fn attr(&mut self, a: &Attribute) -> String {
        match a {
            Attribute::Unit => "{\"k\":\"unit\"}".into(),
            Attribute::Bool(b) => format!("{{\"k\":\"bool\",\"v\":{b}}}"),
            Attribute::Int(i) => format!("{{\"k\":\"int\",\"v\":\"{i}\"}}"),
            Attribute::FloatBits(f) => format!("{{\"k\":\"float\",\"v\":\"{f}\"}}"),
            Attribute::String(s) => format!("{{\"k\":\"str\",\"v\":{}}}", js(s)),
            Attribute::Bytes(b) => format!("{{\"k\":\"bytes\",\"v\":\"{}\"}}", hex(b)),
            Attribute::Type(t) => { let n = self.ty(*t); format!("{{\"k\":\"type\",\"v\":{n}}}") }
            Attribute::Symbol(s) => format!("{{\"k\":\"sym\",\"v\":{}}}", js(&s.to_string())),
            Attribute::List(l) => {
                let x: Vec<String> = l.iter().map(|y| self.attr(y)).collect();
                format!("{{\"k\":\"list\",\"v\":[{}]}}", x.join(","))
            }
            Attribute::Location(l) => format!("{{\"k\":\"loc\",\"v\":{}}}", js(&format!("{l:?}"))),
        }
    }
    fn region(&mut self, r: RegionRef) -> String {
        let bs: Vec<BlockRef> = self.ctx.region(r).blocks.iter().copied().collect();
        let x: Vec<String> = bs.iter().map(|&b| self.block(b)).collect();
        format!("[{}]", x.join(","))
    }
    fn block(&mut self, b: BlockRef) -> String {
        let id = self.blk(b);
        let vs: Vec<ValueRef> = self.ctx.block_args(b).to_vec();
        let args: Vec<String> = vs.iter().map(|&v| { let t = self.ctx.value_ty(v); let t = self.ty(t); format!("[{},{}]", self.val(v), t) }).collect();
        let ops: Vec<OpRef> = self.ctx.block(b).ops.iter().copied().collect();
        let x: Vec<String> = ops.iter().map(|&o| self.op(o)).collect();
        format!("{{\"id\":{id},\"args\":[{}],\"ops\":[{}]}}", args.join(","), x.join(","))
    }
    fn op(&mut self, o: OpRef) -> String {
        let d = self.ctx.op(o);
        let (dn, nm) = (d.dialect.to_string(), d.name.to_string());
        let at: Vec<(String, Attribute)> = d.attributes.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let regions: Vec<RegionRef> = d.regions.iter().copied().collect();
        let succ: Vec<BlockRef> = d.successors.iter().copied().collect();
        let ins: Vec<String> = self.ctx.op_operands(o).to_vec().into_iter().map(|v| {
            // type of each operand is part of the dump: a dangling value shows up as type -1
            let t = match self.ctx.value_def(v) { ValueDef::OpResult(..) | ValueDef::BlockArg(..) => self.ctx.value_ty(v) };
            let t = self.ty(t); format!("[{},{}]", self.val(v), t) }).collect();
        let outs: Vec<String> = self.ctx.op_results(o).to_vec().into_iter().map(|v| { let t = self.ctx.value_ty(v); let t = self.ty(t); format!("[{},{}]", self.val(v), t) }).collect();
        let a = self.attrs(at);
        let rs: Vec<String> = regions.iter().map(|&r| self.region(r)).collect();
        let ss: Vec<String> = succ.iter().map(|&b| self.blk(b).to_string()).collect();
        format!("{{\"d\":{},\"n\":{},\"a\":{},\"i\":[{}],\"o\":[{}],\"r\":[{}],\"s\":[{}]}}",
            js(&dn), js(&nm), a, ins.join(","), outs.join(","), rs.join(","), ss.join(","))
    }
}
fn dump(ctx: &IrContext, op: OpRef) -> String {
    let mut d = Dump::new(ctx);
    let m = d.op(op);
    format!("{{\"types\":[{}],\"op\":{}}}", d.tlist.join(","), m)
}

struct St { rodata: Vec<RodataEntry>, out: Vec<String>, summaries: Option<tribute_passes::native::ownership_summary::TrustedOwnershipSummaries> }

macro_rules! e { ($x:expr) => { $x.map_err(|e| format!("{e}"))? }; }

fn ntc(ctx: &mut IrContext) -> trunk_ir::rewrite::TypeConverter {
    tribute_passes::native::type_converter::native_type_converter(ctx).0
}
fn per_func<P: trunk_ir::pass::Pass<Target = func_d::Func> + 'static>(ctx: &mut IrContext, m: Module, p: P) -> Result<(), String> {
    let cm = core_d::Module::from_op(ctx, m.op()).map_err(|_| "not core.module".to_string())?;
    let mut pm = PassManager::new();
    pm.nest::<func_d::Func>().add_pass(p);
    pm.run(ctx, cm).map_err(|e| format!("{e}"))
}
fn per_mod<P: trunk_ir::pass::Pass<Target = core_d::Module> + 'static>(ctx: &mut IrContext, m: Module, p: P) -> Result<(), String> {
    let cm = core_d::Module::from_op(ctx, m.op()).map_err(|_| "not core.module".to_string())?;
    let mut pm = PassManager::new();
    pm.add_pass(p);
    pm.run(ctx, cm).map_err(|e| format!("{e}"))
}

fn pass(ctx: &mut IrContext, m: Module, name: &str, st: &mut St) -> Result<(), String> {
    use tribute_passes::native as n;
    use trunk_ir::transforms as t;
    use trunk_ir_cranelift_backend::passes as c;
    use trunk_ir_wasm_backend::passes as w;
    let (name, arg) = match name.split_once(':') { Some((a, b)) => (a, b), None => (name, "") };
    match name {
        "dump" => { let s = dump(ctx, m.op()); st.out.push(format!("{}:{}", js(if arg.is_empty() { "dump" } else { arg }), s)); }
        "print" => { let s = trunk_ir::printer::print_module(ctx, m.op()); st.out.push(format!("{}:{}", js(if arg.is_empty() { "text" } else { arg }), js(&s))); }
        "validate" => {
            let v = trunk_ir::validation::validate_all(ctx, m);
            let errs: Vec<String> = v.errors.iter().map(|e| js(&format!("{e}"))).collect();
            st.out.push(format!("{}:[{}]", js(if arg.is_empty() { "validate" } else { arg }), errs.join(",")));
        }
        // what the front end records about the prelude: the alias !EST is the String type
        "well_known" => {
            let s = ctx.type_aliases().iter().find_map(|(a, t)| (*a == "EST").then_some(*t));
            if s.is_some() { tribute_ir::metadata::WellKnownTypes { string: s }.attach(ctx, m.op()); }
        }
        // exact closure types are attributes of a type, which the text of closure.lambda cannot carry
        "physical" => {
            let mut v: Vec<(OpRef, TypeRef)> = vec![];
            let _ = trunk_ir::walk::walk_op::<()>(ctx, m.op(), &mut |op| {
                if let Some(Attribute::Type(t)) = ctx.op(op).attributes.get(trunk_ir::Symbol::new("verif.type")) { v.push((op, *t)); }
                std::ops::ControlFlow::Continue(trunk_ir::walk::WalkAction::Advance)
            });
            for (op, t) in v { ctx.set_op_result_type(op, 0, t); }
        }
        "canonicalize" => { t::canonicalize::canonicalize(ctx, m); }
        "canonicalize_pass" => per_func(ctx, m, t::canonicalize_pass())?,
        "dce" => { t::dce::eliminate_dead_code(ctx, m, t::DceConfig::default()); }
        "dce_pass" => per_func(ctx, m, t::dce_pass(t::DceConfig::default()))?,
        "global_dce" => { t::global_dce::eliminate_dead_functions(ctx, m); }
        "inline" => { trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, a| { t::inline::inline_functions(ctx, m, a); }); }
        "scf_to_cf" => { t::scf_to_cf::lower_scf_to_cf(ctx, m); }
        "scf_to_cf_pass" => per_func(ctx, m, t::scf_to_cf_pass())?,
        "casts_generic" => { let tc = tribute_passes::generic_type_converter(ctx); trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc); }
        "casts_native" => {
            let tc = ntc(ctx);
            let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
            if !r.unresolved.is_empty() { return Err(format!("{} unresolved casts", r.unresolved.len())); }
        }
        "lower_closure_lambda" => per_mod(ctx, m, tribute_passes::lower_closure_lambda::LowerClosureLambda)?,
        "intrinsic_to_arith" => per_mod(ctx, m, tribute_passes::intrinsic_to_arith::LowerIntrinsicToArith)?,
        "list_intrinsics" => per_mod(ctx, m, tribute_passes::list_intrinsics::LowerListIntrinsics)?,
        "io_intrinsics" => per_mod(ctx, m, tribute_passes::io_lowering::LowerIoIntrinsics)?,
        "closure_lower" => {
            per_mod(ctx, m, tribute_passes::closure_lower::PrepareClosureLowering)?;
            per_func(ctx, m, tribute_passes::closure_lower::LowerClosuresInFunc)?;
        }
        // dispatchers compare against the index the compiler gives to an operation
        "effect_ops" => {
            let (va, vo, vv) = (trunk_ir::Symbol::new("verif.ability"), trunk_ir::Symbol::new("verif.op"), trunk_ir::Symbol::new("value"));
            let mut v = vec![];
            let _ = trunk_ir::walk::walk_op::<()>(ctx, m.op(), &mut |op| {
                if let (Some(Attribute::Symbol(a)), Some(Attribute::Symbol(o))) = (ctx.op(op).attributes.get(va), ctx.op(op).attributes.get(vo)) { v.push((op, *a, *o)); }
                std::ops::ControlFlow::Continue(trunk_ir::walk::WalkAction::Advance)
            });
            for (op, a, o) in v { let k = tribute_ir::dialect::ability::compute_op_idx(Some(a), Some(o)); ctx.op_mut(op).attributes.insert(vv, Attribute::Int(k as i128)); }
        }
        "lower_ability_perform" => per_func(ctx, m, tribute_passes::lower_ability_perform::LowerAbilityPerform)?,
        "tail_resumptive" => per_func(ctx, m, tribute_passes::tail_resumptive::ConvertTailResumptive)?,
        "resolve_evidence" => per_mod(ctx, m, tribute_passes::resolve_evidence::ResolveEvidenceDispatch)?,
        "lower_handle_dispatch" => per_func(ctx, m, tribute_passes::lower_handle_dispatch::LowerHandleDispatch)?,
        "evidence_to_native" => {
            n::evidence::prepare_native_evidence_runtime(ctx, m);
            per_func(ctx, m, n::evidence::LowerEvidenceToNative)?;
        }
        "entrypoint" => n::entrypoint::generate_native_entrypoint(ctx, m, arg == "sanitize"),
        "const_to_native" => {
            let a = n::const_to_native::analyze_consts(ctx, m);
            e!(n::const_to_native::lower(ctx, m, &a));
            st.rodata = a.rodata.iter().map(|(s, d)| RodataEntry { symbol: *s, data: d.clone() }).collect();
            let r: Vec<String> = a.rodata.iter().map(|(s, d)| format!("[{},\"{}\"]", js(&s.to_string()), hex(d))).collect();
            st.out.push(format!("\"rodata\":[{}]", r.join(",")));
        }
        "intrinsic_to_native" => e!(n::intrinsic_to_native::lower(ctx, m)),
        "io_native" => e!(n::io::lower(ctx, m)),
        "list_native" => e!(n::list::lower(ctx, m)),
        "ownership" => { let tc = ntc(ctx); st.summaries = Some(e!(n::ownership_summary::compute_and_attach(ctx, m, &tc))); }
        "func_to_clif" => { let tc = ntc(ctx); e!(c::func_to_clif::lower(ctx, m, tc)); }
        "cf_to_clif" => { let tc = ntc(ctx); e!(c::cf_to_clif::lower(ctx, m, tc)); }
        "rtti" => {
            let tc = ntc(ctx);
            let map = n::rtti::generate_rtti(ctx, m, &tc);
            let tc = ntc(ctx);
            e!(n::adt_rc_header::lower(ctx, m, tc, &map.type_to_idx));
        }
        "adt_to_clif" => { let tc = ntc(ctx); e!(c::adt_to_clif::lower(ctx, m, tc)); }
        "arith_to_clif" => { let tc = ntc(ctx); e!(c::arith_to_clif::lower(ctx, m, tc)); }
        "mem_to_clif" => { let tc = ntc(ctx); e!(c::mem_to_clif::lower(ctx, m, tc)); }
        "tribute_rt_to_clif" => { let tc = ntc(ctx); e!(n::tribute_rt_to_clif::lower(ctx, m, tc)); }
        "rc_insert" => {
            use n::rc_insertion::{BorrowedParameterPolicy as B, TemporaryBorrowPolicy as T};
            let b = if arg.contains('b') { B::ElideProvenBorrowed } else { B::Preserve };
            let t = if arg.contains('t') { T::ElideProvenFieldBorrows } else { T::Preserve };
            let s = st.summaries.take().ok_or("no ownership summaries")?;
            e!(n::rc_insertion::insert_rc_with_policies_and_trusted_summaries(ctx, m, b, t, &s));
        }
        "rc_opt" => n::rc_optimization::eliminate_paired_rc(ctx, m),
        "rc_lower" => n::rc_lowering::lower_rc(ctx, m),
        "emit_clif" => {
            CL.with(|c| c.borrow_mut().clear());
            CLON.with(|c| c.set(true));
            let r = trunk_ir_cranelift_backend::emit_module_to_native(ctx, m, &st.rodata);
            CLON.with(|c| c.set(false));
            let texts: Vec<String> = CL.with(|c| c.borrow_mut().drain(..).collect());
            let b = e!(r);
            let obj = if arg == "obj" { format!(",\"obj\":\"{}\"", hex(&b)) } else { String::new() };
            let (f, d) = trunk_ir_cranelift_backend::verif_hooks::take();
            let nm: Vec<String> = trunk_ir_cranelift_backend::verif_hooks::take_names().into_iter()
                .map(|(f, v)| format!("[{f},[{}]]", v.into_iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>().join(","))).collect();
            let t: Vec<String> = texts.iter().map(|s| js(s)).collect();
            let ids = |v: Vec<(String, u32)>| v.into_iter().map(|(s, i)| format!("[{},{i}]", js(&s))).collect::<Vec<_>>().join(",");
            let ro: Vec<String> = st.rodata.iter().map(|r| format!("[{},\"{}\"]", js(&r.symbol.to_string()), hex(&r.data))).collect();
            st.out.push(format!("\"clif\":{{\"text\":[{}],\"funcs\":[{}],\"data\":[{}],\"rodata\":[{}],\"ext\":[{}]{obj}}}", t.join(","), ids(f), ids(d), ro.join(","), nm.join(",")));
        }
        "emit_native" => {
            let b = e!(trunk_ir_cranelift_backend::emit_module_to_native(ctx, m, &st.rodata));
            std::fs::write(arg, b).map_err(|e| e.to_string())?;
        }
        "arith_to_wasm" => { let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx); w::arith_to_wasm::lower(ctx, m, tc); }
        "lower_to_wasm" => e!(tribute_passes::wasm::lower::lower_to_wasm(ctx, m)),
        "finish_wasm" => {
            let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
            let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
            if !r.unresolved.is_empty() { return Err(format!("{} unresolved casts", r.unresolved.len())); }
            e!(tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m));
        }
        "emit_wasm" => {
            let b = e!(trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m));
            if arg.is_empty() {
                st.out.push(format!("\"wasm\":\"{}\"", hex(&b.bytes)));
                let f = wasmparser::WasmFeatures::all();
                if let Err(e) = wasmparser::Validator::new_with_features(f).validate_all(&b.bytes) { st.out.push(format!("\"wasm_invalid\":{}", js(&e.to_string()))); }
            }
            else { std::fs::write(arg, b.bytes).map_err(|e| e.to_string())?; }
        }
        other => return Err(format!("unknown pass {other}")),
    }
    Ok(())
}

fn one(passes: &str, ir: &str) -> String {
    let mut ctx = IrContext::new();
    let op = match catch_unwind(AssertUnwindSafe(|| trunk_ir::parser::parse_module(&mut ctx, ir))) {
        Ok(Ok(op)) => op,
        Ok(Err(e)) => return format!("\"err\":{},\"at\":\"parse\"", js(&e.to_string())),
        Err(_) => return format!("\"err\":{},\"at\":\"parse\",\"panic\":true", js(&last_panic())),
    };
    let Some(m) = Module::new(&ctx, op) else { return "\"err\":\"not a module\",\"at\":\"parse\"".into() };
    let mut st = St { rodata: vec![], out: vec![], summaries: None };
    for p in passes.split(',').filter(|p| !p.is_empty()) {
        let r = catch_unwind(AssertUnwindSafe(|| pass(&mut ctx, m, p, &mut st)));
        let bad = match r { Ok(Ok(())) => continue, Ok(Err(e)) => format!("\"err\":{},\"at\":{}", js(&e), js(p)),
            Err(_) => format!("\"err\":{},\"at\":{},\"panic\":true", js(&last_panic()), js(p)) };
        st.out.push(bad);
        break;
    }
    let dg: Vec<String> = ctx.diagnostics().iter().map(|d| js(&format!("{d:?}"))).collect();
    if !dg.is_empty() { st.out.push(format!("\"diags\":[{}]", dg.join(","))); }
    st.out.join(",")
}

thread_local! {
    static CL: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    static CLON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// cranelift-object logs the text of every function it compiles; that log is the observation point.
struct Tap;
impl log::Log for Tap {
    fn enabled(&self, m: &log::Metadata) -> bool { m.target().starts_with("cranelift_object") && CLON.with(|c| c.get()) }
    fn log(&self, r: &log::Record) { if self.enabled(r.metadata()) { CL.with(|c| c.borrow_mut().push(format!("{}", r.args()))); } }
    fn flush(&self) {}
}
static TAP: Tap = Tap;

thread_local! { static P: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn last_panic() -> String { P.with(|p| p.borrow().clone()) }

fn serve() {
    std::panic::set_hook(Box::new(|i| { let s = format!("{i}"); P.with(|p| *p.borrow_mut() = s); }));
    let mut inp = std::io::BufReader::new(std::io::stdin());
    let out = std::io::stdout();
    loop {
        let mut l = String::new();
        if inp.read_line(&mut l).unwrap_or(0) == 0 { break; }
        let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
        if f.len() != 4 || f[0] != "REQ" { continue; }
        let n: usize = f[3].parse().unwrap();
        let mut buf = vec![0u8; n];
        inp.read_exact(&mut buf).unwrap();
        let ir = String::from_utf8(buf).unwrap();
        let r = one(f[2], &ir);
        let mut o = out.lock();
        writeln!(o, "{{\"id\":{}{}{}}}", js(f[1]), if r.is_empty() { "" } else { "," }, r).unwrap();
        o.flush().unwrap();
    }
}
fn main() {
    log::set_logger(&TAP).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    // deep IR recursion: run on a large stack
    std::thread::Builder::new().stack_size(512 << 20).spawn(serve).unwrap().join().unwrap();
}
