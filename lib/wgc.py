"""Programs with heap objects on WebAssembly: the meaning of the emitted GC code."""
import z3
import sem, wasm, wasmtv, heap, tv, native
from sem import *
from heap import Obj, NULL, Abs, HeapPre

class I31:
    """an i31 reference: 31 bits"""
    def __init__(self, v): self.v = v
    def diff(self, o): return not isinstance(o, I31) or valdiff(self.v, o.v, 31)
class FRef:
    def __init__(self, f): self.f = f

class WHeapPre(HeapPre):
    """a function value is its index in the function table of the emitted module"""
    def symaddr(self, n):
        k = self.o.tindex(n)
        if k is None: raise Malformed(f'@{n} is not (once) in the function table')
        return k
    op_func_constant = wasmtv.WPreEv.op_func_constant
    def icall(self, st, op, ret):
        c, *args = self.ins(st, op)
        for n, f in self.m.funcs.items():
            if isc(c) and c == self.o.tindex(n) and 'abi' not in f['a']:
                if len(st.frames) > 60: raise TooBig()
                self.enter_fn(st, f, args, ret); return True
    def fits(self, st, v, w, signed):
        """boxed integers are 31-bit: programs that box others are outside"""
        lo = trunc(v, 32, 31); c = eqv((sext if signed else zext)(lo, 31, 32), v, 32)
        if c is True: return
        if c is False: raise Excluded()
        st.side.append(c)
        s = z3.Solver(); s.set('timeout', 2000); s.add(*st.side, *st.pc)
        if s.check() == z3.unsat: raise Excluded()
    def op_tribute_rt_box_int(self, st, op):
        (a,) = self.ins(st, op); self.fits(st, a, 32, True); return HeapPre.op_tribute_rt_box_int(self, st, op)
    def op_tribute_rt_box_nat(self, st, op):
        (a,) = self.ins(st, op); self.fits(st, a, 32, False); return HeapPre.op_tribute_rt_box_nat(self, st, op)

class GcEv(wasm.WasmEv):
    ext = set()             # functions of the environment
    def newmem(self): return Abs()
    def default(self, t): return NULL if wasm.isref(t) else 0
    def null(self): return NULL
    def trap(self, st): self.done(st, 'trap', []); return 'end'
    def obj(self, st, v, t, kind):
        """the object v refers to, which the validator has typed as t"""
        if v is NULL or isinstance(v, Obj) and v.id == 0: return None
        if not isinstance(v, Obj): raise Malformed(f'{kind} of {v}')
        o = st.mem.o[v.id]
        if not self.m.w.subtype_of(o[1], t): raise Malformed(f'{kind} of type {t} on an object of type {o[1]}')
        return o
    def isa(self, st, v, ht):
        if isinstance(v, I31): return ht in ('i31', 'eq', 'any')
        if isinstance(v, FRef): return ht == 'func' or isinstance(ht, int) and self.m.w.subtype_of(self.m.w.fidx[v.f], ht)
        return self.m.w.subtype_of(st.mem.o[v.id][1], ht)
    def pack(self, v, t): return trunc(v, 32, wasm.WID[t]) if t in ('i8', 'i16') else v
    def unpack(self, v, t, s): return (sext if s == '_s' else zext)(v, wasm.WID[t], 32) if t in ('i8', 'i16') else v
    def truth(self, st, fr, b): self.push(fr, int(b))
    def gc(self, st, fr, x):
        o = x[0]; ts = self.m.w.types
        if o in ('struct.new', 'struct.new_default'):
            fs = ts[x[1]]['f']
            vs = self.popn(fr, len(fs)) if o == 'struct.new' else [self.default(t) for t, _ in fs]
            self.push(fr, st.mem.new('struct', x[1], [self.pack(v, t) for v, (t, _) in zip(vs, fs)])); return
        if o.startswith('struct.get'):
            ob = self.obj(st, self.pop(fr), x[1], o)
            if ob is None: return self.trap(st)
            self.push(fr, self.unpack(ob[2][x[2]], ts[x[1]]['f'][x[2]][0], o[10:])); return
        if o == 'struct.set':
            v = self.pop(fr); ob = self.obj(st, self.pop(fr), x[1], o)
            if ob is None: return self.trap(st)
            ob[2][x[2]] = self.pack(v, ts[x[1]]['f'][x[2]][0]); return
        if o == 'ref.is_null': v = self.pop(fr); self.truth(st, fr, isinstance(v, Obj) and v.id == 0); return
        if o == 'ref.as_non_null':
            v = self.pop(fr)
            if isinstance(v, Obj) and v.id == 0: return self.trap(st)
            self.push(fr, v); return
        if o == 'ref.eq':
            b = self.pop(fr); a = self.pop(fr)
            if isinstance(a, I31) and isinstance(b, I31): self.push(fr, fitw(b2v(eqv(a.v, b.v, 31)), 1, 32)); return
            self.truth(st, fr, isinstance(a, Obj) and isinstance(b, Obj) and a.id == b.id); return
        if o in ('ref.test', 'ref.test_null', 'ref.cast', 'ref.cast_null'):
            v = self.pop(fr); nul = isinstance(v, Obj) and v.id == 0
            ok = o.endswith('null') if nul else self.isa(st, v, x[1])
            if o[4] == 't': self.truth(st, fr, ok); return
            if not ok: return self.trap(st)
            self.push(fr, v); return
        if o == 'ref.i31': self.push(fr, I31(trunc(self.pop(fr), 32, 31))); return
        if o in ('i31.get_s', 'i31.get_u'):
            v = self.pop(fr)
            if not isinstance(v, I31): return self.trap(st)
            self.push(fr, (sext if o[-1] == 's' else zext)(v.v, 31, 32)); return
        if o == 'ref.func': self.push(fr, FRef(x[1])); return
        raise Unsupported(o)
    def enter(self, st, i, args, tail):
        if len(st.frames) > 120: raise TooBig()
        self.enter_fn(st, i, args, 'tail' if tail else None)
    def ins1(self, st, fr, x):
        o = x[0]
        if o in ('call', 'return_call') and self.m.names.get(x[1]) not in self.ext:
            ft = self.m.w.ftype(x[1]); self.enter(st, x[1], self.popn(fr, len(ft['p'])), o[0] == 'r'); return
        if o in ('call_indirect', 'return_call_indirect'):
            k = fr.env['S'][-1]; ft = self.m.w.types[x[1]]
            if isc(k):
                nm = self.m.table.get(k)
                if nm is None: return self.trap(st)
                i = self.m.funcs[nm]
                if not self.m.w.subtype_of(self.m.w.fidx[i], x[1]): raise Malformed(f'indirect call of @{nm} with another signature')
                if nm not in self.ext: self.pop(fr); self.enter(st, i, self.popn(fr, len(ft['p'])), o[0] == 'r'); return
        return super().ins1(st, fr, x)

class GcSpec(wasmtv.WasmSpec):
    def __init__(self, **k):
        super().__init__(opts=dict(tailtag=False, unroll=True, fuel=200000), **k)
        self.Ev, self.EvPost = WHeapPre, GcEv
        self.funcs = lambda pre, post: [n for n in pre.funcs if n.startswith('entry')]
        self.extra = lambda pre, post, r: ['the emitted module is not valid WebAssembly: ' + r['wasm_invalid']] if 'wasm_invalid' in r else []
    def bind(self, pre, post):
        super().bind(pre, post)
        GcEv.ext = {n for n, f in pre.funcs.items() if 'abi' in f['a']}
KW = dict(wasm=True, ints=['core.i32', 'core.i64'], fptr='core.i32', scalars=['core.i32', 'core.i64', 'core.f64', 'core.i1'], cpsr=False, clo=0.0, rloops=False)
SPEC = GcSpec()
def mkspec(*a, **k): return GcSpec()
def program(seed, **k):
    import adtgen
    i = seed % 12; kk = dict(KW, typed=i % 3 != 1, fresh=i % 4 != 1, tyf=.5 if i % 2 else 0.0, **k)
    return adtgen.program(seed, **kk)

# ------------------------------------------------------------------------------- corpus
REF = 'tribute_rt.anyref'
SCS = ['core.i32', 'core.i64', 'core.f64', 'core.f32', 'core.i1']
def sinks(*ts): return ''.join(native.ext(f'sink_{t.split(".")[1]}', [t], 'core.nil') for t in ts)
def corpus():
    fn, mod = native.fn, native.mod; out = []; sink = sinks(*SCS); nm = lambda t: t.split('.')[1]
    def st(n, fs): return f'  !{n} = adt.struct() {{name = @{n}, fields = [{", ".join(f"[@f{i}, {t}]" for i, t in enumerate(fs))}]}}\n'
    def en(n, vs): return f'  !{n} = adt.enum() {{name = @{n}, variants = [{", ".join(f"[@{v}, [{chr(44).join(fs)}]]" for v, fs in vs)}]}}\n'
    # every scalar type at every position of a struct, read back directly, through a getter and through an untyped reference
    for k, ts in enumerate([SCS, SCS[::-1], ['core.i1'] * 3 + ['core.i64'], ['core.f64', 'core.i1', 'core.f64', 'core.i32', 'core.i64', 'core.f32', 'core.i32', 'core.i1', 'core.f32', 'core.i64']]):
        ps = [(f'a{i}', t) for i, t in enumerate(ts)]; args = ', '.join(f'%a{i}' for i in range(len(ts)))
        gets = [fn(f'get{i}', [('s', '!S')], t, [f'%r = adt.struct_get %s {{type = !S, field = {i}}} : {t}', 'func.return %r']) for i, t in enumerate(ts)]
        b = [f'%s = adt.struct_new {args} {{type = !S}} : !S', f'%u = core.unrealized_conversion_cast %s : {REF}']
        for i, t in enumerate(ts): b += [f'%x{i} = func.call %s {{callee = @get{i}}} : {t}', f'%n{i} = func.call %x{i} {{callee = @sink_{nm(t)}}} : core.nil', f'%y{i} = adt.struct_get %u {{type = !S, field = {i}}} : {t}', f'%m{i} = func.call %y{i} {{callee = @sink_{nm(t)}}} : core.nil']
        for i, t in enumerate(ts):
            b += [f'adt.struct_set %s, %a{i} {{type = !S, field = {i}}}'] + [f'%z{i}_{j} = adt.struct_get %s {{type = !S, field = {j}}} : {w}\n    %o{i}_{j} = func.call %z{i}_{j} {{callee = @sink_{nm(w)}}} : core.nil' for j, w in enumerate(ts)]
        out.append((f'struct fields {k}', mod(st('S', ts), sink, *gets, fn('entry', ps, 'core.nil', b + ['%q = arith.const {value = unit} : core.nil', 'func.return %q']))))
        # a field assigned through one reference is seen through another, and the other fields are not
        b = [f'%s = adt.struct_new {args} {{type = !S}} : !S', f'%t = adt.struct_new {args} {{type = !S}} : !S']
        for i, t in enumerate(ts): b += [f'adt.struct_set %s, %b{i} {{type = !S, field = {i}}}'] + [l for j, w in enumerate(ts) for q in 'st' for l in (f'%g{i}_{j}{q} = adt.struct_get %{q} {{type = !S, field = {j}}} : {w}', f'%h{i}_{j}{q} = func.call %g{i}_{j}{q} {{callee = @sink_{nm(w)}}} : core.nil')]
        out.append((f'struct assignment {k}', mod(st('S', ts), sink, fn('entry', ps + [(f'b{i}', t) for i, t in enumerate(ts)], 'core.nil', b + ['%q = arith.const {value = unit} : core.nil', 'func.return %q']))))
    # variants of equal shape, variants with no fields, two enums of equal shape and equal tags
    shapes = [('Z', []), ('Y', []), ('A', ['core.i32']), ('B', ['core.i32']), ('C', ['core.i32', 'core.i32']), ('D', ['core.f64', 'core.i1', 'core.i64']), ('G', [REF]), ('H', [REF])]
    def ask(e, fs):
        b, n = [], 0
        for v, ts in shapes:
            b += [f'%c{v} = adt.variant_is %x {{type = !{e}, tag = @{v}}} : core.i1', f'%n{v} = func.call %c{v} {{callee = @sink_i1}} : core.nil', f'%i{v} = scf.if %c{v} : core.i1 {{', f'  %k{v} = adt.variant_cast %x {{type = !{e}, tag = @{v}}} : !{e}']
            for i, t in enumerate(ts):
                if t == REF: b += [f'  %f{v}{i} = adt.variant_get %k{v} {{type = !{e}, tag = @{v}, field = {i}}} : {t}', f'  %p{v}{i} = tribute_rt.unbox_int %f{v}{i} : core.i32', f'  %m{v}{i} = func.call %p{v}{i} {{callee = @sink_i32}} : core.nil']
                else: b += [f'  %f{v}{i} = adt.variant_get %k{v} {{type = !{e}, tag = @{v}, field = {i}}} : {t}', f'  %m{v}{i} = func.call %f{v}{i} {{callee = @sink_{nm(t)}}} : core.nil']
            b += [f'  scf.yield %c{v}', '} {', f'  scf.yield %c{v}', '}']
        return fn(f'look{e}', [('x', REF)], 'core.nil', b + ['%q = arith.const {value = unit} : core.nil', 'func.return %q'])
    es = []
    for e in ('E', 'F'):
        b = [f'%bx = tribute_rt.box_int %i : {REF}']
        for v, ts in shapes:
            a = ', '.join({'core.i32': '%i', 'core.f64': '%f', 'core.i1': '%b', 'core.i64': '%l', REF: '%bx'}[t] for t in ts)
            b += [f'%v{v} = adt.variant_new {a}{" " if a else ""}{{type = !{e}, tag = @{v}}} : {REF}', f'%w{v} = func.call %v{v} {{callee = @look{e}}} : core.nil']
        es.append(fn(f'entry{e}', [('i', 'core.i32'), ('f', 'core.f64'), ('b', 'core.i1'), ('l', 'core.i64')], 'core.nil', b + ['%q = arith.const {value = unit} : core.nil', 'func.return %q']))
    out.append(('variants', mod(en('E', shapes), en('F', shapes), sink, ask('E', 0), ask('F', 0), *es)))
    # boxes: every value that fits, also next to the limits, through fields
    fs = []
    for k, t in (('int', 'core.i32'), ('nat', 'core.i32'), ('bool', 'core.i1'), ('float', 'core.f64')):
        fs.append(fn(f'entry_{k}', [('x', t)], t, [f'%b = tribute_rt.box_{k} %x : {REF}', f'%r = tribute_rt.unbox_{k} %b : {t}', 'func.return %r']))
        fs.append(fn(f'entry_{k}_f', [('x', t), ('y', t)], t, [f'%b = tribute_rt.box_{k} %x : {REF}', f'%c = tribute_rt.box_{k} %y : {REF}', '%s = adt.struct_new %b, %c {type = !P} : !P', f'%d = adt.struct_get %s {{type = !P, field = 1}} : {REF}', f'%r = tribute_rt.unbox_{k} %d : {t}', 'func.return %r']))
        fs.append(fn(f'entry_{k}_v', [('x', t), ('c', 'core.i1')], t, [f'%b = tribute_rt.box_{k} %x : {REF}', f'%o = scf.if %c : {REF} {{', f'  %s = adt.variant_new %b {{type = !O, tag = @Some}} : {REF}', '  scf.yield %s', '} {', f'  %s = adt.variant_new {{type = !O, tag = @None}} : {REF}', '  scf.yield %s', '}',
            '%k = adt.variant_is %o {type = !O, tag = @Some} : core.i1', f'%r = scf.if %k : {t} {{', '  %v = adt.variant_cast %o {type = !O, tag = @Some} : !O', f'  %w = adt.variant_get %v {{type = !O, tag = @Some, field = 0}} : {REF}', f'  %z = tribute_rt.unbox_{k} %w : {t}', '  scf.yield %z', '} {', '  scf.yield %x', '}', 'func.return %r']))
    for i, v in enumerate([0, 1, -1, (1 << 30) - 1, -(1 << 30), 12345, -98765]):
        fs.append(fn(f'entry_k{i}', [], 'core.i32', [f'%x = arith.const {{value = {v}}} : core.i32', f'%b = tribute_rt.box_int %x : {REF}', '%r = tribute_rt.unbox_int %b : core.i32', 'func.return %r']))
    for i, v in enumerate([0, 1, (1 << 30) - 1, 1 << 30, (1 << 31) - 1]):
        fs.append(fn(f'entry_n{i}', [], 'core.i32', [f'%x = arith.const {{value = {v}}} : core.i32', f'%b = tribute_rt.box_nat %x : {REF}', '%r = tribute_rt.unbox_nat %b : core.i32', 'func.return %r']))
    out.append(('boxes', mod(st('P', [REF, REF]), en('O', [('None', []), ('Some', [REF])]), *fs)))
    # a list built and summed by recursion, nullable references
    out.append(('recursion', mod(en('L', [('Nil', []), ('Cons', ['core.i32', REF])]), sink, fn('sum', [('l', REF)], 'core.i32', ['%c = adt.variant_is %l {type = !L, tag = @Cons} : core.i1', '%r = scf.if %c : core.i32 {', '  %k = adt.variant_cast %l {type = !L, tag = @Cons} : !L',
        '  %h = adt.variant_get %k {type = !L, tag = @Cons, field = 0} : core.i32', f'  %t = adt.variant_get %k {{type = !L, tag = @Cons, field = 1}} : {REF}', '  %s = func.call %t {callee = @sum} : core.i32', '  %q = arith.addi %h, %s : core.i32', '  scf.yield %q', '} {', '  %z = arith.const {value = 0} : core.i32', '  scf.yield %z', '}', 'func.return %r']),
        fn('entry', [('a', 'core.i32'), ('b', 'core.i32'), ('c', 'core.i32')], 'core.i32', [f'%n = adt.variant_new {{type = !L, tag = @Nil}} : {REF}', f'%x = adt.variant_new %a, %n {{type = !L, tag = @Cons}} : {REF}', f'%y = adt.variant_new %b, %x {{type = !L, tag = @Cons}} : {REF}', f'%z = adt.variant_new %c, %x {{type = !L, tag = @Cons}} : {REF}', '%p = func.call %y {callee = @sum} : core.i32', '%q = func.call %z {callee = @sum} : core.i32', '%m = arith.subi %p, %q : core.i32', 'func.return %m']))))
    out.append(('null', mod(st('S', ['core.i64']), fn('isn', [('x', REF)], 'core.i64', ['%c = adt.ref_is_null %x : core.i1', '%r = scf.if %c : core.i64 {', '  %z = arith.const {value = -1} : core.i64', '  scf.yield %z', '} {', '  %s = adt.ref_cast %x {type = !S} : !S', '  %v = adt.struct_get %s {type = !S, field = 0} : core.i64', '  scf.yield %v', '}', 'func.return %r']),
        fn('entry', [('a', 'core.i64'), ('c', 'core.i1')], 'core.i64', ['%s = adt.struct_new %a {type = !S} : !S', f'%u = core.unrealized_conversion_cast %s : {REF}', f'%n = adt.ref_null {{type = !S}} : {REF}', f'%x = scf.if %c : {REF} {{', '  scf.yield %u', '} {', '  scf.yield %n', '}', '%r = func.call %x {callee = @isn} : core.i64', 'func.return %r']))))
    return out
CASES = [('indirect call passing a struct where the callee takes an untyped reference', '''core.module @m {
  !S0 = adt.struct() {name = @S0, fields = [[@f0, core.i64]]}
  func.func @get(%s: tribute_rt.anyref) -> core.i64 {
    %r = adt.struct_get %s {type = !S0, field = 0} : core.i64
    func.return %r
  }
  func.func @entry(%x: core.i64) -> core.i64 {
    %s = adt.struct_new %x {type = !S0} : !S0
    %u = core.unrealized_conversion_cast %s : tribute_rt.anyref
    %f = func.constant {func_ref = @get} : core.i32
    %r = func.call_indirect %f, %u : core.i64
    func.return %r
  }
}
''')]
