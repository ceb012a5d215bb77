"""The native back end, from TrunkIR to the Cranelift IR it hands to the code generator."""
import z3
import sem, tv, clif, gen

NP = ['const_to_native', 'intrinsic_to_native', 'io_native', 'list_native', 'scf_to_cf', 'ownership', 'func_to_clif', 'cf_to_clif', 'rtti', 'adt_to_clif',
      'arith_to_clif', 'mem_to_clif', 'tribute_rt_to_clif', 'rc_insert', 'rc_opt', 'casts_native', 'rc_lower']
FEAT = dict()

def relate(x, w1, y, w2):
    """core.i1 is held as a 32-bit 0 or 1"""
    if w1 == w2: return sem.valdiff(x, y, w1)
    if w1 == 1 and w2 == 32: return sem.valdiff(sem.zext(x, 1, 32), y, 32)
    return True
def args_post(pre, name, args):
    return [sem.zext(a, 1, 32) if pre.width(t) == 1 else a for a, (_, t) in zip(args, pre.funcs[name]['r'][0][0]['args']) if pre.width(t)]

class PreEv(sem.Ev):
    """nil values do not exist after lowering"""
    def docall(self, st, op, kind, name, args, aws, rts):
        k = [(a, w) for a, w in zip(args, aws) if w]
        return super().docall(st, op, kind, name, [a for a, _ in k], [w for _, w in k], rts)

    def op_func_unreachable(self, st, op): self.done(st, 'trap', []); return 'end'
    def fresh(self, st, name, w, k):
        if w != 1: return super().fresh(st, name, w, k)
        e = super().fresh(st, name, 32, k)
        if self.o.concrete:
            if name.startswith('call '): return e & 1
            if e > 1: raise sem.Excluded()
            return e
        st.side.append(z3.ULE(e, 1)); return z3.Extract(0, 0, e)

class NativeSpec(tv.Spec):
    def __init__(self, **k):
        k.setdefault('passes', NP); k.setdefault('outs', ['emit_clif'])
        super().__init__(Ev=PreEv, EvPost=clif.ClifEv, relate=relate, args_post=args_post, **k)
        self.post = lambda r: clif.Clif(r['clif'])
    def bind(self, pre, post):
        w = {n: pre.width(pre.ftype(n)['p'][0]) for n in pre.funcs}
        self.opts_post = dict(retw=lambda n: w.get(n))

SPEC = NativeSpec(opts=dict(tailtag=True), extra=lambda *a: sigs(*a))

# ------------------------------------------------------------------------------- corpus
def ext(name, ps, rt): return f'  func.func @{name}({", ".join(f"%p{i}: {t}" for i, t in enumerate(ps))}) -> {rt} attributes {{abi = "C"}} {{\n    func.unreachable\n  }}\n'
def mod(*parts): return 'core.module @m {\n' + ''.join(parts) + '}\n'
def fn(name, ps, rt, body): return f'  func.func @{name}({", ".join(f"%{n}: {t}" for n, t in ps)}) -> {rt} {{\n' + ''.join(f'    {l}\n' for l in body) + '  }\n'
INTS = ['core.i8', 'core.i16', 'core.i32', 'core.i64']

def corpus(small_ints=True, conv=True):
    """every scalar operation at every type, each on arbitrary operands and on interesting constants"""
    out = []
    for t in INTS:
        w = gen.W(t); fs = []
        ks = sorted({0, 1, -1, 2, -(1 << (w - 1)), (1 << (w - 1)) - 1, 5})
        for o in ['addi', 'subi', 'muli', 'and', 'or', 'xor', 'shl', 'shr', 'shru', 'divsi', 'divui', 'remsi', 'remui']:
            fs.append(fn(f'{o}', [('x', t), ('y', t)], t, [f'%r = arith.{o} %x, %y : {t}', 'func.return %r']))
            for i, k in enumerate(ks): fs.append(fn(f'{o}_k{i}', [('x', t)], t, [f'%k = arith.const {{value = {k}}} : {t}', f'%r = arith.{o} %x, %k : {t}', 'func.return %r']))
        fs.append(fn('negi', [('x', t)], t, [f'%r = arith.negi %x : {t}', 'func.return %r']))
        for p in ['eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge']:
            fs.append(fn(f'cmp_{p}', [('x', t), ('y', t)], 'core.i1', [f'%r = arith.cmpi %x, %y {{predicate = @{p}}} : core.i1', 'func.return %r']))
            fs.append(fn(f'br_{p}', [('x', t), ('y', t)], t, [f'%c = arith.cmpi %x, %y {{predicate = @{p}}} : core.i1', f'%r = scf.if %c : {t} {{', '  scf.yield %x', '} {', '  scf.yield %y', '}', 'func.return %r']))
        for i, k in enumerate(ks): fs.append(fn(f'const{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']))
        for off in (0, 1, 4, 8, 24, 127, 128, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 1 << 20, (1 << 31) - 1):
            fs.append(fn(f'load{off}', [('p', 'core.ptr')], t, [f'%r = mem.load %p {{offset = {off}}} : {t}', 'func.return %r']))
            fs.append(fn(f'store{off}', [('p', 'core.ptr'), ('x', t), ('q', 'core.ptr')], t, [f'mem.store %p, %x {{offset = {off}}}', f'%r = mem.load %q {{offset = {off}}} : {t}', f'mem.store %q, %r {{offset = 0}}', 'func.return %r']))
        out.append((f'int ops {t}', mod(*fs)))
        out.append((f'int constants {t}', mod(*[fn(f'b{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']) for i, k in enumerate(gen.boundary(w))])))
        fs = []
        for u in INTS:
            if u == t: continue
            o = 'extend' if gen.W(u) > w else 'trunc'
            fs.append(fn(f'{o}_{u[5:]}', [('x', t)], u, [f'%r = arith.{o} %x : {u}', 'func.return %r']))
            fs.append(fn(f'cast_{u[5:]}', [('x', t)], u, [f'%r = arith.cast %x : {u}', 'func.return %r']))
            fs.append(fn(f'mix_{u[5:]}', [('x', t), ('y', u)], u, [f'%r = arith.{o} %x : {u}', f'%s = arith.addi %r, %y : {u}', f'%m = arith.muli %s, %r : {u}', 'func.return %m']))
        for f in ('core.f64', 'core.f32'):
            if w < 32: continue
            fs.append(fn(f'to_{f[5:]}', [('x', t)], f, [f'%r = arith.convert %x : {f}', 'func.return %r']))
            fs.append(fn(f'from_{f[5:]}', [('x', f)], t, [f'%r = arith.convert %x : {t}', 'func.return %r']))
            fs.append(fn(f'trunc_{f[5:]}', [('x', f)], t, [f'%r = arith.trunc %x : {t}', 'func.return %r']))
        out.append((f'conversions {t}', mod(*fs)))
    for t in ('core.f64', 'core.f32'):
        fs = []
        for o in ('addf', 'subf', 'mulf', 'divf'): fs.append(fn(o, [('x', t), ('y', t)], t, [f'%r = arith.{o} %x, %y : {t}', 'func.return %r']))
        fs.append(fn('negf', [('x', t)], t, [f'%r = arith.negf %x : {t}', 'func.return %r']))
        for p in ['oeq', 'une', 'olt', 'ole', 'ogt', 'oge']: fs.append(fn(f'cmp_{p}', [('x', t), ('y', t)], 'core.i1', [f'%r = arith.cmpf %x, %y {{predicate = @{p}}} : core.i1', 'func.return %r']))
        if t == 'core.f64':
            for i, k in enumerate(['0.0', '-0.0', '1.0', '-1.5', '0.1', '3.141592653589793', '1000000000000.0', '0.0000001', '123456789.125', '2.2250738585072014e-308', '1.7976931348623157e308']): fs.append(fn(f'const{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']))
        else:
            for i, k in enumerate(['0.0', '-0.0', '1.0', '-1.5', '0.1', '3.141592653589793', '1000000000000.0', '16777217.0', '3.4028234663852886e38', '1.401298464324817e-45']): fs.append(fn(f'const{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']))
        if True:
            fs.append(fn('mem', [('p', 'core.ptr'), ('x', t)], t, [f'%r = mem.load %p {{offset = 8}} : {t}', 'mem.store %p, %x {offset = 16}', 'func.return %r']))
        out.append((f'float ops {t}', mod(*fs)))
    bs = []
    for o in ('and', 'or', 'xor'):
        bs.append(fn(o, [('x', 'core.i1'), ('y', 'core.i1')], 'core.i1', [f'%r = arith.{o} %x, %y : core.i1', 'func.return %r']))
        for k in (0, 1): bs.append(fn(f'{o}{k}', [('x', 'core.i1')], 'core.i1', [f'%k = arith.const {{value = {k}}} : core.i1', f'%r = arith.{o} %x, %k : core.i1', 'func.return %r']))
    for k in (0, 1): bs.append(fn(f'k{k}', [], 'core.i1', [f'%k = arith.const {{value = {k}}} : core.i1', 'func.return %k']))
    bs.append(fn('sel', [('c', 'core.i1'), ('x', 'core.i1'), ('y', 'core.i1')], 'core.i1', ['%r = scf.if %c : core.i1 {', '  scf.yield %x', '} {', '  scf.yield %y', '}', 'func.return %r']))
    bs.append(fn('pass', [('c', 'core.i1'), ('x', 'core.i8')], 'core.i1', ['%r = func.call %x, %c {callee = @e} : core.i1', '%s = arith.xor %r, %c : core.i1', 'func.return %s']))
    out.append(('bool ops', mod(ext('e', ['core.i8', 'core.i1'], 'core.i1'), *bs)))
    # argument order: many parameters of mixed types, passed on in another order
    tys = ['core.i8', 'core.i64', 'core.f64', 'core.i32', 'core.i1', 'core.i16', 'core.ptr', 'core.f64', 'core.i64', 'core.i64', 'core.i32', 'core.i8']
    out.append(('many arguments', mod(ext('e', tys[::-1], 'core.i64'), fn('f', [(f'a{i}', t) for i, t in enumerate(tys)], 'core.i64', [f'%r = func.call {", ".join(f"%a{i}" for i in reversed(range(len(tys))))} {{callee = @e}} : core.i64', 'func.return %r']),
                fn('g', [(f'a{i}', t) for i, t in enumerate(tys)], 'core.i64', [f'%r = func.call {", ".join(f"%a{i}" for i in range(len(tys)))} {{callee = @f}} : core.i64', f'%c = func.constant {{func_ref = @f}} : core.func(core.i64, {", ".join(tys)})', f'%s = func.call_indirect %c, {", ".join(f"%a{i}" for i in range(len(tys)))} : core.i64', '%t = arith.subi %r, %s : core.i64', 'func.return %t']))))
    # the calling convention attribute on functions that return something
    cc = ' attributes {tribute.calling_convention = %d} {'
    fs = []
    for k in (0, 1, 2, 3):
        for rt, v in (('core.i64', '%x'), ('core.ptr', '%p'), ('core.nil', '%n'), ('core.i1', '%b')):
            fs.append(fn(f'c{k}{rt[5:]}', [('x', 'core.i64'), ('p', 'core.ptr'), ('b', 'core.i1')], rt, (['%n = arith.const {value = unit} : core.nil'] if v == '%n' else []) + [f'func.return {v}']).replace(' {', cc % k, 1))
    out.append(('calling conventions', mod(*fs, fn('use', [('x', 'core.i64'), ('p', 'core.ptr'), ('b', 'core.i1')], 'core.i64', [f'%r{i} = func.call %x, %p, %b {{callee = @c{i}i64}} : core.i64' for i in (0, 1, 2, 3)] + ['%s = arith.addi %r0, %r2 : core.i64', 'func.return %s']))))
    # mutual recursion, forward and backward references
    out.append(('recursion', mod(fn('even', [('n', 'core.i32')], 'core.i1', ['%z = arith.const {value = 0} : core.i32', '%c = arith.cmpi %n, %z {predicate = @eq} : core.i1', '%r = scf.if %c : core.i1 {', '  %t = arith.const {value = 1} : core.i1', '  scf.yield %t', '} {', '  %o = arith.const {value = 1} : core.i32', '  %m = arith.subi %n, %o : core.i32', '  %q = func.call %m {callee = @odd} : core.i1', '  scf.yield %q', '}', 'func.return %r']),
                fn('odd', [('n', 'core.i32')], 'core.i1', ['%z = arith.const {value = 0} : core.i32', '%c = arith.cmpi %n, %z {predicate = @eq} : core.i1', '%r = scf.if %c : core.i1 {', '  scf.yield %c', '} {', '  %o = arith.const {value = 1} : core.i32', '  %m = arith.subi %n, %o : core.i32', '  %q = func.call %m {callee = @even} : core.i1', '  scf.yield %q', '}', '%k = arith.const {value = 1} : core.i1', '%x = arith.xor %r, %k : core.i1', 'func.return %x']))))
    return out

KNOWN_I1 = ('known: indirect tail call with a core.i1 parameter', mod('  func.func @k(%b: core.i1) -> core.nil attributes {tribute.calling_convention = 2} {\n    func.unreachable\n  }\n  func.func @f(%b: core.i1) -> core.nil attributes {tribute.calling_convention = 2} {\n    %c = func.constant {func_ref = @k} : core.ptr\n    func.tail_call_indirect %c, %b {func.indirect_call_signature = core.func(core.nil, core.i1), tribute.calling_convention = 2}\n  }\n'))

def sigs(pre, post, r):
    """declared signatures and calling conventions survive"""
    out = []
    def lower(ps): return [{1: 'i32'}.get(pre.width(t)) or (('f' if pre.isf(t) else 'i') + str(pre.width(t))) for t in ps if pre.width(t)]
    for n in pre.funcs:
        p = pre.ftype(n)['p']; cps = pre.funcs[n]['a'].get('tribute.calling_convention', {}).get('v') in (2, '2') and pre.width(p[0]) == 0
        want = (lower(p[1:]), lower(p[:1]), 'tail' if cps else 'system_v')
        for got in post.allsigs.get(n, []):
            if tuple(map(str, got)) != tuple(map(str, want)): out.append(f'@{n} has the signature {got}, its declaration lowers to {want}')
    return out
