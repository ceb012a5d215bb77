"""The WebAssembly back end, from TrunkIR to the bytes of the emitted module."""
import z3
import sem, tv, wasm, native, gen
from native import fn, ext, mod, relate, PreEv

WP = ['lower_to_wasm', 'finish_wasm']

def args_post(pre, name, args):
    return [sem.zext(a, 1, 32) if pre.width(t) == 1 else a for a, (_, t) in zip(args, pre.funcs[name]['r'][0][0]['args'])]

class WPreEv(PreEv):
    def op_func_constant(self, st, op):
        """a function value is its index in the function table of the emitted module"""
        n = op['a']['func_ref']['v']; k = self.o.tindex(n)
        if k is None: raise sem.Malformed(f'@{n} is not (once) in the function table')
        self.setr(st, op, k)

class WasmSpec(tv.Spec):
    def __init__(self, **k):
        k.setdefault('passes', WP); k.setdefault('outs', ['emit_wasm'])
        super().__init__(Ev=WPreEv, EvPost=wasm.WasmEv, relate=relate, args_post=args_post, **k)
        self.post = lambda r: wasm.WMod(bytes.fromhex(r['wasm']))
        self.base = dict(self.opts)
    def bind(self, pre, post):
        w = {n: pre.width(pre.ftype(n)['p'][0]) for n in pre.funcs}
        self.opts = dict(self.base, tindex=post.index_of)
        self.opts_post = dict(retw=lambda n: w.get(n))

def lowty(pre, t):
    w = pre.width(t)
    return wasm.NONE if w == 0 else ('f' if pre.isf(t) else 'i') + str(32 if w == 1 else w)
def structure(pre, post, r):
    out = []
    if 'wasm_invalid' in r: out.append('the emitted module is not valid WebAssembly: ' + r['wasm_invalid'])
    for n in pre.funcs:
        if n not in post.funcs: continue
        p = pre.ftype(n)['p']; ft = post.w.ftype(post.funcs[n])
        want = ([lowty(pre, t) for t in p[1:]], [lowty(pre, t) for t in p[:1] if pre.width(t)])
        if (ft['p'], ft['r']) != want: out.append(f'@{n} has the type {ft["p"]} -> {ft["r"]}, its declaration lowers to {want[0]} -> {want[1]}')
    return out
SPEC = WasmSpec(opts=dict(tailtag=True), extra=structure)

INTS = ['core.i32', 'core.i64']
def corpus():
    out = []
    for t in INTS:
        w = gen.W(t); fs = []
        ks = sorted({0, 1, -1, 2, -(1 << (w - 1)), (1 << (w - 1)) - 1, 5})
        for o in ['addi', 'subi', 'muli', 'and', 'or', 'xor', 'shl', 'shr', 'shru', 'divsi', 'divui', 'remsi', 'remui']:
            fs.append(fn(f'{o}', [('x', t), ('y', t)], t, [f'%r = arith.{o} %x, %y : {t}', 'func.return %r']))
            for i, k in enumerate(ks): fs.append(fn(f'{o}_k{i}', [('x', t)], t, [f'%k = arith.const {{value = {k}}} : {t}', f'%r = arith.{o} %x, %k : {t}', 'func.return %r']))
        fs.append(fn('negi', [('x', t)], t, [f'%r = arith.negi %x : {t}', 'func.return %r']))
        for p in ['eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge']:
            fs.append(fn(f'cmp_{p}', [('x', t), ('y', t)], 'core.i1', [f'%r = arith.cmpi %x, %y {{predicate = @{p}}} : core.i1', 'func.return %r']))
            fs.append(fn(f'br_{p}', [('x', t), ('y', t)], t, [f'%c = arith.cmpi %x, %y {{predicate = @{p}}} : core.i1', f'%r = scf.if %c : {t} {{', '  scf.yield %x', '} {', '  scf.yield %y', '}', 'func.return %r']))
        for i, k in enumerate(ks): fs.append(fn(f'const{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']))
        out.append((f'int ops {t}', mod(*fs)))
        out.append((f'int constants {t}', mod(*[fn(f'b{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']) for i, k in enumerate(gen.boundary(w))])))
        u = INTS[1 - INTS.index(t)]; o = 'extend' if gen.W(u) > w else 'trunc'; fs = []
        fs.append(fn(f'{o}_{u[5:]}', [('x', t)], u, [f'%r = arith.{o} %x : {u}', 'func.return %r']))
        fs.append(fn(f'cast_{u[5:]}', [('x', t)], u, [f'%r = arith.cast %x : {u}', 'func.return %r']))
        fs.append(fn(f'mix_{u[5:]}', [('x', t), ('y', u)], u, [f'%r = arith.{o} %x : {u}', f'%s = arith.addi %r, %y : {u}', f'%m = arith.muli %s, %r : {u}', 'func.return %m']))
        for f in ('f64', 'f32'):
            fs.append(fn(f'to_{f}', [('x', t)], f'core.{f}', [f'%r = arith.convert %x : core.{f}', 'func.return %r']))
            fs.append(fn(f'from_{f}', [('x', f'core.{f}')], t, [f'%r = arith.convert %x : {t}', 'func.return %r']))
            fs.append(fn(f'trunc_{f}', [('x', f'core.{f}')], t, [f'%r = arith.trunc %x : {t}', 'func.return %r']))
        out.append((f'conversions {t}', mod(*fs)))
    for t in ('core.f64', 'core.f32'):
        fs = []
        for o in ('addf', 'subf', 'mulf', 'divf'): fs.append(fn(o, [('x', t), ('y', t)], t, [f'%r = arith.{o} %x, %y : {t}', 'func.return %r']))
        fs.append(fn('negf', [('x', t)], t, [f'%r = arith.negf %x : {t}', 'func.return %r']))
        for p in ['oeq', 'une', 'olt', 'ole', 'ogt', 'oge']: fs.append(fn(f'cmp_{p}', [('x', t), ('y', t)], 'core.i1', [f'%r = arith.cmpf %x, %y {{predicate = @{p}}} : core.i1', 'func.return %r']))
        for i, k in enumerate(['0.0', '-0.0', '1.0', '-1.5', '0.1', '3.141592653589793', '1000000000000.0', '0.0000001', '123456789.125', '2.2250738585072014e-308', '1.7976931348623157e308'] if t == 'core.f64' else ['0.0', '-0.0', '1.0', '-1.5', '0.1', '3.141592653589793', '1000000000000.0', '16777217.0', '3.4028234663852886e38', '1.401298464324817e-45']): fs.append(fn(f'const{i}', [], t, [f'%k = arith.const {{value = {k}}} : {t}', 'func.return %k']))
        out.append((f'float ops {t}', mod(*fs)))
    out.append(('float conversions', mod(fn('demote', [('x', 'core.f64')], 'core.f32', ['%r = arith.convert %x : core.f32', 'func.return %r']), fn('promote', [('x', 'core.f32')], 'core.f64', ['%r = arith.convert %x : core.f64', 'func.return %r']), fn('extend', [('x', 'core.f32')], 'core.f64', ['%r = arith.extend %x : core.f64', 'func.return %r']))))
    bs = []
    for o in ('and', 'or', 'xor'):
        bs.append(fn(o, [('x', 'core.i1'), ('y', 'core.i1')], 'core.i1', [f'%r = arith.{o} %x, %y : core.i1', 'func.return %r']))
        for k in (0, 1): bs.append(fn(f'{o}{k}', [('x', 'core.i1')], 'core.i1', [f'%k = arith.const {{value = {k}}} : core.i1', f'%r = arith.{o} %x, %k : core.i1', 'func.return %r']))
    for k in (0, 1): bs.append(fn(f'k{k}', [], 'core.i1', [f'%k = arith.const {{value = {k}}} : core.i1', 'func.return %k']))
    bs.append(fn('sel', [('c', 'core.i1'), ('x', 'core.i1'), ('y', 'core.i1')], 'core.i1', ['%r = scf.if %c : core.i1 {', '  scf.yield %x', '} {', '  scf.yield %y', '}', 'func.return %r']))
    out.append(('bool ops', mod(*bs)))
    tys = ['core.i64', 'core.f64', 'core.i32', 'core.i1', 'core.f64', 'core.i64', 'core.i64', 'core.i32', 'core.nil', 'core.i1', 'core.i32']
    names = [f'%a{i}' for i in range(len(tys))]
    out.append(('many arguments', mod(ext('e', tys[::-1], 'core.i64'), fn('f', [(n[1:], t) for n, t in zip(names, tys)], 'core.i64', [f'%r = func.call {", ".join(names[::-1])} {{callee = @e}} : core.i64', 'func.return %r']),
                fn('g', [(n[1:], t) for n, t in zip(names, tys)], 'core.i64', [f'%r = func.call {", ".join(names)} {{callee = @f}} : core.i64', '%c = func.constant {func_ref = @f} : core.i32', f'%s = func.call_indirect %c, {", ".join(names)} : core.i64', '%t = arith.subi %r, %s : core.i64', 'func.return %t']))))
    # function values: the table and the signatures of indirect calls
    fs = [ext('log', ['core.i32'], 'core.nil')]
    for i, n in enumerate(['zeta', 'alpha', 'm10', 'm9', 'Beta', 'a']):
        ps = [('x', 'core.i32'), ('y', 'core.i64')][:1 + i % 2]
        fs.append(fn(n, ps, 'core.i32', [f'%k = arith.const {{value = {i * 7 + 1}}} : core.i32', '%r = arith.addi %x, %k : core.i32', 'func.return %r']))
    fs.append(fn('use', [('x', 'core.i32'), ('y', 'core.i64')], 'core.i32', sum([[f'%c{i} = func.constant {{func_ref = @{n}}} : core.i32', f'%r{i} = func.call_indirect %c{i}, {"%x, %y" if i % 2 else "%x"} : core.i32', f'%s{i} = func.call %r{i} {{callee = @log}} : core.nil'] for i, n in enumerate(['zeta', 'alpha', 'm10', 'm9', 'Beta', 'a'])], []) + ['func.return %r3']))
    out.append(('function table', mod(*fs)))
    return out

KNOWN_I1 = ('known: indirect tail call with a core.i1 parameter', native.KNOWN_I1[1].replace(': core.ptr', ': core.i32'))
