"""Random well-formed TrunkIR functions (seeded), used as the program universe of the pass contracts."""
import random

INTS = ['core.i8', 'core.i16', 'core.i32', 'core.i64']
FLTS = ['core.f64', 'core.f32']
def W(t): return int(t.split('.')[1][1:]) if t.split('.')[1][1:].isdigit() else 64

def boundary(w):
    """constants at every power of two: where encodings, widths and immediates change"""
    s = set()
    for k in range(w):
        for d in (-1, 0, 1, 3): s |= {(1 << k) + d, -(1 << k) + d}
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return sorted(x for x in s if lo <= x <= hi)
class NoVal(Exception): pass

class G:
    def __init__(self, seed, **k):
        self.r = random.Random(seed)
        self.n = 0
        self.lines = []
        self.ind = 2
        self.scopes = []
        self.feat = dict(ints=INTS, floats=['core.f64'], div=True, shifts=True, calls=True, mem=True, loops=True, switch=True, casts=False, conv=False,
                         bool_ops=True, tail=False, consts=0.4, returns=False, cmp=['eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'],
                         fcmp=['oeq', 'une', 'olt', 'ole', 'ogt', 'oge'], locals_=(), opaque=False, sink=.25, callbias=False, nested=False, allloops=False, never=False, nilret=True, budgets=(6, 12, 20, 30), indirect=False, mulsym=True, ptr=True, cps=False, nilp=False, fconv=False, fptr=None, ifres=False, f32=True)
        self.feat.update(k)
        self.externs = {}
        self.local_sigs = {}
        self.inloop = 0
        self.consts = set(); self.cps = set()
        self.budget = 14
    def f(self, k): return self.feat[k]
    def fresh(self): self.n += 1; return f'%v{self.n}'
    def emit(self, s): self.lines.append('  ' * self.ind + s)
    def put(self, v, t): self.scopes[-1].append((v, t)); return v
    def have(self, t): return [v for s in self.scopes for v, u in s if u == t]
    def const(self, t):
        v = self.fresh(); w = W(t); r = self.r
        if t == 'core.i1': self.emit(f'{v} = arith.const {{value = {r.randint(0, 1)}}} : {t}')
        elif t.startswith('core.f'):
            self.emit(f'{v} = arith.const {{value = {r.choice(["0.0", "1.0", "-1.5", "2.25", "1000000.0", "-0.0"])}}} : {t}')
        elif t == 'core.ptr': raise ValueError
        else:
            k = r.random()
            x = r.choice([0, 1, -1, 2]) if k < .5 else r.choice([-(1 << (w - 1)), (1 << (w - 1)) - 1, (1 << (w - 1)) - 2]) if k < .7 else r.randint(-(1 << (w - 1)), (1 << (w - 1)) - 1) if k < .8 else r.choice(boundary(w)) if k < .9 else r.randint(-9, 9)
            self.emit(f'{v} = arith.const {{value = {x}}} : {t}')
        self.consts.add(v)
        return self.put(v, t)
    def val(self, t):
        h = self.have(t)
        if t == 'core.nil':
            x = self.fresh(); self.emit(f'{x} = arith.const {{value = unit}} : core.nil'); return x
        if t == 'core.ptr':
            if h: return self.r.choice(h)
            raise NoVal(t)
        nc = [x for x in h if x not in self.consts]
        if t != 'core.i1' and (not h or self.r.random() < self.f('consts') * .4): return self.const(t)
        if t == 'core.i1' and self.r.random() < self.f('consts') * .15: return self.const(t)
        if nc and self.r.random() < .85: h = nc
        elif not nc and t == 'core.i1' and self.r.random() < .9:
            u = self.r.choice(self.f('ints')); g = [x for x in self.have(u) if x not in self.consts]
            if g:
                b = self.const(u); x = self.fresh()
                self.emit(f'{x} = arith.cmpi {self.r.choice(g)}, {b} {{predicate = @{self.r.choice(self.f("cmp"))}}} : core.i1')
                return self.put(x, t)
        if not h: return self.const(t)
        # prefer recent values so that results are used
        return h[-1 - min(int(self.r.expovariate(.5)), len(h) - 1)]
    def types(self):
        return list(self.f('ints')) + list(self.f('floats')) + ['core.i1']
    def ty(self): return self.r.choice(self.types())
    def simple(self):
        r = self.r; k = r.random(); v = self.fresh
        if self.f('callbias') and r.random() < .35: self.call(); return
        if k < .45:
            t = r.choice(self.f('ints'))
            ops = ['addi', 'subi', 'and', 'or', 'xor', 'addi', 'subi', 'negi'] + (['muli', 'muli'] if self.f('mulsym') else []) + (['divsi', 'divui', 'remsi', 'remui'] if self.f('div') else []) + (['shl', 'shr', 'shru'] if self.f('shifts') else [])
            o = r.choice(ops)
            if o == 'negi': a = self.val(t); x = v(); self.emit(f'{x} = arith.negi {a} : {t}')
            else:
                a, b = self.val(t), self.val(t); x = v(); self.emit(f'{x} = arith.{o} {a}, {b} : {t}')
            self.put(x, t)
        elif k < .60:
            t = r.choice(self.f('ints')); a, b = self.val(t), self.val(t); x = v()
            self.emit(f'{x} = arith.cmpi {a}, {b} {{predicate = @{r.choice(self.f("cmp"))}}} : core.i1'); self.put(x, 'core.i1')
        elif k < .68 and self.f('floats'):
            t = r.choice(self.f('floats'))
            if r.random() < .3:
                a, b = self.val(t), self.val(t); x = v()
                self.emit(f'{x} = arith.cmpf {a}, {b} {{predicate = @{r.choice(self.f("fcmp"))}}} : core.i1'); self.put(x, 'core.i1')
            else:
                o = r.choice(['addf', 'subf', 'mulf', 'divf', 'negf'])
                if o == 'negf': a = self.val(t); x = v(); self.emit(f'{x} = arith.negf {a} : {t}')
                else: a, b = self.val(t), self.val(t); x = v(); self.emit(f'{x} = arith.{o} {a}, {b} : {t}')
                self.put(x, t)
        elif k < .74 and self.f('bool_ops'):
            a, b = self.val('core.i1'), self.val('core.i1'); x = v()
            self.emit(f'{x} = arith.{r.choice(["and", "or", "xor"])} {a}, {b} : core.i1'); self.put(x, 'core.i1')
        elif k < .84 and self.f('calls'): self.call()
        elif k < .92 and self.f('mem') and self.have('core.ptr'):
            t = r.choice(self.f('ints') + self.f('floats')); p = self.val('core.ptr'); off = r.choice([0, 4, 8, 16])
            if r.random() < .5: x = v(); self.emit(f'{x} = mem.load {p} {{offset = {off}}} : {t}'); self.put(x, t)
            else: a = self.val(t); self.emit(f'mem.store {p}, {a} {{offset = {off}}}')
        elif self.f('casts'):
            t = r.choice(self.f('ints')); a = self.val(t); x, y = v(), v(); u = r.choice(['core.ptr', 'core.i64' if t != 'core.i64' else 'core.i32', t])
            self.emit(f'{x} = core.unrealized_conversion_cast {a} : {u}'); self.emit(f'{y} = core.unrealized_conversion_cast {x} : {t}'); self.put(y, t)
        elif self.f('opaque') and r.random() < .8: self.opq()
        elif self.f('conv'): self.conv()
        else: self.const(self.ty())
    def opq(self):
        """reference-like values through operations without scalar meaning"""
        r = self.r; k = r.random(); h = self.have('tribute_rt.anyref'); x = self.fresh()
        if k < .35 or not h:
            t = r.choice(self.f('ints')); a = self.val(t)
            self.emit(f'{x} = adt.struct_new {a} {{type = !S}} : tribute_rt.anyref'); self.put(x, 'tribute_rt.anyref')
        elif k < .6: self.emit(f'{x} = adt.struct_get {r.choice(h)} {{type = !S, field = {r.randint(0, 1)}}} : core.i32'); self.put(x, 'core.i32')
        elif k < .75: a = self.val('core.i32'); self.emit(f'adt.struct_set {r.choice(h)}, {a} {{type = !S, field = {r.randint(0, 1)}}}')
        elif k < .85: self.emit(f'{x} = adt.variant_is {r.choice(h)} {{type = !E, tag = @A}} : core.i1'); self.put(x, 'core.i1')
        else: self.emit(f'{x} = test.effect {r.choice(h)} : core.i32'); self.put(x, 'core.i32')
    def conv(self):
        r = self.r; I = self.f('ints')
        k = r.random()
        if self.f('fconv') and r.random() < .35:
            o, a, b = r.choice([('convert', 'core.i32', 'core.f64'), ('convert', 'core.i64', 'core.f64'), ('convert', 'core.i32', 'core.f32'), ('convert', 'core.i64', 'core.f32'), ('convert', 'core.f64', 'core.i32'), ('trunc', 'core.f64', 'core.i32'),
                                ('convert', 'core.f64', 'core.i64'), ('convert', 'core.f64', 'core.f32'), ('convert', 'core.f32', 'core.f64'), ('extend', 'core.f32', 'core.f64'), ('trunc', 'core.f32', 'core.i64')])
            if not self.f('f32') and 'core.f32' in (a, b): o, a, b = 'convert', r.choice(['core.i32', 'core.i64']), 'core.f64'
            if a == 'core.f32' and not self.have(a): a, b, o = 'core.f64', 'core.f32', 'convert'
            x = self.val(a); v = self.fresh(); self.emit(f'{v} = arith.{o} {x} : {b}'); self.put(v, b); return
        if self.f('fconv') and r.random() < .3:
            a, b = r.sample(I, 2); x = self.val(a); v = self.fresh(); self.emit(f'{v} = arith.cast {x} : {b}'); self.put(v, b); return
        a, b = sorted(r.sample(I, 2), key=W)
        if k < .5: x = self.val(b); v = self.fresh(); self.emit(f'{v} = arith.trunc {x} : {a}'); self.put(v, a)
        else: x = self.val(a); v = self.fresh(); self.emit(f'{v} = arith.extend {x} : {b}'); self.put(v, b)
    def call(self, local=None):
        r = self.r
        names = [n for n in self.f('locals_') if self.local_sigs[n][1] != 'core.never' and self.mayref(n)]
        if self.cps and self.cur in self.cps and r.random() < .5: names = [n for n in names if n not in self.cps]
        if self.f('indirect') and names and r.random() < .25:
            nm = r.choice(names); ps, rt = self.local_sigs[nm]; c = self.fresh()
            self.emit(f'{c} = func.constant {{func_ref = @{nm}}} : {self.f("fptr") or "core.func(" + ", ".join([rt] + ps) + ")"}')
            args = [self.val(t) for t in ps]; v = self.fresh()
            self.emit(f'{v} = func.call_indirect {", ".join([c] + args)}{" {tribute.calling_convention = 2}" if nm in self.cps else ""} : {rt}')
            if rt != 'core.nil': self.put(v, rt)
            return
        if names and r.random() < .6:
            nm = r.choice(names); ps, rt = self.local_sigs[nm]
        else:
            nm = f'ext{r.randint(0, 3)}'
            if nm not in self.externs: self.externs[nm] = (self.nils([self.ty() for _ in range(r.randint(0, 3))]), r.choice(self.types() + ['core.nil']))
            ps, rt = self.externs[nm]
        args = [self.val(t) for t in ps]; v = self.fresh()
        self.emit(f'{v} = func.call {", ".join(args)}{" " if args else ""}{{callee = @{nm}}} : {rt}')
        if rt != 'core.nil': self.put(v, rt)
    def block(self, depth):
        for _ in range(self.r.randint(1, 5)):
            if self.budget <= 0: return
            self.budget -= 1
            k = self.r.random()
            if depth > 0 and k < .28: self.if_(depth - 1)
            elif depth > 0 and k < .36 and self.f('loops'): self.loop(depth - 1)
            elif depth > 0 and k < .43 and self.f('switch'): self.switch(depth - 1)
            else: self.simple()
    def sinks(self):
        """make some of the values computed here observable"""
        if not self.f('calls'): return
        for v, t in list(self.scopes[-1]):
            if v in self.consts or t in ('core.ptr', 'tribute_rt.anyref', 'core.nil') or self.r.random() > self.f('sink'): continue
            nm = 'sink_' + t.split('.')[1]; self.externs[nm] = ([t], 'core.nil'); x = self.fresh()
            self.emit(f'{x} = func.call {v} {{callee = @{nm}}} : core.nil')
    def region(self, depth, term, args=()):
        self.ind += 1; self.scopes.append([])
        for v, t in args: self.put(v, t)
        self.block(depth); self.sinks()
        term()
        self.scopes.pop(); self.ind -= 1
    def leave(self):
        """a terminator other than yield, if the context allows one"""
        r = self.r
        if self.inloop and r.random() < .25:
            (bt, ats) = self.loopctx[-1]
            if r.random() < .5:
                x = self.val(bt); self.emit(f'scf.break {x}')
            else:
                xs = [self.val(t) for t in ats]; self.emit(f'scf.continue {", ".join(xs)}')
            return True
        if self.f('returns') and r.random() < .15:
            self.ret(); return True
        return False
    def ret(self):
        if self.rt == 'core.nil':
            x = self.fresh(); self.emit(f'{x} = arith.const {{value = unit}} : core.nil'); self.emit(f'func.return {x}')
        else: x = self.val(self.rt); self.emit(f'func.return {x}')
    def if_(self, depth):
        c = self.val('core.i1'); r = self.r
        res = r.random() < .7
        t = self.ty()
        if not res and self.f('ifres'): res, t = True, 'core.nil'
        x = self.fresh()
        def term():
            if self.leave(): return
            if res: y = self.val(t); self.emit(f'scf.yield {y}')
            else: self.emit('scf.yield')
        self.emit((f'{x} = scf.if {c} : {t} {{' if res else f'scf.if {c} {{'))
        self.region(depth, term); self.emit('} {'); self.region(depth, term); self.emit('}')
        if res and t != 'core.nil': self.put(x, t)
    def switch(self, depth):
        t = self.r.choice([x for x in self.f('ints') if W(x) <= 32] or self.f('ints')); d = self.val(t); w = W(t)
        self.emit(f'scf.switch {d} {{'); self.ind += 1
        has_def = self.r.random() < .8
        vals = self.r.sample([0, 1, 2, 3, -1, (1 << (w - 1)) - 1, -(1 << (w - 1))], self.r.randint(0 if has_def else 1, 3))
        if vals and self.r.random() < .15: vals.append(vals[0])     # a repeated case: the first wins
        def term():
            if not self.leave(): self.emit('scf.yield')
        for v in vals:
            self.emit(f'scf.case {{value = {v}}} {{'); self.region(depth, term); self.emit('}')
        if has_def: self.emit('scf.default {'); self.region(depth, term); self.emit('}')
        self.ind -= 1; self.emit('}')
    def loop(self, depth):
        r = self.r
        ats = [r.choice(self.types() if r.random() < .3 else self.f('ints')) for _ in range(r.randint(1, 3))]; bt = r.choice(self.types())
        inits = [self.val(t) for t in ats]; x = self.fresh()
        avs = [(self.fresh(), t) for t in ats]
        self.emit(f'{x} = scf.loop {", ".join(inits)} : {bt} {{')
        self.emit(f'  ^bb0({", ".join(f"{v}: {t}" for v, t in avs)}):')
        self.inloop += 1; self.loopctx = getattr(self, 'loopctx', []); self.loopctx.append((bt, ats))
        self.ind += 1; self.scopes.append(list(avs))
        self.block(depth)
        c = self.val('core.i1')
        self.emit(f'scf.if {c} {{')
        def brk(): y = self.val(bt); self.emit(f'scf.break {y}')
        def go():
            if r.random() < .3: ys = [self.val(t) for t in ats]; self.emit(f'scf.continue {", ".join(ys)}')
            else: self.emit('scf.yield')
        self.region(0, brk); self.emit('} {'); self.region(depth, go); self.emit('}')
        ys = [self.val(t) for t in ats]
        self.emit(f'scf.continue {", ".join(ys)}')
        self.scopes.pop(); self.ind -= 1
        self.inloop -= 1; self.loopctx.pop()
        self.emit('}')
        self.put(x, bt)
    def nils(self, ps):
        if self.f('nilp') and self.r.random() < .3: ps.insert(self.r.randint(0, len(ps)), 'core.nil')
        return ps
    def sig(self, never=False):
        r = self.r
        ps = [r.choice(self.f('ints'))] * r.randint(0, 1) + [self.ty() for _ in range(r.randint(1, 4))]
        if self.f('ptr') and self.f('mem') and r.random() < .4: ps.insert(r.randint(0, len(ps)), 'core.ptr')
        ps = self.nils(ps)
        return ps, 'core.never' if never else r.choice(self.types() + (['core.nil'] if self.f('nilret') else []))
    def func(self, name, params=None, rt=None, depth=2, attrs='', budget=14):
        r = self.r
        if name not in self.local_sigs:
            p, t = self.sig()
            self.local_sigs[name] = (params if params is not None else p, rt or t)
        params, self.rt = self.local_sigs[name]
        self.budget = budget; self.cur = name
        self.externs.pop('tail0', None); self.externs.pop('tail1', None)
        ps = [(self.fresh(), t) for t in params]
        self.scopes.append(list(ps))
        self.lines.append(f'  func.func @{name}({", ".join(f"{v}: {t}" for v, t in ps)}) -> {self.rt}{attrs} {{')
        self.block(depth); self.sinks()
        self.finish(depth)
        self.lines.append('  }')
        self.scopes.pop()
    def finish(self, depth):
        """terminate the function body (or a tail region of a never-returning function)"""
        r = self.r
        if self.cur in self.cps and r.random() < .85:
            if depth > 0 and r.random() < .4:
                c = self.val('core.i1'); x = self.fresh()
                self.emit(f'{x} = scf.if {c} : core.nil {{')
                self.region(depth - 1, lambda: self.finish(depth - 1)); self.emit('} {'); self.region(depth - 1, lambda: self.finish(depth - 1)); self.emit('}'); self.emit('func.unreachable')
                return
            k = [n for n in self.cps if self.mayref(n)]
            if k:
                nm = r.choice(k); ps = self.local_sigs[nm][0]; args = [self.val(t) for t in ps]; at = 'tribute.calling_convention = 2'
                if r.random() < .3 and 'core.i1' not in ps:
                    c = self.fresh(); self.emit(f'{c} = func.constant {{func_ref = @{nm}}} : {self.f("fptr") or "core.ptr"}')
                    self.emit(f'func.tail_call_indirect {", ".join([c] + args)} {{func.indirect_call_signature = core.func({", ".join(["core.nil"] + ps)}), {at}}}')
                else: self.emit(f'func.tail_call {", ".join(args)}{" " if args else ""}{{callee = @{nm}, {at}}}')
                return
        if self.rt == 'core.never':
            if depth > 0 and r.random() < .4:
                c = self.val('core.i1'); x = self.fresh()
                self.emit(f'{x} = scf.if {c} : core.never {{')
                self.region(depth - 1, lambda: self.finish(depth - 1)); self.emit('} {'); self.region(depth - 1, lambda: self.finish(depth - 1)); self.emit('}')
                return
            k = [n for n in self.f('locals_') if self.local_sigs[n][1] == 'core.never' and self.mayref(n)]
            if k and r.random() < .6:
                nm = r.choice(k); ps = self.local_sigs[nm][0]
            elif r.random() < .15: self.emit('func.unreachable'); return
            else:
                nm = f'tailn{r.randint(0, 1)}'
                if nm not in self.externs: self.externs[nm] = ([self.ty() for _ in range(r.randint(0, 3))], 'core.never')
                ps = self.externs[nm][0]
            args = [self.val(t) for t in ps]
            self.emit(f'func.tail_call {", ".join(args)}{" " if args else ""}{{callee = @{nm}}}')
            return
        if self.f('tail') and r.random() < .2:
            k = [n for n in self.f('locals_') if self.local_sigs[n][1] == self.rt and self.mayref(n) and n not in self.cps]
            if k:
                nm = r.choice(k); args = [self.val(t) for t in self.local_sigs[nm][0]]
                self.emit(f'func.tail_call {", ".join(args)}{" " if args else ""}{{callee = @{nm}}}'); return
        self.ret()
    def mayref(self, n):
        return all(t != 'core.ptr' or self.have('core.ptr') for t in self.local_sigs[n][0])
    def extern_decls(self):
        out = []
        for nm, (ps, rt) in self.externs.items():
            out.append(f'  func.func @{nm}({", ".join(f"%p{i}: {t}" for i, t in enumerate(ps))}) -> {rt} attributes {{abi = "C"}} {{\n    func.unreachable\n  }}')
        return out
    def module(self):
        al = '  !S = adt.struct() {name = @S, fields = [[@x, core.i32], [@y, core.i32]]}\n  !E = adt.enum() {name = @E, variants = [[@A, [core.i32]], [@B, []]]}\n' if self.f('opaque') else ''
        return 'core.module @m {\n' + al + '\n'.join(self.extern_decls() + self.lines) + '\n}\n'

def program(seed, nfuncs=1, **k):
    """a module whose function f0 (and f1, ...) is under test"""
    g = G(seed, **k); r = g.r
    names = [f'f{i}' for i in range(nfuncs)]
    g.feat['locals_'] = names if nfuncs > 1 else ()
    for n in names: g.local_sigs[n] = g.sig(never=g.f('never') and r.random() < .25)
    if g.f('cps'):
        for n in names:
            if r.random() < .5: g.cps.add(n); g.local_sigs[n] = (g.local_sigs[n][0], 'core.nil')
    for n in names: g.func(n, attrs=' attributes {tribute.calling_convention = 2}' if n in g.cps else '', budget=r.choice(g.f('budgets')), depth=r.choice([1, 2, 2, 3]))
    return g.module()
