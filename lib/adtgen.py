"""Random well-formed programs over structs, enums and boxes (seeded)."""
import random
import gen
from gen import NoVal
REF = 'tribute_rt.anyref'
SC = ['core.i8', 'core.i16', 'core.i32', 'core.i64', 'core.f64', 'core.f32', 'core.i1']
BOX = dict(box_int='core.i32', box_nat='core.i32', box_bool='core.i1', box_float='core.f64')

class A(gen.G):
    """reference kinds: 'S<i>', 'E<i>', 'box_*', and '?K' for a K or null.  A scope entry of kind K has the IR type anyref."""
    def __init__(self, seed, **k):
        k.setdefault('ints', ['core.i8', 'core.i16', 'core.i32', 'core.i64']); k.setdefault('mem', False); k.setdefault('ptr', False); k.setdefault('loops', False); k.setdefault('floats', ['core.f64'])
        k.setdefault('div', False); k.setdefault('fcmp', ['olt'])
        super().__init__(seed, **k)
        for a, d in (('set', True), ('fresh', True), ('null', True), ('boxes', True), ('rloops', True), ('joins', True), ('scalars', SC), ('cpsr', True), ('mutref', True), ('typed', True), ('clo', .35), ('tyf', .5), ('anyf', True), ('big', .15), ('tret', True), ('focus', False), ('wasm', False), ('forks', .8)): self.feat.setdefault(a, d)
        self.freshv, self.stored, self.handed, self.counted, self.mk, self.deps = set(), set(), set(), set(), {}, []
        r = self.r; self.nforks = 0; self.tys = {}; self.hastyf = r.random() < self.f('tyf'); big = r.random() < self.f('big')
        for i in range(r.randint(1, 3)):
            n = f'S{i}'; fs = [self.fieldty() for _ in range(r.choice([1, 2, 2, 3, 4, 6] if not big else [5, 9, 12]))]; self.tys[n] = [('', fs)]
        for i in range(r.randint(1, 2)):
            n = f'E{i}'; vs = [('V0', [r.choice(self.f('scalars')) for _ in range(r.randint(0, 2))])]; self.tys[n] = vs
            for j in range(r.randint(1, 3) if not big else r.choice([2, 6, 9])): vs.append((f'V{j + 1}', [self.fieldty(n) for _ in range(r.randint(0, 4) if not big or j > 1 else r.choice([5, 7, 10]))]))
        if self.f('focus'):
            self.hastyf = False; self.tys = {'S0': [('', ['core.i64'])], 'S1': [('', r.choice([['S0'], ['S0', 'S0'], ['core.i8', 'S0']]))]}
            if r.random() < .3: self.tys['S2'] = [('', ['S1', 'S0'])]
            if r.random() < .3: self.tys['E0'] = [('V0', []), ('V1', ['S0']), ('V2', ['S1', 'core.i32'])]
        if r.random() < self.f('clo'): self.tys['SCL'] = [('', ['core.ptr', 'S0'])]
    def clofun(self): return self.r.choice(self.clos)
    def fieldty(self, rec=None):
        r = self.r; k = r.random()
        if k < .6: return r.choice(self.f('scalars'))
        if k < .75 and self.f('boxes') and self.f('anyf'): return r.choice(list(BOX))
        c = list(self.tys)
        if self.hastyf and (k > .85 or not self.f('anyf')) and [x for x in c if x != rec and not (self.f('wasm') and x[0] == 'E')]: return 'T:' + r.choice([x for x in c if x != rec and not (self.f('wasm') and x[0] == 'E')])
        return r.choice(c) if c and self.f('anyf') else r.choice(self.f('scalars'))
    def irt(self, t): return t if '.' in t else '!' + t[2:] if t[:2] == 'T:' else REF
    def ft(self, t): return self.irt(t)
    def tytext(self, n):
        vs = self.tys[n]
        if n[0] == 'S': return f'adt.struct() {{name = @{n}, fields = [{", ".join(f"[@{'func_ptr' if t == 'core.ptr' else 'env' if n == 'SCL' else f'f{i}'}, {self.ft(t)}]" for i, t in enumerate(vs[0][1]))}]}}'
        return f'adt.enum() {{name = @{n}, variants = [{", ".join(f"[@{v}, [{chr(44).join(self.ft(t) for t in fs)}]]" for v, fs in vs)}]}}'
    def isref(self, t): return '.' not in t
    # -- values
    def val(self, t, deep=3, own=False):
        if t == 'core.ptr':
            h = self.have(t)
            if h and self.r.random() < .6: return self.r.choice(h)
            x = self.fresh(); self.emit(f'{x} = func.constant {{func_ref = @{self.clofun()}}} : core.ptr'); return self.put(x, t)
        if not self.isref(t): return super().val(t)
        r = self.r; h = [v for v in self.have(t) if not (own and v in self.stored) and v not in self.handed]
        if h and (r.random() < .72 or deep <= 0): return h[-1 - min(int(r.expovariate(.5)), len(h) - 1)]
        if t[:2] == 'T:':
            if t[2:] in self.tys and r.random() < .5: return self.make(t, deep)
            v = self.val(t[2:], deep, own); x = self.fresh(); self.emit(f'{x} = core.unrealized_conversion_cast {v} : {self.irt(t)}')
            if own and v in self.freshv or v in self.stored: self.freshv |= {v, x}; self.stored |= {v, x}; self.handed |= {v} if own else set()
            return self.put(x, t)
        if t in self.tys and self.f('typed') and [v for v in self.have('T:' + t) if v not in self.handed] and r.random() < .3:
            v = r.choice([v for v in self.have('T:' + t) if v not in self.handed]); x = self.fresh(); self.emit(f'{x} = core.unrealized_conversion_cast {v} : {REF}'); return self.put(x, t)
        if t[0] == '?':
            if r.random() < .5: v = self.fresh(); self.emit(f'{v} = adt.ref_null {{type = !{t[1:]}}} : {REF}'); return self.put(v, t)
            return self.val(t[1:], deep, own)
        return self.make(t, deep)
    def hand(self, v):
        if v in self.freshv: self.handed.add(v); self.stored.add(v)
        return v
    def usestore(self, v):
        if v in self.freshv: self.stored.add(v)
        return v
    def make(self, t, deep, call=False):
        r = self.r; v = self.fresh
        if t in BOX:
            a = self.val(BOX[t]); x = v(); self.emit(f'{x} = tribute_rt.{t} {a} : {REF}'); return self.put(x, t)
        it = self.irt(t); t0 = t; t = t[2:] if t[:2] == 'T:' else t
        vs = self.tys[t]; i = 0 if deep <= 0 else r.randrange(len(vs)); tag, fs = vs[i]
        call = call or t0 == t and (not self.f('fresh') or r.random() < .4)
        args = [self.tyfield(f, deep - 1, call) if f[:2] == 'T:' else self.usestore(self.val(f, deep - 1)) if self.isref(f) else self.val(f) for f in fs]; x = v()
        if call:
            k = (t, tag); self.mk[k] = f'mk_{t}{tag}'
            self.emit(f'{x} = func.call {", ".join(args)}{" " if args else ""}{{callee = @{self.mk[k]}}} : {REF}'); self.counted.add(x)
        else:
            if self.f('wasm') and t0 == t:
                y = x; x = self.fresh(); a = ', '.join(args) + (' ' if args else ''); self.emit(f'{y} = adt.struct_new {a}{{type = !{t}}} : !{t}' if t[0] == 'S' else f'{y} = adt.variant_new {a}{{type = !{t}, tag = @{tag}}} : !{t}'); self.emit(f'{x} = core.unrealized_conversion_cast {y} : {REF}'); self.put(y, 'T:' + t) if self.f('typed') and t[0] == 'S' else None
            else: self.emit(f'{x} = adt.struct_new {", ".join(args)}{" " if args else ""}{{type = !{t}}} : {it}' if t[0] == 'S' else f'{x} = adt.variant_new {", ".join(args)}{" " if args else ""}{{type = !{t}, tag = @{tag}}} : {it}')
            self.freshv.add(x)
        return self.put(x, t0)
    def tyfield(self, f, deep, call):
        """the initial value of a field of a struct or enum type: a new object, or a view of a counted one"""
        h = [v for v in self.have(f[2:]) if v not in self.freshv and v not in self.handed and v in self.counted]
        if h and not call and self.r.random() < .4:
            x = self.fresh(); self.emit(f'{x} = core.unrealized_conversion_cast {self.r.choice(h)} : {self.irt(f)}'); return x
        x = self.make(f, deep); self.scopes[-1].remove((x, f)); return x
    def inner(self, c, get, t, f):
        """read a field of a struct or enum type, look into it, and look at the container again"""
        y = self.fresh(); self.emit(f'{y} = {get} : {self.irt(f)}'); k = f[2:]; vs = self.tys[k]
        if k[0] == 'S':
            for i, g in enumerate(vs[0][1]):
                if not self.isref(g) and g != 'core.ptr' and self.r.random() < .6: z = self.fresh(); self.emit(f'{z} = adt.struct_get {y} {{type = !{k}, field = {i}}} : {g}'); self.put(z, g)
        else: z = self.fresh(); self.emit(f'{z} = adt.variant_is {y} {{type = !{k}, tag = @{self.r.choice(vs)[0]}}} : core.i1'); self.put(z, 'core.i1')
        w = self.fresh(); self.emit(f'{w} = {get} : {self.irt(f)}')
    def put(self, v, t): self.scopes[-1].append((v, t)); return v
    def refs(self): return [(v, t) for s in self.scopes for v, t in s if self.isref(t)]
    def anyref(self):
        h = self.refs(); r = self.r
        if h and r.random() < .8: return h[-1 - min(int(r.expovariate(.4)), len(h) - 1)]
        t = r.choice(list(self.tys)); return self.val(t), t
    def kind(self):
        r = self.r
        if self.f('focus') and r.random() < .85: return r.choice([x for x in self.tys if x != 'SCL'])
        return r.choice(list(self.tys) + (list(BOX) if self.f('boxes') else []) + (['?' + x for x in self.tys] if self.f('null') else []) + (['T:' + x for x in self.tys if not (self.f('wasm') and x[0] == 'E')] * 2 if self.f('typed') else []))
    def use(self, v, t, depth):
        """look into a reference"""
        r = self.r; x = self.fresh; mayset = not self.f('wasm') or t[:2] == 'T:'
        if t[:2] == 'T:': t = t[2:]
        if t in BOX: y = x(); self.emit(f'{y} = tribute_rt.un{t} {v} : {BOX[t]}'); self.put(y, BOX[t]); return
        if t[0] == '?':
            y = x(); self.emit(f'{y} = adt.ref_is_null {v} : core.i1'); self.put(y, 'core.i1')
            if depth < 0: return
            rt = self.r.choice(['core.i32', 'core.i64']); z = x(); self.emit(f'{z} = scf.if {y} : {rt} {{')
            self.region(0, lambda: self.emit(f'scf.yield {self.val(rt)}')); self.emit('} {')
            def other():
                k = self.fresh() if not (self.f('wasm') and t[1] == 'E') else v; self.emit(f'{k} = adt.ref_cast {v} {{type = !{t[1:]}}} : {REF}') if k != v else None; self.put(k, t[1:]); self.use(k, t[1:], -1); self.emit(f'scf.yield {self.val(rt)}')
            self.ind += 1; self.scopes.append([]); other(); self.scopes.pop(); self.ind -= 1
            self.emit('}'); self.put(z, rt); return
        if t == 'SCL' and self.cur[0] != 'c' and r.random() < .6:
            g = [x(), x()]
            for i in r.sample((0, 1), 2): self.emit(f'{g[i]} = adt.struct_get {v} {{type = !SCL, field = {i}}} : {["core.ptr", REF][i]}')
            a = self.val('core.i64'); y = x(); self.emit(f'{y} = func.call_indirect {g[0]}, {g[1]}, {a} : core.i64'); self.put(y, 'core.i64'); self.put(g[1], 'S0'); return
        if t[0] == 'S':
            fs = self.tys[t][0][1]; i = r.randrange(len(fs)); f = fs[i]
            if f[:2] == 'T:': self.inner(v, f'adt.struct_get {v} {{type = !{t}, field = {i}}}', t, f); return
            if self.f('set') and mayset and r.random() < .12 and (self.f('mutref') or not self.isref(f)):
                a = self.usestore(self.val(f)) if self.isref(f) else self.val(f); self.emit(f'adt.struct_set {v}, {a} {{type = !{t}, field = {i}}}'); return
            y = x(); self.emit(f'{y} = adt.struct_get {v} {{type = !{t}, field = {i}}} : {self.ft(f)}'); self.put(y, f); return
        vs = self.tys[t]; tag, fs = r.choice(vs); y = x(); self.emit(f'{y} = adt.variant_is {v} {{type = !{t}, tag = @{tag}}} : core.i1')
        if depth < 0 or r.random() < .15: self.put(y, 'core.i1'); return
        rt = self.restype(); z = x(); self.emit(f'{z} = scf.if {y} : {self.irt(rt)} {{')
        self.ind += 1; self.scopes.append([])
        c = v
        if r.random() < .7 or self.f('wasm'): c = self.fresh(); self.emit(f'{c} = adt.variant_cast {v} {{type = !{t}, tag = @{tag}}} : {"!" + t if self.f("wasm") else REF}')
        for i, f in enumerate(fs):
            if f[:2] == 'T:': self.inner(c, f'adt.variant_get {c} {{type = !{t}, tag = @{tag}, field = {i}}}', t, f); continue
            if r.random() < .7: y = self.fresh(); self.emit(f'{y} = adt.variant_get {c} {{type = !{t}, tag = @{tag}, field = {i}}} : {self.ft(f)}'); self.put(y, f)
        if depth > 0: self.block(depth - 1)
        self.sinks(); self.emit(f'scf.yield {self.val(rt, 1) if self.isref(rt) else self.val(rt)}'); self.scopes.pop(); self.ind -= 1
        self.emit('} {'); self.region(max(0, depth - 1), lambda: self.emit(f'scf.yield {self.val(rt, 1) if self.isref(rt) else self.val(rt)}')); self.emit('}'); self.put(z, rt)
    def sub(self, v, t):
        """a reference read from a field of the struct v, or None"""
        t = t.replace('T:', '')
        if t[0] != 'S': return None
        c = [(i, f) for i, f in enumerate(self.tys[t][0][1]) if self.isref(f) and f[:2] != 'T:' and f != 'core.ptr']
        if not c: return None
        i, f = self.r.choice(c); y = self.fresh(); self.emit(f'{y} = adt.struct_get {v} {{type = !{t}, field = {i}}} : {self.ft(f)}'); return y, f
    def walk(self, v, t):
        """read a reference from the struct v and look into what it refers to"""
        for _ in range(2):
            k = self.sub(v, t)
            if k is None: return
            v, t = k; self.use(v, t, -1)
    def newchain(self):
        """a counted S1 that holds the only references to what it refers to"""
        a = [self.make(f, 0, True) if self.isref(f) else self.val(f) for f in self.tys['S1'][0][1]]; self.mk['S1', ''] = 'mk_S1'
        x = self.fresh(); self.emit(f'{x} = func.call {", ".join(a)} {{callee = @mk_S1}} : {REF}'); self.counted.add(x); self.put(x, 'S1')
    def restype(self):
        return self.kind() if self.f('joins') and self.r.random() < .45 else self.r.choice(['core.i32', 'core.i64', 'core.i1', 'core.f64'])
    def block(self, depth):
        for _ in range(self.r.randint(1, 5)):
            if self.budget <= 0: return
            self.budget -= 1; k = self.r.random()
            if k < .5: v, t = self.anyref(); self.use(v, t, depth - 1)
            elif k < .62 and self.f('focus') and self.r.random() < .5: self.newchain()
            elif k < .62: t = self.kind(); self.val(t) if t[0] == '?' else self.make(t, 2)
            elif k < .74 and depth > 0: self.rif(depth - 1)
            elif k < .82 and depth > 0 and self.f('rloops'): self.rloop(depth - 1)
            elif k < .92: self.hcall()
            else: self.simple()
    def cond(self):
        """a condition; a few per program are answered by the environment"""
        if self.nforks >= 5 or self.r.random() > self.f('forks'): return self.val('core.i1')
        self.nforks += 1; self.externs.setdefault('ask', (['core.i32'], 'core.i1')); v = self.val('core.i32'); x = self.fresh(); self.emit(f'{x} = func.call {v} {{callee = @ask}} : core.i1'); return x
    def rif(self, depth):
        c = self.cond(); t = self.restype(); z = self.fresh(); term = lambda: self.emit(f'scf.yield {self.val(t, 1) if self.isref(t) else self.val(t)}')
        self.emit(f'{z} = scf.if {c} : {self.irt(t)} {{'); self.region(depth, term); self.emit('} {'); self.region(depth, term); self.emit('}'); self.put(z, t)
    def rloop(self, depth):
        """a loop with a constant number of rounds, carrying references"""
        r = self.r; ks = [self.restype() for _ in range(r.randint(1, 2))]; bt = self.restype()
        z = self.fresh(); self.emit(f'{z} = arith.const {{value = 0}} : core.i32'); n = self.fresh(); self.emit(f'{n} = arith.const {{value = {r.randint(1, 3)}}} : core.i32'); o = self.fresh(); self.emit(f'{o} = arith.const {{value = 1}} : core.i32')
        inits = [self.val(t, 1) if self.isref(t) else self.val(t) for t in ks]; x, i = self.fresh(), self.fresh(); avs = [(self.fresh(), t) for t in ks]
        self.emit(f'{x} = scf.loop {", ".join([z] + inits)} : {self.irt(bt)} {{'); self.emit(f'  ^bb0({i}: core.i32, {", ".join(f"{v}: {self.irt(t)}" for v, t in avs)}):')
        self.ind += 1; self.scopes.append(list(avs)); self.block(depth)
        c = self.fresh(); self.emit(f'{c} = arith.cmpi {i}, {n} {{predicate = @sge}} : core.i1')
        g = lambda t: self.val(t, 1) if self.isref(t) else self.val(t)
        self.emit(f'scf.if {c} {{'); self.region(0, lambda: self.emit(f'scf.break {g(bt)}')); self.emit('} {')
        def go(): ys = [g(t) for t in ks]; j = self.fresh(); self.emit(f'{j} = arith.addi {i}, {o} : core.i32'); self.emit(f'scf.continue {", ".join([j] + ys)}')
        self.region(0, go); self.emit('}')
        ys = [g(t) for t in ks]; self.emit(f'scf.continue {", ".join([n] + ys)}')
        self.scopes.pop(); self.ind -= 1; self.emit('}'); self.put(x, bt)
    def hcall(self):
        """call one of the helper functions that come later (no recursion)"""
        c = [n for n in self.helpers if n > self.cur] if self.cur[0] == 'h' else [] if self.cur[0] == 'c' else self.helpers
        c = [n for n in c if n not in self.cpsh]
        if not c: return self.simple()
        n = self.r.choice(c); ps, rt = self.hs[n]; args = [self.val(p, 1) if self.isref(p) else self.val(p) for p in ps]; x = self.fresh()
        if self.r.random() < .15 and (self.feat.get('kobj', True) or not any(p.replace('T:', '').replace('?', '') in self.tys for p in ps)):
            f = self.fresh(); self.emit(f'{f} = func.constant {{func_ref = @{n}}} : {self.f("fptr") or "core.ptr"}'); self.emit(f'{x} = func.call_indirect {", ".join([f] + args)} : {self.irt(rt)}')
        else: self.emit(f'{x} = func.call {", ".join(args)}{" " if args else ""}{{callee = @{n}}} : {self.irt(rt)}')
        self.put(x, rt)
    def simple(self):
        k = self.feat['calls']
        if self.r.random() < .25:
            self.externs.setdefault('ext0', (['core.i32'], 'core.i32')); v = self.val('core.i32'); x = self.fresh(); self.emit(f'{x} = func.call {v} {{callee = @ext0}} : core.i32'); self.put(x, 'core.i32'); return
        self.feat['calls'] = False
        try: super().simple()
        finally: self.feat['calls'] = k
    def sinks(self):
        for v, t in list(self.scopes[-1]):
            if v in self.consts or self.isref(t) or t == 'core.nil' or self.r.random() > self.f('sink'): continue
            nm = 'sink_' + t.split('.')[1]; self.externs[nm] = ([t], 'core.nil'); x = self.fresh(); self.emit(f'{x} = func.call {v} {{callee = @{nm}}} : core.nil')
    def fun(self, name, ps, rt, cps=False, budget=8, depth=1):
        self.cur, self.budget, self.rt = name, budget, rt; vs = [(self.fresh(), t) for t in ps]; self.scopes = [list(vs)]
        at = ' attributes {tribute.calling_convention = 2}' if cps else ''
        self.lines.append(f'  func.func @{name}({", ".join(f"{v}: {self.irt(t)}" for v, t in vs)}) -> {self.irt(rt)}{at} {{')
        self.block(depth)
        for v, t in list(self.refs()):
            if self.r.random() < .35: self.use(v, t, 0)
        for v, t in vs:
            if self.isref(t) and self.r.random() < (.7 if self.f('focus') else .3): self.walk(v, t)
        self.sinks()
        if cps:
            k = [n for n in self.cpsh if n > name]
            if k and self.r.random() < .9:
                n = self.r.choice(k); args = []
                for t in self.hs[n][0]:
                    c = [q for q in zip(args, self.hs[n][0]) if self.isref(q[1]) and q[1][0] != '?' and self.r.random() < (.85 if self.f('focus') else .5)]; y = self.sub(*c[-1]) if c and self.isref(t) else None
                    d = [a for a, u in zip(args, self.hs[n][0]) if u == t and self.isref(u) and a not in self.handed and self.r.random() < .5]
                    if d: args.append(d[0]); continue
                    if self.f('focus') and t == 'S1' and self.r.random() < .5: self.newchain(); args.append(self.scopes[-1][-1][0]); continue
                    args.append(y[0] if y and y[1] == t else self.hand(self.val(t, 1, True)) if self.isref(t) else self.val(t))
                self.emit(f'func.tail_call {", ".join(args)}{" " if args else ""}{{callee = @{n}, tribute.calling_convention = 2}}')
            else: x = self.fresh(); self.emit(f'{x} = arith.const {{value = unit}} : core.nil'); self.emit(f'func.return {x}')
        elif rt == 'core.nil': x = self.fresh(); self.emit(f'{x} = arith.const {{value = unit}} : core.nil'); self.emit(f'func.return {x}')
        elif rt[:2] == 'T:':
            h = [v for v in self.have(rt[2:]) if v in self.counted and v not in self.stored]
            v = self.r.choice(h) if h and self.r.random() < .6 else self.make(rt[2:], 1, True); x = self.fresh(); self.emit(f'{x} = core.unrealized_conversion_cast {v} : {self.irt(rt)}'); self.emit(f'func.return {x}')
        else: self.emit(f'func.return {self.val(rt, 2, True) if self.isref(rt) else self.val(rt)}')
        self.lines.append('  }')
    def module(self):
        out = [f'  !{n} = {self.tytext(n)}' for n in self.tys] + self.extern_decls()
        for (t, tag), n in self.mk.items():
            fs = dict(self.tys[t])[tag]; ps = [f'%a{i}: {self.irt(f)}' for i, f in enumerate(fs)]; a = ', '.join(f'%a{i}' for i in range(len(fs))) + (' ' if fs else '')
            o = f'adt.struct_new {a}{{type = !{t}}}' if t[0] == 'S' else f'adt.variant_new {a}{{type = !{t}, tag = @{tag}}}'
            if self.f('wasm') and t[0] == 'S': o = f'{o} : !{t}\n    %s = core.unrealized_conversion_cast %t'
            out.append(f'  func.func @{n}({", ".join(ps)}) -> {REF} {{\n    {"%t" if self.f("wasm") and t[0] == "S" else "%s"} = {o} : {REF}\n    func.return %s\n  }}')
        return 'core.module @m {\n' + '\n'.join(out + self.lines) + '\n}\n'

def program(seed, cls=A, **k):
    g = cls(seed, **k); r = g.r; g.hs, g.cpsh = {}, []
    g.helpers = [f'h{i}' for i in range(r.randint(0, 3))]; g.clos = [f'c{i}' for i in range(r.randint(1, 2))] if 'SCL' in g.tys else []
    sig = lambda n: [g.kind() if r.random() < .65 else r.choice(['core.i32', 'core.i64', 'core.i1', 'core.f64'] + (['core.i8'] if not g.f('wasm') else [])) for _ in range(r.randint(1, n))]
    if g.f('focus'): sig0 = sig; sig = lambda n: (['S1', 'S0'] + ([r.choice(['S0', 'S0', 'S1', g.kind()])] if r.random() < .4 else [])) if r.random() < .6 else sig0(n)
    for n in g.helpers: g.hs[n] = (sig(3), g.kind().replace('T:', r.choice(['', 'T:']) if g.f('tret') else '') if r.random() < .5 else r.choice(['core.i32', 'core.i64', 'core.i1', 'core.f64']))
    if g.f('cpsr') and r.random() < (.7 if g.f('focus') else .4):
        for i in range(r.randint(1, 2)): n = f'k{i}'; g.cpsh.append(n); g.hs[n] = (sig(3), 'core.nil')
    esig = [r.choice(['core.i32', 'core.i64', 'core.i1', 'core.f64'] + (['core.i8', 'core.i16'] if not g.f('wasm') else [])) for _ in range(r.randint(1, 4))]
    cps = bool(g.cpsh) and r.random() < .8
    g.fun('entry', esig, 'core.nil' if cps else r.choice(['core.i32', 'core.i64', 'core.i1', 'core.f64', 'core.nil']), cps, r.choice([4, 8, 12, 16] if not g.f('focus') else [1, 2, 3, 4]), r.choice([1, 2, 2, 3] if not g.f('focus') else [0, 1, 1]))
    for n in g.helpers + g.cpsh: g.fun(n, *g.hs[n], n in g.cpsh, r.choice([2, 4, 8] if not g.f('focus') else [1, 2, 3]), r.choice([0, 1, 2] if not g.f('focus') else [0, 0, 1]))
    for n in g.clos: g.fun(n, ['S0', 'core.i64'], 'core.i64', False, r.choice([2, 4]), r.choice([0, 1]))
    return g.module()
if __name__ == '__main__':
    import sys
    print(program(int(sys.argv[1])))
