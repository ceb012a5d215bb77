"""Programs with effects at the level where handlers are installed and operations dispatched: the meaning of evidence (a persistent stack of
handlers), of fn operations (the innermost handler of the ability answers), of op operations (that handler gets the continuation), and programs
that install, shadow, pass on and use handlers."""
import random, zlib
import heap, native, closures_, sem
from sem import *
from adtgen import REF

MARK = 'adt.struct() {name = @_Marker, fields = [[@ability_id, core.i32], [@prompt_tag, core.i32], [@tr_dispatch_fn, core.ptr], [@handler_dispatch, core.ptr]]}'
EV = f'core.array({MARK})'
class Evi:
    """evidence: handlers, innermost first: (ability, tag, tail dispatcher, general dispatcher)"""
    def __init__(self, l): self.l = l
    def diff(self, o): return not (isinstance(o, Evi) and o is self)
def opid(ability, op): return zlib.crc32(f'{ability}.{op}'.encode()) & 0x7fffffff

class EPre(closures_.KPre):
    def isev(self, t): return self.m.types[t]['n'] == 'array' and 'p' in self.m.types[t] and any(self.m.types[p]['a'].get('name', {}).get('v') == '_Marker' for p in self.m.types[t]['p'])
    def op_adt_ref_null(self, st, op):
        if self.isev(op['o'][0][1]): self.setr(st, op, Evi(()))
        else: super().op_adt_ref_null(st, op)
    def op_adt_array_new(self, st, op):
        if not self.isev(op['o'][0][1]): raise Unsupported('array')
        self.setr(st, op, Evi(()))
    def op_arith_const(self, st, op):
        if 'verif.op' in op['a']: self.setr(st, op, opid(op['a']['verif.ability']['v'], op['a']['verif.op']['v']))
        else: super().op_arith_const(st, op)
    def ability(self, op): return op['a']['ability_ref']['v']
    def op_effect_extend(self, st, op):
        e, tag, tr, h = self.ins(st, op); self.setr(st, op, Evi(((self.ability(op), tag, tr, h),) + e.l))
    def find(self, e, a):
        for x in e.l:
            if x[0] == a: return x
        raise Excluded()
    def run(self, *a): return super().run(*a)
    def invoke(self, st, c, args, ret):
        o = self.obj(st, c)
        if o[0] != 'closure' or len(st.frames) > 60: raise Excluded()
        l = o[1]; self.enter_fn(st, dict(r=l['r'], a=dict(sym_name=dict(v='lambda'))), args, ret)
        for (v, _), x in zip(l['i'], o[2]): st.frames[-1].env[v] = x
    def name(self, op): return self.m.types[self.ability(op)]['a']['name']['v']
    def op_effect_dispatch_tail(self, st, op, e=None, payload=None):
        if e is None: e, payload = self.ins(st, op)
        x = self.find(e, self.ability(op)); self.invoke(st, x[2], [e, opid(self.name(op), op['a']['op_name']['v']), payload], op)
    def op_effect_dispatch_cps(self, st, op, e=None, k=None, payload=None, ret=None):
        if e is None: e, k, payload = self.ins(st, op)
        x = self.find(e, self.ability(op)); self.invoke(st, x[3], [e, k, x[1], opid(self.name(op), op['a']['op_name']['v']), payload], ret or op)
    def evidence(self, st):
        for f in reversed(st.frames):
            for v, x in f.env.items():
                if isinstance(x, Evi): return x
            if f.kind == 'fn': break
        raise Excluded()
    def pack(self, st, op, args): return st.mem.new(('payload',) + tuple(t for _, t in op['i'][-len(args):] if args), None, args)
    def op_ability_call(self, st, op): self.op_effect_dispatch_tail(st, op, self.evidence(st), self.pack(st, op, self.ins(st, op)))
    def op_ability_perform(self, st, op):
        k, *args = self.ins(st, op); self.op_effect_dispatch_cps(st, op, self.evidence(st), k, self.pack(st, op, args), 'tail' if st.frames[-1].kind == 'fn' else op)
    def op_ability_handle_dispatch(self, st, op):
        e, *d = self.ins(st, op); (tag,) = self.docall(st, op, 'call', '__tribute_next_tag', [], [], [self.i32()])
        refs = [x['v'] for x in op['a']['ability_refs']['v']]; l = e.l
        for a, i in zip(refs, range(0, len(d), 2)): l = ((a, tag, d[i], d[i + 1]),) + l
        self.enter_region(st, op['r'][0], 'if', op); st.frames[-1].env[op['r'][0][0]['args'][0][0]] = Evi(l)
    def i32(self): return next(i for i, t in enumerate(self.m.types) if t['n'] == 'i32')
    def op_adt_struct_get(self, st, op):
        (a,) = self.ins(st, op); o = self.obj(st, a)
        if isinstance(o[0], tuple) and o[0][0] == 'payload' and [t for _, t in self.fields(op['a']['type']['v'])] == list(o[0][1:]): self.setr(st, op, o[2][int(op['a']['field']['v'])]); return
        super().op_adt_struct_get(st, op)

class EHeap(heap.Heap):
    def __init__(self): super().__init__(); self.ev = {}
    def clone(self):
        h = super().clone(); n = EHeap(); n.__dict__.update(h.__dict__); n.ev = dict(self.ev); return n
class EPost(heap.HeapEv):
    """the evidence functions of the runtime by their contract (C01)"""
    def newmem(self): return EHeap()
    def evi(self, st, a):
        if a not in st.mem.ev: raise heap.Fault('evidence expected')
        return st.mem.ev[a]
    def runtime(self, st, op, nm, args):
        if not nm.startswith('__tribute_evidence_'): return super().runtime(st, op, nm, args)
        k = nm[19:]
        if k == 'empty': a = st.mem.alloc(40); st.mem.ev[a] = (); self.setr(st, op, a); return True
        l = self.evi(st, args[0])
        if not isc(args[1]): raise Unsupported('symbolic ability')
        if k == 'extend': a = st.mem.alloc(40); st.mem.ev[a] = (tuple(args[1:]),) + l; self.setr(st, op, a); return True
        x = next((x for x in l if x[0] == args[1]), None)
        if x is None: raise heap.Fault('no handler of this ability is installed')
        self.setr(st, op, x[dict(lookup=1, lookup_tr=2, lookup_handler=3)[k]]); return True

class ESpec(closures_.KSpec):
    def __init__(self, policy='bt', opt=True, inl=False, reuse=False, **k):
        super().__init__(policy, opt, reuse=reuse, **k)
        self.Ev, self.before = EPre, ['physical', 'effect_ops']
        self.EvPost = type('EPostX', (EPost,), dict(reuse=reuse, leaks=False, deep=False))
        rest = [p for p in self.passes if p not in ('lower_closure_lambda', 'closure_lower')]
        self.passes = ['lower_closure_lambda', 'closure_lower', 'lower_ability_perform', 'tail_resumptive', 'resolve_evidence', 'lower_handle_dispatch'] + (['inline'] if inl else []) + ['evidence_to_native'] + (['canonicalize_pass', 'dce_pass', 'casts_generic'] if inl else []) + rest
def mkspec(policy='bt', opt=True, **k): return ESpec(policy, opt, **k)

C1 = '{tribute.calling_convention = 1}'
BOXT = dict(box_int='core.i32', box_nat='core.i32', box_bool='core.i1', box_float='core.f64')
SC = ['core.i32', 'core.i64', 'core.f64', 'core.i1', 'core.i8', 'core.i16']
class G:
    def __init__(self, seed, hd=False):
        self.r = r = random.Random(seed); self.n = 0; self.L = []; self.ind = 1; self.hd = hd
        self.ab = []; names = ['Console', 'State', 'Reader', 'Abort']; r.shuffle(names)
        for i in range(r.choice([1, 2, 2, 3, 3, 4])):
            nm = r.choice(names[:2]); ps = r.choice([[], [], ['core.i64'], ['core.i32'], ['core.f64'], ['core.i64', 'core.i32'], ['core.i32', 'core.i64'], ['!S0'], ['!S1'], ['core.array(core.i64)'], ['core.array(core.i32)']])
            if any(a[:2] == (nm, ps) for a in self.ab): continue
            ops = []
            for j in range(r.choice([1, 2, 2, 3])): ops.append((r.choice(['get', 'put', 'ask', 'tell', 'stop', 'next'][:4]) + str(j), r.random() < .6, [r.choice(SC + ['S']) for _ in range(r.choice([0, 1, 1, 2, 3]))], r.choice(list(BOXT))))
            self.ab.append((nm, ps, ops))
        self.fn = []
    def v(self): self.n += 1; return f'%v{self.n}'
    def e(self, s): self.L.append('  ' * self.ind + s)
    def irt(self, t): return REF if t == 'S' else t
    # -- scalar values of the scope
    def val(self, sc, t):
        r = self.r; h = [v for v, u in sc if u == t]
        if h and r.random() < .8: return r.choice(h[-6:])
        x = self.v()
        if t == 'S': a = self.val(sc, 'core.i64'); b = self.val(sc, 'core.i8'); self.e(f'{x} = func.call {a}, {b} {{callee = @mk}} : {REF}')
        elif t == 'core.i1': a = self.val(sc, 'core.i32'); b = self.val(sc, 'core.i32'); self.e(f'{x} = arith.cmpi {a}, {b} {{predicate = @slt}} : core.i1')
        elif h and t != 'core.f64': self.e(f'{x} = arith.{r.choice(["addi", "subi", "xor"])} {r.choice(h)}, {r.choice(h)} : {t}')
        else: self.e(f'{x} = arith.const {{value = {self.n + .5 if t == "core.f64" else self.n % 128}}} : {t}')
        sc.append((x, t)); return x
    def note(self, sc):
        if self.r.random() < .5 or not sc: x = self.v(); self.e(f'{x} = arith.const {{value = {self.n}}} : core.i32'); self.e(f'{self.v()} = func.call {x} {{callee = @sink_i32}} : core.nil'); return
        x, t = self.r.choice([q for q in sc if q[1] != 'S'] or [(self.val(sc, 'core.i8'), 'core.i8')]); self.e(f'{self.v()} = func.call {x} {{callee = @sink_{t[5:]}}} : core.nil')
    def ret(self, sc, box):
        a = self.val(sc, BOXT[box]); x = self.v(); self.e(f'{x} = tribute_rt.{box} {a} : {REF}'); return x
    def unbox(self, sc, x, box): y = self.v(); self.e(f'{y} = tribute_rt.un{box} {x} : {BOXT[box]}'); sc.append((y, BOXT[box]))
    def payload(self, sc, p, types):
        for i, t in enumerate(types):
            if self.r.random() < .85:
                y = self.v(); self.e(f'{y} = adt.struct_get {p} {{type = {self.pty(types)}, field = {i}}} : {self.irt(t)}'); sc.append((y, t))
                if t == 'S': z = self.v(); self.e(f'{z} = adt.struct_get {y} {{type = !S, field = 0}} : core.i64'); sc.append((z, 'core.i64'))
    def pty(self, types): return f'adt.struct() {{name = @Pay{len(types)}, fields = [{", ".join(f"[@arg{i}, {self.irt(t)}]" for i, t in enumerate(types))}]}}'
    def aref(self, i): nm, ps, _ = self.ab[i]; return f'core.ability_ref({", ".join(ps)}) {{name = @{nm}}}'
    def fnop(self, sc, i, ev):
        """use of a fn operation"""
        nm, ps, ops = self.ab[i]; o = [x for x in ops if x[1]]
        if not o: return
        n, _, types, box = self.r.choice(o); args = [self.val(sc, t) for t in types]; x = self.v()
        self.e(f'{x} = ability.call {", ".join(args)}{" " if args else ""}{{ability_ref = {self.aref(i)}, op_name = @{n}}} : {REF}'); self.unbox(sc, x, box)
    def stmts(self, sc, avail, ev, lev, d=0):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 4] if d == 0 else [0, 1])):
            k = r.random()
            if k < .5 and avail: self.fnop(sc, r.choice(sorted(avail)), ev)
            elif k < .62: self.note(sc)
            elif k < .8 and (f := [g for g in self.fn if g[2] <= avail and g[4] < lev and (d == 0 or g[3])]):
                g = r.choice(f); self.call(sc, g, ev)
            elif d < 1:
                c = self.val(sc, 'core.i1'); t = r.choice(['core.i32', 'core.i64']); y = self.v(); self.e(f'{y} = scf.if {c} : {t} {{')
                for b in (0, 1):
                    self.ind += 1; s = list(sc); self.stmts(s, avail, ev, lev, d + 1); self.e(f'scf.yield {self.val(s, t)}'); self.ind -= 1; self.e('} {' if b == 0 else '}')
                sc.append((y, t))
    def call(self, sc, g, ev):
        if g[3] is None: args = [self.val(sc, t) for t in g[1]]; self.e(f'{self.v()} = func.call {", ".join([ev] + args)} {{callee = @{g[0]}, tribute.calling_convention = 2}} : core.nil'); return
        args = [self.val(sc, t) for t in g[1]]; x = self.v(); self.e(f'{x} = func.call {", ".join([ev] + args)} {{callee = @{g[0]}}} : {REF}'); self.unbox(sc, x, g[3])
    def lam(self, sc, params, body, cap=True):
        r = self.r; x = self.v(); caps = r.sample(sc, min(len(sc), r.choice([0, 1, 2, 3]))) if cap else []
        ps = [(self.v(), t) for t in params]
        self.e(f'{x} = closure.lambda({", ".join(f"{v}: {t}" for v, t in ps)}) -> {REF} {C1}' + (f' [{", ".join(v for v, _ in caps)}]' if caps else '') + ' {')
        self.ind += 1; body(list(caps), [v for v, _ in ps]); self.ind -= 1; self.e('}'); return x
    def dispatcher(self, sc, i, cps, avail, lev):
        """a dispatcher over the operations of an ability: compares the operation with each one it knows"""
        nm, ps, ops = self.ab[i]; todo = [o for o in ops if o[1] != cps]; self.r.shuffle(todo); r = self.r
        def body(caps, p):
            ev, o, pay = p[0], p[-2], p[-1]
            def clause(j, c):
                n, _, types, box = todo[j]; s = list(c); self.payload(s, pay, types); self.stmts(s, avail, ev, lev, 1); self.note(s)
                if not cps: return self.ret(s, box)
                if r.random() < .5: s.append((p[2], 'core.i32'))
                x = self.ret(s, box)
                if r.random() < .25: return self.ret(s, self.final)
                kk = self.v(); self.e(f'{kk} = core.unrealized_conversion_cast {p[1]} : !K'); y = self.v(); self.e(f'{y} = func.call_indirect {kk}, {ev}, {x} {C1} : {REF}')
                if r.random() < .3: self.unbox(s, y, self.final); self.note(s); return self.ret(s, self.final)
                if r.random() < .3: z = self.v(); self.e(f'{z} = func.call_indirect {kk}, {ev}, {x} {C1} : {REF}'); return z
                return y
            def chain(j, c):
                if j == len(todo): return self.ret(list(c), self.final if cps else 'box_int')
                k, t, y = self.v(), self.v(), self.v()
                self.e(f'{k} = arith.const {{value = 0, verif.ability = @{nm}, verif.op = @{todo[j][0]}}} : core.i32'); self.e(f'{t} = arith.cmpi {o}, {k} {{predicate = @eq}} : core.i1'); self.e(f'{y} = scf.if {t} : {REF} {{')
                self.ind += 1; a = clause(j, c); self.e(f'scf.yield {a}'); self.ind -= 1; self.e('} {'); self.ind += 1; a = chain(j + 1, c); self.e(f'scf.yield {a}'); self.ind -= 1; self.e('}')
                return y
            self.e(f'func.return {chain(0, caps)}')
        return self.lam(sc, ['!EV'] + ([REF, 'core.i32'] if cps else []) + ['core.i32', REF], body)
    def fun(self, name, lev):
        r = self.r; ps = [r.choice(SC) for _ in range(r.choice([0, 1, 2, 3]))]; avail = frozenset(i for i in range(len(self.ab)) if r.random() < .6)
        return name, ps, avail, self.final, lev
    def body(self, g):
        r = self.r; name, ps, avail, box, lev = g; vs = [(self.v(), t) for t in ps]
        self.ind = 1; self.e(f'func.func @{name}({", ".join(["%ev: !EV"] + [f"{v}: {t}" for v, t in vs])}) -> {REF} {{'); self.ind = 2; sc = list(vs)
        self.stmts(sc, avail, '%ev', lev); self.finish(sc, avail, '%ev', lev); self.ind = 1; self.e('}')
    def handler(self, g):
        """a function that runs another one under handlers it installs for the time of that call"""
        r = self.r; name, ps, avail, box, lev = g; vs = [(self.v(), t) for t in ps]; A = ' attributes {tribute.calling_convention = 2} {'
        self.ind = 1; self.e(f'func.func @{name}({", ".join(["%ev: !EV"] + [f"{v}: {t}" for v, t in vs])}) -> core.nil' + A); self.ind = 2; sc = list(vs)
        self.stmts(sc, avail, '%ev', lev); js = r.sample(range(len(self.ab)), r.randint(1, len(self.ab))); d = []
        for i in js:
            low = frozenset(a for a in avail if a < i); d += [self.dispatcher(sc, i, False, low, lev), self.dispatcher(sc, i, True, low, lev)]
        self.e(f'ability.handle_dispatch {", ".join(["%ev"] + d)} {{ability_refs = [{", ".join(self.aref(i) for i in js)}]}} {{'); e2 = self.v(); self.e(f'  ^b(%{e2[1:]}: !EV):'); self.ind += 2
        bp = [r.choice(SC) for _ in range(r.choice([0, 1, 2, 3]))]; args = [self.val(sc, t) for t in bp]
        self.e(f'func.tail_call {", ".join([e2] + args)} {{callee = @{name}b, tribute.calling_convention = 2}}'); self.ind = 2; self.e('}'); self.ind = 1; self.e('}')
        vs = [(self.v(), t) for t in bp]; self.e(f'func.func @{name}b({", ".join(["%ev: !EV"] + [f"{v}: {t}" for v, t in vs])}) -> core.nil' + A); self.ind = 2; sc = list(vs)
        av = avail | frozenset(js); self.stmts(sc, av, '%ev', lev); f = [g for g in self.fn if g[2] <= av and g[4] < lev]
        if f: self.call(sc, r.choice(f), '%ev')
        self.note(sc); u = self.v(); self.e(f'{u} = arith.const {{value = unit}} : core.nil'); self.e(f'func.return {u}'); self.ind = 1; self.e('}')
    def finish(self, sc, avail, ev, lev, d=0):
        """the last thing a function does"""
        r = self.r; k = r.random(); cpsops = [(i, o) for i in sorted(avail) for o in self.ab[i][2] if not o[1]]
        if k < .4 and cpsops:
            i, (n, _, types, box) = r.choice(cpsops); args = [self.val(sc, t) for t in types]
            def body(caps, p):
                s = list(caps); self.unbox(s, p[1], box); self.stmts(s, avail, p[0], lev, 1); self.note(s)
                if d < 2: self.finish(s, avail, p[0], lev, d + 1)
                else: self.e(f'func.return {self.ret(s, self.final)}')
            kk = self.lam(sc, ['!EV', REF], body); x = self.v()
            self.e(f'{x} = ability.perform {", ".join([kk] + args)} {{ability_ref = {self.aref(i)}, op_name = @{n}}} : {REF}'); self.e(f'func.return {x}'); return
        self.e(f'func.return {self.ret(sc, self.final)}')
    def install(self, sc, ev, js, avail, lev):
        """extends the evidence for the abilities js; the handlers may use what is available outside"""
        for i in js:
            low = frozenset(a for a in avail if a < i)
            tr = self.dispatcher(sc, i, False, low, lev); h = self.dispatcher(sc, i, True, low, lev); t = self.val(sc, 'core.i32') if self.r.random() < .6 else self.v()
            if not any(v == t for v, _ in sc): self.e(f'{t} = arith.const {{value = {self.r.randint(0, 9)}}} : core.i32')
            x = self.v(); self.e(f'{x} = effect.extend {ev}, {t}, {tr}, {h} {{ability_ref = {self.aref(i)}}} : !EV'); ev = x
        return ev
    def module(self):
        r = self.r; self.final = r.choice(list(BOXT)); allab = frozenset(range(len(self.ab)))
        for lev in range(r.choice([1, 2, 3] if not self.hd else [2, 3, 4])):
            for _ in range(r.choice([1, 2])): g = self.fun(f'g{len(self.fn)}', lev); self.body(g); self.fn.append(g)
            if self.hd and lev: g = self.fun(f'h{len(self.fn)}', lev); g = g[:3] + (None,) + g[4:]; self.handler(g); self.fn.append(g)
        ps = [(self.v(), r.choice(['core.i32', 'core.i64', 'core.f64', 'core.i1', 'core.i8'])) for _ in range(r.choice([3, 4, 6]))]
        self.e(f'func.func @entry({", ".join(f"{v}: {t}" for v, t in ps)}) -> {BOXT[self.final]} {{'); self.ind = 2; sc = list(ps)
        ev = self.v(); self.e(f'{ev} = adt.ref_null {{type = !EV}} : !EV' if r.random() < .6 else f'{ev} = adt.array_new {{type = !EV}} : !EV')
        js = sorted(allab); ev1 = self.install(sc, ev, js, frozenset(), 0); evs = [ev1]
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .6: evs.append(self.install(sc, r.choice(evs), [r.choice(js)], allab, r.choice([0, 1])))
            self.call(sc, r.choice(self.fn), r.choice(evs)); self.note(sc)
        self.call(sc, self.fn[-1], r.choice(evs)); self.e(f'func.return {self.val(sc, BOXT[self.final])}'); self.ind = 1; self.e('}')
        return '\n'.join(['core.module @m {', f'  !EV = {EV}', f'  !K = closure.closure(core.func({REF}, !EV, {REF}))', '  !S = adt.struct() {name = @S, fields = [[@f0, core.i64], [@f1, core.i8]]}', '  !S0 = adt.struct() {name = @S0, fields = [[@f0, core.i64]]}', '  !S1 = adt.struct() {name = @S1, fields = [[@f0, core.i64]]}',
            f'  func.func @mk(%a: core.i64, %b: core.i8) -> {REF} {{', f'    %s = adt.struct_new %a, %b {{type = !S}} : {REF}', '    func.return %s', '  }']
            + [f'  func.func @sink_{t[5:]}(%p: {t}) -> core.nil attributes {{abi = "C"}} {{\n    func.unreachable\n  }}' for t in SC] + self.L + ['}', ''])
def program(seed, **k): return G(seed, **k).module()
