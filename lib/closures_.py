"""Programs with lambdas: the meaning of a closure (the body runs with the captured values of its creation) and programs that create, pass,
store, return and call them under every calling convention."""
import re
import heap, adtgen, native, tv, sem
from sem import *
from adtgen import NoVal, REF

class KPre(heap.HeapPre):
    def op_closure_lambda(self, st, op): self.setr(st, op, st.mem.new('closure', op, self.ins(st, op)))
    def op_closure_new(self, st, op): self.setr(st, op, st.mem.new('closure', op, self.ins(st, op)))
    def kcall(self, st, op, ret):
        c, *args = self.ins(st, op)
        if not isinstance(c, heap.Obj): return False
        o = self.obj(st, c)
        if o[0] != 'closure': raise Excluded()
        if len(st.frames) > 60: raise TooBig()
        l = o[1]
        if l['n'] == 'new':
            f = self.m.funcs[l['a']['func_ref']['v']]; k = int(l['a'].get('verif.env', dict(v=0))['v']); args.insert(k, o[2][0])
            self.enter_fn(st, f, args, ret); return True
        nk = lambda t: 'K' if str(t).startswith(('closure.', 'core.func')) else t
        if [nk(t) for _, t in l['r'][0][0]['args']] != [nk(t) for _, t in op['i'][1:]]: raise Excluded()
        self.enter_fn(st, dict(r=l['r'], a=dict(sym_name=dict(v='lambda'))), args, ret)
        for (v, _), x in zip(l['i'], o[2]): st.frames[-1].env[v] = x
        return True
    def op_func_call_indirect(self, st, op):
        if not self.kcall(st, op, op): return super().op_func_call_indirect(st, op)
    def op_func_tail_call_indirect(self, st, op):
        if not self.kcall(st, op, 'tail'): return super().op_func_tail_call_indirect(st, op)

class KSpec(heap.HeapSpec):
    def __init__(self, policy='bt', opt=True, inl=False, **k):
        super().__init__(policy, opt, **k)
        self.Ev, self.before = KPre, ['physical']
        # a closure handed to a function of other linkage: any object
        self.relate = lambda x, w1, y, w2: False if isinstance(x, heap.Obj) and isinstance(y, int) and y else native.relate(x, w1, y, w2)
        self.passes = ['lower_closure_lambda', 'closure_lower'] + (['inline', 'canonicalize_pass', 'dce_pass', 'casts_generic'] if inl else []) + self.passes
def mkspec(policy='bt', opt=True, **k): return KSpec(policy, opt, **k)

CONV = 'tribute.calling_convention'
class KG(adtgen.A):
    """closure kinds 'K<i>': parameters, result, convention (None: untagged), environment slot of a physical closure type (None: no exact type)"""
    def __init__(self, seed, **k):
        k.setdefault('clo', 0.0); k.setdefault('cpsr', False)
        for a, d in (('kf', True), ('funcp', True), ('phys', .35)): k.setdefault(a, d)
        super().__init__(seed, **k); r = self.r; self.ks = {}; self.klev = 0; self.nk = 0; self.pend = []
        sc = ['core.i8', 'core.i16', 'core.i32', 'core.i64', 'core.f64', 'core.i1'] if not self.f('wasm') else ['core.i32', 'core.i64', 'core.f64', 'core.i1']; o = [t for t in self.tys if k.get('kobj', True)] + list(adtgen.BOX)
        for i in range(r.randint(1, 4)):
            ps = [r.choice(sc * 2 + o + list(self.ks)) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]; rt = r.choice(sc * 2 + o + list(self.ks))
            cv = r.choice([None, 0, 0, 0, 1, 1]); env = None
            if cv == 1 and not ps: ps = ['core.i64']
            if cv is not None and r.random() < k['phys']: env = r.randint(0, len(ps)) if r.random() < .5 else cv
            # an exact type asks for exact types of the closures it is given
            if env is not None: ps = [p if p not in self.ks or self.ks[p][3] is not None else r.choice(sc) for p in ps]
            self.ks[f'K{i}'] = (ps, rt, cv, env)
        if k['kf'] and r.random() < .5: self.tys['S8'] = [('', [r.choice(list(self.ks) + ['core.i64']) for _ in range(r.randint(1, 3))])]
    def kfun(self, t): ps, rt, cv, env = self.ks[t]; return f'core.func({", ".join([self.irt(rt)] + [self.irt(p) for p in ps])})'
    def irt(self, t):
        if t in getattr(self, 'ks', {}): return '!' + t
        if t[:2] == 'F:': return self.kfun(t[2:])
        return super().irt(t)
    def prm(self, t):
        # the type a parameter is declared with: functions as core.func or closure.closure
        return self.kfun(t) if t in self.ks and self.ks[t][3] is None and self.ks[t][2] is not None and self.f('funcp') and self.r.random() < .4 else self.irt(t)
    def fun(self, name, ps, rt, *a):
        n = len(self.lines); super().fun(name, ps, rt, *a)
        cap = set(re.findall(r'%\w+', ' '.join(re.findall(r'\[(%[^\]]*)\] \{$', '\n'.join(self.lines[n:]), re.M)))) if self.f('wasm') else ()
        self.lines[n] = re.sub(r'(%\w+): !(K\d+)', lambda m: m[0] if m[1] in cap else m[1] + ': ' + self.prm(m[2]), self.lines[n].split(') -> ')[0]) + ') -> ' + self.lines[n].split(') -> ', 1)[1]
    def ktext(self, t): cv, env = self.ks[t][2:]; return f'closure.closure({self.kfun(t)})' + (f' {{{CONV} = {cv}, tribute.closure_environment_index = {env}}}' if env is not None else '')
    def kind(self):
        r = self.r
        return r.choice(list(self.ks)) if r.random() < .5 else super().kind()
    def val(self, t, deep=3, own=False):
        if t in self.ks and not ((h := self.have(t)) and self.r.random() < (.75 if self.klev < 2 else 1)): return self.make(t, deep)
        if t[:2] == 'F:': return self.r.choice(self.have(t)) if self.have(t) else self.val(t[2:], deep, own)
        return super().val(t, deep, own)
    def make(self, t, deep, call=False):
        if t not in self.ks: return super().make(t, deep, call)
        r = self.r; ps, rt, cv, env = self.ks[t]
        if self.klev >= 3: raise NoVal()
        if r.random() < .12 and env is None and cv is not None and self.klev == 0 and 'S0' in self.tys:
            # a closure over a top-level function that takes an environment
            n = f'g{self.nk}'; self.nk += 1; self.pend.append((n, t)); e = self.val('S0', 1); y = self.fresh()
            self.emit(f'{y} = closure.new {e} {{func_ref = @{n}, {CONV} = {cv}, verif.env = {cv}}} : {self.irt(t)}'); return self.put(y, t)
        vis = [(v, u) for s in self.scopes for v, u in s if u != 'core.nil']; caps = r.sample(vis, min(len(vis), r.choice([0, 1, 1, 2, 2, 3, 4])))
        if r.random() < .3 and vis: caps = caps + [vis[-1]] if vis[-1] not in caps else caps
        y = self.fresh(); args = [(self.fresh(), p) for p in ps]; at = ([f'{CONV} = {cv}'] if cv is not None else []) + ([f'verif.type = {self.irt(t)}'] if env is not None else [])
        self.emit(f'{y} = closure.lambda({", ".join(f"{v}: {self.prm(p) if not self.f('wasm') else self.irt(p)}" for v, p in args)}) -> {self.irt(rt)}' + (f' {{{", ".join(at)}}}' if at else '') + (f' [{", ".join(v for v, _ in caps)}]' if caps else '') + ' {')
        sv = self.scopes, self.budget, self.rt; self.scopes = [list(caps) + args]; self.budget = r.choice([0, 1, 2, 4]); self.klev += 1; self.ind += 1
        if self.budget: self.block(r.choice([0, 0, 1]))
        self.sinks(); self.emit(f'func.return {self.val(rt, 1, True) if self.isref(rt) else self.val(rt)}')
        self.scopes, self.budget, self.rt = sv; self.klev -= 1; self.ind -= 1; self.emit('}')
        return self.put(y, t)
    def use(self, v, t, depth):
        if t[:2] == 'F:': t = t[2:]
        if t in self.ks:
            ps, rt, cv, env = self.ks[t]; args = [self.val(p, 1) if self.isref(p) else self.val(p) for p in ps]; y = self.fresh()
            self.emit(f'{y} = func.call_indirect {", ".join([v] + args)}' + (f' {{{CONV} = {cv}}}' if cv is not None else '') + f' : {self.irt(rt)}'); self.put(y, rt); return
        super().use(v, t, depth)
    def sinks(self):
        for v, t in list(self.scopes[-1]):
            if t in self.ks and self.klev < 2 and self.r.random() < .5: self.use(v, t, -1)
        super().sinks()
    def module(self):
        while self.pend:
            n, t = self.pend.pop(0); ps, rt, cv, env = self.ks[t]; ps = list(ps); ps.insert(cv, 'S0'); self.fun(n, ps, rt, False, 3, 0)
        h, rest = super().module().split('\n', 1)
        return '\n'.join([h] + [f'  !{k} = {self.ktext(k)}' for k in self.ks] + [rest])
def program(seed, **k): return adtgen.program(seed, cls=KG, **k)

C0 = '{tribute.calling_convention = 0}'
def corpus():
    out = []; m = lambda *l: 'core.module @m {\n' + '\n'.join(l) + '\n}\n'
    sink = lambda t: f'  func.func @sink_{t.split(".")[1]}(%p0: {t}) -> core.nil attributes {{abi = "C"}} {{\n    func.unreachable\n  }}'
    sc = ['core.i1', 'core.i8', 'core.i16', 'core.i32', 'core.i64', 'core.f32', 'core.f64']
    # every type captured, passed and returned, at every position
    for i, t in enumerate(sc):
        o = sc[(i + 3) % len(sc)]
        for cv in (None, 0, 1):
            a = f' {{tribute.calling_convention = {cv}}}' if cv is not None else ''
            out.append((f'capture {t} convention {cv}', m(sink(o), f'  func.func @entry(%x: {t}, %y: {o}, %z: {t}) -> {t} {{', f'    %k = closure.lambda(%p: {o}, %q: {t}) -> {t}{a} [%y, %x, %z] {{',
                f'      %n = func.call %y {{callee = @sink_{o.split(".")[1]}}} : core.nil', f'      %o = func.call %p {{callee = @sink_{o.split(".")[1]}}} : core.nil', '      func.return %z', '    }',
                f'    %r = func.call_indirect %k, %y, %x{a} : {t}', '    func.return %r', '  }')))
    # a lambda of a lambda of a lambda, each capturing from all enclosing levels
    out.append(('three levels', m(f'''  !K0 = closure.closure(core.func(core.i64, core.i64))
  !K1 = closure.closure(core.func(!K0, core.i64))
  func.func @entry(%a: core.i64, %b: core.i64) -> core.i64 {{
    %k = closure.lambda(%p: core.i64) -> !K1 {C0} [%a] {{
      %l = closure.lambda(%q: core.i64) -> !K0 {C0} [%a, %p] {{
        %m = closure.lambda(%r: core.i64) -> core.i64 {C0} [%q, %p, %a] {{
          %s = arith.subi %a, %p : core.i64
          %t = arith.subi %q, %r : core.i64
          %u = arith.muli %s, %t : core.i64
          func.return %u
        }}
        func.return %m
      }}
      func.return %l
    }}
    %x = func.call_indirect %k, %b {C0} : !K1
    %y = func.call_indirect %x, %a {C0} : !K0
    %z = func.call_indirect %y, %b {C0} : core.i64
    func.return %z
  }}''')))
    # two creations of one lambda with different captured values, and a lambda created on every round of a loop
    out.append(('two creations', m(f'''  !K0 = closure.closure(core.func(core.i64, core.i64))
  func.func @adder(%n: core.i64) -> !K0 {{
    %k = closure.lambda(%x: core.i64) -> core.i64 {C0} [%n] {{
      %r = arith.subi %x, %n : core.i64
      func.return %r
    }}
    func.return %k
  }}
  func.func @twice(%f: core.func(core.i64, core.i64), %x: core.i64) -> core.i64 {{
    %a = func.call_indirect %f, %x {C0} : core.i64
    %b = func.call_indirect %f, %a {C0} : core.i64
    func.return %b
  }}
  func.func @entry(%a: core.i64, %b: core.i64) -> core.i64 {{
    %f = func.call %a {{callee = @adder}} : !K0
    %g = func.call %b {{callee = @adder}} : !K0
    %x = func.call %f, %b {{callee = @twice}} : core.i64
    %y = func.call %g, %x {{callee = @twice}} : core.i64
    %z = func.call_indirect %f, %y {C0} : core.i64
    func.return %z
  }}''')))
    out.append(('function parameter captured', m(f'''  func.func @apply(%f: core.func(core.i64, core.i64, core.i32), %x: core.i64) -> core.i64 {{
    %k = closure.lambda(%y: core.i32) -> core.i64 {C0} [%x, %f] {{
      %r = func.call_indirect %f, %x, %y {C0} : core.i64
      func.return %r
    }}
    %c = arith.const {{value = -7}} : core.i32
    %r = func.call_indirect %k, %c {C0} : core.i64
    func.return %r
  }}
  func.func @entry(%a: core.i64, %b: core.i64) -> core.i64 {{
    %f = closure.lambda(%x: core.i64, %y: core.i32) -> core.i64 {C0} [%b] {{
      %w = arith.extend %y : core.i64
      %s = arith.muli %w, %b : core.i64
      %t = arith.subi %s, %x : core.i64
      func.return %t
    }}
    %r = func.call %f, %a {{callee = @apply}} : core.i64
    func.return %r
  }}''')))
    # functions of other linkage that take functions keep their linkage
    out.append(('external function with a function parameter', m(f'''  func.func @ext(%f: core.func(core.i32, core.i32), %x: core.i32) -> core.i32 attributes {{abi = "C"}} {{
    func.unreachable
  }}
  func.func @entry(%x: core.i32) -> core.i32 {{
    %c = closure.lambda(%y: core.i32) -> core.i32 {C0} [%x] {{
      %z = arith.addi %x, %y : core.i32
      func.return %z
    }}
    %q = func.call %c, %x {{callee = @ext}} : core.i32
    func.return %q
  }}''')))
    # a body of several blocks
    out.append(('several blocks', m(f'''  func.func @entry(%a: core.i64, %b: core.i64, %c: core.i1) -> core.i64 {{
    %k = closure.lambda(%p: core.i64, %q: core.i64) -> core.i64 {C0} [%c, %b] {{
      ^bb0:
        cf.cond_br %c [^bb1, ^bb2]

      ^bb1:
        %x = arith.subi %p, %b : core.i64
        cf.br %x, %q [^bb3]

      ^bb2:
        %y = arith.muli %p, %q : core.i64
        cf.br %q, %y [^bb3]

      ^bb3(%u: core.i64, %v: core.i64):
        %w = arith.subi %u, %v : core.i64
        func.return %w
    }}
    %r = func.call_indirect %k, %a, %b {C0} : core.i64
    func.return %r
  }}''')))
    # exact types: the environment at every slot
    for n in range(4):
        for e in range(n + 1):
            ps = ['core.i64', 'core.i8', 'core.i32'][:n]; T = f'closure.closure(core.func(core.i64{"".join(", " + p for p in ps)})) {{tribute.calling_convention = 0, tribute.closure_environment_index = {e}}}'
            out.append((f'exact type of {n} parameters, environment {e}', m(f'  !K0 = {T}', *[sink(p) for p in ps], '  func.func @entry(%x: core.i64, %y: core.i8, %z: core.i32) -> core.i64 {',
                f'    %k = closure.lambda({", ".join(f"%p{i}: {p}" for i, p in enumerate(ps))}) -> core.i64 {{tribute.calling_convention = 0, verif.type = !K0}} [%x] {{', *[f'      %n{i} = func.call %p{i} {{callee = @sink_{p.split(".")[1]}}} : core.nil' for i, p in enumerate(ps)], '      func.return %x', '    }',
                f'    %r = func.call_indirect {", ".join(["%k", "%x", "%y", "%z"][:n + 1])} {C0} : core.i64', '    func.return %r', '  }')))
    return out
KNOWN = [('known: closure stored in an object that is released before the closure is called', f'''core.module @m {{
  !K0 = closure.closure(core.func(core.i64, core.i64))
  !S8 = adt.struct() {{name = @S8, fields = [[@f0, !K0], [@f1, core.i64]]}}
  func.func @mk(%a0: !K0, %a1: core.i64) -> tribute_rt.anyref {{
    %s = adt.struct_new %a0, %a1 {{type = !S8}} : tribute_rt.anyref
    func.return %s
  }}
  func.func @entry(%x: core.i64) -> core.i64 {{
    %k = closure.lambda(%y: core.i64) -> core.i64 {C0} [%x] {{
      %z = arith.addi %x, %y : core.i64
      func.return %z
    }}
    %s = func.call %k, %x {{callee = @mk}} : tribute_rt.anyref
    %f = adt.struct_get %s {{type = !S8, field = 1}} : core.i64
    %r = func.call_indirect %k, %f {C0} : core.i64
    func.return %r
  }}
}}
''')]
