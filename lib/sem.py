"""Symbolic / concrete semantics of TrunkIR (and of the code generated from it).

One evaluator, two uses:
 * symbolic: parameters are z3 bit-vectors, every feasible path is enumerated; a loop header is a cut point
   (event LOOP with the incoming loop-carried values, then arbitrary values of the same types), so a loop body is
   checked for an arbitrary iteration and nothing is unrolled;
 * concrete: the same rules on Python integers; loops run for real. Used to confirm every symbolic mismatch.

A path is (condition, trace of events, outcome).  Observable behaviour of a function = its set of paths.
"""
import struct, hashlib
import z3

class Unsupported(Exception): pass
class Malformed(Exception): pass
class TooBig(Exception): pass
class Excluded(Exception): pass

# ------------------------------------------------------------------------------- values
def isc(x): return isinstance(x, int)
def bv(x, w): return z3.BitVecVal(x, w) if isc(x) else x
def msk(w): return (1 << w) - 1
def sx(x, w): x &= msk(w); return x - (1 << w) if x >> (w - 1) else x
def norm(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def b2v(c):   # bool -> 1-bit value
    if c is True: return 1
    if c is False: return 0
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
def eqv(a, b, w):
    if isc(a) and isc(b): return a == b
    return norm(bv(a, w) == bv(b, w))
def nz(a, w):
    if isc(a): return a != 0
    return norm(a != z3.BitVecVal(0, w))

def addi(a, b, w): return (a + b) & msk(w) if isc(a) and isc(b) else norm(bv(a, w) + bv(b, w))
def subi(a, b, w): return (a - b) & msk(w) if isc(a) and isc(b) else norm(bv(a, w) - bv(b, w))
def muli(a, b, w): return (a * b) & msk(w) if isc(a) and isc(b) else norm(bv(a, w) * bv(b, w))
def andi(a, b, w): return a & b if isc(a) and isc(b) else norm(bv(a, w) & bv(b, w))
def ori(a, b, w): return a | b if isc(a) and isc(b) else norm(bv(a, w) | bv(b, w))
def xori(a, b, w): return a ^ b if isc(a) and isc(b) else norm(bv(a, w) ^ bv(b, w))
def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def divs(a, b, w):
    if isc(a) and isc(b):
        if b == 0: return 0
        return tdiv(sx(a, w), sx(b, w)) & msk(w)
    return norm(bv(a, w) / bv(b, w))
def rems(a, b, w):
    if isc(a) and isc(b):
        if b == 0: return a
        return (sx(a, w) - tdiv(sx(a, w), sx(b, w)) * sx(b, w)) & msk(w)
    return norm(z3.SRem(bv(a, w), bv(b, w)))
def divu(a, b, w):
    if isc(a) and isc(b): return a // b if b else 0
    return norm(z3.UDiv(bv(a, w), bv(b, w)))
def remu(a, b, w):
    if isc(a) and isc(b): return a % b if b else a
    return norm(z3.URem(bv(a, w), bv(b, w)))
def shamt(b, w, wb):
    """shift amounts are taken modulo the width (machine behaviour of both targets)"""
    if isc(b): return b % w
    if w & (w - 1): return norm(z3.URem(b, z3.BitVecVal(w % (1 << wb), wb)) if w < (1 << wb) else b)
    return norm(b & z3.BitVecVal((w - 1) & msk(wb), wb))
def fitw(x, w0, w1):
    if w0 == w1: return x
    return zext(x, w0, w1) if w1 > w0 else trunc(x, w0, w1)
def shl(a, b, w, wb):
    s = fitw(shamt(b, w, wb), wb, w)
    return (a << s) & msk(w) if isc(a) and isc(s) else norm(bv(a, w) << bv(s, w))
def shrs(a, b, w, wb):
    s = fitw(shamt(b, w, wb), wb, w)
    return (sx(a, w) >> s) & msk(w) if isc(a) and isc(s) else norm(bv(a, w) >> bv(s, w))
def shru(a, b, w, wb):
    s = fitw(shamt(b, w, wb), wb, w)
    return a >> s if isc(a) and isc(s) else norm(z3.LShR(bv(a, w), bv(s, w)))
def zext(a, w0, w1): return a if isc(a) else norm(z3.ZeroExt(w1 - w0, a))
def sext(a, w0, w1): return sx(a, w0) & msk(w1) if isc(a) else norm(z3.SignExt(w1 - w0, a))
def trunc(a, w0, w1): return a & msk(w1) if isc(a) else norm(z3.Extract(w1 - 1, 0, a))
CMP = {'eq': lambda a, b, w: a == b, 'ne': lambda a, b, w: a != b}
def cmpi(p, a, b, w):
    if isc(a) and isc(b):
        s, t = sx(a, w), sx(b, w)
        return {'eq': a == b, 'ne': a != b, 'slt': s < t, 'sle': s <= t, 'sgt': s > t, 'sge': s >= t,
                'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p]
    a, b = bv(a, w), bv(b, w)
    return norm({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b,
                 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[p]())

# floats are bit patterns; symbolic arithmetic on them is uninterpreted (equal inputs give equal outputs),
# concrete arithmetic is IEEE
def f2(x, w): return struct.unpack('<d', struct.pack('<Q', x))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', x))[0]
QNAN = {64: 0x7ff8000000000000, 32: 0x7fc00000}
def f2b(v, w):
    if v != v: return QNAN[w]
    if w == 64: return struct.unpack('<Q', struct.pack('<d', v))[0]
    try: return struct.unpack('<I', struct.pack('<f', v))[0]
    except OverflowError: return 0xff800000 if v < 0 else 0x7f800000
UF = {}
def uf(name, *sorts):
    k = (name,) + sorts
    if k not in UF: UF[k] = z3.Function(name, *[z3.BitVecSort(s) for s in sorts])
    return UF[k]
def fbin(op, a, b, w):
    if isc(a) and isc(b):
        x, y = f2(a, w), f2(b, w)
        try:
            r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
        except ZeroDivisionError:
            r = float('nan') if x == 0 or x != x else (float('inf') if (a >> (w - 1)) == (b >> (w - 1)) else float('-inf'))
        return f2b(r, w)
    return uf(f'{op}{w}', w, w, w)(bv(a, w), bv(b, w))
def fneg(a, w): return xori(a, 1 << (w - 1), w)
def fcmp(p, a, b, w):
    if isc(a) and isc(b):
        x, y = f2(a, w), f2(b, w)
        return {'oeq': x == y, 'une': not (x == y), 'olt': x < y, 'ole': x <= y, 'ogt': x > y, 'oge': x >= y}[p]
    # a > b  is  b < a, so only two ordered relations stay uninterpreted
    if p == 'ogt': return fcmp('olt', b, a, w)
    if p == 'oge': return fcmp('ole', b, a, w)
    if p == 'une':
        r = fcmp('oeq', a, b, w); return (not r) if isinstance(r, bool) else z3.Not(r)
    return uf(f'fcmp_{p}{w}', w, w, 1)(bv(a, w), bv(b, w)) == 1
def i2f(a, w, fw, signed):
    if isc(a): return f2b(float(sx(a, w) if signed else a), fw) if fw == 64 else _i2f32(sx(a, w) if signed else a)
    return uf(f"{'s' if signed else 'u'}2f_{w}_{fw}", w, fw)(a)
def _i2f32(v):
    import numpy as np
    return int(np.array(v, dtype=object).astype(np.float64).astype(np.float32).view(np.uint32)) if abs(v) < 2**53 else f2b(float(v), 32)
def f2i(a, fw, w, signed):
    if isc(a):
        x = f2(a, fw)
        if x != x or x in (float('inf'), float('-inf')): return None
        n = int(x)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, msk(w))
        if not lo <= n <= hi: return None
        return n & msk(w)
    return uf(f"f2{'s' if signed else 'u'}_{fw}_{w}", fw, w)(a)
def fpro(a): return f2b(f2(a, 32), 64) if isc(a) else uf('fpromote', 32, 64)(a)
def fdem(a): return f2b(f2(a, 64), 32) if isc(a) else uf('fdemote', 64, 32)(a)

# ------------------------------------------------------------------------------- types of the dump
class Mod:
    """a dumped module"""
    def __init__(self, d):
        self.types, self.op = d['types'], d['op']
        self.funcs, self.order = {}, []
        self._collect(self.op)
    def _collect(self, op):
        for blk in op['r'][0] if op['r'] else []:
            for o in blk['ops']:
                if o['n'] == 'func' and o['d'] in ('func', 'clif', 'wasm'):
                    nm = o['a']['sym_name']['v']
                    self.funcs.setdefault(nm, o); self.order.append(nm)
                elif o['n'] == 'module': self._collect(o)
    def ty(self, t): return self.types[t]
    def tstr(self, t):
        d = self.types[t]
        s = f"{d['d']}.{d['n']}"
        if d['p']: s += '(' + ','.join(self.tstr(p) for p in d['p']) + ')'
        if d['a']: s += '{' + ','.join(f'{k}={self.astr(v)}' for k, v in sorted(d['a'].items())) + '}'
        return s
    def astr(self, a):
        if a['k'] == 'type': return self.tstr(a['v'])
        if a['k'] == 'list': return '[' + ','.join(self.astr(x) for x in a['v']) + ']'
        return f"{a['k']}:{a.get('v')}"
    def width(self, t):
        """bit width of the value representation of a type; everything that is not a number is a 64-bit handle"""
        d = self.types[t]
        if d['d'] == 'core':
            n = d['n']
            if n[0] in 'if' and n[1:].isdigit(): return int(n[1:])
            if n in ('nil', 'never'): return 0
            return 64
        if d['d'] == 'tribute_rt':
            if d['n'] in ('int', 'nat'): return 32
            if d['n'] == 'bool': return 1
            if d['n'] == 'float': return 64
        return 64
    def isf(self, t):
        d = self.types[t]
        return (d['d'] == 'core' and d['n'] in ('f32', 'f64')) or (d['d'] == 'tribute_rt' and d['n'] == 'float')
    def ftype(self, name): return self.types[self.funcs[name]['a']['type']['v']]

# ------------------------------------------------------------------------------- machine state
class Frame:
    __slots__ = ('blk', 'i', 'env', 'kind', 'op', 'ret', 'fn', 'loops', 'lev', 'blocks')
    def clone(self):
        f = Frame.__new__(Frame)
        f.blk, f.i, f.kind, f.op, f.ret, f.fn, f.lev, f.blocks = self.blk, self.i, self.kind, self.op, self.ret, self.fn, self.lev, self.blocks
        f.env = self.env; f.loops = self.loops
        return f

class State:
    def __init__(self):
        self.frames, self.pc, self.trace, self.steps, self.side = [], [], [], 0, []
        self.mem = None
    def clone(self):
        s = State.__new__(State)
        # frames of one activation share an environment: keep the sharing
        m = {}
        s.frames = []
        for f in self.frames:
            g = f.clone()
            if id(f.env) not in m: m[id(f.env)] = dict(f.env)
            g.env = m[id(f.env)]; g.loops = dict(f.loops)
            s.frames.append(g)
        s.pc, s.trace, s.steps, s.side = list(self.pc), list(self.trace), self.steps, list(self.side)
        s.mem = self.mem.clone() if self.mem is not None else None
        return s

class Path:
    __slots__ = ('pc', 'trace', 'out', 'mem', 'side')
    def __init__(self, pc, trace, out, mem=None, side=()): self.pc, self.trace, self.out, self.mem, self.side = pc, trace, out, mem, side
    def show(self):
        return ' ; '.join(f'{k}({", ".join(map(str, a))})' for k, a, _ in self.trace) + f' => {self.out[0]} {list(map(str, [x for x, _ in self.out[1]]))}'

class Opts:
    def __init__(self, **k):
        self.concrete = k.get('concrete', False)
        self.traps = k.get('traps', True)           # is a division trap observable
        self.inline = k.get('inline', None)         # set of function names executed in place (None: none, calls are events)
        self.fuel = k.get('fuel', 20000)
        self.maxpaths = k.get('maxpaths', 400)
        self.oracle = k.get('oracle', 0)            # seed of the concrete environment (results of external calls)
        self.tailtag = k.get('tailtag', False)      # is "this is a tail call" observable
        self.unroll = k.get('unroll', False)        # symbolic: do not cut loops
        self.opaque = k.get('opaque', None)         # set of pure opaque operations; None: unknown operations are refused
        self.bool32 = k.get('bool32', False)
        self.rename = k.get('rename', lambda n: n)
        self.tindex = k.get('tindex', None)
        self.retw = k.get('retw', None)             # name -> width of the declared result before lowering

class Ev:
    """evaluate one function of a dumped module"""
    def __init__(self, mod, opts):
        self.m, self.o = mod, opts
        self.solver = z3.Solver(); self.solver.set('timeout', 2000)
        self.paths = []
    # -- environment
    def get(self, st, vt):
        env = st.frames[-1].env
        if vt[0] not in env: raise Malformed(f'use of a value that is not defined on this path (%{vt[0]})')
        return env[vt[0]]
    def ins(self, st, op): return [self.get(st, v) for v in op['i']]
    def setr(self, st, op, *vals):
        if len(vals) != len(op['o']): raise Unsupported(f"{op['d']}.{op['n']} with {len(op['o'])} results")
        for (v, _), x in zip(op['o'], vals): st.frames[-1].env[v] = x
    def fresh(self, st, name, w, k):
        """value produced by the environment at this trace position"""
        if w == 0: return 0
        if self.o.concrete:
            nm = f'e{len(st.trace)}_{k}_{w}'
            if isinstance(self.o.oracle, dict): return self.o.oracle.get(nm, 0) & msk(w)
            h = hashlib.sha256(f'{self.o.oracle}|{len(st.trace)}|{name}|{k}|{[a for _, a, _ in st.trace[-1:]]}'.encode()).digest()
            if h[16] < 80: return h[17] & 1
            return int.from_bytes(h[:16], 'little') & msk(w)
        return z3.BitVec(f'e{len(st.trace)}_{k}_{w}', w)
    def event(self, st, kind, args, widths, rw):
        st.trace.append((kind, list(args), list(widths)))
        return [self.fresh(st, kind, w, k) for k, w in enumerate(rw)]
    # -- path management
    def feasible(self, pc):
        self.solver.push()
        try:
            self.solver.add(*pc)
            return self.solver.check() != z3.unsat
        finally: self.solver.pop()
    def fork(self, st, cond):
        """-> list of (state, truth)"""
        if cond is True or cond is False: return [(st, cond)]
        out = []
        for tv, c in ((True, cond), (False, z3.Not(cond))):
            if self.feasible(st.pc + [c]):
                s = st.clone(); s.pc.append(c); out.append((s, tv))
        return out
    def done(self, st, kind, vals):
        self.paths.append(Path(st.pc, st.trace, (kind, vals), st.mem, st.side))
        if len(self.paths) > self.o.maxpaths: raise TooBig()
    # -- running
    def run(self, name, args):
        f = self.m.funcs[name]
        st = State(); st.mem = self.newmem()
        self.enter_fn(st, f, args, None)
        work = [st]
        while work:
            st = work.pop()
            while st is not None:
                st.steps += 1
                if st.steps > self.o.fuel: self.done(st, 'fuel', []); break
                try: r = self.step(st)
                except Excluded: self.done(st, 'excluded', []); break
                if r is None: break
                if isinstance(r, list):
                    if not r: break
                    work.extend(r[1:]); st = r[0]
                else: st = r
        return self.paths
    def newmem(self): return None
    def enter_fn(self, st, f, args, retop):
        if not f['r'] or not f['r'][0]: raise Unsupported('function without a body')
        fr = Frame(); blk = f['r'][0][0]
        fr.blocks = {b['id']: b for b in f['r'][0]}
        fr.env, fr.kind, fr.op, fr.ret, fr.fn, fr.loops, fr.lev = {}, 'fn', retop, None, f['a']['sym_name']['v'], {}, None
        if len(args) != len(blk['args']): raise Malformed(f"{fr.fn}: {len(args)} arguments for {len(blk['args'])} parameters")
        for (v, _), a in zip(blk['args'], args): fr.env[v] = a
        fr.blk, fr.i = blk, 0
        st.frames.append(fr)
        fr.loops = {'#': self.headers(f['r'][0])}
    def headers(self, blocks):
        """targets of retreating edges of the CFG of a region"""
        ids = {b['id']: b for b in blocks}
        seen, act, heads = set(), set(), set()
        if not blocks: return heads
        st = [(blocks[0]['id'], iter(self.succs(blocks[0])))]
        seen.add(blocks[0]['id']); act.add(blocks[0]['id'])
        while st:
            b, it = st[-1]
            for s in it:
                if s in act: heads.add(s)
                elif s not in seen and s in ids:
                    seen.add(s); act.add(s); st.append((s, iter(self.succs(ids[s])))); break
            else: act.discard(b); st.pop()
        return heads
    def succs(self, b): return [s for o in b['ops'] for s in o['s']]
    def enter_region(self, st, region, kind, op, lev=None):
        if not region: raise Malformed('empty region')
        cur = st.frames[-1]
        fr = Frame()
        fr.blocks = {b['id']: b for b in region}
        fr.env, fr.kind, fr.op, fr.ret, fr.fn, fr.lev = cur.env, kind, op, None, cur.fn, lev
        fr.blk, fr.i = region[0], 0
        fr.loops = {'#': self.headers(region)}
        st.frames.append(fr)
        return fr
    def step(self, st):
        fr = st.frames[-1]
        if fr.i >= len(fr.blk['ops']): raise Malformed(f'block without a terminator in {fr.fn}')
        op = fr.blk['ops'][fr.i]
        fr.i += 1
        h = getattr(self, f"op_{op['d']}_{op['n']}", None)
        if h is None: r = self.opaque(st, op)
        else: r = h(st, op)
        return st if r is None else (None if r == 'end' else r)
    def opaque(self, st, op):
        """an operation without built-in meaning: a pure one is an (unknown) function of its operands and attributes,
        any other is an observable event"""
        full = f"{op['d']}.{op['n']}"
        if self.o.opaque is None or op['r'] or op['s']: raise Unsupported(full)
        key = full + '{' + ','.join(f'{k}={self.m.astr(v)}' for k, v in sorted(op['a'].items())) + '}' + '->' + ','.join(self.m.tstr(t) for _, t in op['o'])
        args = [handle(a) for a in self.ins(st, op)]; ws = [self.w(v) for v in op['i']]
        if full in self.o.opaque:
            out = []
            for k, (_, t) in enumerate(op['o']):
                w = self.m.width(t)
                if w == 0: out.append(0)
                elif all(isc(a) for a in args) and self.o.concrete: out.append(int.from_bytes(hashlib.sha256(f'{key}|{k}|{args}'.encode()).digest()[:16], 'little') & msk(w))
                else:
                    z = [bv(a, x) for a, x in zip(args, ws) if x]
                    out.append(uf(f'{key}#{k}', *[x for x in ws if x], w)(*z) if z else z3.BitVec(f'{key}#{k}', w))
            self.setr(st, op, *out); return
        self.setr(st, op, *self.event(st, key, args, ws, [self.m.width(t) for _, t in op['o']]))
    def goto(self, st, bid, args):
        fr = st.frames[-1]
        if bid not in fr.blocks: raise Malformed('branch to a block outside the region')
        blk = fr.blocks[bid]
        if len(args) != len(blk['args']): raise Malformed(f"branch with {len(args)} values to a block with {len(blk['args'])} parameters")
        if bid in fr.loops['#'] and not self.o.concrete and not self.o.unroll:
            ws = [self.m.width(t) for _, t in blk['args']]
            if bid in fr.loops:
                self.done(st, f'again{fr.loops[bid]}', list(zip(args, ws))); return 'end'
            fr.loops[bid] = len(st.trace)
            args = self.event(st, 'LOOP', args, ws, ws)
        for (v, _), a in zip(blk['args'], args): fr.env[v] = a
        fr.blk, fr.i = blk, 0
        return st
    # -- arith
    def w(self, vt): return self.m.width(vt[1])
    def op_arith_const(self, st, op):
        a = op['a']['value']; w = self.w(op['o'][0])
        self.setr(st, op, self.constant(a, op['o'][0][1]))
    def constant(self, a, t):
        w = self.m.width(t)
        if a['k'] == 'int':
            if self.m.isf(t): raise Unsupported('integer constant of float type')
            return int(a['v']) & msk(w) if w else 0
        if a['k'] == 'float':
            if w == 32: return f2b(f2(int(a['v']), 64), 32)
            return int(a['v'])
        if a['k'] == 'bool': return int(a['v'])
        if a['k'] == 'unit': return 0
        raise Unsupported(f"constant {a['k']}")
    def bin(f):
        def h(self, st, op):
            a, b = self.ins(st, op); self.setr(st, op, f(a, b, self.w(op['o'][0])))
        return h
    op_arith_addi, op_arith_subi, op_arith_muli = bin(addi), bin(subi), bin(muli)
    op_arith_and, op_arith_or, op_arith_xor = bin(andi), bin(ori), bin(xori)
    op_clif_iadd, op_clif_isub, op_clif_imul, op_clif_band, op_clif_bor, op_clif_bxor = bin(addi), bin(subi), bin(muli), bin(andi), bin(ori), bin(xori)
    def trapdiv(f, signed, rem):
        def h(self, st, op):
            a, b = self.ins(st, op); w = self.w(op['o'][0])
            z = eqv(b, 0, w)
            if signed:
                ov1, ov2 = eqv(a, 1 << (w - 1), w), eqv(b, msk(w), w)
                if isinstance(ov1, bool): ov = ov2 if ov1 else False
                elif isinstance(ov2, bool): ov = ov1 if ov2 else False
                else: ov = z3.And(ov1, ov2)
                if z is True or ov is True: bad = True
                elif z is False: bad = ov
                elif ov is False: bad = z
                else: bad = z3.Or(z, ov)
            else: bad = z
            v = f(a, b, w)
            if not self.o.traps: self.setr(st, op, v); return
            out = []
            for s, tv in self.fork(st, bad):
                if tv: self.done(s, 'trap', [])
                else: self.setr(s, op, v); out.append(s)
            return out
        return h
    op_arith_divsi, op_arith_remsi = trapdiv(divs, True, False), trapdiv(rems, False, True)
    op_arith_divui, op_arith_remui = trapdiv(divu, False, False), trapdiv(remu, False, True)
    op_clif_sdiv, op_clif_srem, op_clif_udiv, op_clif_urem = trapdiv(divs, True, False), trapdiv(rems, False, True), trapdiv(divu, False, False), trapdiv(remu, False, True)
    def op_arith_negi(self, st, op):
        (a,) = self.ins(st, op); self.setr(st, op, subi(0, a, self.w(op['o'][0])))
    op_clif_ineg = op_arith_negi
    def sh(f):
        def h(self, st, op):
            a, b = self.ins(st, op); self.setr(st, op, f(a, b, self.w(op['i'][0]), self.w(op['i'][1])))
        return h
    op_arith_shl, op_arith_shr, op_arith_shru = sh(shl), sh(shrs), sh(shru)
    op_clif_ishl, op_clif_sshr, op_clif_ushr = sh(shl), sh(shrs), sh(shru)
    def fb(o):
        def h(self, st, op):
            a, b = self.ins(st, op); self.setr(st, op, fbin(o, a, b, self.w(op['o'][0])))
        return h
    op_arith_addf, op_arith_subf, op_arith_mulf, op_arith_divf = fb('fadd'), fb('fsub'), fb('fmul'), fb('fdiv')
    op_clif_fadd, op_clif_fsub, op_clif_fmul, op_clif_fdiv = fb('fadd'), fb('fsub'), fb('fmul'), fb('fdiv')
    def op_arith_negf(self, st, op):
        (a,) = self.ins(st, op); self.setr(st, op, fneg(a, self.w(op['o'][0])))
    op_clif_fneg = op_arith_negf
    def op_arith_cmpi(self, st, op):
        a, b = self.ins(st, op); p = op['a']['predicate']['v']
        r = b2v(cmpi(p, a, b, self.w(op['i'][0])))
        self.setr(st, op, fitw(r, 1, self.w(op['o'][0])))
    def op_arith_cmpf(self, st, op):
        a, b = self.ins(st, op); p = op['a']['predicate']['v']
        r = b2v(fcmp(p, a, b, self.w(op['i'][0])))
        self.setr(st, op, fitw(r, 1, self.w(op['o'][0])))
    # conversions: core integers are signed, core.i1 and the unsigned language types are zero-extended
    def unsg(self, t):
        d = self.m.types[t]; return (d['d'], d['n']) in (('tribute_rt', 'nat'), ('tribute_rt', 'bool'), ('core', 'i1'))
    def op_arith_extend(self, st, op):
        (a,) = self.ins(st, op); w0, w1 = self.w(op['i'][0]), self.w(op['o'][0])
        if self.m.isf(op['i'][0][1]): self.setr(st, op, fpro(a)); return
        if w1 <= w0: raise Unsupported('extend to a narrower type')
        self.setr(st, op, (zext if self.unsg(op['i'][0][1]) else sext)(a, w0, w1))
    def op_arith_trunc(self, st, op):
        (a,) = self.ins(st, op); w0, w1 = self.w(op['i'][0]), self.w(op['o'][0])
        if self.m.isf(op['i'][0][1]): return self.f2i(st, op, a, w0, w1, True)
        if w1 >= w0: raise Unsupported('trunc to a wider type')
        self.setr(st, op, trunc(a, w0, w1))
    def op_arith_cast(self, st, op):
        (a,) = self.ins(st, op); w0, w1 = self.w(op['i'][0]), self.w(op['o'][0])
        if self.m.isf(op['i'][0][1]) or self.m.isf(op['o'][0][1]): raise Unsupported('float cast')
        self.setr(st, op, a if w0 == w1 else trunc(a, w0, w1) if w1 < w0 else (zext if self.unsg(op['i'][0][1]) else sext)(a, w0, w1))
    def op_arith_convert(self, st, op):
        (a,) = self.ins(st, op); (_, t0), (_, t1) = op['i'][0], op['o'][0]; w0, w1 = self.m.width(t0), self.m.width(t1); f0, f1 = self.m.isf(t0), self.m.isf(t1)
        if f0 and f1:
            if w0 == w1: raise Unsupported('convert to the same float')
            self.setr(st, op, fpro(a) if w1 > w0 else fdem(a))
        elif f1: self.setr(st, op, i2f(a, w0, w1, not self.unsg(t0)))
        elif f0: return self.f2i(st, op, a, w0, w1, not self.unsg(t1))
        else: raise Unsupported('integer convert')
    def f2i(self, st, op, a, w0, w1, sg):
        v = f2i(a, w0, w1, sg)
        if v is None: self.done(st, 'excluded', []); return 'end'
        self.setr(st, op, v)
    # -- core
    def op_core_unrealized_conversion_cast(self, st, op):
        (a,) = self.ins(st, op)
        s, d = self.m.tstr(op['i'][0][1]), self.m.tstr(op['o'][0][1])
        ws, wd = self.w(op['i'][0]), self.w(op['o'][0])
        if s == d: self.setr(st, op, a); return
        # a cast pair A->B->A is the identity; a single cast is an unknown (but fixed) re-encoding
        if isinstance(a, Cast) and a.frm == d: self.setr(st, op, a.val); return
        self.setr(st, op, Cast(a, s, d))
    # -- func
    def op_func_return(self, st, op):
        vals = self.ins(st, op); ws = [self.w(v) for v in op['i']]
        return self.ret(st, vals, ws)
    op_clif_return = op_func_return
    def ret(self, st, vals, ws):
        # leave every structured region of this activation
        while st.frames[-1].kind != 'fn': st.frames.pop()
        fr = st.frames.pop()
        if not st.frames:
            self.done(st, 'return', [(v, w) for v, w in zip(vals, ws) if w]); return 'end'
        if fr.op == 'tail': return self.ret(st, vals, ws)
        outs = fr.op['o']
        vv = list(vals)
        for (v, t) in outs:
            if self.m.width(t) == 0: st.frames[-1].env[v] = 0
            else:
                if not vv: raise Malformed('return value missing')
                st.frames[-1].env[v] = vv.pop(0)
        return st
    def op_func_unreachable(self, st, op): self.done(st, 'unreachable', []); return 'end'
    def op_clif_trap(self, st, op): self.done(st, 'trap', []); return 'end'
    def callee_result_w(self, name):
        return None
    def docall(self, st, op, kind, name, args, aws, rts):
        rw = [self.m.width(t) for t in rts]
        return self.event(st, f'{kind} {self.o.rename(name)}', args, aws, rw)
    def op_func_call(self, st, op):
        nm = op['a']['callee']['v']; args = self.ins(st, op)
        if self.o.inline and nm in self.o.inline and nm in self.m.funcs and sum(f.kind == 'fn' and f.fn == nm for f in st.frames) == 0:
            self.enter_fn(st, self.m.funcs[nm], args, op); return
        r = self.docall(st, op, 'call', nm, args, [self.w(v) for v in op['i']], [t for _, t in op['o']])
        self.setr(st, op, *r)
    op_clif_call = op_func_call
    def op_func_tail_call(self, st, op):
        nm = op['a']['callee']['v']; args = self.ins(st, op)
        if self.o.inline and nm in self.o.inline and nm in self.m.funcs and sum(f.kind == 'fn' and f.fn == nm for f in st.frames) == 0:
            self.enter_fn(st, self.m.funcs[nm], args, 'tail'); return
        ft = self.m.ftype(st.frames[-1].fn); rt = ft['p'][:1]
        r = self.docall(st, op, 'tailcall' if self.o.tailtag else 'call', nm, args, [self.w(v) for v in op['i']], rt)
        ws = [self.m.width(t) for t in rt]
        return self.ret(st, r, ws)
    op_clif_return_call = op_func_tail_call
    def op_func_call_indirect(self, st, op):
        c, *args = self.ins(st, op); ws = [self.w(v) for v in op['i']]
        r = self.docall(st, op, 'icall', '', [c] + args, ws, [t for _, t in op['o']])
        self.setr(st, op, *r)
    op_clif_call_indirect = op_func_call_indirect
    def op_func_tail_call_indirect(self, st, op):
        vals = self.ins(st, op); rt = self.m.ftype(st.frames[-1].fn)['p'][:1]
        r = self.docall(st, op, 'tailicall' if self.o.tailtag else 'icall', '', vals, [self.w(v) for v in op['i']], rt)
        return self.ret(st, r, [self.m.width(t) for t in rt])
    op_clif_return_call_indirect = op_func_tail_call_indirect
    def op_func_constant(self, st, op):
        self.setr(st, op, self.symaddr(op['a']['func_ref']['v']))
    def op_clif_symbol_addr(self, st, op):
        self.setr(st, op, self.symaddr(op['a']['sym']['v']))
    def symaddr(self, n):
        n = self.o.rename(n)
        if self.o.concrete: return int.from_bytes(hashlib.sha256(n.encode()).digest()[:8], 'little') & ~0xf
        return z3.BitVec('&' + n, 64)
    # -- mem (observable, in order)
    def op_mem_load(self, st, op):
        (p,) = self.ins(st, op); off = int(op['a']['offset']['v'])
        w = self.w(op['o'][0])
        self.setr(st, op, *self.event(st, f'load{w}', [addi(p, off & msk(64), 64)], [64], [w]))
    def op_mem_store(self, st, op):
        p, v = self.ins(st, op); off = int(op['a']['offset']['v']); w = self.w(op['i'][1])
        self.event(st, f'store{w}', [addi(p, off & msk(64), 64), v], [64, w], [])
    # -- cf
    def op_cf_br(self, st, op): return self.goto(st, op['s'][0], self.ins(st, op))
    op_clif_jump = op_cf_br
    def op_cf_cond_br(self, st, op):
        c = self.get(st, op['i'][0]); out = []
        for s, tv in self.fork(st, nz(c, self.w(op['i'][0]))):
            r = self.goto(s, op['s'][0 if tv else 1], [])
            if r != 'end': out.append(r)
        return out
    op_clif_brif = op_cf_cond_br
    # -- scf
    def op_scf_if(self, st, op):
        c = self.get(st, op['i'][0]); out = []
        for s, tv in self.fork(st, nz(c, self.w(op['i'][0]))):
            self.enter_region(s, op['r'][0 if tv else 1], 'if', op); out.append(s)
        return out
    def op_scf_switch(self, st, op):
        d = self.get(st, op['i'][0]); w = self.w(op['i'][0]); out = []; cur = st
        cases, dflt = [], None
        for o in op['r'][0][0]['ops']:
            if o['n'] == 'case': cases.append(o)
            elif o['n'] == 'default': dflt = o
        for cs in cases:
            k = self.constant(cs['a']['value'], op['i'][0][1])
            nxt = None
            for s, tv in self.fork(cur, eqv(d, k, w)):
                if tv: self.enter_region(s, cs['r'][0], 'switch', op); out.append(s)
                else: nxt = s
            if nxt is None: return out
            cur = nxt
        if dflt is not None: self.enter_region(cur, dflt['r'][0], 'switch', op)
        out.append(cur)
        return out
    def op_scf_loop(self, st, op):
        args = self.ins(st, op); blk = op['r'][0][0]
        if len(args) != len(blk['args']): raise Malformed('loop arity')
        ws = [self.m.width(t) for _, t in blk['args']]
        lev = len(st.trace)
        if not self.o.concrete and not self.o.unroll and again(blk): args = self.event(st, 'LOOP', args, ws, ws)
        fr = self.enter_region(st, op['r'][0], 'loop', op, lev)
        for (v, _), a in zip(blk['args'], args): fr.env[v] = a
    def op_scf_yield(self, st, op):
        vals = self.ins(st, op); fr = st.frames.pop()
        if fr.kind == 'fn': raise Malformed('yield outside a region')
        if fr.kind == 'loop': raise Malformed('yield in a loop body')
        outs = fr.op['o']
        if fr.kind == 'if' and len(vals) < len(outs): raise Malformed('yield without the result')
        for (v, _), x in zip(outs, vals): st.frames[-1].env[v] = x
    def tothe_loop(self, st):
        while st.frames[-1].kind != 'loop':
            if st.frames[-1].kind == 'fn': raise Malformed('continue/break outside a loop')
            st.frames.pop()
        return st.frames[-1]
    def op_scf_continue(self, st, op):
        vals = self.ins(st, op); fr = self.tothe_loop(st); blk = fr.op['r'][0][0]
        if len(vals) != len(blk['args']): raise Malformed('continue arity')
        if not self.o.concrete and not self.o.unroll:
            self.done(st, f'again{fr.lev}', [(v, self.m.width(t)) for v, (_, t) in zip(vals, blk['args'])]); return 'end'
        for (v, _), a in zip(blk['args'], vals): fr.env[v] = a
        fr.blk, fr.i = blk, 0
    def op_scf_break(self, st, op):
        vals = self.ins(st, op); fr = self.tothe_loop(st); st.frames.pop()
        for (v, _), x in zip(fr.op['o'], vals): st.frames[-1].env[v] = x

def again(blk):
    """can this loop body reach a continue of its own loop (structurally)"""
    hit = [False]
    def falls(b, depth):
        for o in b['ops']:
            if o['d'] == 'scf':
                n = o['n']
                if n == 'continue':
                    if depth == 0: hit[0] = True
                    return False
                if n == 'break': return False
                if n == 'yield': return True
                if n == 'if':
                    f = [falls(r[0], depth) for r in o['r'] if r]
                    if not any(f): return False
                elif n == 'switch':
                    f, d = [], False
                    for x in o['r'][0][0]['ops']:
                        if x['n'] in ('case', 'default'): f.append(falls(x['r'][0][0], depth)); d |= x['n'] == 'default'
                    if d and not any(f): return False
                elif n == 'loop':
                    if not leaves(o['r'][0][0]): return False
            elif o['d'] == 'func' and o['n'] in ('return', 'tail_call', 'tail_call_indirect', 'unreachable'): return False
        return True
    def leaves(b):
        # an inner loop: does some path break out of it
        def br(b):
            for o in b['ops']:
                if o['d'] == 'scf' and o['n'] == 'break': return True
                if o['d'] == 'scf' and o['n'] == 'loop': continue
                for r in o['r']:
                    for x in r:
                        if br(x): return True
            return False
        return br(b)
    falls(blk, 0)
    return hit[0]

def handle(a):
    if isinstance(a, Cast): raise Unsupported('opaque operation on a cast value')
    return a

class Cast:
    """value under an unresolved conversion cast"""
    def __init__(self, val, frm, to): self.val, self.frm, self.to = val, frm, to
    def __repr__(self): return f'cast<{self.frm}->{self.to}>({self.val})'

# ------------------------------------------------------------------------------- comparison
def valdiff(a, b, w):
    """-> z3 condition (or bool) under which the two values differ"""
    if isinstance(a, Cast) or isinstance(b, Cast):
        if isinstance(a, Cast) and isinstance(b, Cast) and a.frm == b.frm and a.to == b.to: return valdiff(a.val, b.val, None)
        return True
    if hasattr(a, 'diff') or hasattr(b, 'diff'):
        return a.diff(b) if hasattr(a, 'diff') else b.diff(a)
    if isc(a) and isc(b): return a != b
    if w is None: w = a.size() if not isc(a) else b.size()
    if not isc(a) and a.size() != w or not isc(b) and b.size() != w: return True
    r = norm(bv(a, w) != bv(b, w))
    return r

def path_diff(p, q, relate):
    """list of (description, condition under which they differ); a condition may be True"""
    out = []
    for i in range(max(len(p.trace), len(q.trace))):
        if i >= len(p.trace) or i >= len(q.trace):
            e = (p.trace + q.trace)[i] if False else (p.trace[i] if i < len(p.trace) else q.trace[i])
            out.append((f'event {i}: only one side performs {e[0]}', True)); return out
        (k1, a1, w1), (k2, a2, w2) = p.trace[i], q.trace[i]
        if k1 != k2 or len(a1) != len(a2):
            out.append((f'event {i}: {k1}/{len(a1)} against {k2}/{len(a2)}', True)); return out
        for j, (x, y) in enumerate(zip(a1, a2)):
            d = relate(x, w1[j], y, w2[j])
            if d is not False: out.append((f'event {i} ({k1}): argument {j}', d))
            if d is True: return out
    if p.out[0] != q.out[0] or len(p.out[1]) != len(q.out[1]):
        out.append((f'outcome {p.out[0]}/{len(p.out[1])} against {q.out[0]}/{len(q.out[1])}', True)); return out
    for j, ((x, w1), (y, w2)) in enumerate(zip(p.out[1], q.out[1])):
        d = relate(x, w1, y, w2)
        if d is not False: out.append((f'{p.out[0]}: value {j}', d))
    return out

def relate_same(x, w1, y, w2):
    if w1 != w2: return True
    return valdiff(x, y, w1)

class Mismatch:
    def __init__(self, what, model, p, q): self.what, self.model, self.p, self.q = what, model, p, q

def compare(P, Q, relate=relate_same, assume=(), timeout=20000):
    """every behaviour of P is the behaviour of Q under the same inputs and environment.
    -> ('ok', n obligations) | ('bad', Mismatch) | ('undecided', why)"""
    s = z3.Solver(); s.set('timeout', timeout)
    for a in assume: s.add(a)
    qk = {}
    for q in Q: qk.setdefault(frozenset(c.sexpr() for c in q.pc), []).append(q)
    n = 0
    for p in P:
        cands = qk.get(frozenset(c.sexpr() for c in p.pc))
        if cands is None or len(cands) > 1: cands = Q
        any_ = False
        for q in cands:
            d = path_diff(p, q, relate)
            n += 1
            if not d and len(cands) > 1: continue
            if not d: any_ = True; continue
            s.push(); s.add(*p.pc); s.add(*q.pc); s.add(*p.side); s.add(*q.side)
            conds = [c for _, c in d]
            if True not in conds: s.add(z3.Or(*[c for c in conds]))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            if r == z3.sat:
                what = [t for t, c in d if c is True or z3.is_true(m.eval(c, model_completion=True))] or [d[0][0]]
                return 'bad', Mismatch(what[0], m, p, q)
            if r == z3.unknown: return 'undecided', 'solver gave no answer'
    return 'ok', n
