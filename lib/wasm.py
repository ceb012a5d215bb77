"""WebAssembly modules as emitted by the wasm back end: decoder of the binary and its meaning."""
import z3
import sem
from sem import *

class R:
    def __init__(self, b, i=0): self.b, self.i = b, i
    def u8(self): self.i += 1; return self.b[self.i - 1]
    def leb(self, signed=False):
        r = s = 0
        while True:
            x = self.u8(); r |= (x & 0x7f) << s; s += 7
            if not x & 0x80: break
        if signed and x & 0x40: r -= 1 << s
        return r
    def bytes(self, n): self.i += n; return self.b[self.i - n:self.i]
    def name(self): return self.bytes(self.leb()).decode()
    def vec(self, f): return [f() for _ in range(self.leb())]

NUM = {0x7f: 'i32', 0x7e: 'i64', 0x7d: 'f32', 0x7c: 'f64', 0x7b: 'v128'}
HEAP = {0x73: 'nofunc', 0x72: 'noextern', 0x71: 'none', 0x70: 'func', 0x6f: 'extern', 0x6e: 'any', 0x6d: 'eq', 0x6c: 'i31', 0x6b: 'struct', 0x6a: 'array', 0x69: 'exn'}
def heaptype(r):
    x = r.leb(True)
    return HEAP[x & 0x7f] if x < 0 else x
def valtype(r):
    x = r.u8()
    if x in NUM: return NUM[x]
    if x == 0x64: return ('ref', heaptype(r))
    if x == 0x63: return ('refnull', heaptype(r))
    if x in HEAP: return ('refnull', HEAP[x])
    raise Unsupported(f'value type {x:#x}')
def storage(r):
    x = r.b[r.i]
    if x == 0x78: r.i += 1; return 'i8'
    if x == 0x77: r.i += 1; return 'i16'
    return valtype(r)
def isref(t): return isinstance(t, tuple)
WID = {'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64, 'i8': 8, 'i16': 16}
def wid(t): return WID.get(t, 64) if not isref(t) else 64

class Wasm:
    def __init__(self, b):
        if b[:8] != b'\0asm\1\0\0\0': raise Malformed('not a wasm module')
        self.types, self.imports, self.fidx, self.code, self.exports, self.globals, self.data, self.elems, self.start = [], [], [], [], {}, [], [], [], None
        self.tables, self.mems, self.names = [], [], {}
        r = R(b, 8)
        while r.i < len(b):
            k, n = r.u8(), r.leb(); e = r.i + n
            self.section(k, r, e)
            r.i = e
    def section(self, k, r, e):
        if k == 1:
            for _ in range(r.leb()):
                at = len(self.types)
                if r.b[r.i] == 0x4e:
                    r.i += 1
                    for _ in range(r.leb()): self.types.append(self.subtype(r))
                else: self.types.append(self.subtype(r))
                self.group(at)
        elif k == 2:
            for _ in range(r.leb()):
                m, n, d = r.name(), r.name(), r.u8()
                if d == 0: self.imports.append((m, n, r.leb()))
                elif d == 1: self.tabletype(r)
                elif d == 2: self.limits(r)
                elif d == 3: self.globals.append((valtype(r), r.u8(), None))
        elif k == 3: self.fidx = [i[2] for i in self.imports] + r.vec(r.leb)
        elif k == 4:
            for _ in range(r.leb()): self.tables.append(self.tabletype(r))
        elif k == 5:
            for _ in range(r.leb()): self.mems.append(self.limits(r))
        elif k == 6:
            for _ in range(r.leb()): t = valtype(r); m = r.u8(); self.globals.append((t, m, self.expr(r)))
        elif k == 7:
            for _ in range(r.leb()): n = r.name(); d = r.u8(); self.exports[n] = (d, r.leb())
        elif k == 8: self.start = r.leb()
        elif k == 9:
            for _ in range(r.leb()):
                f = r.leb(); off = None; tab = 0
                if f & 1 == 0:
                    if f & 2: tab = r.leb()
                    off = self.expr(r)
                if f & 3:
                    if f & 4: valtype(r)
                    else: r.u8()
                if f & 4: items = [self.expr(r) for _ in range(r.leb())]
                else: items = r.vec(r.leb)
                self.elems.append((tab, off, items))
        elif k == 10:
            for _ in range(r.leb()):
                n = r.leb(); end = r.i + n
                loc = []
                for _ in range(r.leb()): c = r.leb(); loc += [valtype(r)] * c
                ins = []
                while r.i < end: ins.append(self.instr(r))
                self.code.append((loc, self.link(ins)))
        elif k == 11:
            for _ in range(r.leb()):
                f = r.leb(); off = None
                if f == 2: r.leb()
                if f != 1: off = self.expr(r)
                self.data.append((off, r.bytes(r.leb())))
        elif k == 0:
            if r.name() == 'name':
                while r.i < e:
                    s, n = r.u8(), r.leb(); x = r.i + n
                    if s == 1:
                        for _ in range(r.leb()): i = r.leb(); self.names[i] = r.name()
                    r.i = x
    def limits(self, r):
        f = r.u8(); a = r.leb(); return (a, r.leb() if f & 1 else None)
    def tabletype(self, r):
        if r.b[r.i] == 0x40: r.i += 2; t = valtype(r); l = self.limits(r); self.expr(r); return (t, l)
        return (valtype(r), self.limits(r))
    def subtype(self, r):
        sup, final = [], True
        if r.b[r.i] in (0x50, 0x4f): final = r.u8() == 0x4f; sup = r.vec(r.leb)
        x = r.u8()
        if x == 0x60: return dict(k='func', p=r.vec(lambda: valtype(r)), r=r.vec(lambda: valtype(r)), sup=sup, final=final)
        if x == 0x5f: return dict(k='struct', f=[(storage(r), r.u8()) for _ in range(r.leb())], sup=sup, final=final)
        if x == 0x5e: return dict(k='array', f=(storage(r), r.u8()), sup=sup, final=final)
        raise Unsupported(f'composite type {x:#x}')
    def expr(self, r):
        out, d = [], 0
        while True:
            i = self.instr(r)
            if i[0] == 'end' and d == 0: return out
            if i[0] in ('block', 'loop', 'if'): d += 1
            if i[0] == 'end': d -= 1
            out.append(i)
    def blocktype(self, r):
        x = r.b[r.i]
        if x == 0x40: r.i += 1; return ([], [])
        if x in NUM or x in HEAP or x in (0x63, 0x64): return ([], [valtype(r)])
        t = self.types[r.leb(True)]; return (t['p'], t['r'])
    def instr(self, r):
        o = r.u8()
        if o in (2, 3, 4): return [{2: 'block', 3: 'loop', 4: 'if'}[o], self.blocktype(r)]
        if o in S0: return [S0[o]]
        if o in (0x0c, 0x0d): return ['br' if o == 0x0c else 'br_if', r.leb()]
        if o == 0x0e: t = r.vec(r.leb); return ['br_table', t, r.leb()]
        if o in (0x10, 0x12): return ['call' if o == 0x10 else 'return_call', r.leb()]
        if o in (0x11, 0x13): t = r.leb(); return ['call_indirect' if o == 0x11 else 'return_call_indirect', t, r.leb()]
        if o in (0x14, 0x15): return ['call_ref' if o == 0x14 else 'return_call_ref', r.leb()]
        if o == 0x1c: return ['select', r.vec(lambda: valtype(r))]
        if o in (0x20, 0x21, 0x22, 0x23, 0x24): return [{0x20: 'local.get', 0x21: 'local.set', 0x22: 'local.tee', 0x23: 'global.get', 0x24: 'global.set'}[o], r.leb()]
        if 0x28 <= o <= 0x3e: a = r.leb(); return [MEM[o - 0x28], r.leb(), a]
        if o in (0x3f, 0x40): r.u8(); return ['memory.size' if o == 0x3f else 'memory.grow']
        if o == 0x41: return ['i32.const', r.leb(True) & msk(32)]
        if o == 0x42: return ['i64.const', r.leb(True) & msk(64)]
        if o == 0x43: return ['f32.const', int.from_bytes(r.bytes(4), 'little')]
        if o == 0x44: return ['f64.const', int.from_bytes(r.bytes(8), 'little')]
        if o == 0xd0: return ['ref.null', heaptype(r)]
        if o == 0xd1: return ['ref.is_null']
        if o == 0xd2: return ['ref.func', r.leb()]
        if o == 0xd3: return ['ref.eq']
        if o == 0xd4: return ['ref.as_non_null']
        if o == 0xfc:
            s = r.leb()
            if s < 8: return [['i32.trunc_sat_f32_s', 'i32.trunc_sat_f32_u', 'i32.trunc_sat_f64_s', 'i32.trunc_sat_f64_u', 'i64.trunc_sat_f32_s', 'i64.trunc_sat_f32_u', 'i64.trunc_sat_f64_s', 'i64.trunc_sat_f64_u'][s]]
            if s == 10: r.u8(); r.u8(); return ['memory.copy']
            if s == 11: r.u8(); return ['memory.fill']
            raise Unsupported(f'0xfc {s}')
        if o == 0xfb:
            s = r.leb()
            if s in (0, 1): return ['struct.new' if s == 0 else 'struct.new_default', r.leb()]
            if s in (2, 3, 4): t = r.leb(); return [{2: 'struct.get', 3: 'struct.get_s', 4: 'struct.get_u'}[s], t, r.leb()]
            if s == 5: t = r.leb(); return ['struct.set', t, r.leb()]
            if s in (6, 7): return ['array.new' if s == 6 else 'array.new_default', r.leb()]
            if s == 8: t = r.leb(); return ['array.new_fixed', t, r.leb()]
            if s in (9, 10): t = r.leb(); return ['array.new_data' if s == 9 else 'array.new_elem', t, r.leb()]
            if s in (11, 12, 13): return [{11: 'array.get', 12: 'array.get_s', 13: 'array.get_u'}[s], r.leb()]
            if s == 14: return ['array.set', r.leb()]
            if s == 15: return ['array.len']
            if s == 16: return ['array.fill', r.leb()]
            if s == 17: t = r.leb(); return ['array.copy', t, r.leb()]
            if s in (20, 21, 22, 23): return [{20: 'ref.test', 21: 'ref.test_null', 22: 'ref.cast', 23: 'ref.cast_null'}[s], heaptype(r)]
            if s in (24, 25): f = r.u8(); l = r.leb(); return ['br_on_cast' if s == 24 else 'br_on_cast_fail', f, l, heaptype(r), heaptype(r)]
            if s == 26: return ['any.convert_extern']
            if s == 27: return ['extern.convert_any']
            if s == 28: return ['ref.i31']
            if s in (29, 30): return ['i31.get_s' if s == 29 else 'i31.get_u']
            raise Unsupported(f'0xfb {s}')
        if o in NUMOP: return [NUMOP[o]]
        raise Unsupported(f'opcode {o:#x}')
    def link(self, ins):
        """end/else positions of every structured instruction"""
        st = []
        for i, x in enumerate(ins):
            if x[0] in ('block', 'loop', 'if'): st.append(i); x += [None, None]
            elif x[0] == 'else': ins[st[-1]][2] = i
            elif x[0] == 'end' and st: j = st.pop(); ins[j][3] = i
        for i, x in enumerate(ins):
            if x[0] == 'else': pass
        return ins
    def ftype(self, i): return self.types[self.fidx[i]]
    def body(self, i):
        n = len(self.imports)
        return None if i < n else self.code[i - n]
    def subtype_of(self, a, b):
        """heap type a <: b"""
        if a == b: return True
        if isinstance(a, int):
            if isinstance(b, int):
                if self.canon(a) == self.canon(b): return True
                return any(self.subtype_of(s, b) for s in self.types[a]['sup'])
            k = self.types[a]['k']
            return b in {'struct': ('struct', 'eq', 'any'), 'array': ('array', 'eq', 'any'), 'func': ('func',)}[k]
        return b in {'none': ('none', 'struct', 'array', 'i31', 'eq', 'any'), 'struct': ('struct', 'eq', 'any'), 'array': ('array', 'eq', 'any'), 'i31': ('i31', 'eq', 'any'), 'eq': ('eq', 'any')}.get(a, (a,)) or (a == 'none' and isinstance(b, int) and self.types[b]['k'] != 'func') or (a == 'nofunc' and (b == 'func' or isinstance(b, int)))
    def canon(self, i): return self.cid[i]
    def group(self, at):
        """types are equal when their recursion groups are equal after rolling up (iso-recursive)"""
        if not hasattr(self, 'cid'): self.cid, self.ckey = [], {}
        def roll(t):
            if isinstance(t, tuple) and len(t) == 2 and t[0] in ('ref', 'refnull') and isinstance(t[1], int): return (t[0], ('rec', t[1] - at) if t[1] >= at else ('id', self.cid[t[1]]))
            if isinstance(t, (list, tuple)): return tuple(roll(x) for x in t)
            return t
        ts = self.types[at:]
        key = tuple((t['k'], t['final'], tuple(roll(('ref', u)) for u in t['sup']), roll(t['f']) if 'f' in t else (roll(t['p']), roll(t['r']))) for t in ts)
        for k in range(len(ts)): self.cid.append(self.ckey.setdefault((key, k), len(self.ckey)))

S0 = {0x00: 'unreachable', 0x01: 'nop', 0x05: 'else', 0x0b: 'end', 0x0f: 'return', 0x1a: 'drop', 0x1b: 'select'}
MEM = ['i32.load', 'i64.load', 'f32.load', 'f64.load', 'i32.load8_s', 'i32.load8_u', 'i32.load16_s', 'i32.load16_u', 'i64.load8_s', 'i64.load8_u', 'i64.load16_s', 'i64.load16_u', 'i64.load32_s', 'i64.load32_u',
       'i32.store', 'i64.store', 'f32.store', 'f64.store', 'i32.store8', 'i32.store16', 'i64.store8', 'i64.store16', 'i64.store32']
_names = ('i32.eqz i32.eq i32.ne i32.lt_s i32.lt_u i32.gt_s i32.gt_u i32.le_s i32.le_u i32.ge_s i32.ge_u i64.eqz i64.eq i64.ne i64.lt_s i64.lt_u i64.gt_s i64.gt_u i64.le_s i64.le_u i64.ge_s i64.ge_u '
          'f32.eq f32.ne f32.lt f32.gt f32.le f32.ge f64.eq f64.ne f64.lt f64.gt f64.le f64.ge i32.clz i32.ctz i32.popcnt i32.add i32.sub i32.mul i32.div_s i32.div_u i32.rem_s i32.rem_u i32.and i32.or i32.xor i32.shl i32.shr_s i32.shr_u i32.rotl i32.rotr '
          'i64.clz i64.ctz i64.popcnt i64.add i64.sub i64.mul i64.div_s i64.div_u i64.rem_s i64.rem_u i64.and i64.or i64.xor i64.shl i64.shr_s i64.shr_u i64.rotl i64.rotr '
          'f32.abs f32.neg f32.ceil f32.floor f32.trunc f32.nearest f32.sqrt f32.add f32.sub f32.mul f32.div f32.min f32.max f32.copysign f64.abs f64.neg f64.ceil f64.floor f64.trunc f64.nearest f64.sqrt f64.add f64.sub f64.mul f64.div f64.min f64.max f64.copysign '
          'i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s i64.extend_i32_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u '
          'f32.convert_i32_s f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u f64.convert_i64_s f64.convert_i64_u f64.promote_f32 '
          'i32.reinterpret_f32 i64.reinterpret_f64 f32.reinterpret_i32 f64.reinterpret_i64 i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s i64.extend32_s').split()
NUMOP = {0x45 + i: n for i, n in enumerate(_names)}

def disasm(m, i):
    loc, ins = m.body(i); d = 1; out = [f'func {i} {m.ftype(i)} locals {loc}']
    for x in ins:
        if x[0] in ('end', 'else'): d -= 1
        out.append('  ' * d + ' '.join(map(str, x[:2] if x[0] in ('block', 'loop', 'if') else x)))
        if x[0] in ('block', 'loop', 'if', 'else'): d += 1
    return '\n'.join(out)

# ------------------------------------------------------------------------------- meaning
BIN = {'add': addi, 'sub': subi, 'mul': muli, 'and': andi, 'or': ori, 'xor': xori}
CMPO = {'eq': 'eq', 'ne': 'ne', 'lt_s': 'slt', 'lt_u': 'ult', 'gt_s': 'sgt', 'gt_u': 'ugt', 'le_s': 'sle', 'le_u': 'ule', 'ge_s': 'sge', 'ge_u': 'uge'}
FCMP = {'eq': 'oeq', 'ne': 'une', 'lt': 'olt', 'gt': 'ogt', 'le': 'ole', 'ge': 'oge'}
NONE = ('refnull', 'none')

class WMod:
    """module with functions found by name"""
    def __init__(self, b, names=None):
        self.w = Wasm(b); self.names = {}
        for n, (k, i) in self.w.exports.items():
            if k == 0: self.names[i] = n
        for i, (_, n, _) in enumerate(self.w.imports): self.names.setdefault(i, n)
        if names: self.names.update(names)
        self.funcs = {n: i for i, n in self.names.items()}
        self.table = {}
        for tab, off, items in self.w.elems:
            if off is None: continue
            base = off[0][1]
            for k, f in enumerate(items): self.table[base + k] = self.names.get(f, f'#{f}')
    def index_of(self, name):
        ks = [k for k, n in self.table.items() if n == name]
        return ks[0] if len(ks) == 1 else None

class WasmEv(sem.Ev):
    """frames: env = dict(S=stack tuple, C=control tuple, L=dict of locals)"""
    def run(self, name, args): return super().run(name, args)
    def enter_fn(self, st, f, args, retop):
        w = self.m.w; ft = w.ftype(f); body = w.body(f)
        if body is None: raise Unsupported('imported function')
        if len(args) != len(ft['p']): raise Malformed(f"{self.m.names.get(f)}: {len(args)} arguments for {len(ft['p'])} parameters")
        fr = sem.Frame(); fr.kind, fr.op, fr.fn, fr.ret, fr.lev, fr.blocks, fr.loops = 'fn', retop, self.m.names.get(f, f), f, None, None, {}
        fr.i, fr.blk = 0, body[1]
        L = {i: a for i, a in enumerate(args)}
        for k, t in enumerate(body[0]): L[len(args) + k] = self.default(t)
        fr.env = dict(S=(), C=(('fn', len(ft['r']), 0, len(body[1]), None),), L=L)
        st.frames.append(fr)
    def default(self, t): return 0
    def ltype(self, fr, i):
        w = self.m.w; p = w.ftype(fr.ret)['p']
        return p[i] if i < len(p) else w.body(fr.ret)[0][i - len(p)]
    def push(self, fr, *v): fr.env['S'] = fr.env['S'] + tuple(v)
    def pop(self, fr):
        S = fr.env['S']
        if not S: raise Malformed('stack underflow')
        fr.env['S'] = S[:-1]; return S[-1]
    def popn(self, fr, n):
        if n == 0: return []
        S = fr.env['S']
        if len(S) < n: raise Malformed('stack underflow')
        fr.env['S'] = S[:-n]; return list(S[-n:])
    def step(self, st):
        fr = st.frames[-1]
        if fr.i >= len(fr.blk): return self.leave(st)
        x = fr.blk[fr.i]; fr.i += 1
        r = self.ins1(st, fr, x)
        return st if r is None else (None if r == 'end' else r)
    def leave(self, st):
        fr = st.frames[-1]; rs = self.m.w.ftype(fr.ret)['r']
        vals = self.popn(fr, len(rs))
        return self.wret(st, vals, rs)
    def wret(self, st, vals, rs):
        fr = st.frames.pop()
        if not st.frames:
            self.done(st, 'return', [(v, wid(t)) for v, t in zip(vals, rs) if t != NONE]); return None
        if fr.op == 'tail': return self.wret(st, vals, rs)
        self.push(st.frames[-1], *vals); return st
    def branch(self, st, fr, n):
        C = fr.env['C']
        if n >= len(C): raise Malformed('branch depth')
        kind, ar, h, end, start = C[-1 - n]
        if kind == 'fn': return self.leave(st)
        if kind == 'loop': raise Unsupported('wasm loop')
        vals = self.popn(fr, ar)
        fr.env['S'] = fr.env['S'][:h] + tuple(vals); fr.env['C'] = C[:len(C) - 1 - n]; fr.i = end + 1
        return st
    def ins1(self, st, fr, x):
        o = x[0]
        if o == 'local.get': self.push(fr, fr.env['L'][x[1]]); return
        if o in ('local.set', 'local.tee'):
            v = self.pop(fr); L = dict(fr.env['L']); L[x[1]] = v; fr.env['L'] = L
            if o == 'local.tee': self.push(fr, v)
            return
        if o.endswith('.const'): self.push(fr, x[1]); return
        if o in ('nop',): return
        if o == 'drop': self.pop(fr); return
        if o == 'unreachable': self.done(st, 'trap', []); return 'end'
        if o == 'return': r = self.leave(st); return 'end' if r is None else r
        if o in ('block', 'loop'):
            p, r = x[1]; fr.env['C'] += ((o, len(p) if o == 'loop' else len(r), len(fr.env['S']) - len(p), x[3], fr.i),); return
        if o == 'if':
            p, r = x[1]; c = self.pop(fr); out = []
            for s, tv in self.fork(st, nz(c, 32)):
                f = s.frames[-1]
                if tv or x[2] is not None:
                    f.env['C'] += (('if', len(r), len(f.env['S']) - len(p), x[3], None),)
                    if not tv: f.i = x[2] + 1
                else: f.i = x[3] + 1
                out.append(s)
            return out
        if o == 'else':      # end of the then part
            C = fr.env['C']; fr.env['C'] = C[:-1]; fr.i = C[-1][3] + 1; return
        if o == 'end':
            if len(fr.env['C']) > 1: fr.env['C'] = fr.env['C'][:-1]; return
            r = self.leave(st); return 'end' if r is None else r
        if o == 'br': r = self.branch(st, fr, x[1]); return 'end' if r is None else r
        if o == 'br_if':
            c = self.pop(fr); out = []
            for s, tv in self.fork(st, nz(c, 32)):
                if tv: s = self.branch(s, s.frames[-1], x[1])
                if s is not None: out.append(s)
            return out or 'end'
        if o == 'select':
            c = self.pop(fr); b = self.pop(fr); a = self.pop(fr); t = nz(c, 32)
            if isinstance(t, bool): self.push(fr, a if t else b); return
            w = a.size() if not isc(a) else b.size() if not isc(b) else None
            if w is None: raise Unsupported('select of two constants')
            self.push(fr, norm(z3.If(t, bv(a, w), bv(b, w)))); return
        if o in ('call', 'return_call'):
            w = self.m.w; ft = w.ftype(x[1]); nm = self.m.names.get(x[1], f'#{x[1]}'); args = self.popn(fr, len(ft['p']))
            return self.wcall(st, fr, o == 'return_call', nm, f'call {nm}', args, ft['p'], ft['r'], x[1])
        if o in ('call_indirect', 'return_call_indirect'):
            ft = self.m.w.types[x[1]]
            if ft['k'] != 'func': raise Malformed('call_indirect without a function type')
            k = self.pop(fr); args = self.popn(fr, len(ft['p']))
            return self.wcall(st, fr, o[0] == 'r', None, 'icall ', [k] + args, ['i32'] + ft['p'], ft['r'], None)
        if o == 'ref.null': self.push(fr, self.null()); return
        if '.' in o:
            t, n = o.split('.', 1)
            if t in WID: return self.num(st, fr, t, n, x)
        return self.gc(st, fr, x)
    def null(self): return 0
    def gc(self, st, fr, x): raise Unsupported(x[0])
    def wcall(self, st, fr, tail, nm, kind, args, pts, rts, idx):
        if nm is not None and self.o.inline and nm in self.o.inline and self.m.w.body(idx) is not None and sum(f.fn == nm for f in st.frames) == 0:
            self.enter_fn(st, idx, args, 'tail' if tail else None); return
        k = [(a, wid(t)) for a, t in zip(args, pts) if t != NONE]
        rw = [wid(t) if t != NONE else 0 for t in rts]
        r = self.event(st, ('tail' if tail and self.o.tailtag else '') + kind, [a for a, _ in k], [w for _, w in k], rw)
        if self.o.concrete and self.o.retw and self.o.retw(nm) == 1 and r: r[0] &= 1
        if tail: return self.wret(st, r, rts) or 'end'
        self.push(fr, *r)
    def num(self, st, fr, t, n, x):
        w = WID[t]; f = t[0] == 'f'
        if not f:
            if n in BIN: b = self.pop(fr); a = self.pop(fr); self.push(fr, BIN[n](a, b, w)); return
            if n in CMPO: b = self.pop(fr); a = self.pop(fr); self.push(fr, fitw(b2v(cmpi(CMPO[n], a, b, w)), 1, 32)); return
            if n == 'eqz': a = self.pop(fr); self.push(fr, fitw(b2v(eqv(a, 0, w)), 1, 32)); return
            if n in ('shl', 'shr_s', 'shr_u'): b = self.pop(fr); a = self.pop(fr); self.push(fr, {'shl': shl, 'shr_s': shrs, 'shr_u': shru}[n](a, b, w, w)); return
            if n in ('div_s', 'div_u', 'rem_s', 'rem_u'):
                b = self.pop(fr); a = self.pop(fr); bad = eqv(b, 0, w)
                if n == 'div_s':
                    p, q = eqv(a, 1 << (w - 1), w), eqv(b, msk(w), w)
                    ov = (p and q) if isinstance(p, bool) and isinstance(q, bool) else (False if p is False or q is False else z3.And(*[c for c in (p, q) if not isinstance(c, bool)]))
                    bad = True if bad is True or ov is True else (ov if bad is False else bad if ov is False else z3.Or(bad, ov))
                v = {'div_s': divs, 'div_u': divu, 'rem_s': rems, 'rem_u': remu}[n](a, b, w); out = []
                for s, tv in self.fork(st, bad):
                    if tv: self.done(s, 'trap', [])
                    else: self.push(s.frames[-1], v); out.append(s)
                return out or 'end'
            if n == 'wrap_i64': self.push(fr, trunc(self.pop(fr), 64, 32)); return
            if n in ('extend_i32_s', 'extend_i32_u'): self.push(fr, (sext if n[-1] == 's' else zext)(self.pop(fr), 32, 64)); return
            if n.startswith('trunc_f'):
                fw = int(n[7:9]); v = f2i(self.pop(fr), fw, w, n[-1] == 's')
                if v is None: self.done(st, 'trap', []); return 'end'
                self.push(fr, v); return
            if n.startswith('reinterpret'): return
            if n in ('extend8_s', 'extend16_s', 'extend32_s'):
                k = int(n[6:-2]); self.push(fr, sext(trunc(self.pop(fr), w, k), k, w)); return
        else:
            if n in ('add', 'sub', 'mul', 'div'): b = self.pop(fr); a = self.pop(fr); self.push(fr, fbin('f' + n, a, b, w)); return
            if n in FCMP: b = self.pop(fr); a = self.pop(fr); self.push(fr, fitw(b2v(fcmp(FCMP[n], a, b, w)), 1, 32)); return
            if n == 'neg': self.push(fr, fneg(self.pop(fr), w)); return
            if n.startswith('convert_i'): k = int(n[9:11]); self.push(fr, i2f(self.pop(fr), k, w, n[-1] == 's')); return
            if n == 'promote_f32': self.push(fr, fpro(self.pop(fr))); return
            if n == 'demote_f64': self.push(fr, fdem(self.pop(fr))); return
            if n.startswith('reinterpret'): return
        raise Unsupported(x[0])
