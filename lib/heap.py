"""Programs with heap objects: the meaning of the ADT and boxing operations (before lowering: abstract objects) and of the emitted
code (after lowering: a byte-addressed heap with the runtime's allocator, reference counts and type-indexed release functions)."""
import struct
import z3
import sem, clif, native, tv
from sem import *

# ------------------------------------------------------------------------------- before lowering
class Obj:
    __slots__ = ('id',)
    def __init__(self, i): self.id = i
    def __repr__(self): return f'obj{self.id}'
    def diff(self, o): return not (isinstance(o, Obj) and o.id == self.id)
NULL = Obj(0)
class Abs:
    """the abstract heap: object -> [kind, tag, fields]"""
    def __init__(self): self.o = {}
    def clone(self):
        a = Abs(); a.o = {k: [x[0], x[1], list(x[2])] for k, x in self.o.items()}; return a
    def new(self, kind, tag, fields):
        i = len(self.o) + 1; self.o[i] = [kind, tag, fields]; return Obj(i)

def faddr(n):
    import hashlib
    return (int.from_bytes(hashlib.sha256(n.encode()).digest()[:7], 'little') & ~0xf) | (1 << 62)

class HeapPre(native.PreEv):
    def newmem(self): return Abs()
    def symaddr(self, n): return faddr(n)
    def obj(self, st, x):
        if not isinstance(x, Obj): raise Unsupported('reference expected')
        if x.id == 0: raise Excluded()
        return st.mem.o[x.id]
    def fields(self, t): return [[f['v'][0]['v'], f['v'][1]['v']] for f in self.m.types[t]['a']['fields']['v']]
    def op_adt_struct_new(self, st, op): self.setr(st, op, st.mem.new(op['a']['type']['v'], None, self.ins(st, op)))
    def op_adt_struct_get(self, st, op):
        (a,) = self.ins(st, op); o = self.obj(st, a)
        if o[0] != op['a']['type']['v']: raise Excluded()
        self.setr(st, op, o[2][int(op['a']['field']['v'])])
    def op_adt_struct_set(self, st, op):
        a, v = self.ins(st, op); o = self.obj(st, a)
        if o[0] != op['a']['type']['v']: raise Excluded()
        o[2][int(op['a']['field']['v'])] = v
    def op_adt_variant_new(self, st, op): self.setr(st, op, st.mem.new(op['a']['type']['v'], op['a']['tag']['v'], self.ins(st, op)))
    def op_adt_variant_is(self, st, op):
        (a,) = self.ins(st, op); o = self.obj(st, a)
        if o[0] != op['a']['type']['v']: raise Excluded()
        self.setr(st, op, int(o[1] == op['a']['tag']['v']))
    def op_adt_variant_cast(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, a)
    def op_adt_variant_get(self, st, op):
        (a,) = self.ins(st, op); o = self.obj(st, a)
        if o[0] != op['a']['type']['v'] or o[1] != op['a']['tag']['v']: raise Excluded()
        self.setr(st, op, o[2][int(op['a']['field']['v'])])
    def op_adt_ref_null(self, st, op): self.setr(st, op, NULL)
    def op_adt_ref_cast(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, a)
    def op_adt_ref_is_null(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, int(a.id == 0))
    def box(kind):
        def h(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, st.mem.new('box_' + kind, None, [fitw(a, self.w(op['i'][0]), 32) if kind != 'float' else a]))
        return h
    def unbox(kind):
        def h(self, st, op):
            (a,) = self.ins(st, op); o = self.obj(st, a)
            if o[0] != 'box_' + kind: raise Excluded()
            self.setr(st, op, o[2][0] if kind == 'float' else fitw(o[2][0], 32, self.w(op['o'][0])))
        return h
    for _k in ('int', 'nat', 'bool', 'float'):
        locals()['op_tribute_rt_box_' + _k] = box(_k); locals()['op_tribute_rt_unbox_' + _k] = unbox(_k)
    def op_core_unrealized_conversion_cast(self, st, op):
        (a,) = self.ins(st, op); s, d = self.m.tstr(op['i'][0][1]), self.m.tstr(op['o'][0][1])
        if s == d: self.setr(st, op, a); return
        if isinstance(a, Obj):
            w = self.w(op['o'][0])
            if d.startswith('core.') and d[5] in 'if' and d[6:].isdigit():
                o = self.obj(st, a)
                if o[0] != 'box' + d: raise Excluded()
                self.setr(st, op, o[2][0]); return
            self.setr(st, op, a); return
        if d == 'tribute_rt.anyref': self.setr(st, op, st.mem.new('box' + s, None, [a])); return
        raise Unsupported(f'cast {s} -> {d}')
    def op_func_call(self, st, op):
        nm = op['a']['callee']['v']
        if nm in self.m.funcs and 'abi' not in self.m.funcs[nm]['a']:
            if len(st.frames) > 60: raise TooBig()
            self.enter_fn(st, self.m.funcs[nm], self.ins(st, op), op); return
        return super().op_func_call(st, op)
    def op_func_tail_call(self, st, op):
        nm = op['a']['callee']['v']
        if nm in self.m.funcs and 'abi' not in self.m.funcs[nm]['a']:
            if len(st.frames) > 60: raise TooBig()
            self.enter_fn(st, self.m.funcs[nm], self.ins(st, op), 'tail'); return
        return super().op_func_tail_call(st, op)
    def icall(self, st, op, ret):
        c, *args = self.ins(st, op)
        for n, f in self.m.funcs.items():
            if isc(c) and c == faddr(n) and 'abi' not in f['a']:
                if len(st.frames) > 60: raise TooBig()
                self.enter_fn(st, f, args, ret); return True
    def op_func_call_indirect(self, st, op):
        if not self.icall(st, op, op): return super().op_func_call_indirect(st, op)
    def op_func_tail_call_indirect(self, st, op):
        if not self.icall(st, op, 'tail'): return super().op_func_tail_call_indirect(st, op)

# ------------------------------------------------------------------------------- after lowering
class Fault(Exception): pass
class Heap:
    def __init__(self): self.blk, self.b, self.next, self.log = {}, {}, 0x10000, []
    def clone(self):
        h = Heap(); h.blk = {k: list(x) for k, x in self.blk.items()}; h.b = dict(self.b); h.next = self.next; h.log = list(self.log); return h
    def alloc(self, n):
        a = self.next; self.next += ((n + 15) & ~15) + 64; self.blk[a] = [n, 'live']; return a
    def find(self, a):
        for base, (n, s) in self.blk.items():
            if base <= a < base + n: return base
        return None

def elf_table(obj, name):
    """(offset -> symbol name) relocations inside a data object of an ELF64 relocatable file"""
    e_shoff, = struct.unpack_from('<Q', obj, 40); shentsize, shnum, shstr = struct.unpack_from('<HHH', obj, 58)
    sh = [struct.unpack_from('<IIQQQQIIQQ', obj, e_shoff + i * shentsize) for i in range(shnum)]
    syms = []
    for s in sh:
        if s[1] == 2:
            st = sh[s[6]]
            for i in range(s[5] // 24):
                nm, info, oth, shndx, val, size = struct.unpack_from('<IBBHQQ', obj, s[4] + 24 * i)
                e = obj.index(b'\0', st[4] + nm); syms.append((obj[st[4] + nm:e].decode(), shndx, val, size))
    t = [s for s in syms if s[0] == name]
    if not t: return None
    _, sec, base, size = t[0]; out = {}
    for s in sh:
        if s[1] == 4 and s[7] == sec:
            for i in range(s[5] // 24):
                off, info, add = struct.unpack_from('<QQq', obj, s[4] + 24 * i)
                if base <= off < base + size: out[off - base] = (syms[info >> 32][0], add)
    return out, size, obj[sh[sec][4] + base: sh[sec][4] + base + size] if sh[sec][1] != 8 else bytes(size)

class HeapClif(clif.Clif):
    def __init__(self, d):
        super().__init__(d)
        self.dataat = {}
        obj = bytes.fromhex(d['obj']) if 'obj' in d else None
        names = set(self.data.values()) | set(self.rodata) | {'__tribute_rtti_table'}
        a = 1 << 40
        for n in sorted(names):
            r = elf_table(obj, n) if obj else None
            if r is None: continue
            self.dataat[n] = (a, r[0], r[1], r[2]); a += r[1] + 4096 & ~15
        self.byaddr = {faddr(n): n for n in self.funcs}
    def symname(self, s):
        """the function an object-file symbol stands for (names may be mangled there)"""
        c = [n for n in self.funcs if n in s]
        return s if s in self.funcs else max(c, key=len) if c else s

class HeapEv(clif.ClifEv):
    allow_leak_dealloc, leaks, reuse, deep = True, False, True, False
    def newmem(self): return Heap()
    def symaddr(self, n):
        if n in self.m.dataat: return self.m.dataat[n][0]
        return faddr(n)
    def step(self, st):
        try: return super().step(st)
        except Fault as e: self.done(st, f'fault: {e}', []); return None
    def done(self, st, kind, vals):
        if self.leaks and kind == 'return':
            n = [b[0] for b in st.mem.blk.values() if b[1] == 'live']
            if n: kind, vals = f'fault: {len(n)} object(s) never released (sizes {sorted(n)})', []
        return super().done(st, kind, vals)
    def rng(self, st, a, n, what):
        if not isc(a): raise Unsupported(f'{what} at a symbolic address')
        base = st.mem.find(a)
        if base is None:
            for nm, (b, rel, size, data) in self.m.dataat.items():
                if b <= a and a + n <= b + size:
                    if what != 'load': raise Fault(f'{what} to constant data {nm}')
                    return ('data', nm, a - b)
            raise Fault(f'{what} of {n} bytes outside any object ({"null" if a < 4096 else hex(a)})')
        sz, s = st.mem.blk[base]
        if a + n > base + sz: raise Fault(f'{what} of {n} bytes at offset {a - base} of an object of {sz} bytes')
        if s != 'live' and self.reuse: raise Fault(f'{what} at offset {a - base} of an object that was released')
        return ('heap', base, a - base)
    def load(self, st, a, w):
        k, x, off = self.rng(st, a, w // 8, 'load'); n = w // 8
        if k == 'data':
            _, rel, size, data = self.m.dataat[x]
            if off in rel and n == 8:
                s, add = rel[off]
                return (faddr(self.m.symname(s)) + add) & msk(64) if s not in self.m.dataat else self.m.dataat[s][0] + add
            if any(off < k + 8 and k < off + n for k in rel): raise Unsupported('part of a relocated word')
            return int.from_bytes(data[off:off + n], 'little')
        bs = [st.mem.b.get(a + i) for i in range(n)]
        if None in bs: raise Fault(f'load of {n} bytes at offset {off} reads uninitialised memory')
        v, vw, ix = bs[0]
        if ix == 0 and vw == w and all(b[0] is v and b[2] == i for i, b in enumerate(bs)): return v
        out = None
        for b in reversed(bs):
            x = (b[0] >> (8 * b[2])) & 255 if isc(b[0]) else z3.Extract(8 * b[2] + 7, 8 * b[2], b[0])
            x = bv(x, 8); out = x if out is None else z3.Concat(out, x)
        return norm(out)
    def store(self, st, a, v, w):
        self.rng(st, a, w // 8, 'store')
        for i in range(w // 8): st.mem.b[a + i] = (v, w, i)
    def op_cl_atomic_rmw(self, st, op):
        p, v = self.ins(st, op); w = self.w(op['o'][0]); old = self.load(st, p, w); k = op['a']['op']
        if not isc(old): raise Unsupported('symbolic count')
        new = addi(old, v, w) if k == 'add' else subi(old, v, w) if k == 'sub' else None
        if new is None: raise Unsupported('atomic_rmw ' + k)
        if k == 'sub' and old == 0 and self.reuse: raise Fault('reference count goes below zero')
        if k == 'sub':
            b = st.mem.find(p); st.mem.log.append(b)
            if old == 1: st.mem.log.append(('zero', b))
        self.store(st, p, new, w); self.setr(st, op, old)
    def runtime(self, st, op, nm, args):
        if nm == '__tribute_alloc':
            if not isc(args[0]): raise Unsupported('allocation of symbolic size')
            self.setr(st, op, st.mem.alloc(args[0])); return True
        if nm == '__tribute_dealloc':
            p, n = args
            if p not in st.mem.blk: raise Fault(f'dealloc of something that is not an allocation')
            sz, s = st.mem.blk[p]
            if not self.reuse: self.setr(st, op); return True
            if s != 'live': raise Fault('object released twice')
            if self.reuse:
                since = st.mem.log[max([i for i, e in enumerate(st.mem.log) if e == ('zero', p)], default=0):]
                for off in range(8, sz - 7, 8):
                    e = st.mem.b.get(p + off)
                    if e and e[1] == 64 and e[2] == 0 and isc(e[0]) and e[0] - 8 in st.mem.blk:
                        if e[0] - 8 not in since and self.deep: raise Fault(f'object of {sz} bytes released without releasing the reference at offset {off}')
                        if e[0] - 8 in since: since.remove(e[0] - 8)
            if n != sz and not (n == 0 and self.allow_leak_dealloc): raise Fault(f'dealloc({n}) of an object of {sz} bytes')
            st.mem.blk[p][1] = 'freed' if n else 'dropped'; self.setr(st, op); return True
        return False
    def op_cl_call(self, st, op):
        self.chk(op); nm = op['a']['callee']['v']; args = self.ins(st, op)
        if self.runtime(st, op, nm, args): return
        if nm in self.m.funcs:
            if len(st.frames) > 400: raise TooBig()
            self.enter_fn(st, self.m.funcs[nm], args, op); return
        self.setr(st, op, *self.callres(st, f'call {self.o.rename(nm)}', nm, args, [self.w(v) for v in op['i']], op['a']['rts'], op))
    def op_cl_return_call(self, st, op):
        self.chk(op); nm = op['a']['callee']['v']; args = self.ins(st, op)
        if nm in self.m.funcs:
            if len(st.frames) > 400: raise TooBig()
            self.enter_fn(st, self.m.funcs[nm], args, 'tail'); return
        return super().op_cl_return_call(st, op)
    def op_cl_call_indirect(self, st, op):
        c = self.get(st, op['i'][0])
        if isc(c) and c in self.m.byaddr:
            n = self.m.byaddr[c]; sg = self.m.sigs_of[n]
            if list(sg[0]) != list(op['a']['pts']) or list(sg[1]) != list(op['a']['rts']): raise Fault(f'indirect call of {n} with another signature')
            if len(st.frames) > 400: raise TooBig()
            self.enter_fn(st, self.m.funcs[n], self.ins(st, op)[1:], op); return
        if isc(c): raise Fault('indirect call of something that is not a function')
        return super().op_cl_call_indirect(st, op)
    def op_cl_return_call_indirect(self, st, op):
        c = self.get(st, op['i'][0])
        if isc(c) and c in self.m.byaddr:
            if len(st.frames) > 400: raise TooBig()
            self.enter_fn(st, self.m.funcs[self.m.byaddr[c]], self.ins(st, op)[1:], 'tail'); return
        if isc(c): raise Fault('indirect call of something that is not a function')
        return super().op_cl_return_call_indirect(st, op)

def npass(policy='bt', opt=True):
    out = []
    for p in native.NP:
        if p == 'rc_insert': p = f'rc_insert:{policy}'
        if p == 'rc_opt' and not opt: continue
        out.append(p)
    return out

class HeapSpec(native.NativeSpec):
    def __init__(self, policy='bt', opt=True, leaks=False, reuse=True, deep=False, **k):
        super().__init__(passes=npass(policy, opt), outs=['emit_clif:obj'], opts=dict(tailtag=False, unroll=True, fuel=200000), **k)
        self.Ev, self.EvPost = HeapPre, type('HeapEvX', (HeapEv,), dict(leaks=leaks, reuse=reuse, deep=deep))
        self.post = lambda r: HeapClif(r['clif'])
        self.funcs = lambda pre, post: [n for n in pre.funcs if n.startswith('entry')]

# programs on which the unchanged tree breaks the property (known-findings.jsonl)
KNOWN = [
('known: fresh object both stored in a field and passed on', '''core.module @m {
  !S0 = adt.struct() {name = @S0, fields = [[@f0, core.i64]]}
  !S1 = adt.struct() {name = @S1, fields = [[@f0, tribute_rt.anyref]]}
  func.func @sink_i64(%p0: core.i64) -> core.nil attributes {abi = "C"} {
    func.unreachable
  }
  func.func @entry(%x: core.i64) -> core.nil attributes {tribute.calling_convention = 2} {
    %a = adt.struct_new %x {type = !S0} : tribute_rt.anyref
    %b = adt.struct_new %a {type = !S1} : tribute_rt.anyref
    func.tail_call %a, %b {callee = @k, tribute.calling_convention = 2}
  }
  func.func @k(%a: tribute_rt.anyref, %b: tribute_rt.anyref) -> core.nil attributes {tribute.calling_convention = 2} {
    %v = adt.struct_get %a {type = !S0, field = 0} : core.i64
    %n = func.call %v {callee = @sink_i64} : core.nil
    %c = adt.struct_get %b {type = !S1, field = 0} : tribute_rt.anyref
    %w = adt.struct_get %c {type = !S0, field = 0} : core.i64
    %m = func.call %w {callee = @sink_i64} : core.nil
    %u = arith.const {value = unit} : core.nil
    func.return %u
  }
}
'''),
('known: field of a struct type read from a managed object', '''core.module @m {
  !P = adt.struct() {name = @P, fields = [[@x, core.i32], [@y, core.i64]]}
  !Q = adt.struct() {name = @Q, fields = [[@p, adt.struct() {name = @P, fields = [[@x, core.i32], [@y, core.i64]]}], [@z, core.i64]]}
  func.func @mk(%x: core.i32, %y: core.i64) -> tribute_rt.anyref {
    %p = adt.struct_new %x, %y {type = !P} : !P
    %q = adt.struct_new %p, %y {type = !Q} : tribute_rt.anyref
    func.return %q
  }
  func.func @entry(%x: core.i32, %y: core.i64) -> core.i64 {
    %q = func.call %x, %y {callee = @mk} : tribute_rt.anyref
    %p = adt.struct_get %q {type = !Q, field = 0} : !P
    %r = adt.struct_get %p {type = !P, field = 1} : core.i64
    func.return %r
  }
}
'''),
('known: function returning its parameter of a struct type', '''core.module @m {
  !S0 = adt.struct() {name = @S0, fields = [[@f0, core.i64]]}
  func.func @mk(%x: core.i64) -> tribute_rt.anyref {
    %s = adt.struct_new %x {type = !S0} : tribute_rt.anyref
    func.return %s
  }
  func.func @same(%s: !S0) -> !S0 {
    func.return %s
  }
  func.func @entry(%x: core.i64) -> core.i64 {
    %a = func.call %x {callee = @mk} : tribute_rt.anyref
    %t = core.unrealized_conversion_cast %a : !S0
    %r = func.call %t {callee = @same} : !S0
    %v = adt.struct_get %r {type = !S0, field = 0} : core.i64
    func.return %v
  }
}
'''),
]
