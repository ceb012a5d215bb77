"""Built-in operators, lists, byte strings, string constants and line input/output, from the operation the language means to the emitted code."""
import hashlib
import z3
import sem, heap, adtgen, tv, native
from sem import *
from adtgen import REF

_I = dict(zip('+ - * / %'.split(), 'addi subi muli divsi remsi'.split())); _N = dict(_I, **{'/': 'divui', '%': 'remui'}); _F = dict(zip('+ - * /'.split(), 'addf subf mulf divf'.split()))
CMP = {'Int': dict(zip('== != < <= > >='.split(), 'eq ne slt sle sgt sge'.split())), 'Nat': dict(zip('== != < <= > >='.split(), 'eq ne ult ule ugt uge'.split())), 'Float': dict(zip('== != < <= > >='.split(), 'oeq une olt ole ogt oge'.split()))}
TY = {'Int': 'core.i32', 'Nat': 'core.i32', 'Float': 'core.f64'}
OPS = {}
for _k, _t in (('Int', _I), ('Nat', _N), ('Float', _F)):
    for _s, _o in _t.items(): OPS[f'{_k}::{_s}'] = ('arith', _o, None, TY[_k], TY[_k])
    for _s, _p in CMP[_k].items(): OPS[f'{_k}::{_s}'] = ('arith', 'cmpf' if _k == 'Float' else 'cmpi', _p, TY[_k], 'core.i1')
PREP = 'List::__tribute_list_prepend_intrinsic'
GET, LEN, WRITE, RDLN = '__bytes_get_or_panic', '__tribute_bytes_len', 'std::io::__tribute_io_write', 'std::io::__tribute_io_read_line'
def digest(b): return int.from_bytes(hashlib.sha256(bytes(b)).digest()[:8], 'little')
def unesc(h): return bytes.fromhex(h)

class BPre(heap.HeapPre):
    def operator(self, st, op, nm, i):
        d, n, p, _, _ = OPS[nm]
        return getattr(self, f'op_{d}_{n}')(st, dict(d=d, n=n, a=dict(predicate=dict(k='sym', v=p)) if p else {}, i=i, o=op['o'], r=[], s=[]))
    def isint(self, nm): return nm not in self.m.funcs or self.m.funcs[nm]['a'].get('abi', {}).get('v') == 'intrinsic'
    def op_func_call(self, st, op):
        nm = op['a']['callee']['v']
        if nm in OPS and self.isint(nm): return self.operator(st, op, nm, op['i'])
        if (nm == PREP or nm.startswith(PREP + '$')) and (nm not in self.m.funcs or self.isint(nm)) and PREP in self.m.funcs: return self.op_list_prepend(st, op)
        if nm == GET: return self.getb(st, op)
        if nm == LEN: self.setr(st, op, len(self.bytes_of(st, self.ins(st, op)[0]))); return
        if nm == WRITE: return self.op_tribute_io_write(st, op)
        if nm == RDLN: return self.op_tribute_io_read_line(st, op)
        return super().op_func_call(st, op)
    def icall(self, st, op, ret):
        c = self.get(st, op['i'][0])
        if ret is op and isc(c):
            for n in OPS:
                if c == heap.faddr(n) and self.isint(n): r = self.operator(st, op, n, op['i'][1:]); return ('op', r)
        return super().icall(st, op, ret)
    def op_func_call_indirect(self, st, op):
        r = self.icall(st, op, op)
        if isinstance(r, tuple): return r[1]
        if not r: return sem.Ev.op_func_call_indirect(self, st, op)
    # -- lists
    def op_list_empty(self, st, op): self.setr(st, op, heap.NULL)
    def op_list_prepend(self, st, op): self.setr(st, op, st.mem.new('list', None, self.ins(st, op)))
    def op_list_is_empty(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, int(a.id == 0))
    def part(k):
        def h(self, st, op):
            (a,) = self.ins(st, op)
            if not isinstance(a, heap.Obj): raise Unsupported('reference expected')
            if a.id == 0: self.done(st, 'trap', []); return 'end'
            o = st.mem.o[a.id]
            if o[0] != 'list': raise Excluded()
            self.setr(st, op, o[2][k])
        return h
    op_list_head, op_list_tail = part(0), part(1)
    # -- byte strings
    def op_adt_bytes_const(self, st, op): self.setr(st, op, st.mem.new('bytes', None, [unesc(op['a']['value']['v'])]))
    def op_adt_string_const(self, st, op):
        b = st.mem.new('bytes', None, [op['a']['value']['v'].encode()]); self.setr(st, op, st.mem.new(self.m.op['a']['tribute.type.string']['v'], 'Leaf', [b]))
    def bytes_of(self, st, a):
        o = self.obj(st, a)
        if o[0] != 'bytes': raise Excluded()
        return o[2][0]
    def getb(self, st, op):
        a, i = self.ins(st, op); b = self.bytes_of(st, a); w = self.w(op['o'][0]); out = []
        for s, tv_ in self.fork(st, cmpi('ult', i, len(b), 32)):
            if not tv_: self.done(s, 'trap', []); continue
            if isc(i): v = b[i]
            else:
                v = z3.BitVecVal(b[-1], w)
                for k in range(len(b) - 1): v = z3.If(i == k, z3.BitVecVal(b[k], w), v)
                v = norm(v)
            self.setr(s, op, v); out.append(s)
        return out
    # -- line input and output
    def op_tribute_io_write(self, st, op):
        b, nl = self.ins(st, op); self.event(st, 'write', [digest(self.bytes_of(st, b)), nl], [64, 1], []); self.setr(st, op, 0)
    def op_tribute_io_read_line(self, st, op):
        t = [i for i, d in enumerate(self.m.types) if d['n'] == 'enum' and d['a']['name']['v'] == 'std::io::ReadLineResult']
        out = []
        for s, k, code in readline(self, st):
            nb = lambda what: s.mem.new('bytes', None, [content(what, len(s.trace))])
            fs = [nb('line')] if k == 0 else [code, nb('message')] if k == 3 else []
            self.setr(s, op, s.mem.new(t[0] if t else -1, ['ReadLine', 'ReadEndOfFile', 'ReadInvalidEncoding', 'ReadSystem'][k], fs)); out.append(s)
        return out
def content(what, n): return f'{what}\xe9{n}'.encode()
def readline(ev, st):
    """the runtime's answer: a line, end of file, an encoding error, or a system error with a code"""
    e, code = ev.event(st, 'read_line', [], [], [32, 32]); out = []
    if ev.o.concrete: return [(st, e & 3, code)]
    cur = st
    for k in range(4):
        nxt = None
        for s, t in ev.fork(cur, norm((e & 3) == k)):
            if t: out.append((s, k, code))
            else: nxt = s
        if nxt is None: break
        cur = nxt
    return out

class Concretize(Exception):
    def __init__(self, a): self.a = a
class BPost(heap.HeapEv):
    def load(self, st, a, w):
        if not isc(a): raise Concretize(a)
        return super().load(st, a, w)
    def step(self, st):
        fr = st.frames[-1]; i = fr.i; op = fr.blk['ops'][i] if i < len(fr.blk['ops']) else None
        try: return super().step(st)
        except Concretize as e:
            # a load through an address computed from an input: one state per possible address
            fr.i = i; v = op['i'][0][0]; p = fr.env[v]; s = z3.Solver(); s.set('timeout', 4000); s.add(*st.pc); out = []
            for _ in range(64):
                if s.check() != z3.sat: break
                k = s.model().eval(p, model_completion=True).as_long(); s.add(p != k)
                n = st.clone(); n.pc.append(p == k); n.frames[-1].env[v] = k; out.append(n)
                n.frames[-1].env = n.frames[-1].env
                try: self.rng(n, addi(k, op['a']['off'] & msk(64), 64), 1, 'load')
                except heap.Fault: break
            else: raise Unsupported('more than 64 addresses')
            return out
    def content(self, st, p):
        d, n = self.load(st, p, 64), self.load(st, addi(p, 8, 64), 64)
        if not isc(d) or not isc(n): raise Unsupported('symbolic byte string')
        if n > 4096: raise heap.Fault(f'byte string of {n} bytes')
        return bytes(self.load(st, d + i, 8) for i in range(n))
    def newbytes(self, st, b):
        d = st.mem.alloc(len(b)); o = st.mem.alloc(24)
        for i, x in enumerate(b): st.mem.b[d + i] = (x, 8, 0)
        for off, v, w in ((0, 1, 32), (4, 0, 32), (8, d, 64), (16, len(b), 64)): self.store(st, o + off, v, w)
        return o + 8
    def runtime(self, st, op, nm, args):
        if nm == LEN: self.setr(st, op, self.load(st, addi(args[0], 8, 64), 64) & msk(32)); return True
        if nm == '__tribute_io_write':
            self.event(st, 'write', [digest(self.content(st, args[0])), args[1]], [64, self.w(op['i'][1])], []); self.setr(st, op); return True
        if nm == '__tribute_io_read_line_result_dealloc':
            if args[0] not in st.mem.blk or st.mem.blk[args[0]][0] != 24.5: raise heap.Fault('release of something that is not a line result')
            if st.mem.blk[args[0]][1] != 'live': raise heap.Fault('line result released twice')
            st.mem.blk[args[0]][1] = 'freed'; self.setr(st, op); return True
        return super().runtime(st, op, nm, args)
    def rng(self, st, a, n, what):
        r = super().rng(st, a, n, what)
        if r[0] == 'heap' and st.mem.blk[r[1]][0] == 24.5 and st.mem.blk[r[1]][1] != 'live': raise heap.Fault(f'{what} at offset {r[2]} of a line result that was released')
        return r
    def op_cl_call(self, st, op):
        nm = op['a']['callee']['v']
        if nm == '__tribute_io_read_line':
            self.chk(op); out = []
            for s, k, code in readline(self, st):
                p = s.mem.alloc(24); s.mem.blk[p][0] = 24.5
                b = self.newbytes(s, content('line', len(s.trace))) if k == 0 else 0
                m = self.newbytes(s, content('message', len(s.trace))) if k == 3 else 0
                for off, v, w in ((0, k, 32), (4, code if k == 3 else 0, 32), (8, b, 64), (16, m, 64)): self.store(s, p + off, v, w)
                self.setr(s, op, p); out.append(s)
            return out
        return super().op_cl_call(st, op)

class BSpec(heap.HeapSpec):
    def __init__(self, policy='bt', opt=True, inl=False, **k):
        super().__init__(policy, opt, **k)
        self.Ev, self.EvPost = BPre, type('BPostX', (BPost,), dict(leaks=False, reuse=k.get('reuse', True), deep=False))
        self.before = ['well_known']
        self.passes = ['intrinsic_to_arith', 'list_intrinsics', 'io_intrinsics'] + (['inline', 'canonicalize_pass', 'dce_pass', 'casts_generic'] if inl else []) + self.passes
        self.extra = leftover
def leftover(pre, post, r):
    """no operation of the language is left to the linker"""
    out = []
    for t in post.funcs.values():
        for b in t['r'][0]:
            for o in b['ops']:
                c = o['a'].get('callee') if o['n'] in ('call', 'return_call') else None
                n = c['v'] if isinstance(c, dict) else ''
                if n in OPS and n not in post.funcs or n.startswith(PREP) and n not in post.funcs or n in (GET, WRITE, RDLN): out.append(f'the call of {n} is left in the emitted code')
    return out

def derived(b):
    """constants that a sharing scheme could confuse with b"""
    n = len(b); h = n // 2
    return [b, b[:h], b[h:], b[1:], b[:-1], b[1:-1], b + b'\0', b'\0' + b, b + b, b[::-1], bytes(x ^ 32 for x in b), b[:h] + bytes([b[h] ^ 1]) + b[h + 1:] if b else b'\0', bytes(n), b'un' + b]
def esc(b): return ''.join(chr(x) if 32 <= x < 127 and chr(x) not in '"\\' else f'\\x{x:02x}' for x in b)
class BG(adtgen.A):
    def __init__(self, seed, **k):
        for a, d in (('lists', .8), ('ops', True), ('bytes', .7), ('io', .5), ('byfields', True)): k.setdefault(a, d)
        super().__init__(seed, **k); r = self.r
        self.lists, self.hasby, self.hasio, self.decls = {}, r.random() < k['bytes'], False, {}
        if r.random() < k['lists']:
            for i in range(r.randint(1, 3)): self.lists[f'L{i}'] = r.choice(['core.i8', 'core.i16', 'core.i32', 'core.i64', 'core.f64', 'core.i1', 'core.i32', 'S0', 'E0', 'box_int'] + (['BY'] if self.hasby and k['byfields'] else []) + list(self.lists))
            self.lists = {n: e for n, e in self.lists.items() if '.' in e or e in self.tys or e in self.lists or e in ('BY', 'box_int')}
        if self.hasby and r.random() < .6 and k['byfields']: self.tys['EST'] = [('Leaf', ['BY']), ('Branch', ['EST', 'EST', 'core.i32'])]
        if self.hasby and r.random() < k['io'] and k['byfields']: self.hasio = True; self.tys['ERL'] = [('ReadLine', ['BY']), ('ReadEndOfFile', []), ('ReadInvalidEncoding', []), ('ReadSystem', ['core.i32', 'BY'])]
        if (self.lists or self.hasby) and r.random() < .6: self.tys['S9'] = [('', [r.choice(list(self.lists) + (['BY'] if self.hasby and k['byfields'] else []) + ['core.i32']) for _ in range(r.randint(1, 3))])]
    def irt(self, t): return 'core.bytes' if t == 'BY' else super().irt(t)
    def tytext(self, n):
        s = super().tytext(n)
        return s.replace('name = @ERL', 'name = @"std::io::ReadLineResult"').replace('name = @EST', 'name = @String')
    def kind(self):
        c = list(self.lists) * 2 + (['BY'] * 2 if self.hasby else []); r = self.r
        return r.choice(c) if c and r.random() < .5 else super().kind()
    def val(self, t, deep=3, own=False):
        if (t in self.lists or t == 'BY') and not ((h := [v for v in self.have(t) if not (own and v in self.stored) and v not in self.handed]) and self.r.random() < .7): return self.make(t, deep)
        return super().val(t, deep, own)
    def make(self, t, deep, call=False):
        r = self.r; x = self.fresh
        if t == 'BY': y = x(); self.emit(f'{y} = adt.bytes_const {{value = b"{esc(self.rbytes())}"}} : core.bytes'); return self.put(y, t)
        if t == 'EST' and r.random() < .6: y = x(); self.emit(f'{y} = adt.string_const {{value = "{r.choice(["", "a", "hello", "shared", "unshared", "share", chr(233) * 3, "x" * 30, "x" * 29])}"}} : {REF}'); self.put(y, t); self.freshv.add(y); return y
        if t == 'ERL' and r.random() < .7:
            y = x(); self.decl(RDLN, [], REF); self.emit(f'{y} = func.call {{callee = @"{RDLN}"}} : {REF}' if r.random() < .6 else f'{y} = tribute_io.read_line : {REF}'); self.put(y, t); self.freshv.add(y); return y
        if t in self.lists:
            e = self.lists[t]; y = x()
            if deep <= 0 or r.random() < .25: self.emit(f'{y} = list.empty {{element_type = {self.irt(e)}}} : {REF}'); return self.put(y, t)
            a = self.usestore(self.val(e, deep - 1)) if self.isref(e) else self.val(e); b = self.usestore(self.val(t, deep - 1)); y = x(); self.prepend(y, a, b, e); self.freshv.add(y); return self.put(y, t)
        return super().make(t, deep, call)
    def prepend(self, y, a, b, e):
        r = self.r
        if r.random() < .5: self.emit(f'{y} = list.prepend {a}, {b} {{element_type = {self.irt(e)}}} : {REF}'); return
        self.decl(PREP, [REF, REF], REF); self.emit(f'{y} = func.call {a}, {b} {{callee = @"{PREP}{r.choice(["", "$Int", "$String"])}"}} : {REF}')
    def rbytes(self):
        r = self.r; k = r.random(); old = getattr(self, 'bconsts', [])
        if old and k < .45: b = r.choice(derived(r.choice(old)))
        else: b = b'' if k < .5 else b'shared' if k < .6 else bytes(r.choice([0, 1, 0x7f, 0x80, 0xff, 0x61, 0x22, 0x5c, r.randrange(256)]) for _ in range(r.choice([1, 2, 3, 8, 20])))
        self.bconsts = old + [b]; return b
    def decl(self, n, ps, rt): self.decls[n] = f'  func.func @"{n}"({", ".join(f"%p{i}: {p}" for i, p in enumerate(ps))}) -> {rt} attributes {{abi = "{"C" if n == LEN else "intrinsic"}"}} {{\n    func.unreachable\n  }}'
    def use(self, v, t, depth):
        r = self.r; x = self.fresh
        if t == 'BY':
            if r.random() < .25: self.decl(LEN, ['core.bytes'], 'core.i32'); y = x(); self.emit(f'{y} = func.call {v} {{callee = @{LEN}}} : core.i32'); self.put(y, 'core.i32'); return
            if self.hasio and r.random() < .35:
                n = self.val('core.i1'); self.decl(WRITE, ['core.bytes', 'core.i1'], 'core.nil'); y = x()
                self.emit(f'{y} = func.call {v}, {n} {{callee = @"{WRITE}"}} : core.nil' if r.random() < .6 else f'{y} = tribute_io.write {v}, {n} : core.nil'); return
            i = self.val('core.i32')
            if r.random() < .6: k, j = x(), x(); self.emit(f'{k} = arith.const {{value = {r.choice([0, 1, 1, 3])}}} : core.i32'); self.emit(f'{j} = arith.and {i}, {k} : core.i32'); i = j
            self.decl(GET, ['core.bytes', 'core.i32'], 'core.i32'); y = x(); self.emit(f'{y} = func.call {v}, {i} {{callee = @{GET}}} : core.i32'); self.put(y, 'core.i32'); return
        if t in self.lists:
            e = self.lists[t]; et = self.irt(e)
            if depth < 0 or r.random() < .3:
                k = r.random(); y = x()
                if k < .4: self.emit(f'{y} = list.is_empty {v} {{element_type = {et}}} : core.i1'); self.put(y, 'core.i1')
                elif k < .7: self.emit(f'{y} = list.head {v} {{element_type = {et}}} : {et}'); self.put(y, e)
                else: self.emit(f'{y} = list.tail {v} {{element_type = {et}}} : {REF}'); self.put(y, t)
                return
            y = x(); self.emit(f'{y} = list.is_empty {v} {{element_type = {et}}} : core.i1'); rt = self.restype(); z = x(); g = lambda: self.emit(f'scf.yield {self.val(rt, 1) if self.isref(rt) else self.val(rt)}')
            self.emit(f'{z} = scf.if {y} : {self.irt(rt)} {{'); self.region(max(0, depth - 1), g); self.emit('} {')
            self.ind += 1; self.scopes.append([])
            for a, b, c in r.sample([('head', et, e), ('tail', REF, t)], 2):
                if r.random() < .8: y = self.fresh(); self.emit(f'{y} = list.{a} {v} {{element_type = {et}}} : {b}'); self.put(y, c)
            if depth > 0: self.block(depth - 1)
            self.sinks(); g(); self.scopes.pop(); self.ind -= 1; self.emit('}'); self.put(z, rt); return
        super().use(v, t, depth)
    def simple(self):
        if self.f('ops') and self.r.random() < .5: self.oper()
        else: super().simple()
    def oper(self):
        r = self.r; nm = r.choice(list(OPS)); _, o, p, t, rt = OPS[nm]; a, b = self.val(t), self.val(t); y = self.fresh()
        if r.random() < .2:
            self.decl(nm, [t, t], rt); f = self.fresh(); self.emit(f'{f} = func.constant {{func_ref = @"{nm}"}} : core.ptr'); self.emit(f'{y} = func.call_indirect {f}, {a}, {b} : {rt}')
        else:
            if r.random() < .5: self.decl(nm, [t, t], rt)
            self.emit(f'{y} = func.call {a}, {b} {{callee = @"{nm}"}} : {rt}')
        self.put(y, rt)
    def extern_decls(self): return super().extern_decls() + list(self.decls.values())
def program(seed, **k): return adtgen.program(seed, cls=BG, **k)

def corpus():
    """every operator, called and taken as a value, on arbitrary operands; byte strings of every byte value; lists of every element type"""
    fs = []; ds = []
    for i, (nm, (_, o, p, t, rt)) in enumerate(OPS.items()):
        ds.append(f'  func.func @"{nm}"(%a: {t}, %b: {t}) -> {rt} attributes {{abi = "intrinsic"}} {{\n    func.unreachable\n  }}\n')
        fs.append(native.fn(f'entry{i}a', [('x', t), ('y', t)], rt, [f'%r = func.call %x, %y {{callee = @"{nm}"}} : {rt}', 'func.return %r']))
        fs.append(native.fn(f'entry{i}b', [('x', t), ('y', t)], rt, [f'%f = func.constant {{func_ref = @"{nm}"}} : core.ptr', f'%r = func.call_indirect %f, %x, %y : {rt}', 'func.return %r']))
        fs.append(native.fn(f'entry{i}c', [('x', t), ('y', t)], rt, [f'%r = func.call %y, %x {{callee = @"{nm}"}} : {rt}', 'func.return %r']))
    out = [('operators', native.mod(*ds, *fs))]
    g = f'  func.func @{GET}(%a: core.bytes, %b: core.i32) -> core.i32 attributes {{abi = "intrinsic"}} {{\n    func.unreachable\n  }}\n'
    for j, b in enumerate([bytes(range(k, k + 32)) for k in range(0, 256, 32)] + [b'', b'\xff', b'\x80\x00']):
        out.append((f'bytes {j}', native.mod(g, native.fn('entry', [('i', 'core.i32')], 'core.i32', [f'%b = adt.bytes_const {{value = b"{esc(b)}"}} : core.bytes', f'%r = func.call %b, %i {{callee = @{GET}}} : core.i32', 'func.return %r']))))
    for j, b in enumerate([b'unshared', b'\0\0a\0\0b', b'ab' * 7, bytes(range(200, 214))]):
        ds = [b] + derived(b)
        for k, o in (('', ds), (' reversed', ds[::-1])):
            # one program holds them all; each function reads one of them at every index
            out.append((f'constants {j}{k}', native.mod(g, *[native.fn(f'entry{i}', [('i', 'core.i32')], 'core.i32', [f'%b = adt.bytes_const {{value = b"{esc(x)}"}} : core.bytes', f'%r = func.call %b, %i {{callee = @{GET}}} : core.i32', 'func.return %r']) for i, x in enumerate(o)])))
    fs = []
    for t in adtgen.SC:
        n = t[5:]; a = f'{{element_type = {t}}}'; mk = [f'%e = list.empty {a} : {REF}', f'%l = list.prepend %y, %e {a} : {REF}', f'%m = list.prepend %x, %l {a} : {REF}']
        for nm, body in (('h', [f'%r = list.head %m {a} : {t}']), ('th', [f'%t = list.tail %m {a} : {REF}', f'%r = list.head %t {a} : {t}']), ('tth', [f'%t = list.tail %m {a} : {REF}', f'%u = list.tail %t {a} : {REF}', f'%r = list.head %u {a} : {t}']), ('shared', [f'%q = list.prepend %y, %l {a} : {REF}', f'%t = list.tail %m {a} : {REF}', f'%k = list.head %q {a} : {t}', f'%r = list.head %t {a} : {t}'])):
            fs.append(native.fn(f'entry_{n}_{nm}', [('x', t), ('y', t)], t, mk + body + ['func.return %r']))
        fs.append(native.fn(f'entry_{n}_e', [('x', t), ('y', t)], 'core.i1', mk + [f'%t = list.tail %m {a} : {REF}', f'%u = list.tail %t {a} : {REF}', f'%p = list.is_empty %u {a} : core.i1', f'%q = list.is_empty %t {a} : core.i1', '%r = arith.xor %p, %q : core.i1', 'func.return %r']))
    return out + [('lists', native.mod(*fs))]

KNOWN = [('known: byte string field read from an object at its last use', f'''core.module @m {{
  !S9 = adt.struct() {{name = @S9, fields = [[@f0, core.bytes]]}}
  func.func @{GET}(%a: core.bytes, %b: core.i32) -> core.i32 attributes {{abi = "intrinsic"}} {{
    func.unreachable
  }}
  func.func @mk(%a0: core.bytes) -> tribute_rt.anyref {{
    %s = adt.struct_new %a0 {{type = !S9}} : tribute_rt.anyref
    func.return %s
  }}
  func.func @entry(%i: core.i32) -> core.i32 {{
    %b = adt.bytes_const {{value = b"ab"}} : core.bytes
    %s = func.call %b {{callee = @mk}} : tribute_rt.anyref
    %c = adt.struct_get %s {{type = !S9, field = 0}} : core.bytes
    %r = func.call %c, %i {{callee = @{GET}}} : core.i32
    func.return %r
  }}
}}
''')]
