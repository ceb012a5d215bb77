"""Cranelift IR as emitted by the native back end (text logged by cranelift-object just before compilation), read into the
same shape as a module dump, and its meaning."""
import re
import z3
import sem
from sem import *

INTW = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'f32': 32, 'f64': 64}
TN = list(INTW) + ['nil']
TI = {n: i for i, n in enumerate(TN)}

def fbits(s, w):
    """CLIF float literal -> bit pattern"""
    s = s.strip(); neg = s.startswith('-'); t = s.lstrip('+-')
    e, m = (11, 52) if w == 64 else (8, 23)
    sg = (1 << (w - 1)) if neg else 0
    if t == 'Inf': return sg | (((1 << e) - 1) << m)
    if t.startswith('NaN'):
        p = int(t.split(':')[1], 16) if ':' in t else 1 << (m - 1)
        return sg | (((1 << e) - 1) << m) | (p if ':' not in t else p)
    if t.startswith('sNaN'): return sg | (((1 << e) - 1) << m) | int(t.split(':')[1], 16)
    return sem.f2b(float.fromhex(t) if t.startswith('0x') else float(t), w) | sg

class Clif:
    def __init__(self, d):
        self.types = [dict(d='core', n=n, p=[], a={}) for n in TN]
        self.names = {i: n for n, i in d['funcs']}; self.data = {i: n for n, i in d['data']}
        self.rodata = {n: bytes.fromhex(h) for n, h in d.get('rodata', [])}
        self.ext = {f: v for f, v in d.get('ext', [])}      # what each function's external names stand for
        self.funcs, self.order, self.sigs_of, self.conv, self.allsigs = {}, [], {}, {}, {}
        for t in d['text']:
            if ' with bytes' in t.split('\n')[0]: continue
            self.func(t)
    def width(self, t): return INTW.get(self.types[t]['n'], 0)
    def isf(self, t): return self.types[t]['n'][0] == 'f'
    def tstr(self, t): return 'core.' + self.types[t]['n']
    def astr(self, a): return str(a)
    def sig(self, s):
        m = re.match(r'\((.*?)\)(?: -> (.*?))? (\S+)$', s.strip())
        f = lambda x: [y.split()[0] for y in x.split(', ')] if x else []
        return f(m.group(1)), f(m.group(2)), m.group(3)
    def func(self, text):
        lines = text.split('\n')
        m = re.match(r'defining function \S+: function u0:(\d+)(\(.*\).*) \{$', lines[0])
        if not m: raise Unsupported('CLIF header: ' + lines[0][:80])
        name = self.names.get(int(m.group(1)), f'#{m.group(1)}'); ext = self.ext.get(int(m.group(1)))
        sg = self.sig(m.group(2)); sigs, fns, gvs, ss = {}, {}, {}, {}
        blocks, cur, vt = [], None, {}
        for ln in lines[1:]:
            ln = re.sub(r'\s+;.*$', '', ln)
            s = ln.strip()
            if not s or s == '}': continue
            if cur is None and not s.startswith('block'):
                m = re.match(r'sig(\d+) = (.*)$', s)
                if m: sigs[int(m.group(1))] = self.sig(m.group(2)); continue
                m = re.match(r'fn(\d+) = (?:colocated )?u0:(\d+) sig(\d+)', s)
                if m: fns[int(m.group(1))] = (self.names.get(int(m.group(2)), f'#{m.group(2)}'), sigs[int(m.group(3))]); continue
                m = re.match(r'gv(\d+) = symbol (?:colocated )?u1:(\d+)', s)
                if m: gvs[int(m.group(1))] = self.data.get(int(m.group(2)), f'#d{m.group(2)}'); continue
                m = re.match(r'gv(\d+) = symbol (?:colocated )?userextname(\d+)', s)
                if m:
                    # the release dispatcher, built after the functions, only refers to the type table
                    e = ext[int(m.group(2))] if ext else None
                    gvs[int(m.group(1))] = '__tribute_rtti_table' if e is None else self.data.get(e[1], f'#d{e[1]}') if e[0] == 1 else self.names.get(e[1], f'#{e[1]}'); continue
                m = re.match(r'ss(\d+) = explicit_slot (\d+)', s)
                if m: ss[int(m.group(1))] = int(m.group(2)); continue
                raise Unsupported('CLIF preamble: ' + s[:80])
            m = re.match(r'block(\d+)(?:\((.*)\))?(?: cold)?:$', s)
            if m:
                args = []
                for a in (m.group(2) or '').split(', '):
                    if a: v, t = a.split(': '); vt[v] = t; args.append((v, t))
                cur = dict(id=int(m.group(1)), args=args, ops=[]); blocks.append(cur); continue
            cur['ops'].append(s)
        # layout order need not be dominance order: first find the type of every value, then build
        todo = [(b, s) for b in blocks for s in b['ops']]; out = {id(b): {} for b in blocks}
        pend = list(enumerate(todo))
        while pend:
            nxt = []
            for i, (b, s) in pend:
                r = self.inst(s, vt, sigs, fns, gvs, ss)
                if r is None: nxt.append((i, (b, s)))
                else: out[id(b)][i] = r
            if len(nxt) == len(pend): raise Unsupported('CLIF: operand type unknown in ' + nxt[0][1][1][:80])
            pend = nxt
        for b in blocks:
            b['ops'] = [o for _, o in sorted(out[id(b)].items())]
            b['args'] = [(v, TI[t]) for v, t in b['args']]
        self.funcs[name] = dict(d='cl', n='func', a=dict(sym_name=dict(v=name)), i=[], o=[], r=[blocks], s=[], sig=sg)
        self.order.append(name); self.sigs_of[name] = sg; self.conv[name] = sg[2]
        self.allsigs.setdefault(name, []).append(sg)
        for n, s2 in fns.values(): self.sigs_of.setdefault(n, s2); self.allsigs.setdefault(n, []).append(s2)
    def inst(self, s, vt, sigs, fns, gvs, ss):
        m = re.match(r'(?:([v\d, ]+) = )?([a-z_0-9]+)(?:\.([a-z0-9]+))?(?: (.*))?$', s)
        if not m: raise Unsupported('CLIF instruction: ' + s[:80])
        res = [x.strip() for x in m.group(1).split(',')] if m.group(1) else []
        op, ty, rest = m.group(2), m.group(3), m.group(4) or ''
        def V(x):
            x = x.strip()
            if x not in vt: raise KeyError(x)
            return (x, TI[vt[x]])
        def L(x): return [V(y) for y in x.split(',')] if x.strip() else []
        a, ins, rts, succ = {}, [], [], []
        try:
            if op == 'iconst': a['v'] = int(rest.replace('_', ''), 0) & msk(INTW[ty]); rts = [ty]
            elif op in ('f64const', 'f32const'): w = int(op[1:3]); a['v'] = fbits(rest, w); rts = [op[:3]]
            elif op in ('icmp', 'fcmp'):
                cc, xs = rest.split(' ', 1); a['cc'] = cc; ins = L(xs); rts = ['i8']
            elif op in ('call', 'return_call'):
                f, xs = re.match(r'fn(\d+)\((.*)\)$', rest).groups(); nm, sg = fns[int(f)]
                a['callee'] = dict(v=nm); a['rts'] = sg[1]; a['pts'] = sg[0]; ins = L(xs); rts = sg[1] if op == 'call' else []
            elif op in ('call_indirect', 'return_call_indirect'):
                g, f, xs = re.match(r'sig(\d+), (v\d+)\((.*)\)$', rest).groups(); sg = sigs[int(g)]
                a['rts'] = sg[1]; a['pts'] = sg[0]; a['conv'] = sg[2]; ins = [V(f)] + L(xs); rts = sg[1] if op == 'call_indirect' else []
            elif op == 'jump':
                b, xs = re.match(r'block(\d+)(?:\((.*)\))?$', rest).groups(); succ = [int(b)]; ins = L(xs or '')
            elif op == 'brif':
                c, b1, x1, b2, x2 = re.match(r'(v\d+), block(\d+)(?:\((.*?)\))?, block(\d+)(?:\((.*?)\))?$', rest).groups()
                ins = [V(c)]; succ = [int(b1), int(b2)]; a['t'] = [L(x1 or ''), L(x2 or '')]
            elif op == 'br_table': raise Unsupported('br_table')
            elif op in ('load', 'uload8', 'uload16', 'uload32', 'sload8', 'sload16', 'sload32'):
                x = rest.split(' ')[-1]; p, off = re.match(r'(v\d+)([+-].*)?$', x).groups(); a['off'] = int((off or '0').replace('_', ''), 0); ins = [V(p)]; rts = [ty]
            elif op in ('store', 'istore8', 'istore16', 'istore32'):
                v, x = re.match(r'(?:[a-z0-9_ ]*? )?(v\d+), (.*)$', rest).groups(); p, off = re.match(r'(v\d+)([+-].*)?$', x).groups(); a['off'] = int((off or '0').replace('_', ''), 0); ins = [V(v), V(p)]
            elif op == 'atomic_rmw':
                k, p, v = re.match(r'(?:[a-z0-9_ ]*? )?(\w+) (v\d+), (v\d+)$', rest).groups(); a['op'] = k; ins = [V(p), V(v)]; rts = [ty]
            elif op == 'func_addr': a['sym'] = fns[int(re.match(r'fn(\d+)$', rest).group(1))][0]; rts = [ty]
            elif op in ('global_value', 'symbol_value'): a['sym'] = gvs[int(re.match(r'gv(\d+)$', rest).group(1))]; rts = [ty]
            elif op == 'trap': a['code'] = rest
            elif op in ('trapz', 'trapnz'): x, code = rest.split(', '); ins = [V(x)]; a['code'] = code
            elif op == 'return': ins = L(rest)
            elif op in ('iadd_imm', 'imul_imm', 'band_imm', 'ishl_imm', 'ushr_imm', 'sshr_imm', 'icmp_imm'):
                if op == 'icmp_imm': a['cc'], rest = rest.split(' ', 1)
                x, k = rest.split(', '); ins = [V(x)]; w = INTW[vt[ins[0][0]]]; a['k'] = int(k.replace('_', ''), 0) & msk(w); rts = [vt[ins[0][0]]] if op != 'icmp_imm' else ['i8']
            elif op in ('uextend', 'sextend', 'ireduce', 'fpromote', 'fdemote', 'fcvt_to_sint', 'fcvt_to_uint', 'fcvt_from_sint', 'fcvt_from_uint', 'bitcast', 'fcvt_to_sint_sat', 'fcvt_to_uint_sat'):
                ins = L(rest.split(' ')[-1]); rts = [ty]
            elif op == 'select': ins = L(rest); rts = [vt[ins[1][0]]]
            elif op == 'nop': pass
            else: ins = L(rest); rts = [ty or vt[ins[0][0]]]
        except KeyError: return None
        if len(rts) != len(res): raise Unsupported('CLIF results: ' + s[:80])
        for v, t in zip(res, rts): vt[v] = t
        return dict(d='cl', n=op, a=a, i=ins, o=[(v, TI[t]) for v, t in zip(res, rts)], r=[], s=succ, t=s)

FCC = {'eq': 'oeq', 'ne': 'une', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge'}
class ClifEv(sem.Ev):
    def succs(self, b): return [s for o in b['ops'] for s in o['s']]
    def op_cl_iconst(self, st, op): self.setr(st, op, op['a']['v'])
    op_cl_f64const = op_cl_f32const = op_cl_iconst
    for _n in ('iadd', 'isub', 'imul', 'band', 'bor', 'bxor', 'ineg', 'ishl', 'sshr', 'ushr', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sdiv', 'udiv', 'urem', 'srem'):
        locals()['op_cl_' + _n] = getattr(sem.Ev, 'op_clif_' + _n)
    def op_cl_bnot(self, st, op): (a,) = self.ins(st, op); w = self.w(op['i'][0]); self.setr(st, op, xori(a, msk(w), w))
    def immop(f):
        def h(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, f(a, op['a']['k'], self.w(op['i'][0])))
        return h
    op_cl_iadd_imm, op_cl_imul_imm, op_cl_band_imm = immop(addi), immop(muli), immop(andi)
    def op_cl_ishl_imm(self, st, op): (a,) = self.ins(st, op); w = self.w(op['i'][0]); self.setr(st, op, shl(a, op['a']['k'], w, w))
    def op_cl_ushr_imm(self, st, op): (a,) = self.ins(st, op); w = self.w(op['i'][0]); self.setr(st, op, shru(a, op['a']['k'], w, w))
    def op_cl_sshr_imm(self, st, op): (a,) = self.ins(st, op); w = self.w(op['i'][0]); self.setr(st, op, shrs(a, op['a']['k'], w, w))
    def op_cl_icmp(self, st, op):
        a, b = self.ins(st, op); self.setr(st, op, fitw(b2v(cmpi(op['a']['cc'], a, b, self.w(op['i'][0]))), 1, 8))
    def op_cl_icmp_imm(self, st, op):
        (a,) = self.ins(st, op); self.setr(st, op, fitw(b2v(cmpi(op['a']['cc'], a, op['a']['k'], self.w(op['i'][0]))), 1, 8))
    def op_cl_fcmp(self, st, op):
        a, b = self.ins(st, op)
        if op['a']['cc'] not in FCC: raise Unsupported('fcmp ' + op['a']['cc'])
        self.setr(st, op, fitw(b2v(fcmp(FCC[op['a']['cc']], a, b, self.w(op['i'][0]))), 1, 8))
    def op_cl_select(self, st, op):
        c, a, b = self.ins(st, op); w = self.w(op['o'][0]); t = nz(c, self.w(op['i'][0]))
        self.setr(st, op, (a if t else b) if isinstance(t, bool) else norm(z3.If(t, bv(a, w), bv(b, w))))
    def ext(f):
        def h(self, st, op):
            (a,) = self.ins(st, op); w0, w1 = self.w(op['i'][0]), self.w(op['o'][0])
            if w1 <= w0: raise Malformed(f'{op["t"]}: not an extension')
            self.setr(st, op, f(a, w0, w1))
        return h
    op_cl_uextend, op_cl_sextend = ext(zext), ext(sext)
    def op_cl_ireduce(self, st, op):
        (a,) = self.ins(st, op); w0, w1 = self.w(op['i'][0]), self.w(op['o'][0])
        if w1 >= w0: raise Malformed(f'{op["t"]}: not a reduction')
        self.setr(st, op, trunc(a, w0, w1))
    def op_cl_bitcast(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, a)
    def op_cl_fpromote(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, fpro(a))
    def op_cl_fdemote(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, fdem(a))
    def fromint(sg):
        def h(self, st, op): (a,) = self.ins(st, op); self.setr(st, op, i2f(a, self.w(op['i'][0]), self.w(op['o'][0]), sg))
        return h
    op_cl_fcvt_from_sint, op_cl_fcvt_from_uint = fromint(True), fromint(False)
    def toint(sg):
        def h(self, st, op):
            (a,) = self.ins(st, op); return self.f2i(st, op, a, self.w(op['i'][0]), self.w(op['o'][0]), sg)
        return h
    def f2i(self, st, op, a, w0, w1, sg):
        v = f2i(a, w0, w1, sg)
        if v is None: self.done(st, 'trap', []); return 'end'
        self.setr(st, op, v)
    op_cl_fcvt_to_sint, op_cl_fcvt_to_uint = toint(True), toint(False)
    def op_cl_load(self, st, op):
        (p,) = self.ins(st, op); self.setr(st, op, self.load(st, addi(p, op['a']['off'] & msk(64), 64), self.w(op['o'][0])))
    def op_cl_store(self, st, op):
        v, p = self.ins(st, op); self.store(st, addi(p, op['a']['off'] & msk(64), 64), v, self.w(op['i'][0]))
    def load(self, st, addr, w): return self.event(st, f'load{w}', [addr], [64], [w])[0]
    def store(self, st, addr, v, w): self.event(st, f'store{w}', [addr, v], [64, w], [])
    def op_cl_atomic_rmw(self, st, op):
        p, v = self.ins(st, op); w = self.w(op['o'][0])
        self.setr(st, op, *self.event(st, f'rmw_{op["a"]["op"]}{w}', [p, v], [64, w], [w]))
    def op_cl_func_addr(self, st, op): self.setr(st, op, self.symaddr(op['a']['sym']))
    op_cl_global_value = op_cl_symbol_value = op_cl_func_addr
    def op_cl_trap(self, st, op): self.done(st, 'trap', []); return 'end'
    def op_cl_nop(self, st, op): pass
    def cond_trap(when):
        def h(self, st, op):
            c = self.get(st, op['i'][0]); out = []
            for s, tv in self.fork(st, nz(c, self.w(op['i'][0]))):
                if tv == when: self.done(s, 'trap', [])
                else: out.append(s)
            return out
        return h
    op_cl_trapnz, op_cl_trapz = cond_trap(True), cond_trap(False)
    op_cl_jump = sem.Ev.op_cf_br
    def op_cl_brif(self, st, op):
        c = self.get(st, op['i'][0]); out = []
        for s, tv in self.fork(st, nz(c, self.w(op['i'][0]))):
            k = 0 if tv else 1
            r = self.goto(s, op['s'][k], [self.get(s, v) for v in op['a']['t'][k]])
            if r != 'end': out.append(r)
        return out
    op_cl_return = sem.Ev.op_func_return
    # calls
    def callres(self, st, kind, name, args, ws, rts, op):
        rw = [INTW[t] for t in rts]; r = self.event(st, kind, args, ws, rw)
        if self.o.concrete and self.o.retw and self.o.retw(name) == 1 and r: r[0] &= 1      # a declared truth value is 0 or 1
        return r
    def chk(self, op, off=0):
        if len(op['i']) - off != len(op['a']['pts']): raise Malformed(f"{op['t']}: {len(op['i']) - off} arguments for {len(op['a']['pts'])} parameters")
    def op_cl_call(self, st, op):
        self.chk(op); nm = op['a']['callee']['v']; args = self.ins(st, op)
        if self.o.inline and nm in self.o.inline and nm in self.m.funcs and sum(f.kind == 'fn' and f.fn == nm for f in st.frames) == 0:
            self.enter_fn(st, self.m.funcs[nm], args, op); return
        self.setr(st, op, *self.callres(st, f'call {self.o.rename(nm)}', nm, args, [self.w(v) for v in op['i']], op['a']['rts'], op))
    def op_cl_return_call(self, st, op):
        self.chk(op); nm = op['a']['callee']['v']; args = self.ins(st, op)
        if self.o.inline and nm in self.o.inline and nm in self.m.funcs and sum(f.kind == 'fn' and f.fn == nm for f in st.frames) == 0:
            self.enter_fn(st, self.m.funcs[nm], args, 'tail'); return
        r = self.callres(st, f"{'tailcall' if self.o.tailtag else 'call'} {self.o.rename(nm)}", nm, args, [self.w(v) for v in op['i']], op['a']['rts'], op)
        return self.ret(st, r, [INTW[t] for t in op['a']['rts']])
    def op_cl_call_indirect(self, st, op):
        self.chk(op, 1); args = self.ins(st, op)
        self.setr(st, op, *self.callres(st, 'icall ', None, args, [self.w(v) for v in op['i']], op['a']['rts'], op))
    def op_cl_return_call_indirect(self, st, op):
        self.chk(op, 1); args = self.ins(st, op)
        r = self.callres(st, 'tailicall ' if self.o.tailtag else 'icall ', None, args, [self.w(v) for v in op['i']], op['a']['rts'], op)
        return self.ret(st, r, [INTW[t] for t in op['a']['rts']])
