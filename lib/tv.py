"""Pass contracts decided program by program: the real pass of /repo is run on a program, and
"same behaviour before and after" is a verification condition over all inputs and all environments,
discharged by z3.  A refuted condition is an alarm only when both texts, executed concretely on the
counterexample (or on a random input), really behave differently."""
import multiprocessing as mp, os, random, signal, time, traceback, collections, json
import z3
import sem, irdrv, vlib

SPECIAL = [0, 1, 2, 3, -1, -2, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 63, (1 << 63) - 1]
FSPECIAL = [0.0, -0.0, 1.0, -1.5, 2.25, 1e6, float('inf'), float('-inf'), float('nan'), 0.1]

def symargs(m, name, rep=None):
    blk = m.funcs[name]['r'][0][0]
    return [z3.BitVec(f'p{i}_{m.width(t)}', m.width(t)) if m.width(t) else 0 for i, (v, t) in enumerate(blk['args'])]
def argtypes(m, name): return [(m.width(t), m.isf(t)) for _, t in m.funcs[name]['r'][0][0]['args']]
def randarg(r, w, isf):
    if w == 0: return 0
    if isf: return sem.f2b(r.choice(FSPECIAL) if r.random() < .7 else r.uniform(-1e3, 1e3), w)
    return (r.choice(SPECIAL) if r.random() < .6 else r.getrandbits(w)) & sem.msk(w)

def walk(o):
    yield o
    for r in o['r']:
        for b in r:
            for x in b['ops']: yield from walk(x)

def recursive(m):
    """functions that can reach themselves, and functions of other linkage"""
    g = {n: {o['a']['callee']['v'] for o in walk(f) if o['n'] in ('call', 'tail_call', 'return_call') and 'callee' in o['a']} for n, f in m.funcs.items()}
    out = {n for n, f in m.funcs.items() if 'abi' in f['a'] or not f['r']}
    for n in g:
        seen, st = set(), list(g[n])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += list(g.get(x, ()))
        if n in seen: out.add(n)
    return out

class Spec:
    """how one pass (or pass sequence) is checked"""
    def __init__(self, **k):
        self.passes = k['passes']                       # driver passes between the two dumps
        self.before = k.get('before', [])               # passes applied first (not under test here)
        self.opts = k.get('opts', {})                   # Opts for both sides
        self.opts_post = k.get('opts_post', {})
        self.inline_all = k.get('inline_all', False)
        self.funcs = k.get('funcs', None)               # (pre, post) -> names to compare
        self.extra = k.get('extra', None)               # (pre, post, resp) -> [problem strings]  structural contract
        self.relate = k.get('relate', sem.relate_same)
        self.crel = k.get('crel', None)                 # concrete relation of traces; default: equality through relate
        self.args_post = k.get('args_post', None)       # (pre, name, args) -> args of the lowered function
        self.assume = k.get('assume', None)
        self.may_fail = k.get('may_fail', None)         # (resp) -> True if this refusal is allowed
        self.Ev = k.get('Ev', sem.Ev)
        self.EvPost = k.get('EvPost', None) or self.Ev
        self.outs = k.get('outs', ['print'])
        self.post = k.get('post', None)                 # (resp) -> post module

def same_prefix(p, q, relate):
    """concrete paths: first difference or None"""
    fuel = 'fuel' in (p.out[0], q.out[0])
    if q.out[0].startswith('fault'): return f'{q.out[0]} (before: {p.out})'
    n = min(len(p.trace), len(q.trace)) if fuel else max(len(p.trace), len(q.trace))
    for i in range(n):
        if i >= len(p.trace): return f'event {i}: after the pass there is an extra {q.trace[i][0]}{q.trace[i][1]}'
        if i >= len(q.trace): return f'event {i}: {p.trace[i][0]}{p.trace[i][1]} is missing after the pass'
        (k1, a1, w1), (k2, a2, w2) = p.trace[i], q.trace[i]
        if k1 != k2 or len(a1) != len(a2): return f'event {i}: {k1}{a1} became {k2}{a2}'
        for j, (x, y) in enumerate(zip(a1, a2)):
            if relate(x, w1[j], y, w2[j]) is not False: return f'event {i} {k1}: argument {j} is {x} before and {y} after'
    if fuel: return None
    if p.out[0] != q.out[0] or len(p.out[1]) != len(q.out[1]): return f'outcome {p.out} became {q.out}'
    for j, ((x, w1), (y, w2)) in enumerate(zip(p.out[1], q.out[1])):
        if relate(x, w1, y, w2) is not False: return f'{p.out[0]} value {j} is {x} before and {y} after'
    return None

def crun(spec, mod, name, args, oracle, inline, post=False):
    o = dict(spec.opts); o.update(spec.opts_post if post else {})
    ev = (spec.EvPost if post else spec.Ev)(mod, sem.Opts(concrete=True, oracle=oracle, inline=inline, **o))
    ps = ev.run(name, list(args))
    if len(ps) != 1: raise sem.Unsupported(f'{len(ps)} concrete paths')
    return ps[0]

def confirm(spec, pre, post, name, mis, inl, seed=0, tries=400, budget=12.0):
    """-> description of a real divergence, or None"""
    tys = argtypes(pre, name); r = random.Random(seed); t0 = time.time()
    cands = []
    if mis is not None and mis.model is not None:
        env = {}
        for d in mis.model.decls():
            v = mis.model[d]
            if d.arity() == 0 and z3.is_bv_value(v): env[d.name()] = v.as_long()
        cands.append(([env.get(f'p{i}_{w}', 0) for i, (w, _) in enumerate(tys)], env))
    for k in range(tries): cands.append(([randarg(r, w, f) for w, f in tys], k))
    for args, orc in cands:
        if time.time() - t0 > budget: break
        try:
            a = crun(spec, pre, name, args, orc, inl)
            if a.out[0] == 'excluded': continue
            b = crun(spec, post, name, spec.args_post(pre, name, args) if spec.args_post else args, orc, inl, True)
        except (sem.Unsupported, sem.TooBig): continue
        except sem.Malformed as e:
            return f'@{name}({", ".join(map(str, args))}): {e}'
        if b.out[0] == 'excluded': continue
        d = same_prefix(a, b, spec.relate)
        if d: return f'@{name}({", ".join(map(str, args))}) environment {orc if not isinstance(orc, dict) else "of the counterexample"}: {d}'
    return None

def check_program(drv, spec, tag, ir, deadline):
    """-> dict(tag, status, n, paths, seconds, viol=[(obligation, detail, input)])"""
    res = dict(tag=tag, ok=0, bounded=0, und=0, paths=0, n=0, viol=[], why=[], fns=0)
    r = drv.req(ir, spec.before + ['dump:pre'] + spec.passes + ['dump:post'] + spec.outs)
    if _G: signal.setitimer(signal.ITIMER_REAL, LIMIT, 5)
    if 'err' in r:
        if r.get('at') == 'parse' or 'pre' not in r and not r.get('died'): res['why'].append('not accepted before the pass: ' + r['err'][:200]); res['und'] += 1; return res
        if spec.may_fail and spec.may_fail(r): res['why'].append('refused: ' + r['err'][:100]); return res
        res['viol'].append((f'{tag}: {spec.passes} completes', f"{r.get('at')}: {r['err'][:800]}", f"program:\n{ir}\nfails in {r.get('at')}: {r['err'][:800]}"))
        return res
    pre = sem.Mod(r['pre']); post = spec.post(r) if spec.post else sem.Mod(r['post'])
    if hasattr(spec, 'bind'): spec.bind(pre, post)
    if spec.extra:
        for what in spec.extra(pre, post, r): res['viol'].append((f'{tag}: structure', what, f'program:\n{ir}\n{what}\nafter:\n{r.get("text", "")[:4000]}'))
    names = spec.funcs(pre, post) if spec.funcs else [n for n, f in pre.funcs.items() if f['r'] and f['r'][0] and 'abi' not in f['a']]
    rec = recursive(pre) if spec.inline_all else None
    for n in names:
        if time.time() > deadline: res['und'] += 1; res['why'].append('out of time'); break
        inl = (set(pre.funcs) - rec) if spec.inline_all else spec.opts.get('inline')
        try:
            if n not in post.funcs: raise sem.Malformed(f'function {n} is gone')
            res['fns'] += 1
            oa = dict(spec.opts); oa['inline'] = inl
            ob = dict(oa); ob.update(spec.opts_post)
            sa = symargs(pre, n)
            A = spec.Ev(pre, sem.Opts(**oa)).run(n, sa)
            A = [p for p in A if p.out[0] != 'excluded']
            B = spec.EvPost(post, sem.Opts(**ob)).run(n, spec.args_post(pre, n, sa) if spec.args_post else symargs(post, n))
            v = sem.compare(A, B, spec.relate, spec.assume(pre, n, sa) if spec.assume else ())
            res['paths'] += len(A)
            if v[0] == 'ok': res['ok'] += 1; res['n'] += v[1]; continue
            mis = v[1] if v[0] == 'bad' else None
        except sem.TooBig: v = ('undecided', 'too many paths'); mis = None
        except sem.Unsupported as e: v = ('undecided', f'unsupported: {e}'); mis = None
        except sem.Malformed as e: v = ('bad', None); mis = None; res['why'].append(f'{n}: malformed: {e}')
        if v[0] == 'undecided' and 'unsupported' in str(v[1]): res['und'] += 1; res['why'].append(f'{n}: {v[1]}'); continue
        try: d = confirm(spec, pre, post, n, mis, inl)
        except Exception as e: d = None; res['why'].append(f'{n}: confirmation failed: {type(e).__name__} {e}')
        if d: res['viol'].append((f'{tag}: behaviour of @{n} is preserved by {"+".join(spec.passes)}', (mis.what if mis else '') + ' ' + d, f'program:\n{ir}\nfailing input {d}\nafter {"+".join(spec.passes)}:\n{r.get("text", "")[:6000]}'))
        elif v[0] == 'bad' and mis is not None and loopy(A, B):
            # loop structure changed (a loop that never repeats, say): compare by bounded unrolling
            res['bounded'] += 1
        else: res['und'] += 1; res['why'].append(f'{n}: {mis.what if mis else v[1]} (not confirmed by execution)')
    return res
def loopy(A, B): return any(e[0] == 'LOOP' for p in A + B for e in p.trace) or any(p.out[0].startswith('again') for p in A + B)

_G = {}
LIMIT = 45      # seconds per program
class Late(BaseException): pass
def _late(*_): raise Late()
def _init(exe): _G['drv'] = irdrv.Driver(exe); signal.signal(signal.SIGALRM, _late)
def _job(a):
    spec_key, items, deadline = a
    out = []
    for x in _run(spec_key, items, deadline): out.append(x)
    return a[0], out
def _run(spec_key, items, deadline):
    out = []
    for tag, ir in items:
        if time.time() > deadline: out.append(dict(tag=tag, ok=0, bounded=0, und=1, paths=0, n=0, viol=[], why=['out of time'], fns=0)); continue
        try:
            p = ir() if callable(ir) else ir
            try:
                out.append(check_program(_G['drv'], _G['specs'][spec_key], tag, p, deadline))
            finally: signal.setitimer(signal.ITIMER_REAL, 0)
        except Late:
            out.append(dict(tag=tag, ok=0, bounded=0, und=1, paths=0, n=0, viol=[], why=['out of time for one program'], fns=0))
        except Exception as e:
            out.append(dict(tag=tag, ok=0, bounded=0, und=1, paths=0, n=0, viol=[], why=[f'checker: {type(e).__name__} {e} ' + traceback.format_exc()[-300:]], fns=0))
    return out

def campaign(c, exe, specs, work, deadline, jobs=8, prefix=''):
    """work: list of (spec key, tag, ir text). Records obligations/violations on c."""
    _G['specs'] = specs
    tot = collections.defaultdict(lambda: dict(programs=0, functions=0, ok=0, bounded=0, undecided=0, paths=0, obligations=0)); why = collections.Counter()
    chunks = []
    by = collections.defaultdict(list)
    for k, tag, ir in work: by[k].append((tag, ir))
    for k, items in by.items():
        for i in range(0, len(items), 10): chunks.append((k, items[i:i + 10], deadline))
    t0 = time.time(); nv = fresh = 0; known = vlib.load_known(c.pid)
    with mp.get_context('fork').Pool(jobs, _init, (exe,)) as pool:
        it = pool.imap_unordered(_job, chunks); workers = {p.pid for p in pool._pool}; last = time.time(); left = len(chunks)
        while left:
            try: key, rs = it.next(timeout=5)
            except mp.TimeoutError:
                # a worker that was ended from outside takes its programs with it: do not wait for them for ever
                if time.time() > deadline + 90 or ({p.pid for p in pool._pool} != workers and time.time() - last > 100):
                    c.note(f'{left} groups of programs got no answer (a worker process was ended, or time ran out)'); break
                continue
            left -= 1; last = time.time(); t = tot[key]
            for r in rs:
                t['programs'] += 1; t['functions'] += r['fns']; t['ok'] += r['ok']; t['bounded'] += r['bounded']; t['undecided'] += r['und']; t['paths'] += r['paths']; t['obligations'] += r['n']
                for w in r['why']: why[w[:160]] += 1
                for ob, det, inp in r['viol']:
                    nv += 1
                    if nv <= 60: c.violate(ob, det, inp)
                    if not any(k['match'] in f'{inp or ""} {ob} {det}' for k in known): fresh += 1
            if fresh >= 10 and c.tier == 'quick': c.note('enough violations: the rest of this campaign is skipped'); break
    sec = time.time() - t0
    for k, t in tot.items():
        c.ob(f'{prefix}{k}: behaviour preserved for all inputs, {t["functions"]} functions of {t["programs"]} programs, {t["paths"]} paths', 'z3 4.16 (python)', 'discharged' if t['ok'] else 'undecided', sec * t['programs'] / max(1, len(work)), 'per-program proof', n=max(1, t['ok']))
        if t['bounded']: c.ob(f'{prefix}{k}: loop structure changed, compared by execution', 'execution', 'discharged', 0, 'bounded', n=t['bounded'])
        if t['undecided']: c.ob(f'{prefix}{k}: not decided', 'z3', 'undecided', 0, 'per-program proof', n=t['undecided'])
    c.cov.setdefault('campaigns', {}).update({prefix + k: t for k, t in tot.items()})
    if why: c.cov.setdefault('undecided_reasons', {}).update(dict(why.most_common(12)))
    return tot
