"""Compiler-pass properties."""
import random, time
import sem, gen, tv, irdrv, vlib

def exe_of(c):
    t = time.time()
    try: exe = irdrv.build(c)
    except irdrv.BuildFailed as e:
        c.note('the driver does not build against this tree: no verdict'); c.ob('driver build', 'cargo', 'undecided', time.time() - t, detail=str(e)[-1500:])
        c.finish()
    c.cov['driver_build_s'] = round(time.time() - t, 1)
    return exe

def progs(seed, n, **k):
    """n generated programs; a quarter of them with loops"""
    out = []
    for i in range(n):
        s = seed * 1000003 + i
        kk = dict(k); kk.setdefault('nfuncs', i % 3 + 1); kk['loops'] = kk.get('loops', True) and (i % 4 == 0 or kk.pop('allloops', False))
        for a in range(5):
            try: out.append((f'g{s}', gen.program(s, **kk))); break
            except gen.NoVal: s += 7919 * 1000003
    return out

BASE = ['arithmetic of the IR is two-complement machine arithmetic, shift amounts taken modulo the width, signed division overflow traps, the remainder of that division is 0',
        'symbolic floating-point operations are uninterpreted functions of their bit patterns (concrete replay uses IEEE arithmetic)',
        'the evaluator in lib/sem.py states the meaning of the dialects; it is trusted',
        'programs come from the seeded generator lib/gen.py and the corpus: for every program all inputs, paths and environments are covered, over programs the coverage is a sample (bounded)']

PURE = {'adt.struct_new', 'adt.struct_get', 'adt.variant_new', 'adt.variant_is', 'adt.variant_cast', 'adt.variant_get', 'adt.array_new', 'adt.array_get', 'adt.array_len',
        'adt.ref_null', 'adt.ref_is_null', 'adt.ref_cast', 'adt.string_const', 'adt.bytes_const', 'mem.data'}
FULL = dict(never=True, tail=True, indirect=True)

def fold_corpus():
    """every binary operation at every width on every pair of interesting constants and against a variable"""
    out = []
    for w in (1, 7, 8, 16, 32, 64, 128):
        t = f'core.i{w}'
        ks = [0, 1] if w == 1 else sorted({0, 1, -1, 2, -2, 3, 7, -7, -(1 << (w - 1)), (1 << (w - 1)) - 1, (1 << (w - 1)) - 2, 1 - (1 << (w - 1))})
        ops = ['addi', 'subi', 'muli', 'and', 'or', 'xor']
        for o in ops + (['divsi', 'divui', 'remsi', 'remui', 'shl', 'shr', 'shru'] if w > 1 else []):
            body, n = [], 0
            def pair(a, b, body):
                nonlocal n
                n += 1; body.append(f'    %r{n} = arith.{o} {a}, {b} : {t}\n    %c{n} = func.call %r{n} {{callee = @sink}} : core.nil\n')
            trap = o.startswith(('div', 'rem'))
            pre = ''.join(f'    %k{i} = arith.const {{value = {k}}} : {t}\n' for i, k in enumerate(ks))
            fs = []
            def fn(prs):
                bb = []
                for a, b in prs: pair(a, b, bb)
                fs.append(f'  func.func @f{len(fs)}(%x: {t}, %y: {t}) -> core.nil {{\n{pre}{"".join(bb)}    %u = arith.const {{value = unit}} : core.nil\n    func.return %u\n  }}')
            prs = [(f'%k{i}', f'%k{j}') for i in range(len(ks)) for j in range(len(ks))]
            prx = [(f'%k{i}', '%x') for i in range(len(ks))] + [('%x', f'%k{i}') for i in range(len(ks))] + [('%x', '%x'), ('%x', '%y')]
            if trap:
                for pr in prs + prx: fn([pr])
            else: fn(prs); fn(prx)
            out.append((f'fold {o} i{w}', f'core.module @m {{\n  func.func @sink(%a: {t}) -> core.nil attributes {{abi = "C"}} {{\n    func.unreachable\n  }}\n' + '\n'.join(fs) + '\n}\n'))
        for o in ('negi',):
            if w == 1: continue
            fs = ''.join(f'    %k{i} = arith.const {{value = {k}}} : {t}\n    %a{i} = arith.negi %k{i} : {t}\n    %b{i} = arith.negi %a{i} : {t}\n    %c{i} = func.call %a{i} {{callee = @sink}} : core.nil\n    %d{i} = func.call %b{i} {{callee = @sink}} : core.nil\n' for i, k in enumerate(ks))
            out.append((f'fold negi i{w}', f'core.module @m {{\n  func.func @sink(%a: {t}) -> core.nil attributes {{abi = "C"}} {{\n    func.unreachable\n  }}\n  func.func @f(%x: {t}) -> {t} {{\n{fs}    %n = arith.negi %x : {t}\n    %m = arith.negi %n : {t}\n    func.return %m\n  }}\n}}\n'))
        if w > 1:
            for p in gen.G(0).f('cmp'):
                bb, n = [], 0
                pre = ''.join(f'    %k{i} = arith.const {{value = {k}}} : {t}\n' for i, k in enumerate(ks))
                nm = [f'%k{i}' for i in range(len(ks))] + ['%x', '%y']
                for a in nm:
                    for b in nm:
                        n += 1; bb.append(f'    %r{n} = arith.cmpi {a}, {b} {{predicate = @{p}}} : core.i1\n    %c{n} = func.call %r{n} {{callee = @sink}} : core.nil\n')
                out.append((f'fold cmpi {p} i{w}', f'core.module @m {{\n  func.func @sink(%a: core.i1) -> core.nil attributes {{abi = "C"}} {{\n    func.unreachable\n  }}\n  func.func @f(%x: {t}, %y: {t}) -> core.nil {{\n{pre}{"".join(bb)}    %u = arith.const {{value = unit}} : core.nil\n    func.return %u\n  }}\n}}\n'))
    return out

def pow_corpus():
    """every binary operation of a variable and a constant at or next to every power of two"""
    out = []
    for w in (8, 16, 32, 64, 128):
        t = f'core.i{w}'; ks = sorted({x for x in gen.boundary(w) if x not in (0, -1)} if w < 64 else {s * (1 << k) + d for k in range(1, w - 1, 1 if w == 64 else 3) for s in (1, -1) for d in (-1, 0)} - {0, -1})
        for o in ['addi', 'subi', 'muli', 'and', 'or', 'xor', 'divsi', 'divui', 'remsi', 'remui', 'shl', 'shr', 'shru'] + ['cmpi ' + q for q in gen.G(0).f('cmp')]:
            rt = 'core.i1' if o[:4] == 'cmpi' else t; fs = []
            for c0 in range(0, len(ks), 24):
                bb = []
                for i, k in enumerate(ks[c0:c0 + 24]):
                    bb.append(f'    %k{i} = arith.const {{value = {k}}} : {t}\n')
                    for s, (a, b) in enumerate([('%x', f'%k{i}'), (f'%k{i}', '%x')][:1 if o[:3] in ('div', 'rem') else 2]):
                        bb.append(f'    %r{i}_{s} = arith.{o.split()[0]} {a}, {b}' + (f' {{predicate = @{o.split()[1]}}}' if o[:4] == 'cmpi' else '') + f' : {rt}\n    %c{i}_{s} = func.call %r{i}_{s} {{callee = @sink}} : core.nil\n')
                fs.append(f'  func.func @f{c0}(%x: {t}) -> core.nil {{\n{"".join(bb)}    %u = arith.const {{value = unit}} : core.nil\n    func.return %u\n  }}\n')
            out.append((f'powers {o} i{w}', f'core.module @m {{\n  func.func @sink(%a: {rt}) -> core.nil attributes {{abi = "C"}} {{\n    func.unreachable\n  }}\n' + ''.join(fs) + '}\n'))
    return out

def i1_payload(pre, post, r):
    def bad(m): return [o for f in m.funcs.values() for o in tv.walk(f) if o['d'] == 'arith' and o['n'] == 'const' and m.tstr(o['o'][0][1]) == 'core.i1' and o['a']['value']['k'] == 'int' and int(o['a']['value']['v']) not in (0, 1)]
    if bad(post) and not bad(pre): return [f"a core.i1 constant became {bad(post)[0]['a']['value']['v']} (booleans are held as 0 or 1)"]
    return []

def canon(c):
    c.functions = ['transforms::canonicalize::canonicalize', 'transforms::canonicalize_pass', 'fold_addi', 'fold_subi', 'fold_muli', 'fold_divsi', 'fold_divui', 'fold_remsi', 'fold_remui', 'fold_and', 'fold_or', 'fold_xor',
                   'scf::fold_if', 'core::fold_unrealized_conversion_cast', 'apply_splice', 'PatternApplicator::apply_partial']
    c.assumptions += BASE
    import folds
    ks = folds.check(c)
    exe = exe_of(c)
    n = 7200 if c.tier == 'quick' else 20000
    k = dict(opts=dict(tailtag=True, opaque=PURE), extra=i1_payload)
    sp = {'canonicalize': tv.Spec(passes=['canonicalize'], **k), 'canonicalize_pass': tv.Spec(passes=['canonicalize_pass'], **k),
          'canonicalize on CFG form': tv.Spec(before=['scf_to_cf'], passes=['canonicalize'], **k)}
    w = [('canonicalize', t, p) for t, p in ks + fold_corpus() + pow_corpus()]
    for i, (t, p) in enumerate(progs(c.seed, n, casts=True, opaque=True, consts=.9, **FULL)): w.append((['canonicalize', 'canonicalize', 'canonicalize_pass', 'canonicalize on CFG form'][i % 4], t, p))
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def no_scf(pre, post, r):
    left = sorted({f"{o['d']}.{o['n']}" for f in post.funcs.values() for o in tv.walk(f) if o['d'] == 'scf'})
    return [f'structured control flow left over: {left}'] if left else []

def scfcf(c):
    c.functions = ['transforms::scf_to_cf::lower_scf_to_cf', 'lower_scf_to_cf_func', 'transform_region', 'lower_scf_if', 'lower_scf_loop', 'lower_scf_switch', 'rewrite::helpers::split_block', 'rewrite::helpers::inline_region_blocks']
    c.assumptions += BASE
    exe = exe_of(c)
    n = 7200 if c.tier == 'quick' else 20000
    k = dict(opts=dict(tailtag=True, opaque=PURE), extra=no_scf)
    sp = {'scf_to_cf': tv.Spec(passes=['scf_to_cf'], **k), 'scf_to_cf_pass': tv.Spec(passes=['scf_to_cf_pass'], **k)}
    w = []
    for i, (t, p) in enumerate(progs(c.seed, n // 2, opaque=True, budgets=(12, 20, 30, 40), mulsym=False, div=False, **FULL)): w.append((['scf_to_cf', 'scf_to_cf_pass'][i % 2], t, p))
    for i, (t, p) in enumerate(progs(c.seed + 7, n // 2, opaque=True, nested=True, budgets=(12, 20, 30, 40), div=False, shifts=False, mulsym=False, mem=False, nfuncs=1, allloops=True, **FULL)): w.append((['scf_to_cf', 'scf_to_cf_pass'][i % 2], t + 'L', p))
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def refs(o):
    """symbols an operation refers to"""
    out = set()
    for k, a in o['a'].items():
        if k == 'sym_name': continue
        def rec(a):
            if a['k'] == 'sym': out.add(a['v'])
            elif a['k'] == 'list':
                for x in a['v']: rec(x)
        rec(a)
    return out

def gdce_struct(pre, post, r):
    roots = {n for n, f in pre.funcs.items() if n in ('main', '_start') or 'abi' in f['a']}
    for b in pre.op['r'][0]:
        for o in b['ops']:
            if o['d'] == 'wasm' and o['n'] == 'export_func': roots |= refs(o)
    live, st = set(), [x for x in roots if x in pre.funcs]
    while st:
        x = st.pop()
        if x in live: continue
        live.add(x)
        for o in tv.walk(pre.funcs[x]):
            if o is pre.funcs[x]: continue
            if o['d'] == 'func' and o['n'] in ('call', 'tail_call', 'constant'):
                for y in refs(o):
                    if y in pre.funcs: st.append(y)
    out = []
    gone = live - set(post.funcs)
    if gone: out.append(f'reachable functions were removed: {sorted(gone)}')
    dup = [n for n in post.order if post.order.count(n) > pre.order.count(n)]
    if dup: out.append(f'functions duplicated: {dup}')
    return out

def global_progs(seed, n):
    """modules rich in call-graph shapes"""
    out = []
    for i in range(n):
        s = seed * 999983 + i; r = random.Random(s); nf = r.randint(2, 7)
        try: p = gen.program(s, nfuncs=nf, never=True, tail=True, indirect=True, budgets=(3, 6, 10), mem=False, floats=[], loops=False, callbias=True)
        except gen.NoVal: continue
        k = r.randrange(nf)
        if i % 3 == 0: p = p.replace(f'@f{k}(', '@main(').replace(f'@f{k}}}', '@main}')
        elif i % 3 == 1: p = p.replace(f'@f{k}(', '@_start(').replace(f'@f{k}}}', '@_start}')
        if i % 3 == 2 or r.random() < .3: p = p.rstrip()[:-1] + f'  wasm.export_func {{name = "x", func = @f{(k + 1) % nf}}}\n}}\n'
        out.append((f'm{s}', p))
    return out

def dce(c):
    c.functions = ['transforms::dce::eliminate_dead_code', 'dce_pass', 'PureOps::is_pure (and every register_pure_op!)', 'transforms::global_dce::eliminate_dead_functions', 'IrContext::remove_op', 'rewrite::erase_op']
    c.assumptions += BASE + ['an unused division may be deleted together with its trap (the pass documents division as pure)', 'removable operations without a scalar meaning are exactly the listed ADT reads and allocations: ' + ', '.join(sorted(PURE))]
    exe = exe_of(c)
    n = 6000 if c.tier == 'quick' else 16000
    k = dict(opts=dict(tailtag=True, traps=False, opaque=PURE))
    glob = lambda pre, post: [n for n, f in pre.funcs.items() if f['r'] and f['r'][0] and 'abi' not in f['a'] and n in post.funcs]
    sp = {'dce': tv.Spec(passes=['dce'], **k), 'dce_pass': tv.Spec(passes=['dce_pass'], **k), 'dce on CFG form': tv.Spec(before=['scf_to_cf'], passes=['dce'], **k),
          'global_dce': tv.Spec(passes=['global_dce'], funcs=glob, extra=gdce_struct, **k)}
    w = []
    for i, (t, p) in enumerate(progs(c.seed, n, opaque=True, casts=True, **FULL)): w.append((['dce', 'dce_pass', 'dce on CFG form'][i // 3 % 3], t, p))
    for t, p in global_progs(c.seed, n // 2): w.append(('global_dce', t, p))
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def inline(c):
    c.functions = ['transforms::inline::inline_functions', 'inline_functions_with_config', 'InlineCallSite::match_and_rewrite', 'splice_callee_body_before', 'should_inline', 'transforms::call_graph (recursive_functions)', 'IrContext::clone_op', 'IrMapping']
    c.assumptions += BASE + ['calls to non-recursive functions of the module are executed in place on both sides, recursive and external calls are events with arbitrary results']
    exe = exe_of(c)
    n = 6000 if c.tier == 'quick' else 12000
    k = dict(opts=dict(opaque=PURE), inline_all=True)
    sp = {'inline': tv.Spec(passes=['inline'], **k), 'inline+global_dce': tv.Spec(passes=['inline', 'global_dce'], funcs=lambda pre, post: [n for n in post.funcs if n in pre.funcs and 'abi' not in pre.funcs[n]['a']], extra=gdce_reach, **k)}
    w = []
    for i in range(n):
        s = c.seed * 7000003 + i; r = random.Random(s)
        try: p = gen.program(s, nfuncs=r.randint(2, 6), budgets=(2, 4, 8, 14), opaque=i % 2 == 0, mulsym=False, div=i % 4 == 1, shifts=False, loops=i % 5 == 0, callbias=True, **FULL)
        except gen.NoVal: continue
        if i % 4 == 3: p = p.replace('@f0(', '@main(').replace('@f0}', '@main}'); w.append(('inline+global_dce', f'i{s}', p))
        else: w.append(('inline', f'i{s}', p))
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()
def gdce_reach(pre, post, r):
    out = []
    if 'main' in pre.funcs and 'main' not in post.funcs: out.append('main was removed')
    for n, f in post.funcs.items():
        for o in tv.walk(f):
            if o is f: continue
            if o['d'] == 'func' and o['n'] in ('call', 'tail_call', 'constant'):
                for y in refs(o):
                    if y in pre.funcs and y not in post.funcs: out.append(f'{n} still refers to {y}, which was removed')
    return out

NB = ['the Cranelift IR handed to the code generator is read as text from the log of cranelift-object and given the meaning of the Cranelift reference (trusted, lib/clif.py); Cranelift itself is trusted',
      'a core.i1 argument or result of the environment is 0 or 1; signed division overflow traps; a float converted to an integer is in range']
def native_scalar(c):
    import native
    c.functions = ['arith_to_clif::lower', 'cf_to_clif::lower', 'func_to_clif::lower', 'mem_to_clif::lower', 'transforms::scf_to_cf', 'const_to_native', 'translate::emit_module_to_native / emit_module_impl', 'function::FunctionTranslator', 'function::translate_signature', 'function::translate_type', 'call_conv_for_cps_signature', 'native type converter (tribute-passes)']
    c.assumptions += BASE + NB
    exe = exe_of(c)
    n = 5000 if c.tier == 'quick' else 40000
    w = [('native', t, p) for t, p in native.corpus()] + [('native', *native.KNOWN_I1)]
    for i, (t, p) in enumerate(progs(c.seed, n, indirect=True, conv=True, nilp=True, fconv=True, cps=True)): w.append(('native', t, p))
    tv.campaign(c, exe, {'native': native.SPEC}, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def wasm_scalar(c):
    import wasmtv
    c.functions = ['arith_to_wasm::lower', 'scf_to_wasm::lower', 'func_to_wasm::lower', 'wasm::lower::lower_to_wasm', 'normalize_primitive_types', 'wasm type converter', 'emit::emit_wasm', 'emit_function / assign_locals_in_region / emit_op_nested', 'emit::handlers::{call,const,control_flow}', 'collect_call_indirect_types', 'finalize_wasm_gc_types']
    c.assumptions += BASE + ['the bytes of the emitted module are decoded and given the meaning of the WebAssembly specification (trusted, lib/wasm.py); validity is decided by wasmparser',
                             'a core.i1 argument or result of the environment is 0 or 1; a float converted to an integer is in range; a function value is its index in the emitted function table']
    exe = exe_of(c)
    n = 4000 if c.tier == 'quick' else 30000
    w = [('wasm', t, p) for t, p in wasmtv.corpus()] + [('wasm', *wasmtv.KNOWN_I1)]
    for i in range(n):
        s = c.seed * 4000037 + i
        try: w.append(('wasm', f'w{s}', gen.program(s, nfuncs=1 + i % 4, ints=['core.i32', 'core.i64'], floats=['core.f64', 'core.f32'] if i % 5 == 0 else ['core.f64'], mem=False, ptr=False, loops=False, switch=False, indirect=True, conv=True, fconv=True, f32=i % 5 == 0, nilp=True, cps=i % 3 == 0, tail=True, fptr='core.i32', ifres=True, returns=i % 2 == 0)))
        except gen.NoVal: continue
    tv.campaign(c, exe, {'wasm': wasmtv.SPEC}, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def heap_progs(seed, n, **x):
    import adtgen
    out = []
    for i in range(n):
        s = seed * 5000011 + i; k = dict(typed=i % 3 == 0, fresh=i % 4 != 1, rloops=i % 2 == 0, focus=not x and i % 5 in (1, 3), **x)
        try: out.append((f'h{s}', adtgen.program(s, **k)))
        except gen.NoVal: continue
    return out
HB = ['the abstract meaning of struct, enum, box and reference operations (objects with fields) in lib/heap.py is trusted; programs that read a field of the wrong variant or through null are outside the statement',
      'the allocator returns a fresh block (its own contract is property C05); the release functions reached through the type table are the emitted ones, executed in place']
def heap_values(c):
    import heap
    c.functions = ['adt_to_clif (struct, variant, reference patterns)', 'adt_layout::compute_struct_layout / compute_enum_layout', 'native::adt_rc_header', 'native::rtti', 'native::tribute_rt_to_clif (boxes)', 'native::type_converter', 'native::ownership_summary', 'native::rc_insertion', 'native::rc_optimization', 'native::rc_lowering', 'translate::emit_module_impl', 'function::FunctionTranslator']
    c.assumptions += BASE + NB + HB
    import verus
    verus.check(c, 'layout')
    exe = exe_of(c); n = 3600 if c.tier == 'quick' else 30000
    sp = {'values': heap.HeapSpec('bt', True, reuse=False), 'values, no rc optimisation': heap.HeapSpec('', False, reuse=False)}
    w = [(['values', 'values', 'values, no rc optimisation'][i % 3], t, p) for i, (t, p) in enumerate(heap_progs(c.seed, n))]
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()
def heap_rc(c):
    import heap
    c.functions = ['native::rc_insertion::insert_rc', 'native::ownership_summary', 'native::rc_optimization', 'native::rc_lowering', 'native::rtti (release functions)', 'native::adt_rc_header', 'func_to_clif (call ownership contracts)', 'adt_to_clif', 'native::tribute_rt_to_clif']
    c.assumptions += BASE + NB + HB
    exe = exe_of(c); n = 4400 if c.tier == 'quick' else 40000
    sp = {f'rc {p or "none"} {"opt" if o else "plain"}': heap.HeapSpec(p, o) for p in ('bt', 'b', 't', '') for o in (True, False)}
    ks = ['rc bt opt'] * 5 + list(sp)
    w = [('rc bt opt', t, p) for t, p in heap.KNOWN] + [(ks[i % len(ks)], t, p) for i, (t, p) in enumerate(heap_progs(c.seed + 77, n))]
    sp['rc release functions'] = heap.HeapSpec('bt', True, deep=True)
    w += [('rc release functions', t, p) for t, p in heap_progs(c.seed + 78, n // 4, tyf=1.0, anyf=False, clo=0.0)]
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def builtins(c):
    import builtins_ as B
    c.functions = ['intrinsic_to_arith::lower', 'list_intrinsics::lower', 'io_lowering::lower', 'native::intrinsic_to_native::lower', 'native::list::lower', 'native::io::lower', 'native::const_to_native::lower', 'adt_to_clif', 'native::tribute_rt_to_clif', 'native::rc_insertion (lists and byte strings)', 'translate::emit_module_impl (read-only data)']
    c.assumptions += BASE + NB + HB + ['the meaning of each operator, list, byte string and line input/output operation in lib/builtins_.py is trusted; the runtime functions they call (length, line input and output) are given their contracts (properties C03, C04)']
    exe = exe_of(c); n = 3000 if c.tier == 'quick' else 24000
    sp = {'builtins': B.BSpec('bt', True, reuse=False), 'builtins, no rc optimisation': B.BSpec('', False, reuse=False), 'builtins, memory': B.BSpec('bt', True)}
    w = [('builtins, memory', t, p) for t, p in B.KNOWN] + [('builtins', t, p) for t, p in B.corpus()]
    for i in range(n):
        s = c.seed * 6000011 + i; m = i % 3 == 2
        try: w.append(('builtins, memory' if m else 'builtins' if i % 3 else 'builtins, no rc optimisation', f'b{s}', B.program(s, byfields=not m)))
        except gen.NoVal: continue
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def closures(c):
    import closures_ as K
    c.functions = ['lower_closure_lambda::LowerClosureLambda', 'closure_lower::PrepareClosureLowering', 'closure_lower::LowerClosuresInFunc', 'tribute_core::calling_convention', 'adt_to_clif', 'func_to_clif (indirect calls)', 'native::rc_insertion', 'native::rtti']
    c.assumptions += BASE + NB + HB + ['the meaning of a lambda (its body runs with the values its captures had when it was created) and of a call through it is trusted (lib/closures_.py)', 'continuation-passing closures (convention 2) are outside: the passes that give them a native signature are not yet part of the pipeline']
    exe = exe_of(c); n = 2400 if c.tier == 'quick' else 24000
    sp = {'closures': K.mkspec('bt', True, reuse=False), 'closures, no rc optimisation': K.mkspec('', False, reuse=False), 'closures, memory': K.mkspec('bt', True)}
    w = [('closures, memory', t, p) for t, p in K.KNOWN] + [('closures', t, p) for t, p in K.corpus()]
    for i in range(n):
        s = c.seed * 7000003 + i; m = i % 3 == 2
        try: w.append(('closures, memory' if m else 'closures' if i % 3 else 'closures, no rc optimisation', f'k{s}', K.program(s, kf=not m, typed=not m)))
        except gen.NoVal: continue
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def wasm_gc(c):
    import wgc as W
    c.functions = ['adt_to_wasm (struct, variant, reference patterns)', 'wasm_gc_to_wasm', 'wasm::tribute_rt_to_wasm (boxes)', 'wasm type converter', 'wasm::lower::lower_to_wasm', 'emit::gc_types_collection', 'emit::handlers::{struct,ref}', 'emit::emit_wasm']
    c.assumptions += BASE + HB[:1] + ['the bytes of the emitted module are decoded and given the meaning of the WebAssembly specification with GC (trusted, lib/wasm.py and lib/wgc.py); validity is decided by wasmparser',
                                      'a boxed Int or Nat fits 31 bits (the documented representation)', 'the generated programs contain no scf.loop and no scf.if without a result']
    exe = exe_of(c); n = 4000 if c.tier == 'quick' else 30000
    w = [('wasm gc', t, p) for t, p in W.CASES + W.corpus()]
    for i in range(n):
        s = c.seed * 8000009 + i
        try: w.append(('wasm gc', f'g{s}', W.program(s)))
        except gen.NoVal: continue
    tv.campaign(c, exe, {'wasm gc': W.GcSpec()}, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def wasm_closures(c):
    import wclo as K
    c.functions = ['lower_closure_lambda::LowerClosureLambda', 'closure_lower::PrepareClosureLowering', 'closure_lower::LowerClosuresInFunc', 'wasm::lower::lower_to_wasm', 'func_to_wasm (indirect calls, function table)', 'wasm type converter (materialisation of casts)', 'emit::call_indirect_collection', 'emit::handlers::call', 'emit::gc_types_collection']
    c.assumptions += BASE + HB[:1] + ['the bytes of the emitted module are decoded and given the meaning of the WebAssembly specification with GC (trusted, lib/wasm.py and lib/wgc.py); validity is decided by wasmparser',
                                      'the meaning of a lambda (its body runs with the values its captures had when it was created) and of a call through it is trusted (lib/closures_.py)', 'a boxed Int or Nat fits 31 bits (the documented representation)', 'continuation-passing closures (convention 2) are outside']
    exe = exe_of(c); n = 3600 if c.tier == 'quick' else 24000
    w = [('closures', t, p) for t, p in K.KNOWN + K.corpus()] + [('closures, inlined', t, p) for t, p in K.KNOWN_INL]
    for i in range(n):
        s = c.seed * 9000011 + i
        try: w.append(('closures, inlined' if i % 3 == 2 else 'closures', f'v{s}', K.program(s, kobj=i % 3 != 2)))
        except gen.NoVal: continue
    tv.campaign(c, exe, {'closures': K.WKSpec(), 'closures, inlined': K.WKSpec(inl=True)}, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

def effects(c):
    import effects_ as E
    c.functions = ['lower_ability_perform (ability.call, ability.perform)', 'resolve_evidence::ResolveEvidenceDispatch (final delimiters)', 'lower_handle_dispatch (final delimiters)', 'native::evidence::prepare_native_evidence_runtime', 'native::evidence::LowerEvidenceToNative', 'ability::compute_ability_id', 'ability::compute_op_idx', 'ability::operation_payload_type_ref', 'lower_closure_lambda', 'closure_lower']
    c.assumptions += BASE + NB + HB + ['the evidence functions of the runtime are taken by their contract (property C01)', 'the meaning of evidence, of fn and op operations and of the final handler delimiter is trusted (lib/effects_.py)', 'dispatchers are written as the front end would write them: evidence-direct closures that compare the operation index; the index of an operation is an opaque value', 'the 32-bit hashes that name abilities and operations do not collide by chance', 'legacy (carrier) delimiters, and operations directly inside the body of a delimiter, are outside']
    exe = exe_of(c); n = 2000 if c.tier == 'quick' else 20000
    sp = {'effects': E.mkspec('bt', True, reuse=False), 'effects, inlined': E.mkspec('bt', True, inl=True, reuse=False), 'effects, memory': E.mkspec('bt', True, reuse=True)}
    w = []
    for i in range(n): s = c.seed * 11000027 + i; w.append((list(sp)[i % 3], f'e{s}', E.program(s, hd=i % 2 == 1)))
    tv.campaign(c, exe, sp, w, c.t0 + (600 if c.tier == 'quick' else 2200))
    c.finish()

CHECKS = {'effects': effects, 'wasm_closures': wasm_closures, 'wasm_gc': wasm_gc, 'closures': closures, 'builtins': builtins, 'heap_values': heap_values, 'heap_rc': heap_rc, 'wasm_scalar': wasm_scalar, 'native_scalar': native_scalar, 'canon': canon, 'scfcf': scfcf, 'dce': dce, 'inline': inline}
def main(c, key): CHECKS[key](c)
