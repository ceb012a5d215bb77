"""The arith folds under Kani contracts, cut out of arith.rs on every run."""
import os, re, shutil
import vlib, verus
OPS = ['addi', 'subi', 'muli', 'divsi', 'divui', 'remsi', 'remui', 'and', 'or', 'xor']
def text(repo):
    """everything between the dialect's operation table and the tests, without imports and fold registrations; 128-bit
    wrapping_mul/div/rem redirected to an uninterpreted function"""
    src = open(f'{repo}/crates/trunk-ir/src/dialect/arith.rs').read(); t = verus.scrub(src)
    m = re.search(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\b', t); hi = m.start() if m else len(src)
    m = re.search(r'mod\s+\w+\s*\{', t)
    if not m: raise verus.Lost('dialect module not found')
    lo = verus.close(t, t.index('{', m.start())) + 1
    s = src[lo:hi]
    s = re.sub(r'^use [^;]*;', '', s, flags=re.M); s = re.sub(r'#\[trunk_ir::[^\]]*\]', '', s)
    return re.sub(r'\.wrapping_(mul|div|rem)\(', r'.x_\1(', s)
def program(op, w, x, y, cx, cy):
    t = f'core.i{w}'; sx = lambda v: v - (1 << w) if v >> (w - 1) & 1 else v
    ps = ', '.join(f'%{n}: {t}' for n, c in (('x', cx), ('y', cy)) if not c)
    cs = ''.join(f'    %{n} = arith.const {{value = {sx(v)}}} : {t}\n' for n, v, c in (('x', x, cx), ('y', y, cy)) if c)
    return f'core.module @m {{\n  func.func @f({ps}) -> {t} {{\n{cs}    %r = arith.{op} %x, %y : {t}\n    func.return %r\n  }}\n}}\n'
def check(c):
    """-> programs built from the counterexamples, to be judged on the real pass"""
    d = vlib.scratch('folds'); os.makedirs(d + '/src', exist_ok=True); progs = []
    try:
        open(d + '/src/lib.rs', 'w').write('#![allow(dead_code, unused)]\n' + text(vlib.REPO) + open(f'{vlib.VERIF}/kani/harness/folds.rs').read())
    except (OSError, verus.Lost, ValueError) as e:
        c.ob('contracts of the arith folds', 'Kani/CBMC', 'undecided', 0, 'proof', f'extraction: {e}'); return []
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "folds"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n')
    res, comp, log, s = vlib.kani(d, [], [], 240, per=200, target=d + '/target')
    if not res: c.ob('contracts of the arith folds', 'Kani/CBMC', 'undecided', s, 'proof', log[-800:])
    for h, r in sorted(res.items()):
        st = r['status']
        if st == 'failed':
            st = 'undecided'; op = h.split('::c_')[-1]
            rc, o, x, s2 = vlib.run(['cargo', 'kani', '-Z', 'stubbing', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness', h], cwd=d, timeout=200, extra={'CARGO_TARGET_DIR': d + '/target'})
            for b in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
                v = [bytes(int(z) for z in q.split(',') if z.strip()) for q in re.findall(r'vec!\[([\d, ]*)\]', b)]
                try: w, x, y, cc = int.from_bytes(v[0], 'little'), int.from_bytes(v[1], 'little'), int.from_bytes(v[2], 'little'), v[3] + (v[4] if len(v[3]) == 1 else b'')
                except IndexError: continue
                if 1 <= w <= 128: progs.append((f'kani {op} w={w} x={x} y={y} const={list(cc[:2])}', program(op, w, x, y, cc[0], cc[1])))
        c.ob(h, 'Kani/CBMC', st, r['seconds'], 'proof', f"{r['checks']} checks" if st == 'discharged' else str(r.get('real') or r.get('why')), n=max(1, r['checks']))
    c.assumptions += ['contracts of the arith folds: every width from 1 to 128, every constant and every unknown operand; 128-bit wrapping multiplication, division and remainder are uninterpreted functions with x*0 = 0, x*1 = x, and quotients and remainders that fit the width; core_int_width yields the width of the type (checked at several widths by the programs)']
    return progs
