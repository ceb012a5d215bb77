"""Runtime properties: Kani on the real tribute-rc / tribute-runtime code + native contract runs."""
import os, json, shutil
import overlay
from vlib import *

RT_ASSUME = [
  'smallvec::SmallVec, alloc::vec::Vec and VecDeque behave as bounded sequences (Kani run uses inline models; the native run uses the real ones)',
  'POSIX read/write/errno/memcmp/pthread keys behave as in kani/models/libc (every short count, EINTR and error POSIX allows)',
  'Rust alloc::alloc returns disjoint, suitably aligned blocks or null (Kani allocator model)',
  'Kani/CBMC and rustc MIR lowering are correct; sequential execution (atomics treated as sequential)',
]

CFG = {
 # pid: (abi filters, private (file-slot, file, filters), native subcommands, functions)
 'evidence': dict(abi=['verif_abi::evidence_'], priv=[('lib', 'rt_priv_evidence.rs', ['verif_priv_evidence::'])], native=[('evidence', 30000)],
    fns=['__tribute_evidence_empty', '__tribute_evidence_extend', '__tribute_evidence_lookup', '__tribute_evidence_lookup_tr', '__tribute_evidence_lookup_handler', 'Evidence::extend', 'Evidence::lookup'],
    bound='Kani: histories of 3 extends and branches; one-step contract from any well-formed evidence of up to 5 markers; every i32 id/tag and pointer value'),
 'bytes': dict(abi=['verif_abi::bytes_'], priv=[], native=[('bytes', 12000)],
    fns=['__tribute_bytes_len', '__tribute_bytes_range_equal', '__tribute_bytes_concat', '__tribute_bytes_slice_or_panic'],
    bound='Kani: contents of up to 3 bytes (every byte value, every u32 start/end/len, every refcount); len() and the overflow/out-of-range aborts for every value'),
 'output': dict(abi=['verif_abi::out_'], priv=[], native=[('output', 30000)],
    fns=['__tribute_io_write', '__tribute_bytes_print', '__tribute_print_newline', '__tribute_print_bytes', '__tribute_print_int', '__tribute_print_nat', '__tribute_print_float', 'write_stdout_all', 'write_all_with'],
    bound='Kani: payloads of up to 3 bytes plus newline, every sequence of short writes, up to 2 EINTR, any hard error'),
 'input': dict(abi=['verif_abi::in_'], priv=[], native=[('input', 6000)],
    fns=['__tribute_io_read_line', '__tribute_io_read_line_result_dealloc', 'read_line_with', 'StdinBuffer::read_byte', 'line_result', 'allocate_bytes', 'allocate_read_result'],
    bound='Kani: stdin contents of 2 bytes (3 calls) and 3 bytes (2 calls), every byte value, every chunking, one EINTR anywhere, any hard error; buffer size overlaid to 3'),
 'heap': dict(abi=['verif_abi::heap_'], priv=[('asan', 'rt_priv_asan.rs', ['verif_priv_asan::'])], native=[('heap', 20000), ('asan', 6000)],
    fns=['__tribute_alloc', '__tribute_dealloc', '__asan_init', 'asan::alloc', 'asan::dealloc', 'check_redzone', 'quarantine_push'],
    bound='Kani: plain blocks of 1..4096 bytes, every unsatisfiable size; sanitized blocks of 1, 5, 8 and 13 bytes with every red-zone position and value'),
 'rc': dict(rc=['verif_rc::'], abi=[], priv=[], native=[('rc', 300)],
    fns=['RcBox::init', 'RcBox::retain', 'RcBox::payload_offset', 'RcBox::payload_ptr', 'RcBox::from_payload_ptr', 'RcBox::from_payload_ptr_mut'],
    bound=None),
 'tags': dict(abi=['verif_abi::tags_'], priv=[('tls', 'rt_priv_tags.rs', ['verif_priv_tags::'])], native=[('tags', 200000)],
    fns=['__tribute_init', '__tribute_next_tag', 'ThreadState::next_tag'],
    bound='Kani: the one-step contract is complete; the ABI history harness is bounded'),
}

VERUS = {'evidence': ['evidence'], 'output': ['output'], 'input': ['input']}

def native(c, subs, thorough):
    tgt = scratch('rtn')
    src = f'{VERIF}/native/rt'
    work = scratch('rtn-src')
    for f in ('Cargo.toml',): shutil.copy(f'{src}/{f}', work)
    shutil.rmtree(f'{work}/src', ignore_errors=True); shutil.copytree(f'{src}/src', f'{work}/src')
    if not os.path.exists(f'{work}/Cargo.lock'): lockfile(f'{work}/Cargo.lock')
    if REPO != '/repo':
        t = open(f'{work}/Cargo.toml').read().replace('"/repo/', f'"{REPO}/'); open(f'{work}/Cargo.toml', 'w').write(t)
    found = False
    for prof, flag in (('debug', []), ('release', ['--release'])):
        rc, o, x, s = run(['cargo', 'build', '--offline', '-q'] + flag, cwd=work, timeout=min(400, c.left()), extra={'CARGO_TARGET_DIR': tgt})
        if rc != 0:
            c.ob(f'native contract runner ({prof})', 'native', 'undecided', s, 'bounded', (x or o)[-800:])
            c.note(f'native runner does not build ({prof}): {(x or o)[-300:]}')
            continue
        for sub, budget in subs:
            b = budget * (12 if thorough else 1)
            rc, o, x, s = run([f'{tgt}/{prof}/rtn', sub, str(c.seed), str(b)], timeout=min(300, c.left()))
            if rc == 0:
                n = int(o.split('\t')[1])
                c.ob(f'native:{sub}:{prof}', 'native contract run (bounded companion)', 'discharged', s, 'bounded', f'{n} cases')
                c.cov['native_cases'] = c.cov.get('native_cases', 0) + n
            elif rc == 10:
                line = [l for l in x.splitlines() if l.startswith('FAIL\t')]
                parts = (line[-1] if line else 'FAIL\t?\t?').split('\t')
                c.ob(f'native:{sub}:{prof}', 'native contract run (bounded companion)', 'failed', s, 'bounded', parts[1])
                c.violate(parts[1], f'contract fails on the real code ({prof} build)', parts[2] if len(parts) > 2 else '?',
                          replay=f'cd native/rt && cargo run {"--release " if flag else ""}--offline -- {sub} {c.seed} {b}')
                found = True
            else:
                c.ob(f'native:{sub}:{prof}', 'native contract run (bounded companion)', 'undecided', s, 'bounded', f'exit {rc} {x[-300:]}')
    return found

def main(c, key):
    cfg = CFG[key]
    c.functions = cfg['fns']
    c.assumptions += RT_ASSUME
    if cfg['bound']: c.assumptions.append('bound of the Kani obligations: ' + cfg['bound'])
    c.trusted += ['Kani 0.68 / CBMC 6.11', 'environment and container models in kani/models', 'overlay transformations listed in lib/overlay.py']
    out = scratch('rt-overlay')
    slots = dict(lib=['rt_abi.rs'], asan=[], tls=[], rc=['rc.rs'] if cfg.get('rc') else [])
    filt = list(cfg['abi']) + list(cfg.get('rc', []))
    for slot, f, fl in cfg['priv']:
        slots[slot].append(f); filt += fl
    import verus
    verus.check(c, *VERUS.get(key, ()))
    native_found = native(c, cfg['native'], c.tier == 'thorough')
    if native_found and c.tier == 'quick':
        c.note('the contract fails on a concrete run; Kani skipped')
        c.finish()
    pk = ['tribute-rc'] if cfg.get('rc') else ['tribute-runtime']
    overlay.build(REPO, out, VERIF, **slots)
    per = 420 if c.tier == 'quick' else 1500
    res, comp, log, s = kani(out, pk, filt, c.left() - 20, per=per, target=scratch('rt-kani'))
    if comp and cfg['priv']:
        c.note('private-name harnesses do not compile against this tree; checking the ABI contracts only')
        overlay.build(REPO, out, VERIF, lib=['rt_abi.rs'], rc=slots['rc'])
        filt = list(cfg['abi']) + list(cfg.get('rc', []))
        res, comp, log, s = kani(out, pk, filt, c.left() - 20, per=per, target=scratch('rt-kani'))
    if not res:
        c.ob('kani', 'Kani/CBMC', 'undecided', s, 'bounded', log[-1500:])
        c.note('Kani gave no result: ' + log[-400:])
    complete = ('rc_', 'tags_step', 'bytes_len', 'bytes_concat_overflow', 'heap_zero', 'heap_huge', 'asan_huge', 'bytes_slice_out')
    for h, r in sorted(res.items()):
        kind = 'proof' if h.split('::')[-1].startswith(complete) else 'bounded'
        c.ob(h, 'Kani/CBMC', r['status'], r['seconds'], kind, f"{r['checks']} checks" if r['status'] == 'discharged' else str(r.get('real') or r.get('why')), n=max(1, r['checks']))
        if r['status'] == 'failed':
            c.violate(h + ': ' + r['real'][0][0], 'Kani counterexample: ' + json.dumps(r['real']) + '\n' + log[-3000:], None)
    c.cov['kani_harnesses'] = len(res)
    c.finish()
