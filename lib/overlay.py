"""Mechanical overlay of the runtime crates for Kani.

Copies crates/tribute-rc and crates/tribute-runtime from the current /repo working tree and
applies five textual, content-independent transformations (the complete list of what the
"extraction" changes):
  1. `panic = "abort"` in cfg predicates becomes `all(panic = "abort", not(kani))`
     (Kani compiles with panic=abort; the no_std allocator/panic-handler shims are left out).
  2. every `unsafe extern "C" { fn f(..); }` foreign block becomes wrappers calling the same
     function in the environment model crate (kani/models/libc).
  3. STDIN_BUFFER_SIZE is set to 3 (so that buffer boundaries fall inside the small inputs), QUARANTINE_MAX to 160.
  4. `use alloc::vec::Vec` / `use alloc::collections::VecDeque` name inline bounded models.
  5. the harness modules are appended.
`smallvec` and `libc` are replaced by the models in kani/models.
"""
import re, shutil, os

FOREIGN = re.compile(r'unsafe\s+extern\s+"C"\s*\{((?:[^{}])*)\}')
FN = re.compile(r'(?:pub\s+)?(?:safe\s+|unsafe\s+)?fn\s+(\w+)\s*\((.*?)\)\s*(->\s*[^;]+)?;', re.S)

def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '(<[': depth += 1
        if ch in ')>]': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [a.strip() for a in out if a.strip()]

def shim(m):
    out = []
    body = re.sub(r'//[^\n]*', '', m.group(1))
    # balance-aware function splitting: signatures may contain nested parens
    for decl in [d for d in body.split(';') if d.strip()]:
        mm = re.match(r'\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:safe\s+|unsafe\s+)?fn\s+(\w+)\s*\((.*)\)\s*(->\s*.+)?\s*$', decl.strip(), re.S)
        if not mm:
            return m.group(0)
        name, args, ret = mm.group(1), mm.group(2), mm.group(3) or ''
        # greedy `(.*)` may swallow the return type's parens; recompute by balance
        t = decl.strip(); i = t.index('('); depth = 0
        for j in range(i, len(t)):
            if t[j] == '(': depth += 1
            if t[j] == ')':
                depth -= 1
                if depth == 0: break
        args, ret = t[i+1:j], t[j+1:].strip()
        al = split_args(args)
        names, params = [], []
        for k, a in enumerate(al):
            ty = a.split(':', 1)[1].strip()
            params.append(f'a{k}: {ty}')
            names.append(f'a{k} as _' if ty.startswith('*') else f'a{k}')
        cast = '' if ('!' in ret or not ret) else ' as _'
        call = f'::libc::{name}({", ".join(names)})'
        out.append(f'#[allow(dead_code)] unsafe fn {name}({", ".join(params)}) {ret} {{ unsafe {{ {call}{cast} }} }}')
    return '\n'.join(out)

def transform(src):
    src = re.sub(r'panic\s*=\s*"abort"', 'all(panic = "abort", not(kani))', src)
    src = FOREIGN.sub(shim, src)
    src = re.sub(r'(const\s+STDIN_BUFFER_SIZE\s*:\s*usize\s*=)[^;]*;', r'\1 3;', src)
    src = re.sub(r'(const\s+QUARANTINE_MAX\s*:\s*usize\s*=)[^;]*;', r'\1 160;', src)
    src = re.sub(r'\buse\s+alloc::vec::Vec\s*;', 'use ::smallvec::KVec as Vec;', src)
    src = re.sub(r'\buse\s+alloc::collections::VecDeque\s*;', 'use ::smallvec::KDeque as VecDeque;', src)
    return src

WS = '''[workspace]
resolver = "3"
members = ["crates/*"]
[workspace.package]
version = "0.1.0"
edition = "2024"
authors = ["x"]
license = "MIT"
[workspace.dependencies]
itoa = "1"
libc = "0.2"
smallvec = "1.13"
zmij = "1"
tribute-rc = { path = "crates/tribute-rc" }
[patch.crates-io]
smallvec = { path = "models/smallvec" }
libc = { path = "models/libc" }
'''

def build(repo, out, verif, rc=(), lib=(), asan=(), tls=()):
    """rc/lib/asan/tls: harness file names appended to the respective source file."""
    shutil.rmtree(os.path.join(out, 'crates'), ignore_errors=True)
    shutil.rmtree(os.path.join(out, 'models'), ignore_errors=True)
    os.makedirs(os.path.join(out, 'crates'), exist_ok=True)
    for c in ('tribute-rc', 'tribute-runtime'):
        shutil.copytree(f'{repo}/crates/{c}', f'{out}/crates/{c}')
    shutil.copytree(f'{verif}/kani/models', f'{out}/models')
    rt = f'{out}/crates/tribute-runtime/src'
    for root, _, files in os.walk(rt):
        for f in files:
            if f.endswith('.rs'):
                p = os.path.join(root, f)
                s = open(p).read()
                open(p, 'w').write(transform(s))
    def app(path, names):
        if names and os.path.exists(path):
            with open(path, 'a') as fh:
                for n in names: fh.write('\n' + open(f'{verif}/kani/harness/{n}').read())
    app(f'{out}/crates/tribute-rc/src/lib.rs', rc)
    app(f'{rt}/lib.rs', lib); app(f'{rt}/asan.rs', asan); app(f'{rt}/tls.rs', tls)
    open(f'{out}/Cargo.toml', 'w').write(WS)
