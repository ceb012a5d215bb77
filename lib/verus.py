"""Verus on functions cut mechanically out of /repo's current source.

A unit is a file verus/<unit>.rs: Verus text (specifications, lemmas, contracts assumed of callees) with
directives that are replaced by the text of /repo on every run:

  //@item FILE struct NAME     the definition of a struct, enum or const, verbatim without attributes and docs
  //@fn FILE NAME [in IMPL]    the function NAME (of the inherent impl of IMPL); the lines up to //@end are
      //@ret R                 name of the result in the contract
      //@spec                  the contract (requires / ensures) that follows
      //@loop K                the invariant of the K-th loop, in textual order
      //@sub A => B            textual replacement (regular expression) applied to the function, must match
      //@opt A => B            the same, need not match
  //@end

What the cutting drops or changes: attributes and doc comments; `for P in E` over a slice or vector becomes an
indexed `while` loop with the same body; the listed replacements.  If a function is not found, a replacement
does not match, or the verifier does not accept the text, the obligation is undecided: never an alarm.
"""
import os, re, subprocess, json, time
import vlib

class Lost(Exception): pass

def scrub(s):
    """same length, with comments, strings and chars blanked"""
    out, i, n = list(s), 0, len(s)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j; blank(i, j); i = j
        elif s.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            blank(i, j); i = j
        elif m := re.compile(r'b?r(#*)"').match(s, i):
            if i and (s[i - 1].isalnum() or s[i - 1] == '_'): i += 1; continue
            e = s.find('"' + m.group(1), m.end()); j = e + 1 + len(m.group(1)); blank(i + 1, j - 1); i = j
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == '\\' else 1
            blank(i + 1, j); i = j + 1
        elif s[i] == "'" and (m := re.compile(r"'(\\.[^']*|[^\\'])'").match(s, i)): blank(i + 1, m.end() - 1); i = m.end()
        else: i += 1
    return ''.join(out)
def close(t, i, o='{', c='}'):
    d = 0
    for k in range(i, len(t)):
        if t[k] == o: d += 1
        elif t[k] == c:
            d -= 1
            if d == 0: return k
    raise Lost('unbalanced text')
def item(src, kind, name):
    t = scrub(src); m = re.search(rf'^(?:pub(?:\([a-z]+\))?\s+)?{kind}\s+{name}\b[^;{{]*', t, re.M)
    if not m: raise Lost(f'{kind} {name} not found')
    e = m.end(); k = t[e:e + 1]
    if k == ';' or kind == 'const': e = t.index(';', m.start()) + 1
    else: e = close(t, t.index('{', m.start())) + 1
    s = src[m.start():e]; u = t[m.start():e]
    s = ''.join(a if b != ' ' or a == ' ' else '' for a, b in zip(s, u)) if kind != 'const' else s
    s = re.sub(r'#\[[^\]]*\]', '', s)
    return re.sub(r'^pub\(\w+\)', 'pub', s)
def function(src, name, impl=None):
    t = scrub(src); lo, hi = 0, len(src)
    m = re.search(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\b', t)
    if m: hi = m.start()
    if impl:
        m = re.search(rf'\bimpl(?:<[^>]*>)?\s+{impl}\b[^{{;]*', t[:hi])
        if not m: raise Lost(f'impl {impl} not found')
        lo = m.end(); hi = close(t, lo)
    m = re.compile(rf'^[ \t]*((?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?(?:extern\s+"[^"]*"\s+)?fn\s+{name}\b)', re.M).search(t, lo, hi)
    if not m: raise Lost(f'fn {name} not found')
    p = m.start(1); q = t.index('(', m.end()); q = close(t, q, '(', ')'); b = t.index('{', q); e = close(t, b)
    return src[p:b].rstrip(), src[b:e + 1]
LOOP = re.compile(r"\b(for|while|loop)\b")
def loops(body):
    """[(start, keyword, position of the body's brace)] in textual order"""
    t = scrub(body); out = []
    for m in LOOP.finditer(t):
        k = m.end(); d = 0
        while k < len(t) and not (t[k] == '{' and d == 0):
            if t[k] in '([': d += 1
            elif t[k] in ')]': d -= 1
            k += 1
        out.append((m.start(), m.group(1), k))
    return out
def with_loops(body, inv):
    ls = loops(body)
    for n in range(len(ls) - 1, -1, -1):
        a, kw, b = loops(body)[n]; I = inv.get(n, '')
        head = body[a:b]
        if kw != 'for': body = body[:b] + ('\n' + I + '\n' if I else '') + body[b:]; continue
        m = re.match(r'for\s+(.*?)\s+in\s+(.*)$', head.strip(), re.S)
        pat, ex = m.group(1), m.group(2).strip(); idx = None; it = f'vx_it{n}'
        if ex.endswith('.enumerate()'):
            ex = ex[:-len('.enumerate()')]; q = re.match(r'\(\s*(\w+)\s*,\s*(.*)\)$', pat, re.S)
            if not q: raise Lost('enumerate pattern')
            idx, pat = q.group(1), q.group(2)
        if ex.endswith('.iter()'): ex = ex[:-len('.iter()')]
        ex = ex.lstrip('&').strip()
        if not re.fullmatch(r'[\w.]+', ex): raise Lost(f'loop over {ex!r}')
        new = f'let mut {it}: usize = 0;\nwhile {it} < {ex}.len()\n{I}\n{{ let {pat} = &{ex}[{it}]; ' + (f'let {idx} = {it}; ' if idx else '') + f'{it} += 1;'
        body = body[:a] + new + body[b + 1:]
    return body
def fill(text, repo, probe=False):
    """the Verus file for a unit; probe: with an assertion that must fail in every function cut out of /repo"""
    out, fns = [], []
    lines = text.split('\n'); i = 0
    while i < len(lines):
        l = lines[i].strip()
        if l.startswith('//@item '):
            _, f, kind, name = l.split(); out.append(item(open(f'{repo}/{f}').read(), kind, name)); i += 1; continue
        if not l.startswith('//@fn '): out.append(lines[i]); i += 1; continue
        p = l.split(); f, name, impl = p[1], p[2], p[4] if len(p) > 4 else None
        sig, body = function(open(f'{repo}/{f}').read(), name, impl); ret, spec, inv, subs, cur = None, [], {}, [], None
        i += 1
        while lines[i].strip() != '//@end':
            l = lines[i].strip()
            if l.startswith('//@ret '): ret = l[7:].strip()
            elif l == '//@spec': cur = spec
            elif l.startswith('//@loop '): cur = inv.setdefault(int(l[8:]), [])
            elif l.startswith('//@sub ') or l.startswith('//@opt '): a, b = l[7:].split(' => ') if ' => ' in l else (l[7:].split(' =>')[0], ''); subs.append((a, b, l[3] == 's'))
            else: cur.append(lines[i])
            i += 1
        i += 1
        s = sig + '@BODY@' + body
        s = re.sub(r'^\s*///.*\n', '', s, flags=re.M)
        for a, b, must in subs:
            s, k = re.subn(a, b, s, flags=re.S)
            if must and not k: raise Lost(f'{name}: {a!r} not found')
        sig, body = s.split('@BODY@')
        if ret: sig = re.sub(r'->\s*(.*)$', lambda m: f'-> ({ret}: {m.group(1).strip()})', sig, flags=re.S) if '->' in sig else sig
        body = with_loops(body, {k: '\n'.join(v) for k, v in inv.items()})
        if probe: body = body[0] + ' proof { assert(false); } ' + body[1:]
        out.append(f'{sig}\n' + '\n'.join(spec) + f'\n{body}'); fns.append(f'{f}::{impl + "::" if impl else ""}{name}')
    return '\n'.join(out), fns
def run(path, limit=120):
    t = time.time()
    try: r = subprocess.run(['verus', path, '--rlimit', '60'], capture_output=True, text=True, timeout=limit, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired: return None, None, 'timeout', time.time() - t
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', r.stdout + r.stderr)
    return (int(m.group(1)), int(m.group(2)), r.stdout + r.stderr, time.time() - t) if m else (None, None, r.stdout + r.stderr, time.time() - t)
def unit(name, repo=None):
    """-> dict(name, fns, ok, verified, why, secs, assumed)"""
    repo = repo or vlib.REPO; text = open(os.path.join(vlib.VERIF, 'verus', name + '.rs')).read(); d = os.path.join(vlib.BUILD, 'verus-' + name); os.makedirs(d, exist_ok=True)
    res = dict(name=name, fns=[], ok=False, verified=0, why='', secs=0, assumed=re.findall(r'external_body\][^{;]*?fn (\w+)', text) + re.findall(r'assume_specification\s*\[\s*([^\]]*?)\s*\]', text) + re.findall(r'axiom fn (\w+)', text))
    try:
        src, res['fns'] = fill(text, repo); p = os.path.join(d, 'unit.rs'); open(p, 'w').write(src)
        v, e, log, s = run(p); res['secs'] = s
        if v is None or e: res['why'] = f'verifier: {log[-1500:]}'; return res
        q = os.path.join(d, 'probe.rs'); open(q, 'w').write(fill(text, repo, True)[0]); pv, pe, plog, s = run(q); res['secs'] += s
        if pe is None or pe < len(res['fns']): res['why'] = f'the vacuity probe was accepted ({pe} of {len(res["fns"])} refused)'; return res
        res.update(ok=True, verified=v)
    except (Lost, OSError, ValueError, IndexError, re.error) as x: res['why'] = f'extraction: {x}'
    return res
def check(c, *names):
    """discharge the units; a failed proof is undecided here, the companion runs on the real code decide"""
    for n in names:
        r = unit(n)
        for f in r['fns'] or [n]:
            if f not in c.functions: c.functions.append(f)
        if r['ok']: c.ob(f'verus/{n}.rs: contracts of {", ".join(f.split("::", 1)[1] for f in r["fns"])} for every input', 'Verus (z3)', 'discharged', r['secs'], 'proof', n=r['verified'])
        else: c.ob(f'verus/{n}.rs', 'Verus (z3)', 'undecided', r['secs'], 'proof', r['why'][-1500:]); c.note(f'verus/{n}.rs is undecided: {r["why"][-300:]}')
        c.assumptions.append(f'verus/{n}.rs: assumed contracts of callees: ' + ', '.join(sorted(set(r['assumed']))) + '; changes made by the extraction are listed as //@sub and //@opt there')
        if 'Verus' not in ' '.join(c.trusted): c.trusted.append('Verus 0.2026.09.13 and its z3; the textual extraction in lib/verus.py')
if __name__ == '__main__':
    import sys
    for n in sys.argv[1:]: r = unit(n); print(json.dumps({**r, 'why': ''}), '\n' + r['why'])
