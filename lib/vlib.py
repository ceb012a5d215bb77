"""Shared plumbing of the checks: running tools, collecting obligations, evidence, verdict."""
import json, os, re, subprocess, sys, time, shutil, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

def env():
    e = dict(os.environ)
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin:' + e.get('PATH', '')
    e['HOME'] = '/root'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e

def run(cmd, cwd=None, timeout=None, extra=None, inp=None):
    """-> (returncode or None on timeout, stdout, stderr, seconds); kills the whole group on timeout"""
    e = env()
    if extra: e.update(extra)
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         text=True, errors='replace', start_new_session=True)
    try:
        o, x = p.communicate(inp, timeout=timeout)
        return p.returncode, o, x, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, x = p.communicate()
        return None, o, x, time.time() - t

class Check:
    def __init__(self, pid, tier, level, budget=840):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.deadline = self.t0 + (budget if tier == 'quick' else 3 * budget)
        self.obl = []          # dict(name, backend, status: discharged|failed|undecided, time, kind: proof|bounded, detail)
        self.assumptions = []
        self.trusted = []
        self.cov = {}
        self.violations = []   # dict(obligation, detail, input or None)
        self.known = []
        self.functions = []
        self.notes = []
    def left(self): return max(5, self.deadline - time.time())
    def ob(self, name, backend, status, seconds=0.0, kind='proof', detail='', n=1):
        self.obl.append(dict(name=name, backend=backend, status=status, seconds=round(seconds, 3), kind=kind, detail=detail, n=n))
    def violate(self, obligation, detail, failing_input=None, replay=None):
        self.violations.append(dict(obligation=obligation, detail=detail, input=failing_input, replay=replay))
    def note(self, s):
        self.notes.append(s); print('note:', s)
    def finish(self):
        known = load_known(self.pid)
        fresh = []
        for v in self.violations:
            hit = None
            for k in known:
                if k['match'] in ((v['input'] or '') + ' ' + v['obligation'] + ' ' + v['detail']):
                    hit = k; break
            if hit: self.known.append(hit)
            else: fresh.append(v)
        n = sum(o['n'] for o in self.obl)
        dis = sum(o['n'] for o in self.obl if o['status'] == 'discharged')
        und = [o['name'] for o in self.obl if o['status'] == 'undecided']
        proofn = sum(o['n'] for o in self.obl if o['kind'] == 'proof' and o['status'] == 'discharged')
        bnd = sum(o['n'] for o in self.obl if o['kind'] != 'proof' and o['status'] == 'discharged')
        by = {}
        for o in self.obl:
            b = by.setdefault(o['backend'], dict(obligations=0, discharged=0, seconds=0.0))
            b['obligations'] += o['n']; b['seconds'] = round(b['seconds'] + o['seconds'], 2)
            if o['status'] == 'discharged': b['discharged'] += o['n']
        cov = dict(obligations=n, discharged=dis, proved_unbounded=proofn, bounded_stand_ins=bnd,
                   undecided=und, by_back_end=by, functions_under_contract=self.functions,
                   checker_cmd=f'bin/check {self.pid} {self.tier}', trusted_base=self.trusted,
                   obligations_list=[{k: o[k] for k in ('name', 'backend', 'status', 'kind', 'seconds', 'n', 'detail')} for o in self.obl][:400])
        cov.update(self.cov)
        if self.notes: cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{self.pid}.json', 'w'), indent=1)
        seen = set()
        for k in self.known:
            if k['what'] not in seen:
                seen.add(k['what']); print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        print(f'{self.pid}: {dis}/{n} obligations discharged, {len(und)} undecided, {len(fresh)} violated, {ev["wall_s"]} s')
        if fresh:
            rd = f'{VERIF}/evidence/replay'; os.makedirs(rd, exist_ok=True)
            path = f'{rd}/{self.pid}.json'
            # prefer a violation with a concrete failing input
            fresh.sort(key=lambda v: 0 if v['input'] else 1)
            json.dump(dict(property=self.pid, violations=fresh[:50]), open(path, 'w'), indent=1)
            for v in fresh[:5]: print('failed obligation:', v['obligation'], '|', (v['input'] or v['detail'])[:600])
            tail = '' if fresh[0]['input'] else ' no-failing-input-found'
            print(f'VIOLATION property={self.pid} replay={path}{tail}')
            sys.stdout.flush(); os._exit(1)
        sys.stdout.flush(); os._exit(0)

def load_known(pid):
    out = []
    try:
        for line in open(f'{VERIF}/known-findings.jsonl'):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'known': out.append(k)
    except FileNotFoundError: pass
    return out

# ------------------------------------------------------------------------------------ cargo
def lockfile(dst):
    """start from the lock file the repository's own build uses, so that versions agree"""
    for src in ('/opt/vp/ws/Cargo.lock', f'{REPO}/Cargo.lock'):
        if os.path.exists(src):
            shutil.copy(src, dst); return

# ------------------------------------------------------------------------------------ kani
UNDEC = re.compile(r'unwinding assertion|not currently supported by Kani|MODEL-CAP|is not supported|unsupported|Reached unimplemented|recursion unwinding')

def parse_kani(out):
    """-> {harness: dict(status, checks, failed:[(msg, where)], seconds, covers)}"""
    res, cur, act = {}, {}, None
    lines = out.splitlines()
    pend = None
    for ln in lines:
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', ln)
        if m:
            cur[m.group(1) or '0'] = m.group(2)
            res.setdefault(m.group(2), dict(status='undecided', checks=0, failed=[], seconds=0.0, covers=None, why='no result'))
            if m.group(1) is None: act = m.group(2)
            continue
        m = re.match(r'Thread (\d+):\s*$', ln)
        if m: act = cur.get(m.group(1)); continue
        if act is None: continue
        r = res[act]
        m = re.match(r' \*\* (\d+) of (\d+) failed', ln)
        if m: r['checks'] = int(m.group(2)); r['nfailed'] = int(m.group(1)); continue
        m = re.match(r' \*\* (\d+) of (\d+) cover properties satisfied', ln)
        if m: r['covers'] = (int(m.group(1)), int(m.group(2))); continue
        m = re.match(r'Failed Checks: (.*)', ln)
        if m: r['failed'].append([m.group(1), '']); continue
        m = re.match(r'\s*File: (.*)', ln)
        if m and r['failed']: r['failed'][-1][1] = m.group(1); continue
        m = re.match(r'VERIFICATION:- (\w+)', ln)
        if m: r['verdict'] = m.group(1); continue
        if 'CBMC timed out' in ln or 'run out of memory' in ln: r['why'] = ln.strip()
        m = re.match(r'Verification Time: ([\d.]+)s', ln)
        if m: r['seconds'] = float(m.group(1)); continue
    for h, r in res.items():
        v = r.get('verdict')
        if v == 'SUCCESSFUL':
            if r['covers'] and r['covers'][0] < r['covers'][1]:
                r['status'], r['why'] = 'undecided', f"only {r['covers'][0]} of {r['covers'][1]} reachability covers satisfied"
            elif r['checks'] == 0: r['status'], r['why'] = 'undecided', 'no checks generated'
            else: r['status'] = 'discharged'
        elif v == 'FAILED':
            real = [f for f in r['failed'] if not UNDEC.search(f[0])]
            if real: r['status'] = 'failed'; r['real'] = real
            else:
                r['status'] = 'undecided'
                if r['failed']: r['why'] = r['failed'][0][0]
    return res

def kani(cwd, packages, filters, timeout, per=420, jobs=8, target=None):
    cmd = ['cargo', 'kani']
    for p in packages: cmd += ['-p', p]
    cmd += ['-Z', 'stubbing', '-Z', 'unstable-options', '--harness-timeout', f'{int(min(per, timeout))}s', '-j', str(jobs), '--output-format', 'terse']
    for f in filters: cmd += ['--harness', f]
    rc, o, x, s = run(cmd, cwd=cwd, timeout=timeout, extra={'CARGO_TARGET_DIR': target} if target else None)
    comp = bool(re.search(r'^error(\[E\d+\])?:', o + x, re.M)) and 'Checking harness' not in o
    return parse_kani(o), comp, (o[-6000:] + x[-6000:]), s

def scratch(name):
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    return d
