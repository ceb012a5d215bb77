"""Build the driver crate against /repo's current tree and talk to it."""
import json, os, shutil, subprocess, threading
import vlib

class BuildFailed(Exception): pass

def build(c=None, timeout=600):
    d = os.path.join(vlib.BUILD, 'irdrv' if vlib.REPO == '/repo' else 'irdrv-' + vlib.REPO.strip('/').replace('/', '_'))
    os.makedirs(d, exist_ok=True)
    src = f'{vlib.VERIF}/native/ir'
    if os.path.exists(f'{d}/src'): shutil.rmtree(f'{d}/src')
    shutil.copytree(f'{src}/src', f'{d}/src')
    open(f'{d}/Cargo.toml', 'w').write(open(f'{src}/Cargo.toml.in').read().replace('@REPO@', vlib.REPO))
    if not os.path.exists(f'{d}/Cargo.lock'): vlib.lockfile(f'{d}/Cargo.lock')
    rc, o, x, s = vlib.run(['cargo', 'build', '--offline', '-j', '8'], cwd=d, timeout=timeout, extra={'CARGO_TARGET_DIR': f'{d}/target', 'RUSTFLAGS': '--cfg verif_hooks'})
    if rc != 0: raise BuildFailed(x[-4000:])
    return f'{d}/target/debug/irdrv'

class Driver:
    def __init__(self, exe):
        self.exe = exe; self.p = None; self.n = 0
    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=vlib.env())
    def req(self, ir, passes, timeout=60):
        if self.p is None: self.start()
        self.n += 1
        b = ir.encode()
        t = threading.Timer(timeout, self.p.kill); t.start()
        try:
            self.p.stdin.write(f"REQ\t{self.n}\t{','.join(passes)}\t{len(b)}\n".encode() + b); self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b''
        finally: t.cancel()
        if not line:
            rc = self.p.wait(); self.p = None
            return dict(err=f'driver ended (status {rc}): stack overflow, abort or time-out', at='?', died=rc)
        return json.loads(line)
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait(); self.p = None
