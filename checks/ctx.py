"""What every check needs: builds from /repo's working tree, in scratch."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CHE_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')


class CheckError(Exception):
    """the check cannot give an answer (does not build, tool missing)"""


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def run(cmd, **kw):
    kw.setdefault('capture_output', True)
    kw.setdefault('text', True)
    kw.setdefault('errors', 'replace')
    return subprocess.run(cmd, **kw)


class Ob:
    """one proof obligation. status: proved | failed | undecided"""

    def __init__(self, name, status, detail='', fn='', backend='', secs=0.0):
        self.name = name
        self.status = status
        self.detail = detail
        self.fn = fn
        self.backend = backend
        self.secs = secs


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f'chv-{prop}-')
        self._che = None
        self._mir = None
        self.failed = []
        self.log = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    # -- builds
    def srchash(self):
        fs = [p for p in glob.glob(REPO + '/src/**', recursive=True) if os.path.isfile(p)]
        fs += [REPO + '/Cargo.toml', REPO + '/Cargo.lock']
        return tree_hash([p for p in fs if os.path.exists(p)])

    def lock(self, name):
        os.makedirs(WORK, exist_ok=True)
        f = open(os.path.join(WORK, name + '.lock'), 'w')
        fcntl.flock(f, fcntl.LOCK_EX)
        return f

    def prune(self, pat, keep, n=3):
        xs = sorted(glob.glob(os.path.join(WORK, pat)), key=os.path.getmtime)
        for x in xs[:-n] if len(xs) > n else []:
            if x != keep:
                shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.remove(x)

    @property
    def che(self):
        """path of the che binary built from the current tree"""
        if self._che:
            return self._che
        dst = os.path.join(WORK, 'che-' + self.srchash())
        binp = os.path.join(dst, 'che')
        if not os.path.exists(binp):
            with self.lock('che'):
                if not os.path.exists(binp):
                    tgt = os.path.join(self.tmp, 'chetarget')
                    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTFLAGS='')
                    env.setdefault('CARGO_PROFILE_DEV_DEBUG', 'line-tables-only')
                    r = run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=REPO, env=env)
                    if r.returncode != 0:
                        raise CheckError('che does not build:\n' + r.stderr[-3000:])
                    os.makedirs(dst, exist_ok=True)
                    shutil.copy2(os.path.join(tgt, 'debug', 'che'), binp + '.tmp')
                    os.rename(binp + '.tmp', binp)
                    shutil.rmtree(tgt, ignore_errors=True)
                    self.prune('che-*', dst)
        self._che = binp
        return binp

    @property
    def mir(self):
        """path of the MIR dump of the current tree"""
        if self._mir:
            return self._mir
        drv = os.path.join(VERIF, 'mirv', 'driver')
        dst = os.path.join(WORK, 'mir-' + self.srchash() + tree_hash([drv + '/src/main.rs'])[:6] + '.json')
        if not os.path.exists(dst):
            with self.lock('mir'):
                if not os.path.exists(dst):
                    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='', RUSTUP_TOOLCHAIN='nightly')
                    tgt = os.path.join(WORK, 'drv')
                    env['CARGO_TARGET_DIR'] = tgt
                    r = run(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=drv, env=env)
                    if r.returncode != 0:
                        raise CheckError('the MIR driver does not build:\n' + r.stderr[-3000:])
                    sr = run(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
                    t2 = os.path.join(self.tmp, 'mirtarget')
                    env.update(LD_LIBRARY_PATH=sr + '/lib', MIRDUMP_OUT=dst + '.tmp', CARGO_TARGET_DIR=t2,
                               RUSTC_WORKSPACE_WRAPPER=os.path.join(tgt, 'debug', 'mirdump'))
                    r = run(['cargo', '+nightly', 'check', '--offline', '--locked', '-q'], cwd=REPO, env=env)
                    shutil.rmtree(t2, ignore_errors=True)
                    if r.returncode != 0 or not os.path.exists(dst + '.tmp'):
                        raise CheckError('no MIR:\n' + r.stderr[-3000:])
                    os.rename(dst + '.tmp', dst)
                    self.prune('mir-*.json', dst)
        self._mir = dst
        return dst

    # -- replay files
    def replay(self, name, text):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.prop}-{name}.txt')
        with open(p, 'w', encoding='utf-8', errors='replace') as f:
            f.write(text)
        return p
