"""Runs the real translator on che programs and compares with the reference."""
import os
import shutil
import subprocess

from . import expect
from .cfront import ParseError


def genc(che, main, out, home, timeout=20):
    shutil.rmtree(out, ignore_errors=True)
    env = dict(os.environ, CHELANG_HOME=home)
    try:
        r = subprocess.run([che, 'genc', main, out], capture_output=True, text=True, env=env, timeout=timeout,
                           errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return r.returncode, r.stderr


def compare(che, main, out, home, only=None):
    """[] if the C of the program is what it has to be, else [(category, text)]"""
    try:
        proj = expect.Project(main, home)
    except (expect.Reject, ParseError) as e:
        return [('oracle', f'reference front end: {e}')]
    rc, err = genc(che, main, out, home)
    if rc is None:
        return [('hang', 'the translator did not finish')]
    if rc != 0:
        return [('crash' if 'panicked' in err else 'reject', f'exit {rc}: {err[-500:]}')]
    return expect.check(proj, out, only) + fileset(proj, out)


def fileset(proj, out):
    """one C file per module of the program and nothing else"""
    want = {os.path.basename(expect.outfile(out, p)) for p in proj.order}
    got = set(os.listdir(out)) if os.path.isdir(out) else set()
    return [('module', f'unexpected file {x}') for x in sorted(got - want)] + \
        [('module', f'no file for a module: {x}') for x in sorted(want - got)]


def write(files, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), 'w', encoding='utf-8', newline='') as f:
            f.write(t)
