"""Type checking of emitted source: rustc as the decision procedure, nothing is run.

The crates that emitted code names are tokio as it is, and declarations of the others (`/verif/typecheck`).
"""
import glob, os, shutil, subprocess, tempfile, fcntl
from .build import CACHE, VERIF

EXTERN = ('flate2', 'base64', 'async_compression', 'async_recursion', 'anyhow', 'tokio')


def prepare():
    """-> arguments of rustc naming the libraries"""
    src, tgt = os.path.join(CACHE, 'typecheck-src'), os.path.join(CACHE, 'typecheck')
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'typecheck.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        shutil.copytree(os.path.join(VERIF, 'typecheck'), src, dirs_exist_ok=True)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt)
        for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'):
            env.pop(k, None)
        r = subprocess.run(['cargo', 'check', '--offline', '-q'], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise SystemExit('cannot type check the declarations of libraries:\n' + r.stdout[-2000:])
    deps = os.path.join(tgt, 'debug', 'deps')
    args = ['-L', 'dependency=' + deps]
    for n in EXTERN:
        c = sorted(glob.glob(os.path.join(deps, 'lib%s-*.so' % n)) or glob.glob(os.path.join(deps, 'lib%s-*.rmeta' % n)), key=os.path.getmtime)
        args += ['--extern', '%s=%s' % (n, c[-1])]
    return args


def errors(args, text, edition='2018'):
    """error messages of rustc for one source text; [] when it is accepted"""
    d = tempfile.mkdtemp(prefix='psv-tc-')
    try:
        p = os.path.join(d, 'p.rs')
        open(p, 'w').write(text)
        r = subprocess.run(['rustc', '--edition', edition, '--crate-type', 'lib', '--emit', 'metadata', '-Awarnings', '--error-format', 'short',
                            '-o', os.path.join(d, 'p.rmeta'), p] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
        if r.returncode == 0:
            return []
        es = [l.split('error', 1)[1].lstrip() for l in r.stderr.splitlines() if ': error' in l or l.startswith('error')]
        return es or [r.stderr[-300:]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
