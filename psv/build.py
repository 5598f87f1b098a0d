"""Build the MIR exporter and export the MIR of the crate under analysis.

Everything is derived from the current working tree on each run; a cache keyed by the hash of
every source file of the workspace avoids repeating an identical export.
"""
import hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSV_REPO', '/repo')
CACHE = os.environ.get('PSV_CACHE', os.path.join(VERIF, '.cache'))


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return _sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'psv-driver-' + h)
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        r = _sh(['rustc', '+nightly', '--edition', '2021', '-O', '-o', tmp, src])
        if r.returncode:
            raise SystemExit('cannot build the MIR exporter:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for n in sorted(names):
            if n.endswith(('.rs', '.toml', '.lock', '.pspec')):
                files.append(os.path.join(base, n))
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(open(os.path.join(VERIF, 'driver', 'main.rs'), 'rb').read())
    return h.hexdigest()[:24]


def export():
    """-> path of mir.json for protospec-build of the current tree"""
    drv = driver()
    key = tree_hash()
    out = os.path.join(CACHE, 'mir-%s.json' % key)
    if os.path.exists(out):
        return out
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    env['RUSTFLAGS'] = '-Zallow-features= -Zmir-opt-level=0 -Awarnings'
    env['PSV_CRATE'] = 'protospec_build'
    tmp = '%s.%d.tmp' % (out, os.getpid())
    env['PSV_OUT'] = tmp
    env['RUSTC_WORKSPACE_WRAPPER'] = drv
    tgt = os.path.join(CACHE, 'target')
    env['CARGO_TARGET_DIR'] = tgt
    # force the crate itself (never its dependencies) to be analysed again
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('protospec'):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = _sh(['cargo', '+nightly', 'check', '--offline', '--locked', '-p', 'protospec-build'], cwd=REPO, env=env)
    if not os.path.exists(tmp):
        raise SystemExit('cannot export MIR of the current tree:\n' + r.stdout[-3000:])
    os.rename(tmp, out)
    for f in os.listdir(CACHE):  # keep the cache small
        p = os.path.join(CACHE, f)
        if f.startswith('mir-') and p != out and time.time() - os.path.getmtime(p) > 3600:
            os.unlink(p)
    return out


if __name__ == '__main__':
    print(export())
