"""Build the harness against /repo's current working tree.

Two artefacts per configuration (generic / asm):
  ir      LLVM IR of halo2curves, its dependencies and the harness, before any
          LLVM optimisation pass (what the symbolic executor runs)
  native  optimised shared library (what counterexamples are replayed on)
Results are cached under /verif/.cache, keyed by the contents of /repo and of
the harness, so that nothing stale can be used.
"""
import glob, hashlib, os, subprocess, sys, fcntl, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HALO_REPO', '/repo')
CACHE = os.environ.get('HALO_CACHE', os.path.join(VERIF, '.cache'))
HARNESS = os.path.join(VERIF, 'harness')
TRIPLE = 'x86_64-unknown-linux-gnu'


def source_hash():
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('target', '.git', '.cache', 'benches', '.github'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _cargo(kind, cfg, tdir):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='1.74.0', CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env.pop('RUSTC_WRAPPER', None)
    if kind == 'ir':
        env['RUSTC_BOOTSTRAP'] = '1'
        env['RUSTFLAGS'] = ('-C codegen-units=1 -C no-prepopulate-passes -C symbol-mangling-version=v0 '
                            '--cfg halo2curves_verif -Z inline-mir=no --emit=llvm-ir,link -C debuginfo=0 -C target-cpu=x86-64 -A warnings')
    else:
        env['RUSTFLAGS'] = '--cfg halo2curves_verif -A warnings'
    cmd = ['cargo', 'build', '--release', '--offline', '--target', TRIPLE]
    if cfg == 'asm':
        cmd += ['--features', 'asm']
    subprocess.run(['cargo', 'clean', '--release', '--target', TRIPLE, '-p', 'halo2curves', '-p', 'halo2derive', '-p', 'vharness'],
                   cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit('BUILD-FAILED %s %s' % (kind, cfg))


def build(kind, cfg='generic'):
    """returns list of .ll files (kind ir) or the path of the .so (kind native)"""
    tdir = os.path.join(CACHE, '%s-%s' % (kind, cfg))
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        stamp = os.path.join(tdir, 'stamp')
        if not (os.path.exists(stamp) and open(stamp).read() == h):
            if os.path.exists(stamp):
                os.unlink(stamp)
            for f in glob.glob(os.path.join(tdir, TRIPLE, 'release/deps/*halo2curves*.ll')) + \
                    glob.glob(os.path.join(tdir, TRIPLE, 'release/deps/*vharness*.ll')):
                os.unlink(f)
            _cargo(kind, cfg, tdir)
            with open(stamp, 'w') as fh:
                fh.write(h)
    rel = os.path.join(tdir, TRIPLE, 'release')
    if kind == 'ir':
        return sorted(glob.glob(os.path.join(rel, 'deps/*.ll')))
    return os.path.join(rel, 'libvharness.so')


def build_all(wants):
    """wants: list of (kind,cfg); built concurrently"""
    res = {}
    errs = []

    def go(w):
        try:
            res[w] = build(*w)
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(w,)) for w in wants]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


if __name__ == '__main__':
    import time
    t = time.time()
    r = build_all([('ir', 'generic'), ('native', 'generic')] + ([('ir', 'asm'), ('native', 'asm')] if 'asm' in sys.argv else []))
    print(time.time() - t, {k: (len(v) if isinstance(v, list) else v) for k, v in r.items()})
