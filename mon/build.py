"""Builds the extension module from /repo's current working tree.

Two variants:
  dev   the same dev-profile build the repository's own tests use
        (overflow checks, debug assertions, std's UB precondition checks)
  asan  nightly build with AddressSanitizer, own target directory

Every call decides from the *contents* of /repo's sources, never from
modification times, whether the rumpy crate has to be compiled again.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
ASAN_RT = '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so'


def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for n in sorted(names):
            files.append(os.path.join(root, n))
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            files.append(p)
    for p in files:
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


class BuildError(Exception):
    pass


def _env(variant):
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'],
                         stdout=subprocess.PIPE, check=True).stdout
    env = dict(kv.split('=', 1) for kv in out.decode().split('\0') if '=' in kv)
    if variant == 'asan':
        env['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
        env['RUSTFLAGS'] = '-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer'
        env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'asan-target')
        env['CARGO_INCREMENTAL'] = '1'
    else:
        env['CARGO_TARGET_DIR'] = os.path.join(REPO, 'target')
    return env


def build(variant='dev', log=sys.stderr):
    """Returns (directory holding rumpy.so, seconds spent, source hash)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock-' + variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        want = source_hash()
        moddir = os.path.join(BUILD, 'mod-' + variant)
        stamp = os.path.join(moddir, 'stamp')
        so = os.path.join(moddir, 'rumpy.so')
        if os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == want:
            return moddir, time.time() - t0, want
        env = _env(variant)
        tgt = env['CARGO_TARGET_DIR']
        triple = 'x86_64-unknown-linux-gnu' if variant == 'asan' else ''
        prof = os.path.join(tgt, triple, 'debug')
        # Force cargo to look at the crate again: same-second edits or restored
        # timestamps must not leave a stale library behind.
        for fp in glob.glob(os.path.join(prof, '.fingerprint', 'rumpy-*')):
            shutil.rmtree(fp, ignore_errors=True)
        cmd = ['cargo', 'build', '--lib', '--no-default-features', '--offline']
        if triple:
            cmd += ['--target', triple]
        for attempt in (1, 2):
            p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            log.write(p.stdout.decode(errors='replace')[-4000:])
            raise BuildError('cargo build (%s) failed with %d' % (variant, p.returncode))
        os.makedirs(moddir, exist_ok=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        tmp = so + '.new'
        shutil.copyfile(os.path.join(prof, 'librumpy.so'), tmp)
        os.replace(tmp, so)
        if source_hash() != want:
            raise BuildError('sources changed during the build')
        with open(stamp, 'w') as f:
            f.write(want)
        return moddir, time.time() - t0, want
    finally:
        lock.close()


if __name__ == '__main__':
    for v in sys.argv[1:] or ['dev']:
        d, s, h = build(v)
        print('%s: %s (%.1fs, sources %s)' % (v, d, s, h[:12]))
