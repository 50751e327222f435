"""Builds the MIR dumper and obtains MIR dumps of the crates under analysis.

Everything produced lives in /verif/.cache (git-ignored).  A dump is keyed by a hash of the sources it was made from, so
a check never sees a stale one; nothing in /repo is written.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
REPO = os.environ.get('VERIF_REPO', '/repo')  # the override is for trying planted bugs in a scratch copy
DESCEND = ('cw_ica_controller,cw_ownable,cw2,cw_utils,cw_address_like,cosmwasm_std,core::option,core::result,core::ops,'
           'core::convert,core::cmp,core::bool,core::mem,core::default,core::clone,cosmos_sdk_proto,ibc_proto')


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True,
                          check=True).stdout.strip()


def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(HERE, 'driver', 'main.rs')
    out = os.path.join(CACHE, 'driver-' + sha([src]))
    if not os.path.exists(out):
        r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', out + '.tmp'],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('the MIR dumper does not build:\n' + r.stderr[-4000:])
        os.rename(out + '.tmp', out)
    return out


def sources(root):
    fs = []
    for d, ds, ns in os.walk(root):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'node_modules', 'e2e', '.cache')]
        for n in ns:
            if n.endswith('.rs') or n in ('Cargo.toml', 'Cargo.lock', 'rust-toolchain.toml', 'rust-toolchain'):
                fs.append(os.path.join(d, n))
    return fs


def dump(name='main', crate='cw_ica_controller', manifest=None, features=None, pkgdir=None, descend=DESCEND, log=None,
         extra_src=()):
    """path of the JSON dump of `crate`"""
    lk = lock()
    try:
        drv = driver()
        manifest = manifest or REPO + '/Cargo.toml'
        key = sha(sources(REPO) + list(extra_src) + [os.path.join(HERE, 'driver', 'main.rs')])
        key = hashlib.sha256((key + name + crate + manifest + str(features) + descend).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, 'dump-%s-%s.json' % (name, key))
        if os.path.exists(out):
            return out
        tdir = os.path.join(CACHE, 'target')
        env = dict(os.environ)
        env.update({
            'LD_LIBRARY_PATH': sysroot() + '/lib', 'VDRIVER_OUT': out + '.tmp', 'VDRIVER_CRATE': crate,
            'VDRIVER_DESCEND': descend, 'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false',
            'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'true', 'RUSTC_WORKSPACE_WRAPPER': drv,
            'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow', 'CARGO_TARGET_DIR': tdir,
            'CARGO_INCREMENTAL': '0',
        })
        for k in ('RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
            env.pop(k, None)
        # never trust cargo's idea of freshness for the repository's own crates (both cargo layouts)
        for pkg in {crate.replace('_', '-'), 'cw-ica-controller'} | ({'cw-ica-controller-derive'} if name == 'macro' else set()):
            for d in glob.glob(os.path.join(tdir, 'debug', '.fingerprint', pkg + '-*')) + [os.path.join(tdir, 'debug', 'build', pkg)]:
                shutil.rmtree(d, ignore_errors=True)
        cmd = ['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', manifest]
        if features is not None:
            cmd += ['--no-default-features']
            if features:
                cmd += ['--features', features]
        if os.path.exists(out + '.tmp'):
            os.remove(out + '.tmp')
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=CACHE)
        if r.returncode or not os.path.exists(out + '.tmp'):
            raise BuildError('cargo check of %s failed:\n%s' % (manifest, r.stderr[-4000:]))
        for old in glob.glob(os.path.join(CACHE, 'dump-%s-*.json' % name)):
            os.remove(old)
        os.rename(out + '.tmp', out)
        return out
    finally:
        lk.close()


def staged(name, crate, srcdir, subst=()):
    """dump of a crate whose manifest and sources are copied to the cache first, so that cargo writes nothing in /repo"""
    lk = lock()
    try:
        d = os.path.join(CACHE, 'stage', name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(srcdir, d, ignore=shutil.ignore_patterns('target', '.git'))
        m = os.path.join(d, 'Cargo.toml')
        s = open(m).read()
        for a, b in subst:
            s = s.replace(a, b)
        if '[workspace]' not in s:
            s += '\n[workspace]\n'
        open(m, 'w').write(s)
        if not os.path.exists(os.path.join(d, 'Cargo.lock')):
            shutil.copy(REPO + '/Cargo.lock', d)
    finally:
        lk.close()
    return dump(name, crate, manifest=m, descend=DESCEND + ',' + crate, extra_src=sources(srcdir))


def macro():
    return staged('macro', 'macro_harness', os.path.join(HERE, 'harness', 'macro'), [('@REPO@', REPO)])


def contract(name):
    return staged(name, name.replace('-', '_'), os.path.join(REPO, 'testing', 'contracts', name), [('"../../.."', '"%s"' % REPO)])


def get(name):
    """(dump, crate) of a configuration: '' and feature lists are builds of the library, others crates around it"""
    if name == 'main':
        return dump('main'), 'cw_ica_controller'
    if name == 'macro':
        return macro(), 'macro_harness'
    if name in ('callback-counter', 'cw-ica-owner'):
        return contract(name), name.replace('-', '_')
    return dump('feat-' + (name or 'none').replace(',', '-'), features=name), 'cw_ica_controller'
