"""Produce the MIR of the workspace crates from /repo's current working tree.

The result is cached under /verif/.cache keyed by a hash of every source file, so a changed tree is
always re-extracted.  Third-party crates already built in /repo/target are copied (not rebuilt); the
workspace crates themselves are always compiled from the current sources."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')
CRATES = ['banyan', 'banyan_utils', 'banyan_cli', 'filter_tiny']
SRCDIRS = ['banyan/src', 'banyan-utils/src', 'banyan-utils/examples']


class BuildError(Exception):
    pass


def source_files(repo):
    out = []
    for d in ('banyan', 'banyan-utils'):
        for base, dirs, files in os.walk(os.path.join(repo, d)):
            dirs[:] = sorted(x for x in dirs if x not in ('target', 'tests', '.git'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml')):
                    out.append(os.path.join(base, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        out.append(os.path.join(repo, f))
    return out


def key(repo):
    h = hashlib.sha256()
    for f in source_files(repo):
        h.update(os.path.relpath(f, repo).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(HERE, 'mirwrap.sh'), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN='1.70.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
             CARGO_PROFILE_DEV_DEBUG='1', RUST_BACKTRACE='0')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUST_LOG', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['RUSTC_WRAPPER'] = ''
    return e


def seed_target(repo, tgt):
    """copy the prebuilt third-party artefacts"""
    src = os.path.join(repo, 'target', 'debug')
    if not os.path.isdir(os.path.join(src, 'deps')) or not os.path.isdir(os.path.join(src, '.fingerprint')):
        return False
    dst = os.path.join(tgt, 'debug')
    os.makedirs(os.path.join(dst, 'deps'), exist_ok=True)
    own = ('banyan', 'banyan_utils', 'libbanyan', 'banyan_cli', 'filter_tiny', 'build_check', 'link_scraping', 'mini_store', 'ops_counting')
    shutil.copytree(os.path.join(src, '.fingerprint'), os.path.join(dst, '.fingerprint'), dirs_exist_ok=True,
                    ignore=lambda d, ns: [n for n in ns if d.endswith('.fingerprint') and n.startswith(own)])
    shutil.copytree(os.path.join(src, 'build'), os.path.join(dst, 'build'), dirs_exist_ok=True, symlinks=True)
    for f in os.listdir(os.path.join(src, 'deps')):
        if f.endswith(('.rlib', '.rmeta', '.so', '.a', '.d')) and not f.startswith(own):
            shutil.copy2(os.path.join(src, 'deps', f), os.path.join(dst, 'deps', f))
    return True


def run_cargo(repo, tgt, out, sub):
    e = env()
    e['CARGO_TARGET_DIR'] = tgt
    e['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(HERE, 'mirwrap.sh')
    e['VP_MIR_OUT'] = out
    p = subprocess.run(['cargo', sub, '--workspace', '--all-features', '--locked', '--offline', '--lib', '--bins', '--examples',
                        '--manifest-path', os.path.join(repo, 'Cargo.toml')],
                       cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    return p.returncode, p.stdout.decode(errors='replace')


def complete(out):
    return all(os.path.exists(os.path.join(out, c + '.mir')) and os.path.getsize(os.path.join(out, c + '.mir')) > 0 for c in CRATES)


def extract(repo=REPO, verbose=False):
    k = key(repo)
    out = os.path.join(CACHE, 'mir', k)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if complete(out):
            return out
        # keep only a handful of cached trees
        md = os.path.join(CACHE, 'mir')
        if os.path.isdir(md):
            olds = sorted((os.path.join(md, d) for d in os.listdir(md)), key=os.path.getmtime)
            for d in olds[:-12]:
                shutil.rmtree(d, ignore_errors=True)
        log = ''
        for attempt in (0, 1):
            tgt = os.path.join(CACHE, 'target' if attempt == 0 else 'target-cold')
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            if attempt == 0:
                shutil.rmtree(tgt, ignore_errors=True)
                if not seed_target(repo, tgt):
                    continue
                rc, log = run_cargo(repo, tgt, out, 'build')
                shutil.rmtree(tgt, ignore_errors=True)
            else:
                rc, log = run_cargo(repo, tgt, out, 'check')
                shutil.rmtree(tgt, ignore_errors=True)
            if rc == 0 and complete(out):
                return out
            if rc == 0:
                log += '\nMIR missing: ' + ' '.join(os.listdir(out))
                for c in CRATES:
                    f = os.path.join(out, c + '.err')
                    if os.path.exists(f):
                        log += open(f).read()[:2000]
        shutil.rmtree(out, ignore_errors=True)
        raise BuildError(log[-6000:])


if __name__ == '__main__':
    print(extract(sys.argv[1] if len(sys.argv) > 1 else REPO))
