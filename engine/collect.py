"""Keep the fact files in step with /repo's working tree.

ensure(crates) re-extracts the facts of every requested crate whose content (or whose workspace
dependencies' content) changed since the facts were written; keys are content hashes, cargo's own
mtime freshness is never trusted."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import mkws

VERIF = mkws.VERIF
REPO = mkws.REPO
BUILD = os.environ.get('TN_BUILD', os.path.join(VERIF, 'build'))
WS = os.path.join(BUILD, 'ws')
FACTS = os.path.join(BUILD, 'facts')
TARGET = os.path.join(BUILD, 'target')
DRIVER = os.path.join(BUILD, 'driver', 'debug', 'factsdrv')

# package -> (rust crate name, source dir, workspace dependencies)
PKG = {
    'tn-utils': ('tn_utils', 'crates/tn-utils', []),
    'tn-types': ('tn_types', 'crates/types', ['tn-utils']),
    'tn-network-types': ('tn_network_types', 'crates/network-types', ['tn-types']),
    'tn-config': ('tn_config', 'crates/config', ['tn-types', 'tn-network-types', 'tn-utils']),
    'tn-metrics': ('tn_metrics', 'crates/tn-metrics', []),
    'tn-storage': ('tn_storage', 'crates/storage', ['tn-types', 'tn-utils', 'tn-config', 'tn-network-types', 'tn-metrics']),
    'tn-network-libp2p': ('tn_network_libp2p', 'crates/network-libp2p',
                          ['tn-types', 'tn-config', 'tn-storage', 'tn-utils', 'tn-network-types', 'tn-metrics']),
    'tn-primary': ('tn_primary', 'crates/consensus/primary',
                   ['tn-types', 'tn-config', 'tn-storage', 'tn-utils', 'tn-network-types', 'tn-network-libp2p', 'tn-metrics']),
    'tn-worker': ('tn_worker', 'crates/consensus/worker',
                  ['tn-types', 'tn-config', 'tn-storage', 'tn-utils', 'tn-network-types', 'tn-network-libp2p', 'tn-metrics']),
    'state-sync': ('state_sync', 'crates/state-sync',
                   ['tn-types', 'tn-config', 'tn-storage', 'tn-primary', 'tn-network-types', 'tn-network-libp2p', 'tn-utils', 'tn-metrics']),
    'tn-executor': ('tn_executor', 'crates/consensus/executor',
                    ['tn-types', 'tn-config', 'tn-storage', 'tn-primary', 'tn-network-types', 'tn-network-libp2p', 'state-sync', 'tn-utils', 'tn-metrics']),
    'tn-worker-gateway': ('worker_gateway', 'bin/worker-gateway', ['tn-types', 'tn-config', 'tn-utils']),
    'tn-reth-part': ('tn_reth_part', 'crates/tn-reth/src/evm/utils.rs', []),
}
BY_CRATE = {v[0]: k for k, v in PKG.items()}


def _h():
    return hashlib.sha256()


def tree_hash(path, skip=('tests', 'benches', 'target')):
    h = _h()
    if os.path.isfile(path):
        h.update(open(path, 'rb').read())
        return h.hexdigest()
    for d, subs, files in os.walk(path):
        subs[:] = sorted(s for s in subs if s not in skip)
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, path).encode() + b'\0')
            try:
                h.update(open(p, 'rb').read())
            except OSError:
                pass
            h.update(b'\1')
    return h.hexdigest()


def keys():
    base = _h()
    for p in ('engine/driver/src/main.rs', 'engine/mkws.py', 'stubs'):
        base.update(tree_hash(os.path.join(VERIF, p)).encode())
    for p in ('Cargo.toml', 'Cargo.lock', 'chain-configs'):
        base.update(tree_hash(os.path.join(REPO, p)).encode())
    own = {k: tree_hash(os.path.join(REPO, v[1])) for k, v in PKG.items()}
    out = {}

    def closure(k, acc):
        for d in PKG[k][2]:
            if d not in acc:
                acc.add(d)
                closure(d, acc)
        return acc

    for k in PKG:
        h = base.copy()
        h.update(own[k].encode())
        for d in sorted(closure(k, set())):
            h.update(d.encode() + own[d].encode())
        out[k] = h.hexdigest()
    return out


def read(p):
    try:
        return open(p).read()
    except OSError:
        return ''


def build_driver():
    d = os.path.join(VERIF, 'engine', 'driver')
    k = tree_hash(d)
    stamp = os.path.join(BUILD, 'driver.key')
    if read(stamp) == k and os.path.exists(DRIVER):
        return
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'), RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true')
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError('fact extractor does not build:\n' + r.stdout[-3000:])
    open(stamp, 'w').write(k)


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


class Info:
    rebuilt = []
    broken = []
    secs = 0.0


def ensure(crates, verbose=False, force=False):
    t0 = time.time()
    info = Info()
    info.rebuilt, info.broken = [], []
    os.makedirs(FACTS, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ks = keys()
        want = [BY_CRATE[c] for c in crates]
        stale = [p for p in want if force or read(os.path.join(FACTS, PKG[p][0] + '.key')) != ks[p]
                 or not os.path.exists(os.path.join(FACTS, PKG[p][0] + '.jsonl'))]
        if stale:
            build_driver()
            mkws.main(WS)
            # drop every build product that does not match its key, whether or not it was asked for
            for p in PKG:
                c = PKG[p][0]
                if read(os.path.join(TARGET, c + '.key')) != ks[p] or p in stale:
                    shutil.rmtree(os.path.join(TARGET, 'debug', 'build', p), ignore_errors=True)
            for p in stale:
                kf = os.path.join(FACTS, PKG[p][0] + '.key')
                if os.path.exists(kf):
                    os.remove(kf)
            env = dict(os.environ, LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=DRIVER, FACTS_OUT=FACTS,
                       RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR='never', CARGO_RESOLVER_FEATURE_UNIFICATION='workspace')
            env.pop('RUSTFLAGS', None)
            start = time.time()
            cmd = ['cargo', 'check', '--offline', '--keep-going', '-q', '-Zfeature-unification']
            for p in stale:
                cmd += ['-p', p]
            r = subprocess.run(cmd, cwd=WS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            open(os.path.join(BUILD, 'check.log'), 'w').write(r.stdout)
            allp = set(stale)
            for p in list(stale):
                st = [p]
                while st:
                    for d in PKG[st.pop()][2]:
                        if d not in allp:
                            allp.add(d)
                            st.append(d)
            for p in allp:
                c = PKG[p][0]
                f = os.path.join(FACTS, c + '.jsonl')
                fresh = os.path.exists(f) and os.path.getmtime(f) >= start - 1
                if fresh:
                    info.rebuilt.append(c)
                    open(os.path.join(FACTS, c + '.key'), 'w').write(ks[p])
                    if r.returncode == 0:
                        open(os.path.join(TARGET, c + '.key'), 'w').write(ks[p])
                errf = os.path.join(FACTS, c + '.err')
                failed = r.returncode != 0 and ('could not compile `%s`' % p in r.stdout or (p in stale and not fresh))
                if failed:
                    open(errf, 'w').write(ks[p] + '\n' + r.stdout[-4000:])
                elif fresh and os.path.exists(errf):
                    os.remove(errf)
            if r.returncode != 0 and verbose:
                print(r.stdout[-3000:])
            info.rc = r.returncode
            info.log = r.stdout
        need = set(want)
        st = list(want)
        while st:
            for d in PKG[st.pop()][2]:
                if d not in need:
                    need.add(d)
                    st.append(d)
        for p in need:
            c = PKG[p][0]
            if read(os.path.join(FACTS, c + '.err')):
                info.broken.append(c)
    info.secs = time.time() - t0
    return info


if __name__ == '__main__':
    i = ensure(sys.argv[1:] or [v[0] for v in PKG.values()], True)
    print('rebuilt', i.rebuilt, 'broken', i.broken, '%.1fs' % i.secs)
    sys.exit(1 if i.broken else 0)
