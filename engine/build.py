"""Build the harness from /repo's current sources: natively, and with every encoded crate's
LLVM IR rewritten (instrument.py).  Returns the two binaries and the rewriting report."""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import instrument

TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(ROOT, '.build')


def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    e['CARGO_INCREMENTAL'] = '0'
    e['RUSTC_WRAPPER'] = os.path.join(HERE, 'rustc_wrapper.py')
    e['VSYM_LINK'] = os.path.join(BUILD, 'link.json')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def _one(job):
    ll, rlib, dst, work, llc, ar = job
    name = os.path.basename(ll)[:-3]
    text, rep = instrument.rewrite(open(ll).read())
    out = os.path.join(work, name + '.sym.ll')
    open(out, 'w').write(text)
    obj = os.path.join(work, name + '.sym.o')
    subprocess.run([llc, '-O1', '-filetype=obj', '-relocation-model=pic', out, '-o', obj], check=True)
    shutil.copy(rlib, dst)
    members = subprocess.run([ar, 't', dst], check=True, capture_output=True, text=True).stdout.split()
    objs = [m for m in members if m.endswith('.o')]
    if len(objs) != 1:
        raise RuntimeError(f'{rlib}: expected one object, found {objs}')
    m = os.path.join(work, name + '.d', objs[0])
    os.makedirs(os.path.dirname(m), exist_ok=True)
    shutil.copy(obj, m)
    subprocess.run([ar, 'r', dst, m], check=True, capture_output=True)
    return name, rep


class BuildFailed(Exception):
    pass


def build(features=(), quiet=True):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    e = env()
    feats = ','.join(features)
    tag = '-'.join(features) or 'base'
    man = os.path.join(ROOT, 'harness', 'Cargo.toml')
    # the wrapper must see the final link; force it
    os.utime(os.path.join(ROOT, 'harness', 'src', 'main.rs'))
    cmd = ['cargo', 'build', '--offline', '--manifest-path', man, '--bin', 'vmain', '--features', feats]
    r = subprocess.run(cmd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildFailed(r.stderr[-6000:])
    link = json.load(open(e['VSYM_LINK']))
    tgt = e['CARGO_TARGET_DIR']
    deps = os.path.join(tgt, 'debug', 'deps')
    native = os.path.join(BUILD, 'native-' + tag)
    shutil.copy(os.path.join(tgt, 'debug', 'vmain'), native)
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, check=True, capture_output=True, text=True).stdout.strip()
    bins = os.path.join(sysroot, 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
    llc, ar = os.path.join(bins, 'llc'), os.path.join(bins, 'llvm-ar')
    # the rlibs this binary links
    sym = os.path.join(BUILD, 'sym-' + tag)
    shutil.rmtree(sym, ignore_errors=True)
    os.makedirs(sym)
    work = os.path.join(BUILD, 'work-' + tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    wanted = used_rlibs(deps, link)
    for f in os.listdir(deps):
        p = os.path.join(deps, f)
        m = re.match(r'lib(\w+)-([0-9a-f]+)\.rlib$', f)
        if m:
            ll = os.path.join(deps, f'{m.group(1)}-{m.group(2)}.ll')
            if os.path.exists(ll) and f in wanted:
                jobs.append((ll, p, os.path.join(sym, f), work, llc, ar))
                continue
        if f.endswith(('.rlib', '.rmeta', '.so')):
            os.link(p, os.path.join(sym, f))
    report = {}
    with cf.ProcessPoolExecutor(8) as ex:
        for name, rep in ex.map(_one, jobs):
            report[name] = rep
    out = os.path.join(BUILD, 'symbolic-' + tag)
    c = []
    skip = False
    for a in link['cmd']:
        c.append(a.replace(deps, sym))
    i = c.index('--out-dir')
    del c[i:i + 2]
    c = [a for a in c if not a.startswith('--emit')]
    c += ['--emit=link', '-o', out]
    e2 = dict(e)
    r = subprocess.run(c, env=e2, cwd=link['cwd'], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildFailed('link: ' + r.stderr[-6000:])
    lock.close()
    return {'native': native, 'symbolic': out, 'report': report, 'seconds': time.time() - t0}


def used_rlibs(deps, link):
    """rlibs of the encoded crates that belong to the current link: named by --extern, or (for transitive ones)
    the newest of their crate"""
    best = {}
    for f in os.listdir(deps):
        m = re.match(r'lib(\w+)-([0-9a-f]+)\.rlib$', f)
        if m:
            best.setdefault(m.group(1), []).append(f)
    ext = set(os.path.basename(a.split('=', 1)[1]).replace('.rmeta', '.rlib') for i, a in enumerate(link['cmd'])
              if i and link['cmd'][i - 1] == '--extern' and '=' in a)
    used = set()
    for n, fs in best.items():
        used |= set(fs)   # rewriting a stale one is harmless
    return used | ext


if __name__ == '__main__':
    r = build(tuple(sys.argv[1:]))
    for k, v in r['report'].items():
        print(k, {a: b for a, b in v.items()})
    print(r['native'], r['symbolic'], round(r['seconds'], 1))
