"""Builds the engine, the analysed crates (from /repo's working tree) and runs
the engine over generated corpora."""
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')
CONFIGS = {
    'std': ['--features', 'std'],
    'nostd': [],
    'dbg': ['--features', 'std,debug_template'],
    'cg': ['--features', 'std,const_generics'],
}
ENGINE_T = os.path.join(WORK, 't-engine')
ENGINE = os.path.join(ENGINE_T, 'release', 'bra')


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=880):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(dirs, exts=('.rs', '.toml', '.lock')):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                    h.update(b'\0')
    return h.hexdigest()


def build_engine():
    with Lock('engine'):
        stamp = os.path.join(ENGINE_T, 'stamp')
        h = tree_hash([os.path.join(VERIF, 'engine')])
        if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'engine'), env={'CARGO_TARGET_DIR': ENGINE_T})
        if r.returncode != 0:
            raise BuildError('engine does not build:\n' + r.stderr[-4000:])
        with open(stamp, 'w') as f:
            f.write(h)


def build_deps(cfg):
    """cargo check of vrt and binread (from /repo) with MIR for everything"""
    cfg = cfg.split('+')[0]
    t = os.path.join(WORK, 't-' + cfg)
    with Lock('deps-' + cfg):
        stamp = os.path.join(t, 'stamp')
        h = tree_hash([os.path.join(REPO, 'binread'), os.path.join(REPO, 'binread_derive'), os.path.join(VERIF, 'rt')])
        if os.path.exists(stamp) and open(stamp).read() == h:
            return t
        if os.path.exists(stamp):
            os.remove(stamp)
        env = {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'}
        # the generated corpora live in scratch space of /verif, never in /repo
        lock = os.path.join(VERIF, 'rt', 'Cargo.lock')
        for p in ('binread', 'binread_derive', 'vrt'):
            sh(['cargo', '+nightly', 'clean', '--offline', '-p', p], cwd=os.path.join(VERIF, 'rt'), env=env)
            for d in glob.glob(os.path.join(t, 'debug', 'build', p, '*')):
                sh(['rm', '-rf', d])
        r = sh(['cargo', '+nightly', 'check', '--offline', '--no-default-features'] + CONFIGS[cfg], cwd=os.path.join(VERIF, 'rt'), env=env)
        if r.returncode != 0:
            raise BuildError('the repository does not build in configuration %s:\n%s' % (cfg, r.stderr[-4000:]))
        with open(stamp, 'w') as f:
            f.write(h)
    return t


def scan(cfg):
    """unsafe operations written in the two crates: [(crate, kind, what, place)]"""
    build_engine()
    t = os.path.join(WORK, 't-scan-' + cfg)
    out = os.path.join(t, 'scan')
    with Lock('scan-' + cfg):
        stamp = os.path.join(t, 'stamp')
        h = tree_hash([os.path.join(REPO, 'binread'), os.path.join(REPO, 'binread_derive'), os.path.join(VERIF, 'rt'), os.path.join(VERIF, 'engine')])
        if not os.path.exists(stamp) or open(stamp).read() != h:
            os.makedirs(out, exist_ok=True)
            for f in glob.glob(os.path.join(out, '*.json')):
                os.remove(f)
            env = {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '-Awarnings'}
            for p in ('binread', 'binread_derive', 'vrt'):
                sh(['cargo', '+nightly', 'clean', '--offline', '-p', p], cwd=os.path.join(VERIF, 'rt'), env=env)
            env.update({'RUSTC_WRAPPER': ENGINE, 'BRA_SCAN': out, 'BRA_SYSROOT': sysroot(), 'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib')})
            r = sh(['cargo', '+nightly', 'check', '--offline', '--no-default-features'] + CONFIGS[cfg], cwd=os.path.join(VERIF, 'rt'), env=env)
            if r.returncode != 0:
                raise BuildError('the repository does not build in configuration %s:\n%s' % (cfg, r.stderr[-4000:]))
            with open(stamp, 'w') as f:
                f.write(h)
        res = []
        for c in ('binread', 'binread_derive'):
            p = os.path.join(out, c + '.json')
            if not os.path.exists(p):
                raise BuildError(f"no inventory of unsafe operations for {c} in configuration {cfg}")
            res += [(c,) + tuple(x.split('|', 2)) for x in json.load(open(p))]
        return res


def rlib(t, name):
    c = glob.glob(os.path.join(t, 'debug', 'build', name, '*', 'out', f'lib{name}-*.rmeta')) + glob.glob(os.path.join(t, 'debug', 'deps', f'lib{name}-*.rmeta'))
    if not c:
        raise BuildError('no metadata for ' + name)
    return max(c, key=os.path.getmtime)


def driver_args(cfg, src, edition='2018'):
    """cfg may name the edition of the analysed crate: std+2021"""
    t = build_deps(cfg)
    if '+' in cfg:
        edition = cfg.split('+')[1]
    a = ['--edition', edition, '--crate-type', 'lib', '--crate-name', 'corpus', '--sysroot', sysroot(), '-Zalways-encode-mir', '-Zmir-opt-level=0',
         '-Awarnings', '--error-format=json', '-Zwrite-long-types-to-disk=no']
    for d in glob.glob(os.path.join(t, 'debug', 'build', '*', '*', 'out')) + [os.path.join(t, 'debug', 'deps')]:
        a += ['-L', 'dependency=' + d]
    a += ['--extern', 'binread=' + rlib(t, 'binread'), '--extern', 'vrt=' + rlib(t, 'vrt'), src]
    return a


def errors(stderr):
    """[(message, [lines])] of every error diagnostic"""
    out = []
    for l in stderr.splitlines():
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') != 'error':
            continue
        lines = []

        def walk(s):
            if s.get('file_name', '').endswith('corpus.rs'):
                lines.append(s['line_start'])
            if s.get('expansion'):
                walk(s['expansion']['span'])
        for s in d.get('spans', []):
            walk(s)
        out.append((d['message'], lines))
    return out


def analyse(cfg, progs, modes, workdir, no_std=None):
    """Run the engine over `progs`.  Returns ({fn: graph json}, [(prog, message)] not compiling)."""
    from dgen import corpus_source
    build_engine()
    os.makedirs(workdir, exist_ok=True)
    src = os.path.join(workdir, 'corpus.rs')
    out = os.path.join(workdir, 'graphs.json')
    cfgf = os.path.join(workdir, 'modes.cfg')
    with open(cfgf, 'w') as f:
        f.write(modes)
    failed = []
    progs = list(progs)
    for attempt in range(40):
        text, spans = corpus_source(progs, no_std=cfg.startswith('nostd') if no_std is None else no_std)
        with open(src, 'w') as f:
            f.write(text)
        if os.path.exists(out):
            os.remove(out)
        r = sh([ENGINE, 'rustc'] + driver_args(cfg, src), env={'BRA_CONFIG': cfgf, 'BRA_OUT': out, 'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib')})
        if r.returncode == 0 and os.path.exists(out):
            with open(out) as f:
                g = json.load(f)
            for x in g.pop('__unsafe', []):
                m = re.search(r'corpus\.rs:(\d+):\d+: \d+:\d+$', x)
                for a, b, p in spans:
                    if m and a <= int(m.group(1)) <= b and 'root__' + p.name in g:
                        g['root__' + p.name].setdefault('written', []).append(x.split('|')[1])
            return g, failed
        errs = errors(r.stderr)
        bad = {}
        for m, ls in errs:
            for a, b, p in spans:
                if any(a <= x <= b for x in ls):
                    bad.setdefault(p.name, (p, m))
        if not bad:
            raise BuildError('engine failed (%s): %s' % (r.returncode, (errs or r.stderr[-3000:])))
        for p, m in bad.values():
            failed.append((p, m))
        progs = [p for p in progs if p.name not in bad]
        if not progs:
            return {}, failed
    raise BuildError('corpus does not compile')
