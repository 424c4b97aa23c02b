"""plant.py SPEC.py...: turns bug specifications into /verif/seeded/<id>/ and
confirms each in a scratch copy of /repo (builds, stable tests pass, the demo
passes before and fails after).  A spec defines ID, PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], MAIN (Rust main), FEATURES (of binread)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
SEEDED = '/verif/seeded'
DEMO = r'''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
binread = { path = "$repo/binread"%s }
[workspace]
EOF
cp "$here/main.rs" "$d/src/main.rs"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline
'''


def sh(c, cwd=None):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        d = os.path.join(SEEDED, s['ID'])
        w = tempfile.mkdtemp(prefix='plant')
        try:
            sh(f"cp -a /repo {w}/repo")
            r = w + '/repo'
            for f, a, b in s['EDITS']:
                t = open(f"{r}/{f}").read()
                assert t.count(a) == 1, (s['ID'], f, t.count(a))
                open(f"{r}/{f}", 'w').write(t.replace(a, b))
            os.makedirs(d, exist_ok=True)
            p = sh('git diff', r).stdout
            open(d + '/patch.diff', 'w').write(p)
            open(d + '/main.rs', 'w').write(s['MAIN'])
            open(d + '/demo.sh', 'w').write(DEMO % s.get('FEATURES', '') + s.get('TAIL', ''))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
            ok = sh(f"bash {d}/demo.sh", '/repo')
            bad = sh(f"bash {d}/demo.sh", r)
            # the stable tests, in the copy
            for f in ('env', 'build', 'test'):
                sh(f"sed -e 's#/repo#{r}#g' -e 's#/opt/vp/env.sh#{w}/env.sh#' /opt/vp/{f}.sh > {w}/{f}.sh")
            b = sh(f"bash {w}/build.sh", r)
            t = sh(f"bash {w}/test.sh {w}/out.json", r)
            base = json.load(open('/opt/vp/BASELINE.json'))
            try:
                out = json.load(open(f"{w}/out.json"))
            except Exception as e:
                out = {'err': str(e)}
            miss = sorted(set(base['stable']) - set(out.get('passed', [])))
            print(f"{s['ID']}: demo clean={ok.returncode} patched={bad.returncode} build={b.returncode} missing_tests={len(miss)} {miss[:3]}")
            if ok.returncode != 0:
                print(ok.stdout[-1500:])
            if bad.returncode == 0 or 'error' in bad.stdout and 'panicked' not in bad.stdout:
                print(bad.stdout[-1500:])
            if b.returncode:
                print(b.stdout[-1000:])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
