#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree."""
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build
import core
import props


def known():
    """known-findings.txt -> [(property, program regex, what, text)]"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        m = re.match(r'finding: property=(\S+) program=(\S+) what=(\S+) (.*)', l.strip())
        if m:
            out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    pr = props.REG[pid]
    try:
        jobs = pr.build(tier, seed)
        res = core.run_jobs(pid, jobs)
        core.attribute(pid, res)
        if pr.after:
            res += pr.after(res)
    except build.BuildError as e:
        print(f"ERROR property={pid}: {e}")
        sys.exit(2)
    kn = [k for k in known() if k[0] == pid]
    hit = set()
    st = core.Stats()
    und, viol, fns = [], [], set()
    decided = nonbuild = foreign = 0
    for j, p, r in res:
        st.add(r.get('st', {}))
        fns.update(r.get('fns', ()))
        foreign += r.get('foreign', 0)
        if r['und']:
            und.append((p, r['und']))
        else:
            decided += 1
        nonbuild += 1 if r.get('nb') else 0
        left = []
        for m in r['mism']:
            k = next((k for k in kn if re.fullmatch(k[1], p.name) and k[2] == m['what'].replace(' ', '-')), None)
            if k:
                hit.add(k)
            else:
                left.append(m)
        if left:
            viol.append((j, p, left))
    n = len(res)
    rdir = os.path.join(VERIF, '.work', 'replay', pid)
    rc = 0
    if viol:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        for j, p, ms in sorted(viol, key=lambda x: len(x[1].source()))[:8]:
            f = os.path.join(rdir, p.name + '.txt')
            with open(f, 'w') as o:
                o.write(f"property {pid}, configuration {j.cfg}, program {p.name}: {p.note}\n\n")
                for m in ms:
                    o.write(f"{m['what']} at {m['at']}\n  {m['detail']}\n  path: " + '\n        '.join(m['path']) + '\n\n')
                o.write(p.source())
            m = ms[0]
            print(f"  {p.name}: {m['what']} at {m['at']}: {str(m['detail'])[:300]}")
            print(f"VIOLATION property={pid} replay={f}")
    for k in kn:
        if k in hit:
            print(f"KNOWN-FINDING: property={pid} {k[3]}")
    samples = []
    for j, p, r in res[:: max(1, n // 5)][:6]:
        samples.append({'program': p.name, 'config': j.cfg, 'what': p.note, 'source': getattr(p, 'type_src', p.source)()[:600], 'judged': r.get('st', {})})
    reasons = {}
    for p, u in und:
        k = str(u[0][0])[:120]
        reasons.setdefault(k, []).append(p.name)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': pr.note, 'rule': pr.technique, 'programs': n, 'programs_decided': decided, 'undecided': len(und),
            'undecided_reasons': {k: {'count': len(v), 'examples': v[:5]} for k, v in reasons.items()},
            'analysed_functions': len(fns), 'functions_sample': sorted(f for f in fns if 'binread::' in f)[:60],
            'mismatches_attributed_to_other_directives': foreign,
            'jobs': [{'config': j.cfg, 'programs': len(j.progs), 'judge': [str(x) for x in j.judge], 'engine_flags': j.modes.split('\t')[1], 'label': j.label} for j in jobs],
            'counts': dict(st), 'samples': samples,
        },
        'assumptions': ['rustc MIR construction', 'engine models of core/alloc/std calls (engine/src/call.rs)', 'reference parsers (lib/dgen.py, lib/libref.py)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {n} programs, {decided} decided, {len(und)} undecided, {len(viol)} violating, {dict(st)}, {ev['wall_s']} s")
    for k, v in list(reasons.items())[:6]:
        print(f"  undecided x{len(v)}: {k} e.g. {v[0]}")
    if rc == 0 and decided < pr.floor * n:
        print(f"ERROR property={pid}: too much undecided")
        rc = 2
    sys.exit(rc)


main()
