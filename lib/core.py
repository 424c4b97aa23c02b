"""Running corpora through the engine in parallel and judging the graphs."""
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import time

import build
import corpora
import defs
import lts
import rules
import witness

NPROC = 8


class Job:
    """progs analysed in configuration cfg with engine modes, judged by `judge`:
    ('compare', aspects) or ('rule', name, params)."""

    def __init__(self, progs, judge, cfg='std', modes='*\t\t\t\n', must_compile=False, label='', cfg2=None):
        self.progs, self.judge, self.cfg, self.modes, self.must_compile, self.label = progs, judge, cfg, modes, must_compile, label
        self.cfg2 = cfg2  # compare with the same program in this configuration instead of its reference


class Stats(dict):
    def add(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


class Limit(Exception):
    pass


def on_alarm(sig, frame):
    raise Limit()


def init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, on_alarm)


def judge_limited(p, g, judge, g2=None, seconds=90):
    """A graph that is too large to judge is undecided."""
    signal.alarm(seconds)
    try:
        return judge_one(p, g, judge, g2)
    except (Limit, MemoryError, RecursionError) as e:
        return {'mism': [], 'und': [('too large to judge: ' + type(e).__name__, p.name)], 'st': {}}
    finally:
        signal.alarm(0)


def judge_one(p, g, judge, g2=None):
    """-> dict(mism=[...], und=[...], stats)"""
    rn, hn = 'root__' + p.name, 'ref__' + p.name
    if rn not in g:
        return {'mism': [], 'und': [('not analysed', rn)], 'st': {}}
    G = lts.Graph(rn, g[rn])
    fns = sorted(G.inlined)
    if judge[0] == 'compare':
        if g2 is not None:
            if rn not in g2:
                return {'mism': [], 'und': [('not analysed in the other configuration', rn)], 'st': {}}
            H = lts.Graph(rn, g2[rn])
        elif hn not in g:
            return {'mism': [], 'und': [('no reference', hn)], 'st': {}}
        else:
            H = lts.Graph(hn, g[hn])
        r = lts.compare(G, H, frozenset(judge[1]))
        return {'mism': r.mism, 'und': r.undecided, 'fns': fns,
                'st': {'product_states': r.states, 'events_compared': r.events, 'returns_compared': r.rets, 'nodes': len(G.nodes)}}
    if judge[0] == 'rule':
        r = getattr(rules, judge[1])(p, G, *judge[2:])
        r['fns'] = fns
        r.setdefault('st', {})['nodes'] = len(G.nodes)
        return r
    raise ValueError(judge)


def with_inline(modes, progs):
    flags, inl, inv = (modes.strip('\n').split('\t') + ['', '', ''])[1:4]
    for p in progs:
        if getattr(p, 'inline', ''):
            for w in ('root__', 'ref__'):
                modes += '\t'.join([w + p.name, flags, '|'.join(x for x in (inl, p.inline) if x), inv]) + '\n'
    return modes


def chunk_worker(a):
    idx, cfg, progs, modes, judge, wd, cfg2, must = a
    out = []
    try:
        if judge[0] == 'compile':
            return witness.judge(cfg, progs, wd)
        if judge[0] == 'definitions':
            return defs.judge(cfg, progs, wd)
        g, failed = build.analyse(cfg, progs, with_inline(modes, progs), wd)
        g2 = None
        if cfg2:
            g2, f2 = build.analyse(cfg2, progs, with_inline(modes, progs), wd)
            failed += f2
        for p in progs:
            m = [m for q, m in failed if q.name == p.name]
            if m:
                r = {'mism': [], 'und': [('does not compile: ' + m[0], p.name)], 'st': {}, 'nc': m[0]}
                if must:
                    r['mism'], r['und'] = [{'what': 'rejected', 'at': p.name, 'detail': 'must build, but: ' + m[0], 'path': m[:4]}], []
                out.append((p.name, r))
                continue
            try:
                out.append((p.name, judge_limited(p, g, judge, g2)))
            except Exception as e:  # a graph the rules cannot handle is undecided, never silently fine
                import traceback
                out.append((p.name, {'mism': [], 'und': [('internal: ' + repr(e) + traceback.format_exc()[-600:], p.name)], 'st': {}}))
    except build.BuildError as e:
        for p in progs:
            out.append((p.name, {'mism': [], 'und': [('build: ' + str(e)[:1500], p.name)], 'st': {}, 'nb': 1}))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return out


def run_jobs(pid, jobs):
    """-> list of (job, prog, result)"""
    build.build_engine()
    for c in sorted(set(c for j in jobs for c in (j.cfg, j.cfg2) if c)):
        build.build_deps(c)
    base = os.path.join(build.WORK, f"run-{pid}-{os.getpid()}")
    tasks = []
    owner = []
    for ji, j in enumerate(jobs):
        names = set()
        for p in j.progs:
            assert p.name not in names, p.name
            names.add(p.name)
        n = len(j.progs)
        if not n:
            continue
        k = max(1, min(-(-n // 4), -(-n // 80) if n > 640 else NPROC if n >= 32 else 2 if n > 8 else 1))
        for c in range(k):
            part = j.progs[c::k]
            if part:
                tasks.append((len(tasks), j.cfg, part, j.modes, j.judge, os.path.join(base, f"c{len(tasks)}"), j.cfg2, j.must_compile))
                owner.append(j)
    res = []
    try:
        with multiprocessing.Pool(NPROC, init_worker) as pool:
            for t, out in zip(tasks, pool.imap(chunk_worker, tasks, chunksize=1)):
                by = {p.name: p for p in t[2]}
                for name, r in out:
                    res.append((owner[t[0]], by[name], r))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def attribute(pid, res):
    """Drop mismatches which occur just the same without the property's own
    directives (they belong to another property)."""
    need = [(j, p, r) for j, p, r in res if r['mism'] and getattr(p, 'base', None)]
    if not need:
        return
    need = need[:200]
    jobs = []
    for j, p, r in need:
        b = p.base = corpora.resolve_base(p.base)
        q = next((x for x in jobs if x.judge == j.judge and x.cfg == j.cfg and x.modes == j.modes and x.cfg2 == j.cfg2), None)
        if q is None:
            q = Job([], j.judge, j.cfg, j.modes, cfg2=j.cfg2)
            jobs.append(q)
        if b.name not in [x.name for x in q.progs]:
            q.progs.append(b)
    rb = {(j.cfg, j.judge, p.name): r for j, p, r in run_jobs(pid + 'b', jobs)}
    for j, p, r in need:
        k = rb.get((j.cfg, j.judge, p.base.name))
        if not k or not k['mism']:
            continue
        kinds = set(m['what'] for m in k['mism'])
        keep = [m for m in r['mism'] if m['what'] not in kinds]
        r['foreign'] = len(r['mism']) - len(keep)
        r['mism'] = keep
