"""Unsafe operations (C32).  Where they are: every unsafe operation in the
type-checked HIR of the two crates and of every analysed item (engine/src/scan.rs).
Whether each is justified: the facts that hold at the operation on every path of
the analysed programs (engine: note_unsafe)."""
import re

import build

REASON = {'nonzero': 'the number may be zero here', 'init': 'the value was never written and its type is not the unit type', 'unit': 'the type is not the unit type', 'none': 'no check can justify this operation'}


def loc_of(s):
    m = re.search(r'(\w+/src/[^:]*):(\d+):(\d+): (\d+):(\d+)$', s)
    return m and (m.group(1),) + tuple(int(x) for x in m.groups()[1:])


def unsafe_ops(p, G):
    """rule: every unsafe operation on a path of this program has its precondition"""
    mism, ops = [], []
    for u in G.unsafe:
        callee, fn, pre, loc = u.rsplit('|', 3)
        if 'fmt::Arguments' in callee:   # what format_args! is lowered to
            continue
        k, _, ok = pre.partition(':')
        good = ok == 'true' or k == 'body'
        ops.append((loc_of(loc), good, callee))
        if not good:
            mism.append({'what': 'unguarded unsafe operation', 'at': f"{fn} ({loc})", 'detail': f"{callee}: {REASON.get(k, k)}", 'path': [p.name]})
    for w in G.written:
        mism.append({'what': 'generated unsafe code', 'at': 'T::read_options', 'detail': w, 'path': [p.name]})
    return {'mism': mism, 'und': [(b, p.name) for b in G.bails], 'ops': ops, 'st': {'unsafe_operations_reached': len(ops)}}


class Place:
    base = None

    def __init__(self, name, note):
        self.name, self.note = name, note

    def source(self):
        return self.note + '\n'

    type_src = source


def inventory(cfgs, res):
    """every operation written in either crate, in every configuration, was reached and justified -> [(Place, result)]"""
    seen = set(o[0] for j, p, r in res for o in r.get('ops', ()) if o[0])
    out = []
    for c in cfgs:
        for crate, kind, what, at in build.scan(c):
            if kind == 'block':
                continue
            a = loc_of(at)
            hit = [k for k in seen if a and k[0] == a[0] and a[1:3] <= k[1:3] and k[3:5] <= a[3:5]]
            P = Place(re.sub(r'\W+', '_', f"unsafe_{c}_{kind}_{at.split('/src/')[-1]}"), f"{at}: {kind} {what}")
            m = []
            # operations which were reached without their precondition are reported by the programs that reach them
            if kind != 'call' or not hit:
                m = [{'what': 'unsafe operation without a justification', 'at': at, 'detail': f"{kind} {what}", 'path': []}]
            out.append((c, P, {'mism': m, 'und': [], 'st': {'unsafe_operations_in_the_source': 1}, 'fns': []}))
    return out
