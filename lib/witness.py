"""Compile witnesses: programs which must, or must not, build against the
current derive macro.  The deciding step is rustc on generated items; nothing
is run."""
import json
import os
import re

import build
import corpora
import dgen


class W:
    """One item (or several).  `bad`: markers (substrings of lines) each of which must carry an error; None = must build."""

    def __init__(self, name, src, bad=None, note='', prelude=True, at_item=False):
        self.name, self.src, self.bad, self.note, self.prelude, self.at_item = name, src, bad, note, prelude, at_item
        self.base = None

    def source(self):
        return self.src

    type_src = source


def from_program(p):
    """the type of a corpus program alone"""
    return W(p.name, p.pre + p.type_src(), None, p.note)


def text(ws, no_std):
    out = dgen.HEADER
    if no_std:
        out += '#![no_std]\nextern crate alloc;\n'
    spans = []
    line = out.count('\n') + 1
    for w in ws:
        pre = ('use alloc::{boxed::Box, string::String, vec::Vec, format};\n' if no_std else '') + dgen.PRELUDE if w.prelude else ''
        head = f"pub mod m_{w.name} {{\n" + pre
        s = head + w.src.rstrip('\n') + "\n}\n"
        spans.append((line, line + s.count('\n') - 1, w, line + head.count('\n')))
        out += s
        line += s.count('\n')
    return out, spans


def diagnostics(cfg, ws, wd):
    """{name: [(message, line within the source)]} of one compilation, and whether it succeeded"""
    os.makedirs(wd, exist_ok=True)
    src = os.path.join(wd, 'corpus.rs')
    t, spans = (ws[0].text if getattr(ws[0], 'text', None) else text)(ws, cfg.startswith('nostd'))
    with open(src, 'w') as f:
        f.write(t)
    r = build.sh(['rustc', '+nightly'] + build.driver_args(cfg, src) + ['--emit=metadata', '-o', os.path.join(wd, 'w.rmeta')], cwd=wd)
    by = {}
    stray = []
    for m, ls in build.errors(r.stderr):
        hit = False
        for a, b, w, first in spans:
            mine = [x for x in ls if a <= x <= b]
            if mine:
                hit = True
                by.setdefault(w.name, []).append((m, [x - first for x in mine]))
        if not hit and not m.startswith('aborting due to') and ls:
            stray.append(m)
        elif not hit and not m.startswith(('aborting due to', 'For more information')):
            stray.append(m)
    if r.returncode != 0 and not by:
        raise build.BuildError('witnesses: ' + str(stray or r.stderr[-1500:]))
    return by, r.returncode == 0


def judge(cfg, ws, wd):
    """-> [(name, result)]"""
    res = {}
    for good in (True, False):
        left = [w for w in ws if (w.bad is None) == good]
        errs = {}
        for rnd in range(60):
            if not left:
                break
            by, ok = diagnostics(cfg, left, wd)
            for n, e in by.items():
                errs.setdefault(n, []).extend(e)
            left = [w for w in left if w.name not in by]
            if ok:
                break
        for w in ws:
            if (w.bad is None) != good:
                continue
            e = errs.get(w.name, [])
            r = {'mism': [], 'und': [], 'st': {'items': 1, 'must_build': int(good), 'must_not_build': int(not good), 'diagnostics': len(e)}, 'fns': []}
            if good and e:
                r['mism'].append({'what': 'rejected', 'at': w.name, 'detail': 'must build, but: ' + e[0][0], 'path': [x[0] for x in e[:4]]})
            elif not good and not e:
                r['mism'].append({'what': 'accepted', 'at': w.name, 'detail': 'must be rejected: ' + w.note, 'path': []})
            elif not good:
                lines = w.src.split('\n')
                hit = [x for _, ls in e for x in ls]
                for mk in w.bad:
                    at = [i for i, l in enumerate(lines) if mk in l]
                    if mk and not any(i in hit for i in at):
                        r['mism'].append({'what': 'mistake not reported', 'at': w.name, 'detail': f"no error at `{mk}` ({w.note})", 'path': [x[0] for x in e[:4]]})
            res[w.name] = r
    return [(w.name, res[w.name]) for w in ws]
