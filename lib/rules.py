"""Typestate rules over one event graph."""
import re

from safety import unsafe_ops
from lts import EVENTS, Graph, Ctx, walk, show, absz, is_t, Eq, T, age_term, lin_parts, lin_add

POS0 = ('sym', 'pos0')
CALLS = ('read', 'ap', 'parse')   # failures whose error value is a binread::Error itself


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v)


class Out:
    def __init__(self, G):
        self.G, self.mism, self.und, self.seen, self.st = G, [], [], set(), {}

    def add(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def bad(self, what, i, detail, ctx, tr):
        if (what, i) in self.seen:
            return
        if not ctx.feasible():
            return
        self.seen.add((what, i))
        if len(self.mism) < 6:
            self.mism.append({'what': what, 'at': self.G.where(i), 'detail': detail, 'path': list(tr)})

    def done(self, states, und):
        self.und += und
        self.st['rule_states'] = states
        return {'mism': self.mism, 'und': self.und, 'st': self.st}


class St(tuple):
    """Monitor state (tag, term): the term ages with the events."""
    def shift(self, ctx, c2, tk):
        if self[1] is None:
            return self
        return St((self[0], age_term(self[1], tk)) + tuple(self[2:]))


OK = St(('ok', None))


def failure(n):
    """the error term of a failing event, before it has happened"""
    tk = n.get('key', n['k'])
    e = ('err', tk, -1)
    return e if n['k'] in CALLS else ('agg', 'Error', 2, e)


def err_of(val):
    """the error of a returned Err(..), None when Ok"""
    if is_t(val, 'agg') and val[1] == 'Result':
        return val[3] if val[2] == 1 else None
    return 'unknown'


# ---------------------------------------------------------------- C01
def rewinds(p, G):
    """On every path to a returned error the reader stands where the read began, unless the rewinding seek itself failed."""
    o = Out(G)

    def on_event(m, n, ctx, i, tr):
        o.add('events_visited')
        mid = St(('mid', None))
        d = {l: mid for l, _ in n['edges']}
        if n['k'] == 'seek':
            if n.get('query'):
                if m[0] == 'start':
                    d = {l: St(('first', failure(n))) if l != 'ok' else mid for l in d}
            else:
                to = Eq(ctx).norm(n['to'])
                if to == POS0:
                    d = {l: St(('rew', failure(n))) if l != 'ok' else mid for l in d}
        return d

    def on_ret(m, n, ctx, i, tr):
        e = err_of(n['val'])
        if e is None:
            return
        if e == 'unknown':
            o.und.append(('returned value unknown', G.where(i)))
            return
        o.add('error_returns')
        E = Eq(ctx)
        pos = E.norm(n['pos'])
        if pos == POS0:
            return
        if m[0] in ('first', 'rew') and E.norm(m[1]) == E.norm(e):
            return
        r = E.eq(pos, POS0)
        if r is None:
            o.und.append(('position after failure', G.where(i), show(pos)[:200]))
        elif r is False:
            o.bad('position after failure', i, f"returns {show(E.norm(e))[:200]} with the reader at {show(pos)[:200]}", ctx, tr)

    return o.done(*walk(G, St(('start', None)), on_event, on_ret))


# ---------------------------------------------------------------- C24
def fields_of(p):
    fs = list(getattr(p, 'fields', None) or [])
    for v in getattr(p, 'variants', None) or []:
        fs += list(getattr(v, 'fields', None) or [])
    return fs


def propagates(p, G):
    """After a failing read, seek or post-processing nothing but repositioning happens and exactly that error is returned."""
    o = Out(G)
    enum = getattr(p, 'kind', '') == 'enum'
    tries = set()
    for f in fields_of(p):
        if getattr(f, 'try_', False):
            if f.parse_with:
                tries.add(('parse', re.findall(r'(\d+)>$', f.parse_with)[0]))
            t = f.src or f.ty
            t = t[len('Option<'):-1] if t.startswith('Option<') else t
            tries.add(t)

    def is_try(n):
        tk = n.get('key', n['k'])
        return n['k'] == 'read' and any(tk == 'read ' + t for t in tries if isinstance(t, str)) or n['k'] == 'parse' and any(tk == 'parse' + t[1] for t in tries if isinstance(t, tuple))

    def on_event(m, n, ctx, i, tr):
        o.add('events_visited')
        if m[0] == 'pend' and n['k'] != 'seek':
            E = Eq(ctx)
            o.bad('continues after an error', i, f"after {show(E.norm(m[1]))[:200]} does {n.get('key', n['k'])}", ctx, tr)
            return {l: None for l, _ in n['edges']}
        d = {}
        for l, _ in n['edges']:
            if l == 'err':
                o.add('failing_events')
                d[l] = OK if is_try(n) else St(('pend', failure(n)))
            elif m[0] == 'pend' and enum and n['k'] == 'seek' and not n.get('query') and Eq(ctx).norm(n['to']) == POS0:
                d[l] = St(('alt', m[1]))
            elif m[0] == 'alt' and n['k'] != 'seek':
                d[l] = OK
            else:
                d[l] = m
        return d

    def on_ret(m, n, ctx, i, tr):
        e = err_of(n['val'])
        if m[0] == 'ok':
            return
        E = Eq(ctx)
        t = E.norm(m[1])
        if e is None:
            if m[0] == 'pend':
                o.bad('error swallowed', i, f"returns Ok after {show(t)[:200]}", ctx, tr)
            return
        if e == 'unknown':
            o.und.append(('returned value unknown', G.where(i)))
            return
        o.add('error_returns')
        e = E.norm(e)
        if m[0] == 'pend':
            if e == t:
                return
            r = E.eq(e, t)
            if r is None:
                o.und.append(('error', G.where(i), show(e)[:200]))
            elif r is False:
                o.bad('error replaced', i, f"returns {show(e)[:200]} after {show(t)[:200]}", ctx, tr)
        else:
            if contains(e, t) or is_t(e, 'agg') and e[2] == 4:
                return
            o.bad('error replaced', i, f"returns {show(e)[:200]} after {show(t)[:200]}", ctx, tr)

    return o.done(*walk(G, OK, on_event, on_ret))


# ---------------------------------------------------------------- C27, C31
# std functions outside the engine's models which return for every argument
TOTAL = re.compile(r'fmt::|format|String as .*From|From<std::borrow::Cow|from_utf|Error::kind|io::Error::(new|from|other)|'
                   r'str>::(r?split|splitn|rsplitn|trim|starts_with|ends_with|len|is_empty|as_bytes|to_owned|to_string|contains|find|rfind|chars|bytes|parse|lines|strip_)|'
                   r'Split|ToString|type_id|type_name|from_u32|from_digit|(checked|wrapping|saturating|overflowing)_|<[^>]* as .*(PartialEq|PartialOrd|Ord|Eq|Hash|Clone|Default|Deref|AsRef|Borrow|From|Into)|'
                   r'size_of|align_of|to_(be|le|ne)(_bytes)?|from_(be|le|ne)(_bytes)?|is_empty|::len|char::|cmp::|mem::|Cow|downcast|(^|::)p\d+<')
TMAX = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
CNT_MAX = 1 << 40       # events one execution can perform


def trange(t):
    if t in TMAX:
        return 0, (1 << TMAX[t]) - 1
    if t[0] == 'i' and 'u' + t[1:] in TMAX:
        b = TMAX['u' + t[1:]]
        return -(1 << b - 1), (1 << b - 1) - 1
    return None


def atom_range(a, ctx):
    lo = hi = None
    if is_t(a, 'cnt'):
        lo, hi = 0, CNT_MAX
    elif is_t(a, 'fld') and is_t(a[3], 'sym') and a[3][1].endswith('.count') or is_t(a, 'op') and a[1] in ('len', 'itlen'):
        lo, hi = trange('usize')
        if is_t(a, 'op'):
            hi = trange('isize')[1]
    elif is_t(a, 'sym') and (a[1].startswith('pos0') or a[1].endswith('.offset')) or isinstance(a, tuple) and a and a[0] in ('pos', 'pos@', 'poserr', 'poserr@'):
        lo, hi = trange('u64')
    elif isinstance(a, tuple) and a and a[0] in ('res', 'res@') and trange(a[1].split(' ')[-1]):
        lo, hi = trange(a[1].split(' ')[-1])
    elif is_t(a, 'op') and a[1] == 'byte_at':
        lo, hi = 0, 255
    elif is_t(a, 'op') and re.match(r'(wrap|cast)\W?(\w+)$', a[1]):
        lo, hi = trange(re.match(r'(wrap|cast)\W?(\w+)$', a[1]).group(2)) or (None, None)
    elif is_t(a, 'op') and a[1].endswith('BitAnd') and any(isinstance(x, int) and x >= 0 for x in a[2:]):
        lo, hi = 0, min(x for x in a[2:] if isinstance(x, int) and x >= 0)
    elif is_t(a, 'op') and a[1].startswith('rem') and isinstance(a[3], int) and a[3] > 0:
        l2, _ = term_range(a[2], ctx)
        lo, hi = (0 if l2 is not None and l2 >= 0 else 1 - a[3]), a[3] - 1
    d = ((1, a),)
    r = ctx.l.get(d)
    if r:
        if r[0] is not None:
            lo = r[0] if lo is None else max(lo, r[0])
        if r[1] is not None:
            hi = r[1] if hi is None else min(hi, r[1])
    return lo, hi


def plain_range(m, c, ctx):
    lo = hi = c
    for x, k in m.items():
        a, b = atom_range(x, ctx)
        if k < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
    return lo, hi


def term_range(v, ctx):
    """bounds of an integer term from the types of its atoms, the facts on it, and one linear fact at a time"""
    m, c = lin_parts(v)
    lo, hi = plain_range(m, c, ctx)
    for d, (flo, fhi, _) in ctx.l.items():
        for s in (1, -1):
            # v = s*d + rest
            r = dict(m)
            for k, x in d:
                r[x] = r.get(x, 0) - s * k
                if r[x] == 0:
                    del r[x]
            if len(r) >= len(m) + len(d):
                continue
            a, b = plain_range(r, c, ctx)
            f1, f2 = (flo, fhi) if s > 0 else (None if fhi is None else -fhi, None if flo is None else -flo)
            if a is not None and f1 is not None:
                lo = a + f1 if lo is None else max(lo, a + f1)
            if b is not None and f2 is not None:
                hi = b + f2 if hi is None else min(hi, b + f2)
    return lo, hi


def user_value(v):
    """mentions a value produced by an expression written in a directive"""
    if not isinstance(v, tuple):
        return False
    if is_t(v, 'op') and isinstance(v[1], str) and re.match(r'(call:|bool:)?p\d+', v[1]):
        return True
    if v and v[0] in ('res', 'res@') and isinstance(v[1], str) and re.match(r'(ev|parse)', v[1]):
        return True
    return any(user_value(x) for x in v)


def missing_count(ctx):
    return any(r == ('=', 0) and is_t(x, 'sym') and x[1].endswith('.count') for x, r in ctx.d.items())


# writing the template: the std calls it makes
TEMPLATE = re.compile(r'Mutex|write_fmt|lazy|Lazy|Atomic|env::|File|fs::|Arguments|Option::|Box::|Path|drop')


def panics(p, G, allow_unread=False, locks=False):
    """No feasible path reaches a panic, an overflow, an out-of-bounds index or an allocation sized by a claimed count,
    except for a missing count, an unread file pointer and arithmetic on the user's own values."""
    o = Out(G)
    last = {}
    for op_ in G.opaque:
        if not TOTAL.search(op_) and not (locks and TEMPLATE.search(op_)) and not re.search(r'(^|::)(p|ev|parse)\d+', op_):
            o.und.append(('may panic: ' + op_, G.name))

    def on_event(m, n, ctx, i, tr):
        o.add('events_visited')
        return None

    def on_ret(m, n, ctx, i, tr):
        o.add('returns')
        if m[0] == 'held':
            o.bad('returns holding the lock', i, '', ctx, tr)

    def on_other(m, n, ctx, i, tr):
        if n['k'] == 'alloc':
            alloc_ok(o, n, ctx, i, tr)
            return
        if n['k'] == 'lock':
            o.add('locks')
            if m[0] == 'held':
                o.bad('locks while holding the lock', i, f"in {n.get('fn')}", ctx, tr)
            return St(('held', None))
        if n['k'] == 'unlock':
            return OK
        o.add('panic_sites')
        # the lock is only poisoned by a writer which panicked itself
        if locks and i in n_guard and re.match(r'disc\[call:[^(]*Mutex[^(]*::lock', show(n_guard[i])):
            o.add('poison')
            return
        if missing_count(ctx):
            o.add('missing_count')
            return
        stack = ' '.join(n.get('stack') or [])
        if allow_unread and re.search(r'FilePtr(::)?<.*(::deref|::deref_mut|::into_inner)\b', stack) and any(r == ('=', 0) for r in ctx.d.values()):
            o.add('unread_pointer')
            return
        what = n.get('what')
        gg = absz(n_guard[i], ctx.counts) if i in n_guard else None
        if what in ('overflow', 'divzero', 'bounds') and gg is not None:
            if user_value(gg):
                o.add('user_arithmetic')
                return
            inner = gg[2] if is_t(gg, 'op') and gg[1] == 'not' else gg
            if is_t(inner, 'op') and isinstance(inner[1], str) and inner[1].startswith('ovf.') and result_range(inner, ctx) == (None, None):
                o.und.append(('overflow not bounded: ' + show(inner)[:200], G.where(i)))
                return
        if not ctx.feasible():
            return
        o.bad(f"panic ({what})", i, f"{n.get('msg')} in {(n.get('stack') or ['?'])[-1][-160:]} at {str(n.get('at'))[-90:]}"
              + (f", when {show(absz(n_guard[i], ctx.counts))[:200]} fails" if i in n_guard else ''), ctx, tr)

    n_guard = {}
    for k, nd in enumerate(G.nodes):
        if nd['k'] == 'branch':
            for l, j in nd['edges']:
                if G.nodes[j]['k'] == 'panic':
                    n_guard[j] = nd['guard']
    def decide(n, ctx):
        """an overflow check which cannot fail is no branch"""
        g = n['guard']
        if not (is_t(g, 'op') and g[1] == 'not' and is_t(g[2], 'op') and isinstance(g[2][1], str) and g[2][1].startswith('ovf.')):
            return None
        g = absz(g, ctx.counts)[2]
        if isinstance(g, int):
            return int(g == 0)
        lo, hi = result_range(g, ctx)
        tl, th = trange(g[1].split('.')[2])
        # the operands are values of the type: adding what is not negative cannot fall below it, nor subtracting exceed it
        opn = g[1].split('.')[1]
        b = term_range(g[3], ctx)
        if tl == 0 and (b[0] is None or b[0] < 0):
            b = (0, b[1])
        low = lo is not None and lo >= tl or opn == 'Add' and b[0] is not None and b[0] >= 0
        high = hi is not None and hi <= th or opn == 'Sub' and b[0] is not None and b[0] >= 0
        if low and high:
            o.add('overflow_ruled_out')
            return 1
        return None

    return o.done(*walk(G, OK, on_event, on_ret, on_other, decide=decide))


def result_range(g, ctx):
    _, opn, t = g[1].split('.')
    a, b = g[2], g[3]
    if opn in ('Add', 'Sub'):
        return term_range(lin_add(a, b, 1 if opn == 'Add' else -1), ctx)
    l1, h1 = term_range(a, ctx)
    l2, h2 = term_range(b, ctx)
    if None in (l1, h1, l2, h2):
        return None, None
    q = [x * y for x in (l1, h1) for y in (l2, h2)]
    return min(q), max(q)


def alloc_ok(o, n, ctx, i, tr):
    o.add('allocations')
    if n.get('bounded') in (True, 'true'):
        return
    size = absz(n['size'], ctx.counts)
    lo, hi = term_range(size, ctx)
    if hi is not None and hi <= 1 << 20:
        return
    if user_value(size):
        return
    if data_sized(size, ctx):
        return
    o.bad('allocation sized by a count', i, f"{n.get('what')} of {show(size)[:200]} elements", ctx, tr)


def data_sized(size, ctx):
    """proportional to data already held or read"""
    m, c = lin_parts(size)
    return all(is_t(x, 'cnt') or is_t(x, 'op') and x[1] in ('len', 'itlen') and not mentions_count(x) for x in m) and c <= 1 << 20


def mentions_count(v):
    if not isinstance(v, tuple):
        return False
    if is_t(v, 'sym') and v[1].endswith('.count'):
        return True
    return any(mentions_count(x) for x in v)


def allocations(p, G):
    """Memory is reserved for a bounded number of elements, or for as many as have been read."""
    o = Out(G)

    def on_other(m, n, ctx, i, tr):
        if n['k'] == 'alloc':
            alloc_ok(o, n, ctx, i, tr)
    return o.done(*walk(G, OK, lambda *a: None, lambda *a: None, on_other))
