"""Event graphs and their lockstep comparison.

A graph (computed by the `bra` engine from MIR) has event nodes (read, ap,
parse, ev, rx, rd, seek, alloc), branch nodes on symbolic guards, and final
nodes (ret, panic, dead, bail).  `compare` walks a subject graph and a
reference graph in lockstep, keeping the set of branch facts taken so far, and
reports every construct of the subject that differs in a compared aspect.
"""
import itertools
import re

K_CONCRETE = 7


def T(v):
    """JSON value -> hashable term."""
    if isinstance(v, list):
        if len(v) > 6 and v[0] == 'agg' and v[1] == 'ReadOptions':
            v = v[:6]  # template options (debug_template) only name things
        return tuple(T(x) for x in v)
    return v


class Graph:
    def __init__(self, name, d):
        self.name = name
        self.start = d['start']
        self.bails = d['bails']
        self.opaque = d['opaque']
        self.inlined = d['inlined']
        self.unsafe = d['unsafe']
        self.written = d.get('written', [])
        self.nodes = []
        for n in d['nodes']:
            m = {'k': n['k'], 's': dict((l, j) for l, j in n['s'])}
            m['edges'] = [(l, j) for l, j in n['s']]
            for k, v in n.items():
                if k in ('k', 's', 'fn', 'stack', 'at', 'ty', 'key', 'what', 'msg', 'why'):
                    if k not in m:
                        m[k] = v
                else:
                    m[k] = T(v)
            self.nodes.append(m)

    def where(self, i):
        n = self.nodes[i]
        f = n.get('fn') or n.get('stack') or n.get('at') or self.name
        if isinstance(f, list):
            f = f[0] if f else self.name
        return f


# ------------------------------------------------------------------ terms
def is_t(v, tag):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == tag


def lin_parts(v):
    if isinstance(v, int):
        return {}, v
    if is_t(v, 'lin'):
        return {x: k for k, x in v[2:]}, v[1]
    return {v: 1}, 0


def lin_make(m, c):
    items = [(x, k) for x, k in m.items() if k != 0]
    if not items:
        return c
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    items.sort(key=lambda t: repr(t[0]))
    return ('lin', c) + tuple((k, x) for x, k in items)


def lin_add(a, b, kb=1):
    ma, ca = lin_parts(a)
    mb, cb = lin_parts(b)
    m = dict(ma)
    for x, k in mb.items():
        m[x] = m.get(x, 0) + kb * k
    return lin_make(m, ca + kb * cb)


def mk_not(v):
    if isinstance(v, int):
        return int(v == 0)
    if is_t(v, 'op') and v[1] == 'not':
        return v[2]
    return ('op', 'not', v)


def mk_lt0(v):
    if isinstance(v, int):
        return int(v < 0)
    m, c = lin_parts(v)
    first = sorted(m, key=repr)[0]
    if m[first] > 0:
        return ('op', 'lt0', v)
    return mk_not(('op', 'lt0', lin_make({x: -k for x, k in m.items()}, -c - 1)))


def mk_eq0(v):
    if isinstance(v, int):
        return int(v == 0)
    m, c = lin_parts(v)
    first = sorted(m, key=repr)[0]
    if m[first] > 0:
        return ('op', 'eq0', v)
    return ('op', 'eq0', lin_make({x: -k for x, k in m.items()}, -c))


STRID = re.compile(r'^call:.*?(format|from_str|to_string|to_owned|from|into|as_str|deref|clone|into_string|into_boxed_str)(<.*>)?$')


def rebuild(v, f):
    """Bottom-up rebuild with canonical constructors; f(node) -> replacement or None, applied first."""
    r = f(v)
    if r is not None:
        return r
    if not isinstance(v, tuple) or not v:
        return v
    tag = v[0]
    if tag == 'lin':
        acc = v[1]
        for k, x in v[2:]:
            acc = lin_add(acc, rebuild(x, f), k)
        return acc
    if tag == 'op':
        args = tuple(rebuild(x, f) for x in v[2:])
        o = v[1]
        if o == 'lt0':
            return mk_lt0(args[0])
        if o == 'eq0':
            return mk_eq0(args[0])
        if o == 'eq' and len(args) == 2:
            # one kind of I/O error against another: by discriminant
            for a, b in (args, args[::-1]):
                if is_t(a, 'agg') and a[1] == 'ErrorKind' and len(a) == 3 and not is_t(b, 'agg'):
                    return mk_eq0(lin_add(('disc', b), a[2], -1))
        if o == 'not':
            return mk_not(args[0])
        if o in ('&', 'cref') and len(args) == 1:
            return args[0]
        if len(args) == 1 and STRID.match(o):
            return args[0]
        if o == 'eq' and len(args) == 2:
            a, b = args
            if a == b:
                return 1
            if isinstance(a, int) and isinstance(b, int):
                return 0
            if is_t(a, 'agg') and not is_t(b, 'agg'):
                a, b = b, a
            if is_t(b, 'agg') and b[1] == 'array' and all(isinstance(x, int) for x in b[3:]):
                # element by element, as matching on a slice pattern does
                acc = 1
                for i, c in enumerate(b[3:]):
                    e = a[3 + i] if is_t(a, 'agg') else ('op', 'idx', a, i)
                    t = mk_eq0(lin_add(e, c, -1))
                    if isinstance(t, int):
                        if t == 0:
                            return 0
                        continue
                    acc = t if acc == 1 else ('op', 'bBitAnd', acc, t)
                return acc
            args = tuple(sorted(args, key=repr))
        if o in ('rem', 'div') and isinstance(args[0], int) and isinstance(args[1], int) and args[1] != 0 and args[0] >= 0:
            return args[0] % args[1] if o == 'rem' else args[0] // args[1]
        return ('op', o) + args
    if tag == 'agg':
        return v[:3] + tuple(rebuild(x, f) for x in v[3:])
    if tag == 'fld':
        x = rebuild(v[3], f)
        if is_t(x, 'agg') and v[2] + 3 < len(x) + 0 and (x[2] == v[1] or True) and v[2] < len(x) - 3:
            return x[3 + v[2]]
        return ('fld', v[1], v[2], x)
    if tag in ('disc', 'box', 'intoiter'):
        x = rebuild(v[1], f)
        if tag == 'disc' and is_t(x, 'agg'):
            return x[2]
        return (tag, x)
    if tag == 'list':
        segs = []
        for s in v[1:]:
            if s[0] == 'e' or s[0] == 'all':
                segs.append((s[0], rebuild(s[1], f)))
            elif s[0] == 'run':
                r = f(s)
                if r is not None:
                    segs.extend(r)
                else:
                    segs.append(s)
            elif s[0] == 'bytes':
                a, b = rebuild(s[1], f), rebuild(s[2], f)
                if a != b:
                    if segs and segs[-1][0] == 'bytes' and segs[-1][2] == a:
                        segs[-1] = ('bytes', segs[-1][1], b)
                    else:
                        segs.append(('bytes', a, b))
            elif s[0] == 'rep':
                a, b = rebuild(s[1], f), rebuild(s[2], f)
                if isinstance(b, int) and 0 <= b <= 16:
                    segs.extend([('e', a)] * b)
                else:
                    segs.append(('rep', a, b))
            else:
                segs.append(s)
        return ('list',) + tuple(segs)
    return v


EVT = ('res', 'err', 'pos', 'poserr')


class Counts(dict):
    """Number of events per key: an int, or None once it is unbounded; `rel` gives the
    number of one unbounded key relative to another's."""
    __slots__ = ('rel',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.rel = dict(a[0].rel) if a and isinstance(a[0], Counts) else {}


def absz(v, counts):
    """Name events by absolute index where the number of events of a key is known."""
    def f(n):
        if not isinstance(n, tuple) or not n:
            return None
        if n[0] in EVT and len(n) == 3:
            c = counts.get(n[1], 0)
            if c is not None:
                return (n[0], n[1], n[2], 'abs')if False else (n[0] + '@', n[1], c - 1 - n[2])
            return n
        if n[0] == 'cnt':
            c = counts.get(n[1], 0)
            if c is None and n[1] in counts.rel:
                a, d = counts.rel[n[1]]
                return lin_add(('cnt', a), d)
            return c if c is not None else n
        if n[0] == 'run':
            _, pat, key, start, endage = n
            c = counts.get(key, 0)

            def inner(idx):
                def g(m):
                    if isinstance(m, tuple) and len(m) == 3 and m[0] == 'res' and m[1] == key and m[2] == 0:
                        return ('res@', key, idx)
                    return f(m)
                return g
            if c is not None:
                return [('e', rebuild(pat, inner(i))) for i in range(start, c - endage)]

            def gen(m):
                if isinstance(m, tuple) and len(m) == 3 and m[0] == 'res' and m[1] == key and m[2] == 0:
                    return ('res*', key)
                return f(m)
            return [('run', rebuild(pat, gen), key, start, endage)]
        return None
    return rebuild(v, f)


def age_term(v, key):
    def f(n):
        if isinstance(n, tuple) and n:
            if n[0] in EVT and len(n) == 3 and n[1] == key:
                return (n[0], key, n[2] + 1)
            if n[0] == 'cnt' and n[1] == key:
                return lin_add(n, -1)
        return None
    return rebuild(v, f)


def max_age(v):
    m = 0
    if isinstance(v, tuple):
        if v and v[0] in EVT and len(v) == 3:
            return v[2]
        for x in v:
            m = max(m, max_age(x))
    return m


def old_byte(v):
    """mentions a stream byte read several unbounded events ago"""
    if not isinstance(v, tuple):
        return False
    if is_t(v, 'op') and v[1] == 'byte_at':
        a = v[2]
        if not is_t(a, 'lin') or a[1] < -3:
            return True
        return not any(is_t(x, 'cnt') for _, x in a[2:])
    return any(old_byte(x) for x in v)


def atoms_of(v, out):
    """Numeric atoms."""
    if isinstance(v, int):
        return
    if is_t(v, 'lin'):
        for _, x in v[2:]:
            atoms_of(x, out)
    elif is_t(v, 'op') and interpretable(v):
        for x in v[2:]:
            atoms_of(x, out)
    else:
        out.add(v)


NUMOPS = ('rem', 'div', 'lt0', 'eq0', 'not', 'bBitAnd', 'bBitOr', 'bBitXor', 'BitAnd', 'BitOr', 'BitXor')
NUMCALL = re.compile(r'^(wrap|cast|saturating_\w+|rem_euclid|div_euclid|next_multiple_of|abs_diff|mul|is_power_of_two|abs|unsigned_abs|Shl|Shr|div_ceil)\.(\w+)$')


def interpretable(v):
    return v[1] in NUMOPS or (NUMCALL.match(v[1]) is not None and not v[1].startswith('cast.f'))


def width(t):
    m = re.match(r'^([ui])(\d+|size)$', t)
    if not m:
        return None
    b = 64 if m.group(2) == 'size' else int(m.group(2))
    return (m.group(1) == 'i', b)


def wrap_to(x, t):
    w = width(t)
    if w is None:
        return x
    s, b = w
    x &= (1 << b) - 1
    if s and x >> (b - 1):
        x -= 1 << b
    return x


class NoValue(Exception):
    pass


def ev(v, env):
    if isinstance(v, int):
        return v
    if v in env:
        return env[v]
    if is_t(v, 'lin'):
        return v[1] + sum(k * ev(x, env) for k, x in v[2:])
    if is_t(v, 'op') and interpretable(v):
        o = v[1]
        a = [ev(x, env) for x in v[2:]]
        if o == 'lt0':
            return int(a[0] < 0)
        if o == 'eq0':
            return int(a[0] == 0)
        if o == 'not':
            return int(a[0] == 0)
        if o in ('rem', 'div'):
            if a[1] == 0:
                raise NoValue
            q = abs(a[0]) // abs(a[1])
            if (a[0] < 0) != (a[1] < 0):
                q = -q
            return a[0] - q * a[1] if o == 'rem' else q
        if o.endswith('BitAnd'):
            return a[0] & a[1]
        if o.endswith('BitOr'):
            return a[0] | a[1]
        if o.endswith('BitXor'):
            return a[0] ^ a[1]
        m = NUMCALL.match(o)
        n, t = m.group(1), m.group(2)
        if n in ('wrap', 'cast'):
            return wrap_to(a[0], t)
        if n == 'mul':
            return a[0] * a[1]
        if n == 'rem_euclid':
            if a[1] == 0:
                raise NoValue
            return a[0] % abs(a[1])
        if n == 'div_euclid':
            if a[1] == 0:
                raise NoValue
            return (a[0] - a[0] % abs(a[1])) // a[1]
        if n == 'next_multiple_of':
            if a[1] <= 0:
                raise NoValue
            return -(-a[0] // a[1]) * a[1]
        if n == 'div_ceil':
            if a[1] <= 0:
                raise NoValue
            return -(-a[0] // a[1])
        if n == 'abs_diff':
            return abs(a[0] - a[1])
        if n in ('abs', 'unsigned_abs'):
            return abs(a[0])
        if n == 'is_power_of_two':
            return int(a[0] > 0 and a[0] & (a[0] - 1) == 0)
        if n == 'Shl':
            return wrap_to(a[0] << (a[1] & 127), t)
        if n == 'Shr':
            return a[0] >> (a[1] & 127)
        if n == 'saturating_sub':
            r = a[0] - a[1]
            return max(0, r) if t[0] == 'u' else r
        if n == 'saturating_add':
            return a[0] + a[1]
        if n == 'saturating_mul':
            return a[0] * a[1]
    raise NoValue


def byte_width(v):
    """bytes of input the term is made of, read as an unsigned number"""
    if is_t(v, 'op') and v[1] == 'byte_at':
        return 1
    if is_t(v, 'op') and v[1] in ('le', 'be') and len(v) == 4:
        m = re.match(r'^u(8|16|32|64)$', str(v[2][1]) if isinstance(v[2], tuple) and len(v[2]) > 1 else str(v[2]))
        return int(m.group(1)) // 8 if m else None
    if isinstance(v, tuple) and len(v) > 1 and v[0] in ('res', 'res@') and isinstance(v[1], str):
        m = re.match(r'^read u(8|16|32|64)$', v[1])
        return int(m.group(1)) // 8 if m else None
    return None


GRID = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 100]


def lcg(seed):
    while True:
        seed = (seed * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        yield seed >> 33


# --------------------------------------------------------------- contexts
class Ctx:
    """Branch facts: bool terms, discriminants, linear directions."""
    __slots__ = ('b', 'd', 'l', 'counts')

    def __init__(self, b=None, d=None, l=None, counts=None):
        self.b = b or {}
        self.d = d or {}
        self.l = l or {}
        self.counts = counts if counts is not None else Counts()

    def copy(self):
        return Ctx(dict(self.b), dict(self.d), dict(self.l), Counts(self.counts))

    def freeze(self):
        return (frozenset(self.b.items()), frozenset(self.d.items()), frozenset(self.l.items()),
                frozenset((k, c) for k, c in self.counts.items() if c != 0), frozenset(self.counts.rel.items()))

    @staticmethod
    def nonneg(a):
        if is_t(a, 'cnt'):
            return True
        if is_t(a, 'op') and a[1] in ('len', 'itlen', 'byte_at', 'stream'):
            return True
        if is_t(a, 'sym') and (a[1].startswith('pos0') or a[1] in ('len',)):
            return True
        if is_t(a, 'fld') and is_t(a[3], 'sym') and a[3][1].endswith('.count'):
            return True
        if isinstance(a, tuple) and a and a[0] in ('pos', 'pos@', 'poserr', 'poserr@'):
            return True
        return False

    @staticmethod
    def direction(v):
        """v = s*g*d + c  -> (d, s*g, c) with d primitive and positively oriented"""
        m, c = lin_parts(v)
        from math import gcd
        g = 0
        for k in m.values():
            g = gcd(g, abs(k))
        first = sorted(m, key=repr)[0]
        s = 1 if m[first] > 0 else -1
        d = tuple(sorted(((k * s // g, x) for x, k in m.items()), key=repr))
        return d, s * g, c

    @staticmethod
    def swkey(x):
        """under what a branch on the value of x is recorded"""
        return x[1] if is_t(x, 'disc') else x

    def bounds(self, d):
        lo, hi, ne = self.l.get(d, (None, None, frozenset()))
        if self.d and len(d) == 1:
            r = self.d.get(self.swkey(d[0][1]))
            if r and r[0] == '=':
                return r[1], r[1], ne
            if r:
                ne = ne | r[1]
        # from single atoms
        for sgn in (1, -1):
            tot = 0
            for k, x in d:
                kk = k * sgn
                alo, ahi = None, None
                if self.nonneg(x):
                    alo = 0
                if len(d) > 1 or True:
                    r = self.l.get(((1, x),))
                    s = self.d.get(self.swkey(x)) if self.d and len(d) > 1 else None
                    if s and s[0] == '=':
                        r = (s[1], s[1])
                    if r and d != ((1, x),):
                        if r[0] is not None:
                            alo = r[0] if alo is None else max(alo, r[0])
                        ahi = r[1]
                b = alo if kk > 0 else ahi
                if b is None:
                    tot = None
                    break
                tot += kk * b
            if tot is not None:
                if sgn == 1:
                    lo = tot if lo is None else max(lo, tot)
                else:
                    hi = -tot if hi is None else min(hi, -tot)
        return lo, hi, ne

    def eval(self, g):
        """known truth of a boolean term, or None"""
        if isinstance(g, int):
            return int(g != 0)
        if is_t(g, 'op'):
            o = g[1]
            if o == 'not':
                r = self.eval(g[2])
                return None if r is None else 1 - r
            if g in self.b:
                return self.b[g]
            if o in ('lt0', 'eq0'):
                d, s, c = self.direction(g[2])
                lo, hi, ne = self.bounds(d)
                if o == 'lt0':
                    # s*d + c < 0
                    if s > 0:
                        t = (-c - 1) // s  # true iff d <= t
                        if hi is not None and hi <= t:
                            return 1
                        if lo is not None and lo > t:
                            return 0
                    else:
                        t = (c + 1 + (-s) - 1) // (-s)  # true iff d >= t
                        if lo is not None and lo >= t:
                            return 1
                        if hi is not None and hi < t:
                            return 0
                else:
                    if (-c) % s != 0:
                        return 0
                    t = -c // s
                    if lo is not None and lo == hi == t:
                        return 1
                    if (lo is not None and t < lo) or (hi is not None and t > hi) or t in ne:
                        return 0
                return None
            if o in ('bBitAnd', 'bBitOr', 'bBitXor'):
                a, b = self.eval(g[2]), self.eval(g[3])
                if o == 'bBitAnd' and (a == 0 or b == 0):
                    return 0
                if o == 'bBitOr' and (a == 1 or b == 1):
                    return 1
                if a is None or b is None:
                    return None
                return a & b if o == 'bBitAnd' else a | b if o == 'bBitOr' else a ^ b
            if o == 'eq':
                a, b = self.evalint(g[2]), self.evalint(g[3])
                if a is not None and b is not None:
                    return int(a == b)
            return None
        if g in self.b:
            return self.b[g]
        return None

    def evalint(self, g):
        if isinstance(g, int):
            return g
        if is_t(g, 'disc'):
            r = self.d.get(g[1])
            if r and r[0] == '=':
                return r[1]
        d, s, c = self.direction(g)
        lo, hi, ne = self.bounds(d)
        if lo is not None and lo == hi:
            return s * lo + c
        return None

    def assume(self, g, val):
        """returns False when contradictory"""
        r = self.eval(g)
        if r is not None:
            return r == val
        if is_t(g, 'op'):
            o = g[1]
            if o == 'not':
                return self.assume(g[2], 1 - val)
            if o in ('lt0', 'eq0'):
                d, s, c = self.direction(g[2])
                lo, hi, ne = self.l.get(d, (None, None, frozenset()))
                if o == 'lt0':
                    if s > 0:
                        t = (-c - 1) // s
                        if val:
                            hi = t if hi is None else min(hi, t)
                        else:
                            lo = t + 1 if lo is None else max(lo, t + 1)
                    else:
                        t = (c - s) // (-s)
                        if val:
                            lo = t if lo is None else max(lo, t)
                        else:
                            hi = t - 1 if hi is None else min(hi, t - 1)
                else:
                    t = -c // s
                    if val:
                        lo = hi = t
                    else:
                        ne = ne | {t}
                blo, bhi, _ = self.bounds(d)
                L = lo if blo is None else (blo if lo is None else max(lo, blo))
                H = hi if bhi is None else (bhi if hi is None else min(hi, bhi))
                while L is not None and L in ne:
                    L += 1
                while H is not None and H in ne:
                    H -= 1
                if L is not None and H is not None and L > H:
                    return False
                self.l[d] = (L if (lo is not None or L != blo) else lo, H if (hi is not None or H != bhi) else hi,
                             frozenset(x for x in ne if (L is None or x >= L) and (H is None or x <= H)))
                return True
            if o == 'bBitAnd' and val == 1:
                return self.assume(g[2], 1) and self.assume(g[3], 1)
            if o == 'bBitOr' and val == 0:
                return self.assume(g[2], 0) and self.assume(g[3], 0)
        self.b[g] = val
        return True

    def disc_ok(self, x, v, guard=None):
        if self.l and guard is not None:
            d, s, c = self.direction(guard)
            lo, hi, ne = self.l.get(d, (None, None, frozenset()))
            if (v - c) % s or (lo is not None and (v - c) // s < lo) or (hi is not None and (v - c) // s > hi) or (v - c) // s in ne:
                return False
        r = self.d.get(x)
        if r is None:
            return True
        return r[1] == v if r[0] == '=' else v not in r[1]

    def event(self, key):
        c = self.counts.get(key, 0)
        if c is not None and c + 1 < K_CONCRETE:
            self.counts[key] = c + 1
            return
        rel = self.counts.rel
        if c is not None:
            # switch to relative naming, together with every other repeated event
            self.counts[key] = c + 1
            new = {k: n for k, n in self.counts.items() if n is not None and (n >= 2 or k == key)}
            for k, n in new.items():
                self.counts[k] = None
                if k != key:
                    rel[k] = (key, n - (c + 1))

            def f(t):
                if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], str) and t[0].endswith('@') and t[1] in new:
                    return (t[0][:-1], t[1], new[t[1]] - 1 - t[2])
                return None
            self._map(lambda v: rebuild(v, f))
            self.l[((1, ('cnt', key)),)] = (c + 1, c + 1, frozenset())
        else:
            self._map(lambda v: age_term(v, key))
            one = ((1, ('cnt', key)),)
            if one in self.l:
                self.l[one] = (K_CONCRETE, None, frozenset())
            for k, (a, d) in list(rel.items()):
                if a == key or k == key:
                    d += -1 if a == key else 1
                    if abs(d) > 6:
                        del rel[k]
                    else:
                        rel[k] = (a, d)
        # an overflow check passed on an earlier round says nothing about this one
        self._map(lambda v: v, drop=lambda v: max_age(v) > 3 or old_byte(v)
                  or is_t(v, 'op') and isinstance(v[1], str) and v[1].startswith('ovf.'))

    def _map(self, f, drop=None):
        drop = drop or (lambda v: False)
        nb = {}
        for k, v in self.b.items():
            k = f(k)
            if not drop(k):
                nb[k] = v
        self.b = nb
        nd = {}
        for k, v in self.d.items():
            k = f(k)
            if not drop(k):
                nd[k] = v
        self.d = nd
        nl = {}
        for d, (lo, hi, ne) in self.l.items():
            m = ('lin', 0) + d
            m = f(m)
            if isinstance(m, int) or drop(m):
                continue
            d2, s, c = self.direction(m)
            if s != 1:
                # orientation flipped by renaming
                if s == -1:
                    lo, hi, ne = (None if hi is None else -(hi - c)), (None if lo is None else -(lo - c)), frozenset(-(x - c) for x in ne)
                    nl[d2] = (lo, hi, ne)
                continue
            nl[d2] = (None if lo is None else lo - c, None if hi is None else hi - c, frozenset(x - c for x in ne))
        self.l = nl

    # ---------------------------------------------------------- sampling
    def samples(self, terms, limit=4000, want=200):
        at = set()
        for t in terms:
            atoms_of(t, at)
        # numeric facts connected to the atoms
        facts = []
        pend = [('l', d, r) for d, r in self.l.items()] + [('b', g, v) for g, v in self.b.items() if is_t(g, 'op') and interpretable(g)]
        changed = True
        while changed:
            changed = False
            for p in list(pend):
                fa = set()
                if p[0] == 'l':
                    for _, x in p[1]:
                        atoms_of(x, fa)
                else:
                    atoms_of(p[1], fa)
                if fa & at or not at:
                    pend.remove(p)
                    facts.append(p)
                    if not fa <= at:
                        changed = True
                    at |= fa
        at = sorted(at, key=repr)
        if len(at) > 8:
            return None
        consts = set(GRID)
        for d, (lo, hi, ne) in self.l.items():
            for x in (lo, hi):
                if x is not None and 0 <= abs(x) < 1 << 64:
                    for e in (-1, 0, 1):
                        if x + e >= 0:
                            consts.add(x + e)
        big = any(x is not None and abs(x) >= 1 << 31 for r in self.l.values() for x in r[:2])
        consts = sorted(consts)
        signed = set()

        def casts(t):
            if isinstance(t, tuple):
                if is_t(t, 'op') and t[1].startswith('cast.'):
                    atoms_of(t, signed)
                for x in t:
                    casts(x)
        if big:
            for f in facts:
                casts(f[1])
            for t in terms:
                casts(t)
        # a term the path knows to be negative
        less = [-1, -2, -7, -(1 << 63)] + [-x for x in consts if 0 < x < 1 << 63]
        pools = []
        for x in at:
            r = self.l.get(((1, x),))
            if r and r[1] is not None and r[1] < 0:
                pools.append(less)
            elif big:
                pools.append(consts + [(1 << 63) - 1] + ([] if x in signed or is_t(x, 'op') and x[1] == 'len' else [(1 << 64) - 1]))
            else:
                w = byte_width(x)
                if w:
                    top = (1 << 8 * w) - 1
                    pools.append(sorted({c for c in consts if c <= top} | {127, 128, 200, 254, 255, 256, top // 2, top // 2 + 1, top - 1, top} - {256 if top < 256 else None}))
                else:
                    pools.append(consts)
        n = 1
        for q in pools:
            n *= len(q)
        if n <= want:
            it = itertools.product(*pools)
        elif n <= limit:
            # every combination, in an order that mixes them
            def mixed():
                step = next(k for k in (1009, 2003, 3001) if n % k)
                for i in range(n):
                    i = i * step % n
                    p = []
                    for q in pools:
                        p.append(q[i % len(q)])
                        i //= len(q)
                    yield tuple(p)
            it = mixed()
        else:
            rng = lcg(12345)

            def gen():
                for _ in range(limit):
                    yield tuple(q[next(rng) % len(q)] for q in pools)
            it = gen()
        out = []
        for p in it:
            env = dict(zip(at, p))
            ok = True
            try:
                for f in facts:
                    if f[0] == 'l':
                        x = sum(k * ev(a, env) for k, a in f[1])
                        lo, hi, ne = f[2]
                        if (lo is not None and x < lo) or (hi is not None and x > hi) or x in ne:
                            ok = False
                            break
                    else:
                        if (ev(f[1], env) != 0) != bool(f[2]):
                            ok = False
                            break
            except NoValue:
                ok = False
            if ok:
                out.append(env)
                if len(out) >= want:
                    break
        return out

    def entails_zero(self, v):
        """the linear facts leave no other value than zero"""
        if isinstance(v, int):
            return v == 0
        m, c = lin_parts(v)
        if not m:
            return c == 0
        rows = []
        for d, (lo, hi, ne) in self.l.items():
            f = {x: k for k, x in d}
            if lo is not None:
                rows.append((f, -lo))                                  # f - lo >= 0
            if hi is not None:
                rows.append(({x: -k for x, k in f.items()}, hi))
        if not rows:
            return False
        for f, _ in list(rows):
            for x in f:
                if self.nonneg(x):
                    rows.append(({x: 1}, 0))
        for x in m:
            if self.nonneg(x):
                rows.append(({x: 1}, 0))
        if len(rows) > 40:
            return False
        return unsat(rows + [(dict(m), c - 1)]) and unsat(rows + [({x: -k for x, k in m.items()}, -c - 1)])

    def feasible(self):
        rows = []
        for d, (lo, hi, ne) in self.l.items():
            if lo is not None:
                rows.append(({x: k for k, x in d}, -lo))
            if hi is not None:
                rows.append(({x: -k for k, x in d}, hi))
        rows += [({x: 1}, 0) for f, _ in list(rows) for x in f if self.nonneg(x)]
        if 0 < len(rows) < 60 and unsat(rows):
            return False
        s = self.samples([])
        return s is None or len(s) > 0


def unsat(rows, limit=300):
    """Fourier-Motzkin on sum(k*x) + c >= 0 rows; True only when contradictory"""
    rows = {(frozenset(f.items()), c) for f, c in rows}
    while True:
        keep = set()
        for f, c in rows:
            f = frozenset((x, k) for x, k in f if k)
            if not f:
                if c < 0:
                    return True
                continue
            keep.add((f, c))
        if not keep:
            return False
        cnt = {}
        for f, _ in keep:
            for x, k in f:
                a = cnt.setdefault(x, [0, 0])
                a[0 if k > 0 else 1] += 1
        x = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1], repr(y)))
        pos = [(dict(f), c) for f, c in keep if dict(f).get(x, 0) > 0]
        neg = [(dict(f), c) for f, c in keep if dict(f).get(x, 0) < 0]
        rows = {(f, c) for f, c in keep if x not in dict(f)}
        for f, c in pos:
            for g, e in neg:
                a, b = -g[x], f[x]
                h = {}
                for q, k in f.items():
                    h[q] = h.get(q, 0) + a * k
                for q, k in g.items():
                    h[q] = h.get(q, 0) + b * k
                h.pop(x, None)
                rows.add((frozenset((q, k) for q, k in h.items() if k), a * c + b * e))
        if len(rows) > limit:
            return False


def numeric(v):
    return isinstance(v, int) or is_t(v, 'lin') or (is_t(v, 'op') and interpretable(v))


def scalar(v):
    return isinstance(v, int) or is_t(v, 'lin') or (isinstance(v, tuple) and v and v[0] in ('op', 'fld', 'sym', 'arg', 'pos', 'pos@', 'cnt', 'res', 'res@'))


class Eq:
    """Three-valued comparison of terms under a context."""

    def __init__(self, ctx, strip_post=False, mask=None, opaque_ref=frozenset()):
        self.ctx = ctx
        self.strip_post = strip_post
        self.why = None

    def norm(self, v):
        ctx = self.ctx
        v = absz(v, ctx.counts)

        def f(n):
            if is_t(n, 'op'):
                if self.strip_post and n[1] == 'post':
                    return rebuild(n[2], f)
            return None
        return rebuild(v, f)

    def simp(self, v):
        if is_t(v, 'str'):
            return ('str', re.sub(r'\s+', '', v[1]))
        if is_t(v, 'op') and v[1] not in ('&',):
            r = self.ctx.eval(v)
            if r is not None and v[1] in ('lt0', 'eq0', 'not', 'eq') or (r is not None and v[1].startswith('bool:')):
                return r
        if is_t(v, 'op') and v[1] == 'updslice' and self.ctx.evalint(lin_add(v[4], v[3], -1)) == 0:
            return self.simp(v[2])
        if is_t(v, 'disc') or is_t(v, 'lin') or is_t(v, 'fld'):
            r = self.ctx.evalint(v)
            if r is not None:
                return r
        return v

    def empty(self, v):
        """a slice known to have no elements"""
        n = lin_add(v[4], v[3], -1) if is_t(v, 'op') and v[1] == 'slice' else ('op', 'len', v)
        return self.ctx.evalint(n) == 0 or self.ctx.entails_zero(n)

    def upd(self, v):
        """a slice with an empty part replaced is that slice"""
        while is_t(v, 'op') and v[1] == 'updslice' and self.ctx.entails_zero(lin_add(v[4], v[3], -1)):
            v = v[2]
        return v

    def eq(self, a, b):
        """True / False / None (undecided)"""
        if a == b:
            return True
        a, b = self.simp(a), self.simp(b)
        if a == b:
            return True
        if is_t(a, 'op') and a[1] == 'updslice' or is_t(b, 'op') and b[1] == 'updslice':
            a, b = self.upd(a), self.upd(b)
            if a == b:
                return True
        if (is_t(a, 'op') and a[1] == 'slice' or is_t(b, 'op') and b[1] == 'slice') and self.empty(a) and self.empty(b):
            return True
        if is_t(b, 'agg') and not is_t(a, 'agg'):
            a, b = b, a
        if is_t(a, 'agg'):
            if is_t(b, 'agg'):
                if a[2] != b[2] or len(a) != len(b):
                    return self.no(a, b)
                return self.all([self.eq(x, y) for x, y in zip(a[3:], b[3:])])
            if isinstance(b, tuple) and b and b[0] in ('sym', 'fld', 'res', 'res@', 'op', 'arg'):
                r = self.ctx.d.get(b)
                if r and r[0] == '=':
                    if r[1] != a[2]:
                        return self.no(a, b)
                    return self.all([self.eq(x, ('fld', a[2], i, b)) for i, x in enumerate(a[3:])])
                if r and r[0] == '!=' and a[2] in r[1]:
                    return self.no(a, b)
            return self.no(a, b)
        if is_t(a, 'list') and is_t(b, 'list'):
            return self.lists(a, b)
        if is_t(a, 'op') and is_t(b, 'op') and a[1] == b[1] and len(a) == len(b) and not numeric(a):
            return self.all([self.eq(x, y) for x, y in zip(a[2:], b[2:])])
        if is_t(a, 'box') and is_t(b, 'box'):
            return self.eq(a[1], b[1])
        if is_t(a, 'fld') and is_t(b, 'fld') and a[1:3] == b[1:3]:
            return self.eq(a[3], b[3])
        if is_t(a, 'box') != is_t(b, 'box'):
            # boxes are transparent
            return self.eq(a[1] if is_t(a, 'box') else a, b[1] if is_t(b, 'box') else b)
        if numeric(a) or numeric(b):
            s = self.ctx.samples([a, b])
            if s is None:
                return self.maybe(a, b)
            if not s:
                return None
            for env in s:
                try:
                    if ev(a, env) != ev(b, env):
                        return self.no(a, b)
                except NoValue:
                    continue
            return True
        if self.ctx.l and scalar(a) and scalar(b) and self.ctx.entails_zero(lin_add(a, b, -1)):
            return True
        return self.no(a, b)

    def lists(self, a, b):
        if len(a) != len(b):
            # runs against elements: undecided unless plainly different
            if any(s[0] in ('run', 'rep', 'all', 'bytes') for s in a[1:] + b[1:]):
                ka = [s[0] for s in a[1:]]
                kb = [s[0] for s in b[1:]]
                if all(k == 'e' for k in ka) and not any(k in ('all', 'rep', 'bytes') for k in kb):
                    return self.no(a, b)
                return self.no(a, b)
            return self.no(a, b)
        rs = []
        for s, t in zip(a[1:], b[1:]):
            if s == t:
                continue
            if s[0] != t[0]:
                return self.no(a, b)
            if s[0] in ('e', 'all'):
                rs.append(self.eq(s[1], t[1]))
            elif s[0] == 'run':
                if s[2:] != t[2:]:
                    return self.no(a, b)
                rs.append(self.eq(s[1], t[1]))
            else:
                rs.append(self.eq(s[1], t[1]))
                rs.append(self.eq(s[2], t[2]))
        return self.all(rs)

    def all(self, rs):
        if any(r is False for r in rs):
            return False
        if any(r is None for r in rs):
            return None
        return True

    def no(self, a, b):
        ca, cb = calls(a), calls(b)
        if ca != cb:
            self.why = ('undecided', a, b)
            return None
        self.why = (a, b)
        return False

    def maybe(self, a, b):
        return None


def calls(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, tuple):
        if v and v[0] == 'op' and isinstance(v[1], str) and v[1].startswith(('call:', 'clobbered', 'upd', 'rawparts', 'truncate', 'data')):
            acc.add(v[1])
        for x in v:
            calls(x, acc)
    return acc


class Result:
    def __init__(self):
        self.mism = []
        self.undecided = []
        self.states = 0
        self.events = 0
        self.rets = 0
        self.infeasible = 0


ALL = frozenset(['endian', 'count', 'offset', 'args', 'pos', 'self', 'okval', 'errval', 'okpos', 'errpos', 'epos', 'ap', 'guard'])


def strip_epos(v):
    """Remove positions carried in library errors."""
    if isinstance(v, tuple):
        if len(v) >= 4 and v[0] == 'agg' and v[1] == 'Error' and v[2] in (0, 1, 3, 4, 5):
            v = v[:3] + ('_',) + v[4:]
        return tuple(strip_epos(x) for x in v)
    return v


def show(t):
    if isinstance(t, (int, str)):
        return str(t)
    if t is None:
        return '-'
    k = t[0]
    if k == 'lin':
        return '(' + ' + '.join([(f"{c}*" if c != 1 else '') + show(x) for c, x in t[2:]] + ([str(t[1])] if t[1] else [])) + ')'
    if k == 'op':
        return f"{t[1]}({', '.join(map(show, t[2:]))})"
    if k == 'agg':
        return f"{t[1]}#{t[2]}{{{', '.join(map(show, t[3:]))}}}"
    if k == 'fld':
        return f"{show(t[3])}.{t[1]}:{t[2]}"
    if k in ('sym', 'const', 'str'):
        return str(t[1])
    return f"{k}[{', '.join(map(show, t[1:]))}]"


EVENTS = ('read', 'ap', 'parse', 'ev', 'rx', 'rd', 'seek')


def branch_outs(n, ctx):
    """(guard, [(successor, context, value or None when already known)]) of a branch node"""
    guard = absz(n['guard'], ctx.counts)
    outs = []
    if is_t(guard, 'disc') or not set(l for l, _ in n['edges']) <= {'true', 'false'}:
        x = guard[1] if is_t(guard, 'disc') else guard
        gi = ctx.evalint(guard) if not isinstance(guard, int) else guard
        for l, j in n['edges']:
            vals = [1 if q == 'true' else 0 if q == 'false' else int(q) if re.fullmatch(r'-?\d+', q) else None for q in l.split('|')]
            if None in vals:
                # otherwise edge
                others = frozenset(int(q) for l2, _ in n['edges'] for q in l2.split('|') if re.fullmatch(r'-?\d+', q))
                if gi is not None:
                    if gi not in others:
                        outs.append((j, ctx, None))
                    continue
                c2 = ctx.copy()
                r = c2.d.get(x)
                if r and r[0] == '=' and r[1] in others:
                    continue
                if not (r and r[0] == '='):
                    c2.d[x] = ('!=', (r[1] if r else frozenset()) | others)
                outs.append((j, c2, 'other'))
                continue
            for v in vals:
                if gi is not None:
                    if gi == v:
                        outs.append((j, ctx, None))
                    continue
                if not ctx.disc_ok(x, v, guard):
                    continue
                c2 = ctx.copy()
                c2.d[x] = ('=', v)
                outs.append((j, c2, v))
    else:
        r = ctx.eval(guard)
        for l, j in n['edges']:
            v = 1 if l == 'true' else 0
            if r is not None:
                if r == v:
                    outs.append((j, ctx, None))
                continue
            c2 = ctx.copy()
            if c2.assume(guard, v):
                outs.append((j, c2, v))
    return guard, outs


class Widen:
    """Forgets a linear bound which takes ever new values at one node, so that descending counters converge (weakening
    facts only adds paths)."""
    LIMIT = 12

    def __init__(self):
        self.seen = {}

    def __call__(self, at, ctx):
        if not ctx.l:
            return ctx
        out = None
        for d, (lo, hi, ne) in ctx.l.items():
            key = (at, d)
            s = self.seen.get(key)
            if s is None:
                s = self.seen[key] = (set(), set(), set())
            new = []
            for k, v in enumerate((lo, hi, ne)):
                if v is None or v in s[k]:
                    new.append(v)
                elif len(s[k]) >= self.LIMIT:
                    new.append(frozenset() if k == 2 else None)
                else:
                    s[k].add(v)
                    new.append(v)
            if tuple(new) != (lo, hi, ne):
                if out is None:
                    out = ctx.copy()
                if new == [None, None, frozenset()]:
                    del out.l[d]
                else:
                    out.l[d] = tuple(new)
        return out if out is not None else ctx


def walk(G, init, on_event, on_ret, on_other=None, max_states=60000, decide=None):
    """Run a monitor over every path of one graph.

    init: hashable monitor state.  on_event(state, node, ctx, i) -> {edge label: new state or None to stop}.
    on_ret(state, node, ctx, i) and on_other(state, node, ctx, i) judge final nodes.  Returns (states, undecided)."""
    seen = set()
    stack = [(G.start, Ctx(), init, ())]
    und = []
    widen = Widen()
    while stack:
        i, ctx, m, tr = stack.pop()
        while G.nodes[i]['k'] in ('start', 'head'):
            i = G.nodes[i]['edges'][0][1]
        ctx = widen(i, ctx)
        key = (i, ctx.freeze(), m)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > max_states:
            und.append(('state limit', G.where(i)))
            break
        n = G.nodes[i]
        k = n['k']
        if k == 'branch':
            v = decide(n, ctx) if decide else None
            if v is not None:
                stack.append((n['s']['true' if v else 'false'], ctx, m, tr))
                continue
            g, outs = branch_outs(n, ctx)
            for j, c2, v in outs:
                stack.append((j, c2, m, tr if v is None else tr + (f"{show(g)} = {v}",)))
        elif k == 'bail':
            und.append(('bail: ' + str(n.get('why')), G.where(i)))
        elif k == 'ret':
            on_ret(m, n, ctx, i, tr)
        elif k in ('dead',):
            pass
        elif k == 'panic':
            if on_other:
                on_other(m, n, ctx, i, tr)
        elif k in ('alloc', 'lock', 'unlock'):
            r = on_other(m, n, ctx, i, tr) if on_other else None
            stack.append((n['edges'][0][1], ctx, r if r is not None else m, tr))
        else:
            r = on_event(m, n, ctx, i, tr)
            tk = n.get('key', k)
            for l, j in n['edges']:
                if r is not None and l in r and r[l] is None:
                    continue
                c2 = ctx.copy()
                c2.event(tk)
                m2 = r[l] if r is not None and l in r else m
                if hasattr(m2, 'shift'):
                    m2 = m2.shift(ctx, c2, tk)
                stack.append((j, c2, m2, tr + ((f"{k} " if k not in str(tk) else '') + f"{tk} -> {l}",)))
    return len(seen), und


APFULL = frozenset(['endian', 'count', 'offset', 'args', 'self'])


def region_left(ctx, n, l, tk):
    """after a read into a region (bufs mode) what is left of it is not negative"""
    left = n['len']
    if l == 'ok1':
        if not is_t(n['pos'], 'pos') and not is_t(n['pos'], 'sym'):
            return
        left = lin_add(lin_add(age_term(n['len'], tk), age_term(n['pos'], tk)), ('pos', tk, 0), -1)
    left = absz(left, ctx.counts)
    if not isinstance(left, int):
        ctx.assume(('op', 'lt0', left), 0)


def compare(G, H, aspects=ALL, max_states=60000, max_mism=6):
    res = Result()
    g_calls = {o for o in G.opaque}
    start = (G.start, H.start, Ctx(), ())
    seen = set()
    stack = [start]
    apsens = 'ap' in aspects

    def report(kind, g, h, detail, ctx, trace):
        if not ctx.feasible():
            res.infeasible += 1
            return
        res.mism.append({'what': kind, 'at': G.where(g), 'detail': detail, 'path': list(trace)})

    while stack:
        g, h, ctx, trace = stack.pop()
        if len(res.mism) >= max_mism:
            break
        # pass silent nodes
        while G.nodes[g]['k'] in ('start', 'head'):
            g = G.nodes[g]['edges'][0][1]
        while H.nodes[h]['k'] in ('start', 'head'):
            h = H.nodes[h]['edges'][0][1]
        key = (g, h, ctx.freeze())
        if key in seen:
            continue
        seen.add(key)
        res.states += 1
        if res.states > max_states:
            res.undecided.append(('state limit', G.where(g)))
            break
        gn, hn = G.nodes[g], H.nodes[h]
        # branches
        did = False
        for side, n in (('g', gn), ('h', hn)):
            if n['k'] != 'branch':
                continue
            did = True
            guard, outs = branch_outs(n, ctx)
            for j, c2, v in outs:
                tr = trace if v is None else trace + (f"{show(guard)} = {v}",)
                stack.append((j, h, c2, tr) if side == 'g' else (g, j, c2, tr))
            break
        if did:
            continue
        gk, hk = gn['k'], hn['k']
        if gk in ('dead',) or hk in ('dead',):
            continue
        if gk == 'alloc':
            stack.append((gn['edges'][0][1], h, ctx, trace))
            continue
        if hk == 'alloc':
            stack.append((g, hn['edges'][0][1], ctx, trace))
            continue
        if gk == 'bail' or hk == 'bail':
            res.undecided.append(('bail: ' + str((gn if gk == 'bail' else hn).get('why')), G.where(g)))
            continue
        if not apsens and (gk == 'ap' or hk == 'ap') and (gk != hk or gn['key'] != hn['key']):
            n = gn if gk == 'ap' else hn
            c2 = ctx.copy()
            c2.event(n['key'])
            j = n['s'].get('ok')
            if j is not None:
                stack.append((j, h, c2, trace) if gk == 'ap' else (g, j, c2, trace))
            continue
        gl = gk if gk not in EVENTS else gk + ' ' + gn.get('key', gk)
        hl = hk if hk not in EVENTS else hk + ' ' + hn.get('key', hk)
        if gl != hl:
            if has_call_facts(ctx, H):
                res.undecided.append(('unmodelled call decides', G.where(g)))
                continue
            report('structure', g, h, f"does {describe(gn, ctx)}, must {describe(hn, ctx)}", ctx, trace)
            continue
        E = Eq(ctx, strip_post=not apsens)

        def chk(what, a, b):
            x, y = E.norm(a), E.norm(b)
            r = E.eq(x, y)
            if r is False:
                report(what, g, h, f"{gl}: {what} is {show(x)}, must be {show(y)}", ctx, trace)
            elif r is None:
                if ctx.feasible():
                    res.undecided.append((what, G.where(g), show(x)[:200]))
            return r

        asp, aspects = aspects, aspects | APFULL if gk == 'ap' and 'apfull' in aspects else aspects
        if gk in EVENTS:
            res.events += 1
            if 'ro' in gn and 'ro' in hn:
                a, b = gn['ro'], hn['ro']
                if is_t(a, 'agg') and is_t(b, 'agg') and len(a) == len(b) and len(a) >= 6:
                    names = ('endian', 'count', 'offset')
                    for i, nm in enumerate(names):
                        if nm in aspects:
                            chk(nm, a[3 + i], b[3 + i])
                elif aspects & {'endian', 'count', 'offset'}:
                    chk('options', a, b)
            if 'args' in gn and 'args' in hn and 'args' in aspects:
                chk('args', gn['args'], hn['args'])
            if 'pos' in gn and 'pos' in hn and 'pos' in aspects and gk != 'ev':
                chk('position', gn['pos'], hn['pos'])
            if 'self' in gn and 'self' in hn and 'self' in aspects:
                chk('value', gn['self'], hn['self'])
            if gk == 'rx' and 'len' in gn:
                chk('length', gn['len'], hn['len'])
            if gk == 'rd' and 'len' in gn:
                chk('length', gn['len'], hn['len'])
                if 'at' in gn:
                    chk('place in the buffer', gn['at'], hn['at'])
            if gk == 'seek' and 'to' in gn:
                chk('target', gn['to'], hn['to'])
            tk = gn.get('key', gk)
            for l, j in gn['edges']:
                j2 = hn['s'].get(l)
                if j2 is None:
                    report('structure', g, h, f"{gl} has outcome {l} which cannot happen", ctx, trace)
                    continue
                c2 = ctx.copy()
                c2.event(tk)
                if gk == 'rd' and 'at' in gn:
                    region_left(c2, gn, l, tk)
                stack.append((j, j2, c2, trace + (f"{gl} -> {l}",)))
            aspects = asp
            continue
        if gk == 'ret':
            res.rets += 1
            a, b = E.norm(gn['val']), E.norm(hn['val'])
            if 'epos' not in aspects:
                a, b = strip_epos(a), strip_epos(b)
            da = a[2] if is_t(a, 'agg') and a[1] == 'Result' else None
            db = b[2] if is_t(b, 'agg') and b[1] == 'Result' else None
            if da != db:
                if has_call_facts(ctx, H):
                    res.undecided.append(('unmodelled call decides', G.where(g)))
                    continue
                report('result', g, h, f"returns {show(a)[:300]}, must return {show(b)[:300]}", ctx, trace)
                continue
            if da == 1:
                if 'errval' in aspects:
                    chk('error', a, b)
                if 'errpos' in aspects:
                    chk('position after failure', gn['pos'], hn['pos'])
            else:
                if 'okval' in aspects:
                    chk('returned value', a, b)
                if 'okpos' in aspects:
                    chk('position after success', gn['pos'], hn['pos'])
            if 'roots' in gn and 'roots' in hn and 'roots' in aspects:
                chk('arguments after return', ('list',) + tuple(('e', x) for x in gn['roots']), ('list',) + tuple(('e', x) for x in hn['roots']))
            continue
        if gk == 'panic':
            continue
    return res


def has_call_facts(ctx, H):
    """the path so far was chosen by a std call the engine does not model and the reference never makes"""
    for g in list(ctx.b) + list(ctx.d) + list(ctx.l):
        for c in calls(g):
            if c[5:] not in H.opaque and c not in H.opaque:
                return True
    return False


def describe(n, ctx):
    k = n['k']
    if k in EVENTS:
        return f"{n.get('key', k)} at {show(absz(n['pos'], ctx.counts)) if 'pos' in n else '?'}"
    if k == 'ret':
        v = absz(n['val'], ctx.counts)
        return f"return {show(v)[:200]}"
    if k == 'panic':
        return f"panic ({n.get('msg')})"
    return k
