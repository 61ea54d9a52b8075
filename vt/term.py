"""Term language of the verifier: hash-consed, normalised terms over ints, bools, structures and sequences.

Binders (flat, psum, first, rec) bind `('bv', height, j, sort)`; a term is only ever opened with fresh symbols, so
no dangling bound variables exist outside their binder and alpha-equivalent terms are the same object."""
import itertools
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'args', 'fv', 'h', 'id', 'sort', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_ctr = itertools.count()
_fresh = itertools.count()
E0 = frozenset()


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    fv = None
    h = 0
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fv = a.fv if fv is None or fv is a.fv else fv | a.fv
            if a.h > h:
                h = a.h
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    if b.fv:
                        fv = b.fv if fv is None else fv | b.fv
                    if b.h > h:
                        h = b.h
    if op == 'ptr':
        for st in args[1]:
            for b in st:
                if isinstance(b, T):
                    if b.fv:
                        fv = b.fv if fv is None else fv | b.fv
                    h = max(h, b.h)
    if op in ('flat', 'psum', 'first', 'rec'):
        h = max(h, args[0])
    if op == 'sym':
        fv = None
        t.fv = E0
        t.h = h
        t.id = next(_ctr)
        _tab[key] = t
        t.fv = frozenset((t,))
        return t
    t.fv = fv or E0
    t.h = h
    t.id = next(_ctr)
    _tab[key] = t
    return t


# ------------------------------------------------------------------ symbols
RANGE = {}   # sym -> (lo, hi)

TYR = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
       'isize': (-2**63, 2**63 - 1), 'u8': (0, 255), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
       'usize': (0, 2**64 - 1), 'char': (0, 0x10ffff), 'bool': (0, 1)}


def sym(name, sort='U', rng=None):
    t = _mk('sym', (name,), sort)
    if rng:
        RANGE[t] = rng
    return t


def fresh(pfx='v', sort='U', rng=None):
    return sym(f'{pfx}!{next(_fresh)}', sort, rng)


def I(n):
    return _mk('int', (int(n),), 'I')


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def B(b):
    return TRUE if b else FALSE


def is_int(t):
    return t.op == 'int'


# ------------------------------------------------------------------ linear ints
def _lin_parts(t):
    if t.op == 'int':
        return t.args[0], ()
    if t.op == 'lin':
        return t.args[0], t.args[1]
    if t.sort == 'U':
        t = as_int(t)
        if t.op in ('int', 'lin'):
            return _lin_parts(t)
    return 0, ((t, 1),)


def as_int(t):
    """an element or field read without its type, used as a number"""
    if t.op == 'at':
        return _mk('at', t.args, 'I')
    if t.op == 'fld':
        return _mk('fld', t.args, 'I')
    if t.op == 'ite':
        return ite(t.args[0], as_int(t.args[1]), as_int(t.args[2]))
    return t


def _lin(c, parts):
    """parts: dict atom->coef"""
    ps = tuple(sorted(((a, k) for a, k in parts.items() if k), key=lambda x: x[0].id))
    if not ps:
        return I(c)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    # store as flat tuple to keep T children visible
    return _mk('lin', (c, ps, tuple(a for a, _ in ps)), 'I')


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        if isinstance(t, int):
            c += t
            continue
        c1, p = _lin_parts(t)
        c += c1
        for a, k in p:
            d[a] = d.get(a, 0) + k
    return _lin(c, d)


def scale(t, k):
    if isinstance(t, int):
        return I(t * k)
    c, p = _lin_parts(t)
    return _lin(c * k, {a: b * k for a, b in p})


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def mul(a, b):
    if a.op == 'int':
        return scale(b, a.args[0])
    if b.op == 'int':
        return scale(a, b.args[0])
    # distribute over lin
    if a.op == 'lin':
        c, p = _lin_parts(a)
        return add(scale(b, c), *[scale(mul(x, b), k) for x, k in p])
    if b.op == 'lin':
        return mul(b, a)
    fs = []
    for x in (a, b):
        fs += list(x.args) if x.op == 'mul' else [x]
    return _mk('mul', tuple(sorted(fs, key=lambda x: x.id)), 'I')


def tdiv(a, b):
    """Rust / (truncating)"""
    if b.op == 'int' and b.args[0] == 1:
        return a
    if a.op == 'int' and b.op == 'int' and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return I(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    return _mk('tdiv', (a, b), 'I')


def floordiv(a, n):
    """a / n rounded down, n > 0 a constant"""
    if n == 1:
        return a
    q = tdiv(a, I(n))
    return ite(lt(sub(a, mul(q, I(n))), I(0)), sub(q, I(1)), q)


def tmod(a, b):
    if a.op == 'int' and b.op == 'int' and b.args[0] != 0:
        return sub(a, mul(tdiv(a, b), b))
    return _mk('tmod', (a, b), 'I')


def interval(t, depth=0):
    """(lo, hi), None for unbounded"""
    if t.op == 'int':
        return t.args[0], t.args[0]
    if t in RANGE:
        return RANGE[t]
    if t.op == 'len':
        return 0, 2**63 - 1
    if t.op == 'discr':
        return 0, 255
    if t.op == 'first':
        return 0, 2**63 - 1
    if t.op == 'wrap':
        return TYR[t.args[1]]
    if t.op == 'b2i':
        return 0, 1
    if t.op == 'lin' and depth < 4:
        lo = hi = t.args[0]
        for a, k in t.args[1]:
            l, h = interval(a, depth + 1)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    if t.op == 'ite' and depth < 4:
        a, b = interval(t.args[1], depth + 1), interval(t.args[2], depth + 1)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0])), (None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if t.op == 'psum' and depth < 4:
        lo, hi = interval(t.args[2], depth + 1)
        return (0 if lo is not None and lo >= 0 else None), None
    if t.op == 'app' and t in RANGE:
        return RANGE[t]
    if t.op == 'app':
        r = APPR.get(t.args[0])
        if r:
            return r
    if t.op == 'fld':
        return FLDR.get(t.args[1:3], (None, None)) if False else (None, None)
    return None, None


ELNV = {('g:members', 0, 0): 3}        # ... fields of elements of a sequence
APPNV = {'evt': 11, 'enum': 3, 'lookup': 2}      # applications that yield a value of an enumeration


class _NV(dict):
    """opaque enum value -> number of variants"""

    def get(self, t, d=None):
        r = dict.get(self, t)
        if r is None and t.op == 'app':
            r = 2 if t.args[0].startswith('parse:') else APPNV.get(t.args[0])
        if r is None and t.op == 'fld' and t.args[0].op == 'at' and t.args[0].args[0].op == 'app':
            r = ELNV.get((t.args[0].args[0].args[0],) + tuple(t.args[1:3]))
        return d if r is None else r

    def __contains__(self, t):
        return self.get(t) is not None

    def __getitem__(self, t):
        r = self.get(t)
        if r is None:
            raise KeyError(t)
        return r


NV = _NV()
APPR = {}
FLDR = {}


def wrap(t, ty):
    lo, hi = TYR[ty]
    if t.op == 'int':
        v = t.args[0]
        m = hi - lo + 1
        return I((v - lo) % m + lo)
    if t.sort == 'B':
        return _mk('b2i', (t,), 'I')
    l, h = interval(t)
    if l is not None and h is not None and l >= lo and h <= hi:
        return t
    if t.op == 'ite':
        return ite(t.args[0], wrap(t.args[1], ty), wrap(t.args[2], ty))
    if t.op == 'wrap':
        l2, h2 = TYR[t.args[1]]
        if hi - lo < h2 - l2:       # narrower: inner wrap does not matter (powers of two)
            return wrap(t.args[0], ty)
    return _mk('wrap', (t, ty), 'I')


def b2i(t):
    if t is TRUE:
        return I(1)
    if t is FALSE:
        return I(0)
    return _mk('b2i', (t,), 'I')


# ------------------------------------------------------------------ bools
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'le0':   # ¬(x<=0) ⇔ x>=1 ⇔ 1-x<=0
        return le0(sub(I(1), t.args[0]))
    if t.op == 'and':
        return or_(*[not_(a) for a in t.args])
    if t.op == 'or':
        return and_(*[not_(a) for a in t.args])
    return _mk('not', (t,), 'B')


def and_(*ts):
    s = {}
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            st.extend(reversed(t.args))
            continue
        s[t] = 1
    # eq(x,c) facts: conflicting constants
    consts = {}
    for t in s:
        if t.op == 'eq' and t.args[1].op in ('int', 'lit'):
            o = consts.get(t.args[0])
            if o is not None and o is not t.args[1]:
                return FALSE
            consts[t.args[0]] = t.args[1]
    for t in list(s):
        if t.op != 'or' and not_(t) in s:
            return FALSE
        if t.op == 'not' and t.args[0].op == 'eq':
            e = t.args[0]
            c = consts.get(e.args[0])
            if c is not None and e.args[1].op in ('int', 'lit') and c is not e.args[1]:
                del s[t]
    # unit propagation into ors
    for t in list(s):
        if t.op == 'or' and t in s:
            nt = []
            dropit = False
            for a in t.args:
                if a in s:
                    dropit = True
                    break
                if not_(a) in s:
                    continue
                if a.op == 'and':
                    if any(not_(b) in s for b in a.args):
                        continue
                    r = and_(*[b for b in a.args if b not in s])
                    if r is TRUE:
                        dropit = True
                        break
                    a = r
                    if a.op == 'eq' and a.args[1].op in ('int', 'lit') and a.args[0] in consts and consts[a.args[0]] is not a.args[1]:
                        continue
                elif a.op == 'eq' and a.args[1].op in ('int', 'lit') and a.args[0] in consts:
                    continue
                nt.append(a)
            if dropit:
                del s[t]
            elif len(nt) != len(t.args) or tuple(nt) != t.args:
                del s[t]
                return and_(or_(*nt), *s)
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mk('and', tuple(sorted(s, key=lambda x: x.id)), 'B')


def or_(*ts):
    s = {}
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == 'or':
            st.extend(reversed(t.args))
            continue
        s[t] = 1
    for t in list(s):
        if t.op != 'and' and not_(t) in s:
            return TRUE
    # absorption and factoring of common literals
    if len(s) > 1:
        lits = [frozenset(t.args) if t.op == 'and' else frozenset((t,)) for t in s]
        common = frozenset.intersection(*lits)
        if common:
            rest = [and_(*sorted(l - common, key=lambda x: x.id)) for l in lits]
            return and_(or_(*rest), *sorted(common, key=lambda x: x.id))
        # a ∨ (¬a ∧ b) = a ∨ b ; a ∨ (a ∧ b) = a
        units = {next(iter(l)) for l in lits if len(l) == 1}
        out = []
        ch = False
        for l in lits:
            if len(l) > 1:
                if l & units:
                    ch = True
                    continue
                l2 = frozenset(x for x in l if not_(x) not in units)
                if len(l2) != len(l):
                    ch = True
                out.append(l2)
            else:
                out.append(l)
        if not ch:
            # (p∧x)∨(¬p∧x) pairs
            for i in range(len(out)):
                for j in range(i):
                    d1, d2 = out[i] - out[j], out[j] - out[i]
                    if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) is next(iter(d2)):
                        m = out[i] & out[j]
                        r = [o for k, o in enumerate(out) if k not in (i, j)] + [m]
                        return or_(*[and_(*sorted(x, key=lambda y: y.id)) for x in r])
        else:
            return or_(*[and_(*sorted(x, key=lambda y: y.id)) for x in out])
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mk('or', tuple(sorted(s, key=lambda x: x.id)), 'B')


def implies(a, b):
    return or_(not_(a), b)


def le0(t):
    """t <= 0"""
    if t.op == 'int':
        return B(t.args[0] <= 0)
    lo, hi = interval(t)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    c, p = _lin_parts(t)
    # b2i / ite with constant leaves
    if len(p) == 1 and p[0][0].op == 'ite' and _const_leaves(p[0][0]):
        a, k = p[0]
        return _dist(a, lambda x: B(x.args[0] * k + c <= 0))
    import math
    g = 0
    for _, k in p:
        g = math.gcd(g, k)
    if g > 1:
        # g*X + c <= 0  ⇔ X <= floor(-c/g)
        c2 = -((-c) // g)
        t = _lin(c2, {a: k // g for a, k in p})
    return _mk('le0', (t,), 'B')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def _const_leaves(t, d=0):
    if t.op in ('int', 'lit', 'true', 'false'):
        return True
    return t.op == 'ite' and d < 12 and _const_leaves(t.args[1], d + 1) and _const_leaves(t.args[2], d + 1)


def _dist(t, f):
    if t.op == 'ite':
        a, b = _dist(t.args[1], f), _dist(t.args[2], f)
        return ite(t.args[0], a, b)
    return f(t)


SEQOPS = {'cat', 'flat', 'lit', 'unit'}


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if not_(a) is b:
            return FALSE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 'I' and b.sort == 'I':
        d = sub(a, b)
        if d.op == 'int':
            return B(d.args[0] == 0)
        lo, hi = interval(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
        c, p = _lin_parts(d)
        if len(p) == 1:
            x, k = p[0]
            if (-c) % k:
                return FALSE
            v = I(-c // k)
            if x.op == 'ite' and (_const_leaves(x) or (v.op == 'int' and (x.args[1].op == 'int' or x.args[2].op == 'int'))):
                return ite(x.args[0], eq(x.args[1], v), eq(x.args[2], v))
            if x.op == 'b2i':
                return x.args[0] if v.args[0] == 1 else not_(x.args[0]) if v.args[0] == 0 else FALSE
            if x.op == 'discr' and x.args[0] in NV and v.op == 'int':
                n = NV[x.args[0]]
                if v.args[0] < 0 or v.args[0] >= n:
                    return FALSE
                if n == 2 and v.args[0] == 1:
                    return not_(_mk('eq', (x, I(0)), 'B'))
            return _mk('eq', (x, v), 'B')
        # sign-normalise
        if p[0][1] < 0:
            d = scale(d, -1)
        return _mk('eq', (d, I(0)), 'B')
    # structures
    if a.op == 'ite' and (b.op in ('mk', 'lit', 'cat') or _const_leaves(a)):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and (a.op in ('mk', 'lit', 'cat') or _const_leaves(b)):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'mk' and b.op == 'mk':
        if a.args[:2] != b.args[:2]:
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == 'mk' and b.op != 'mk':
        return and_(eq(discr(b), I(a.args[1])), *[eq(x, fld(b, a.args[1], i, x.sort)) for i, x in enumerate(a.args[2:])])
    if b.op == 'mk':
        return eq(b, a)
    if a.op == 'lit' and b.op == 'lit':
        return FALSE
    if a.op == 'lit' or (b.op != 'lit' and a.id > b.id):
        a, b = b, a
    if b.op == 'lit':
        if a.op == 'cat':
            # peel constants
            segs = list(a.args)
            l = b.args[0]
            ch = False
            while segs and segs[0].op == 'lit':
                x = segs[0].args[0]
                if l[:len(x)] != x:
                    return FALSE
                l = l[len(x):]
                segs.pop(0)
                ch = True
            while segs and segs[-1].op == 'lit':
                x = segs[-1].args[0]
                if len(l) < len(x) or l[len(l) - len(x):] != x:
                    return FALSE
                l = l[:len(l) - len(x)]
                segs.pop()
                ch = True
            if ch:
                return eq(cat(*segs), lit(l))
        if a.op == 'unit':
            return eq(a.args[0], I(b.args[0][0])) if len(b.args[0]) == 1 else FALSE
        lo = len_(a)
        if lo.op == 'int' and lo.args[0] != len(b.args[0]):
            return FALSE
    if b.op == 'cat' and not b.args:
        return eq(len_(a), I(0))
    if a.op == 'cat' and not a.args:
        return eq(len_(b), I(0))
    if a.op == 'unit' and b.op == 'unit':
        return eq(a.args[0], b.args[0])
    return _mk('eq', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE or a is b or b.op == 'junk':
        return a
    if c is FALSE or a.op == 'junk':
        return b
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'le0':
        # canonical orientation of an order test: smaller id of the two
        n = not_(c)
        if n.id < c.id:
            c, a, b = n, b, a
    a = under(a, c, True)
    b = under(b, c, False)
    if a is b:
        return a
    if c.op == 'eq' and c.args[0].op == 'discr' and a.op == 'mk' and a.args[0] in ('Option', 'Result'):
        # eta: a value rebuilt from its own parts
        x = c.args[0].args[0]
        if a.args[0] == 'Option' and b is NONE and c.args[1].args[0] == 1 and len(a.args) == 3 and _part(a.args[2], x, 1):
            return x
        if a.args[0] == 'Result' and b.op == 'mk' and b.args[0] == 'Result' and c.args[1].args[0] == a.args[1] == 0 and b.args[1] == 1 and _part(a.args[2], x, 0) and _part(b.args[2], x, 1):
            return x
    if a.op == 'mk' and b.op == 'mk' and a.args[:2] == b.args[:2] and len(a.args) > 2:
        return _mk('mk', a.args[:2] + tuple(ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])), 'U')
    if a.sort == 'I':
        ca, pa = _lin_parts(a)
        cb, pb = _lin_parts(b)
        da, db = dict(pa), dict(pb)
        common = {x: k for x, k in pa if db.get(x) == k}
        if common or (ca == cb and ca and (pa or pb)):
            cc = ca if ca == cb else 0
            ra = _lin(ca - cc, {x: k for x, k in pa if x not in common})
            rb = _lin(cb - cc, {x: k for x, k in pb if x not in common})
            return add(_lin(cc, common), ite(c, ra, rb))
    if a.op in SEQOPS or b.op in SEQOPS:
        sa, sb = segs(a), segs(b)
        i = 0
        while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
            i += 1
        pre = []
        if i < len(sa) and i < len(sb) and sa[i].op == 'lit' and sb[i].op == 'lit':
            x, y = sa[i].args[0], sb[i].args[0]
            k = 0
            while k < len(x) and k < len(y) and x[k] == y[k]:
                k += 1
            if k:
                pre = [lit(x[:k])]
                sa = sa[:i] + ([lit(x[k:])] if x[k:] else []) + sa[i + 1:]
                sb = sb[:i] + ([lit(y[k:])] if y[k:] else []) + sb[i + 1:]
        if i or pre:
            return cat(*(sa_common(a, i)), *pre, ite(c, cat(*sa[i:]), cat(*sb[i:])))
        j = 0
        while j < len(sa) and j < len(sb) and sa[-1 - j] is sb[-1 - j]:
            j += 1
        if j:
            return cat(ite(c, cat(*sa[:-j]), cat(*sb[:-j])), *sa[-j:])
    # ite(c, ite(d,x,y), y) -> ite(c∧d, x, y) and friends
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    return _mk('ite', (c, a, b), a.sort if a.sort == b.sort else 'U')


def _part(t, x, v):
    if t.op == 'fld' and t.args[0] is x and t.args[1:] == (v, 0):
        return True
    return t.op == 'mk' and t.args[0] == 'tup' and len(t.args) > 2 and all(f.op == 'fld' and f.args[1:] == (0, i) and _part(f.args[0], x, v) for i, f in enumerate(t.args[2:]))


def sa_common(a, i):
    return segs(a)[:i]


def under(t, c, val, depth=6):
    """simplify t knowing the condition c is val (shallow)"""
    if t.op == 'ite' and depth:
        d = t.args[0]
        r = decide(d, c, val)
        if r is True:
            return under(t.args[1], c, val, depth - 1)
        if r is False:
            return under(t.args[2], c, val, depth - 1)
    return t


def decide(d, c, val):
    if d is c:
        return val
    if not_(d) is c:
        return not val
    if val and c.op == 'and':
        if d in c.args:
            return True
        if not_(d) in c.args:
            return False
        if d.op == 'and' and all(x in c.args for x in d.args):
            return True
        if d.op == 'and' and any(not_(x) in c.args for x in d.args):
            return False
    if not val and c.op == 'or':
        if d in c.args:
            return False
        if not_(d) in c.args:
            return True
    if val and c.op == 'eq' and d.op == 'eq' and d.args[0] is c.args[0] and d.args[1].op in ('int', 'lit') and c.args[1].op in ('int', 'lit'):
        return d.args[1] is c.args[1]
    if val and d.op == 'and' and not_(c) in d.args:
        return False
    if val and d.op == 'or' and c in d.args:
        return True
    if not val and d.op == 'and' and c in d.args:
        return False
    if not val and d.op == 'or' and not_(c) in d.args:
        return True
    return None


# ------------------------------------------------------------------ structures
def mk(ty, variant, *fields):
    return _mk('mk', (ty, variant) + tuple(fields), 'U')


def tup(*xs):
    return mk('tup', 0, *xs)


def some(x):
    return mk('Option', 1, x)


NONE = mk('Option', 0)
UNIT = mk('tup', 0)


def ok(x):
    return mk('Result', 0, x)


def err(x):
    return mk('Result', 1, x)


def fld(t, variant, i, sort='U'):
    if t.op == 'mk':
        if t.args[1] == variant and i + 2 < len(t.args):
            return t.args[2 + i]
        return _mk('junk', (), sort)      # wrong variant: never read by well-defined code
    if t.op == 'junk':
        return _mk('junk', (), sort)
    if t.op == 'ite':
        # branches that cannot have the variant drop out
        a, b = t.args[1], t.args[2]
        return ite(t.args[0], fld(a, variant, i, sort), fld(b, variant, i, sort))
    return _mk('fld', (t, variant, i), sort)


def discr(t):
    if t.op == 'junk':
        return _mk('junk', (), 'I')
    if t.op == 'mk':
        return I(t.args[1])
    if t.op == 'ite':
        return ite(t.args[0], discr(t.args[1]), discr(t.args[2]))
    return _mk('discr', (t,), 'I')


def isv(t, k):
    return eq(discr(t), I(k))


def is_some(t):
    return isv(t, 1)


NORM = {'map_entries': lambda m: m if m is EMPTY else None}       # function symbol -> normaliser (its defining equations)


def app(f, *args, sort='U', rng=None):
    if f in NORM:
        r = NORM[f](*args)
        if r is not None:
            return r
    t = _mk('app', (f,) + tuple(args), sort)
    if rng:
        RANGE[t] = rng
    return t


# ------------------------------------------------------------------ sequences
def lit(x):
    if isinstance(x, str):
        x = tuple(ord(c) for c in x)
    x = tuple(x)
    if not x:
        return EMPTY
    return _mk('lit', (x,), 'U')


EMPTY = _mk('cat', (), 'U')


def unit(v):
    if v.op == 'int':
        return lit((v.args[0],))
    return _mk('unit', (v,), 'U')


def segs(s):
    if s.op == 'cat':
        return list(s.args)
    return [s]


def cat(*ss):
    out = []
    for s in ss:
        for g in segs(s):
            if g.op == 'lit' and out and out[-1].op == 'lit':
                out[-1] = lit(out[-1].args[0] + g.args[0])
            else:
                out.append(g)
    if len(out) == 1:
        return out[0]
    return _mk('cat', tuple(out), 'U')


def len_(s):
    o = s.op
    if o == 'junk':
        return _mk('junk', (), 'I')
    if o == 'lit':
        return I(len(s.args[0]))
    if o == 'unit':
        return I(1)
    if o == 'cat':
        return add(0, *[len_(g) for g in s.args])
    if o == 'flat':
        h, n, body = s.args
        if body.op in ('unit', 'lit'):
            return n if body.op == 'unit' else scale(n, len(body.args[0]))
        v = fresh('k', 'I')
        return psum(n, v, len_(opn(s, v)))
    if o == 'ite':
        return ite(s.args[0], len_(s.args[1]), len_(s.args[2]))
    return _mk('len', (s,), 'I')


def at(s, i, sort='U'):
    o = s.op
    if o == 'junk':
        return _mk('junk', (), sort)
    if o == 'lit' and i.op == 'int' and 0 <= i.args[0] < len(s.args[0]):
        return I(s.args[0][i.args[0]])
    if o == 'unit':
        return s.args[0]
    if o == 'ite':
        return ite(s.args[0], at(s.args[1], i, sort), at(s.args[2], i, sort))
    if o == 'flat' and s.args[2].op == 'unit':
        return opn(s, i).args[0]
    if o == 'flat' and s.args[2].op == 'lit' and len(s.args[2].args[0]) == 1:
        return I(s.args[2].args[0][0])
    if o == 'cat' and s.args:
        g = s.args[0]
        n = len_(g)
        r = lt(i, n)
        if r is TRUE:
            return at(g, i, sort)
        rest = cat(*s.args[1:])
        if r is FALSE:
            return at(rest, sub(i, n), sort)
        if len(s.args) > 1 and rest.op in ('unit', 'lit', 'flat', 'sym', 'fld', 'app', 'cat'):
            return ite(r, at(g, i, sort), at(rest, sub(i, n), sort))
    return _mk('at', (s, i), sort)


def flat(n, v, body):
    """concatenation of body[v:=0], ..., body[v:=n-1]"""
    if n.op == 'int' and n.args[0] <= 0:
        return EMPTY
    if n.op == 'int' and n.args[0] <= 4:
        return cat(*[subst(body, {v: I(i)}) for i in range(n.args[0])])
    if body is EMPTY:
        return EMPTY
    if body.op == 'unit':
        b = body.args[0]
        if b.op == 'at' and b.args[1] is v and v not in b.args[0].fv and len_(b.args[0]) is n:
            return b.args[0]
    lo, hi = interval(n)
    h = body.h + 1
    return _mk('flat', (h, n, close(body, [v], h)), 'U')


def sslice(s, a, b):
    """s[a..b]"""
    if a.op == 'int' and a.args[0] == 0 and b is len_(s):
        return s
    if s.op == 'lit' and a.op == 'int' and b.op == 'int':
        return lit(s.args[0][a.args[0]:b.args[0]])
    # drop whole leading segments
    sg = segs(s)
    if len(sg) > 1 or s.op == 'unit':
        off = I(0)
        i = 0
        while i < len(sg) and off is not a:
            off = add(off, len_(sg[i]))
            i += 1
        if off is a:
            off2 = off
            j = i
            while j < len(sg) and off2 is not b:
                off2 = add(off2, len_(sg[j]))
                j += 1
            if off2 is b:
                return cat(*sg[i:j])
            if i:
                return sslice(cat(*sg[i:]), I(0), sub(b, a))
    if s.op == 'ite':
        return ite(s.args[0], sslice(s.args[1], a, b), sslice(s.args[2], a, b))
    v = fresh('k', 'I', (0, 2**63 - 1))
    x = at(s, add(a, v))
    if x.sort == 'U' and ELTSORT.get(s):
        x = at(s, add(a, v), ELTSORT[s])
    return flat(sub(b, a), v, unit(x))


ELTSORT = {}


def psum(n, v, body):
    if v not in body.fv:
        return mul(n, body)
    if n.op == 'int' and n.args[0] <= 0:
        return I(0)
    if n.op == 'int' and n.args[0] <= 4:
        return add(0, *[subst(body, {v: I(i)}) for i in range(n.args[0])])
    c, p = _lin_parts(n)
    if c > 0 and c <= 4 and p:
        m = _lin(0, dict(p))
        return add(psum(m, v, body), *[subst(body, {v: add(m, i)}) for i in range(c)])
    # split linear combinations
    if body.op == 'lin':
        c, p = _lin_parts(body)
        return add(scale(n, c), *[scale(psum(n, v, a), k) for a, k in p])
    c = shift_of(body, v)
    if c and c <= 2 and (interval(n)[0] is not None and interval(n)[0] >= 0):
        # sum over i<n of g(i+c) = sum over j<n+c of g(j) - sum over j<c of g(j)
        g = subst(body, {v: sub(v, I(c))})
        return sub(psum(add(n, I(c)), v, g), psum(I(c), v, g))
    h = body.h + 1
    return _mk('psum', (h, n, close(body, [v], h)), 'I')


def shift_of(t, v):
    """least c such that v + c indexes a sequence in t"""
    best = None
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or v not in x.fv:
            continue
        seen.add(x)
        if x.op == 'at':
            c, p = _lin_parts(x.args[1])
            d = dict(p)
            if d.get(v) == 1 and len(d) == 1 and (best is None or c < best):
                best = c
        st += children(x)
    return best


def first(n, v, p):
    """least k with 0<=k<n and p(k), else n; n None: unbounded"""
    if p is TRUE:
        return I(0)
    if p is FALSE and n is not None:
        return n
    if n is not None and n.op == 'int' and n.args[0] <= 0:
        return I(0)
    if n is not None and n.op == 'int' and n.args[0] <= 8:
        r = n
        for j in reversed(range(n.args[0])):
            r = ite(subst(p, {v: I(j)}), I(j), r)
        return r
    # invariant disjuncts
    if p.op == 'or':
        inv = [x for x in p.args if v not in x.fv]
        if inv:
            return ite(or_(*inv), I(0), first(n, v, or_(*[x for x in p.args if v in x.fv])))
        # bounds k >= N
        for x in p.args:
            N = bound_of(x, v)
            if N is not None:
                r = or_(*[y for y in p.args if y is not x])
                if n is None:
                    n2 = N
                else:
                    n2 = ite(le(N, n), N, n)
                return first(n2, v, strengthen(r, v, n2))
    N = bound_of(p, v)
    if N is not None:
        if n is None:
            return N
        return ite(le(N, n), N, n)
    if v not in p.fv:
        if n is not None:
            return ite(and_(p, lt(I(0), n)), I(0), n)
    if n is not None:
        p = strengthen(p, v, n)
    h = p.h + 1
    return _mk('first', (h, n if n is not None else NONE, close(p, [v], h)), 'I')


def strengthen(p, v, n):
    """drop conjuncts implied by v < n"""
    if p.op == 'and':
        lim = lt(v, n)
        return and_(*[x for x in p.args if x is not lim])
    if p.op == 'or':
        lim = lt(v, n)
        nl = not_(lim)
        return or_(*[strengthen(x, v, n) for x in p.args if x is not nl])
    return p


def bound_of(x, v):
    """x is  v >= N  with N free of v (and N>=0 known)  ->  N"""
    if x.op == 'le0':
        c, p = _lin_parts(x.args[0])
        d = dict(p)
        if d.get(v) == -1:
            del d[v]
            N = _lin(c, d)
            if v not in N.fv:
                lo, hi = interval(N)
                if lo is not None and lo >= 0:
                    return N
                return ite(le0(N), I(0), N)
    if x.op == 'eq':
        # v == N with v counting up from 0 and N >= 0
        if x.args[1].op == 'int':
            c, p = _lin_parts(sub(x.args[0], x.args[1]))
            d = dict(p)
            if d.get(v) in (1, -1):
                s = d.pop(v)
                N = _lin(-c * s, {a: -k * s for a, k in d.items()})
                lo, hi = interval(N)
                if v not in N.fv and lo is not None and lo >= 0:
                    return N
    return None


def rec(n, inits, vs, kv, steps, idx):
    """component idx of the state after n steps: s0 = inits, s_{i+1} = steps[kv:=i, vs:=s_i]"""
    if n.op == 'int' and n.args[0] == 0:
        return inits[idx]
    if n.op == 'int' and 0 < n.args[0] <= 2:
        cur = list(inits)
        for i in range(n.args[0]):
            m = dict(zip(vs, cur))
            m[kv] = I(i)
            cur = [subst(s, m) for s in steps]
        return cur[idx]
    c, p = _lin_parts(n)
    if 0 < c <= 2 and p:
        m = _lin(0, dict(p))
        cur = [rec(m, inits, vs, kv, steps, j) for j in range(len(inits))]
        for i in range(c):
            mm = dict(zip(vs, cur))
            mm[kv] = add(m, i)
            cur = [subst(s, mm) for s in steps]
        return cur[idx]
    h = max(s.h for s in steps) + 1
    bv = [kv] + list(vs)
    cl = tuple(close(s, bv, h) for s in steps)
    return _mk('rec', (h, n, idx, tuple(inits), cl), inits[idx].sort)


# ------------------------------------------------------------------ binding machinery
def bvar(h, j, sort):
    return _mk('bv', (h, j), sort)


def close(t, vs, h):
    return _sub(t, {v: bvar(h, j, v.sort) for j, v in enumerate(vs)}, {})


def opn(t, *vals):
    """body of the binder t with its bound variables replaced (single-body binders)"""
    h = t.args[0]
    return _open(t.args[2], h, vals, {})


def open_rec(t, vals):
    h = t.args[0]
    return [_open(s, h, vals, {}) for s in t.args[4]]


def _open(t, h, vals, memo):
    if t.op == 'bv':
        if t.args[0] == h:
            return vals[t.args[1]]
        return t
    if not t.args or t.op in ('int', 'sym', 'lit'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if not hasbv(t, h):
        return t
    r = rebuild(t, lambda x: _open(x, h, vals, memo))
    memo[t] = r
    return r


_hb = {}


def hasbv(t, h):
    """does t contain a bv of height h not shadowed"""
    k = (t, h)
    r = _hb.get(k)
    if r is not None:
        return r
    if t.op == 'bv':
        r = t.args[0] == h
    elif t.op in ('int', 'sym', 'lit'):
        r = False
    else:
        r = False
        binder = t.op in ('flat', 'psum', 'first', 'rec')
        for x in children(t):
            if hasbv(x, h):
                r = True
                break
        if binder and t.args[0] == h:
            # only the non-scoped parts count
            r = any(hasbv(x, h) for x in unscoped(t))
    _hb[k] = r
    return r


def unscoped(t):
    if t.op in ('flat', 'psum'):
        return [t.args[1]]
    if t.op == 'first':
        return [t.args[1]]
    if t.op == 'rec':
        return [t.args[1]] + list(t.args[3])
    return []


def children(t):
    if t.op == 'lin':
        return t.args[2]
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            out += [b for b in a if isinstance(b, T)]
    return out


def rebuild(t, f):
    """re-normalise t with f applied to its children (binders are opened and closed again)"""
    o = t.op
    a = t.args
    if o == 'lin':
        return add(a[0], *[scale(f(x), k) for x, k in a[1]])
    if o == 'mul':
        r = f(a[0])
        for x in a[1:]:
            r = mul(r, f(x))
        return r
    if o == 'tdiv':
        return tdiv(f(a[0]), f(a[1]))
    if o == 'tmod':
        return tmod(f(a[0]), f(a[1]))
    if o == 'wrap':
        return wrap(f(a[0]), a[1])
    if o == 'b2i':
        return b2i(f(a[0]))
    if o == 'not':
        return not_(f(a[0]))
    if o == 'and':
        return and_(*[f(x) for x in a])
    if o == 'or':
        return or_(*[f(x) for x in a])
    if o == 'le0':
        return le0(f(a[0]))
    if o == 'eq':
        return eq(f(a[0]), f(a[1]))
    if o == 'ite':
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if o == 'mk':
        return _mk('mk', a[:2] + tuple(f(x) for x in a[2:]), 'U')
    if o == 'fld':
        return fld(f(a[0]), a[1], a[2], t.sort)
    if o == 'discr':
        return discr(f(a[0]))
    if o == 'app':
        r = app(a[0], *[f(x) if isinstance(x, T) else x for x in a[1:]], sort=t.sort)
        if t in RANGE:
            RANGE[r] = RANGE[t]
        h = APPNORM.get(a[0])
        return h(r) if h else r
    if o == 'unit':
        return unit(f(a[0]))
    if o == 'cat':
        return cat(*[f(x) for x in a])
    if o == 'len':
        return len_(f(a[0]))
    if o == 'at':
        return at(f(a[0]), f(a[1]), t.sort)
    if o == 'ptr':
        return _mk('ptr', (a[0], tuple(tuple(f(y) if isinstance(y, T) else y for y in x) for x in a[1])), 'U')
    if o in ('flat', 'psum', 'first'):
        v = fresh('k', 'I', (0, 2**63 - 1))
        body = f(opn(t, v))
        n = f(a[1])
        if o == 'flat':
            return flat(n, v, body)
        if o == 'psum':
            return psum(n, v, body)
        return first(None if n is NONE else n, v, body)
    if o == 'rec':
        kv = fresh('k', 'I', (0, 2**63 - 1))
        vs = [fresh('r', x.sort) for x in a[3]]
        steps = [f(s) for s in open_rec(t, [kv] + vs)]
        return rec(f(a[1]), [f(x) for x in a[3]], vs, kv, steps, a[2])
    if o in ('int', 'sym', 'bv', 'lit', 'true', 'false', 'junk'):
        return t
    raise ValueError('rebuild ' + o)


APPNORM = {}


def subst(t, m):
    """replace symbols/terms by terms"""
    return _sub(t, m, {})


def _sub(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    if t.op in ('int', 'lit', 'bv', 'true', 'false', 'sym'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if not any(k in t.fv if k.op == 'sym' else True for k in m):
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _sub(x, m, memo))
    memo[t] = r
    return r


def ptr(root, path=()):
    return _mk('ptr', (root, tuple(path)), 'U')


# ------------------------------------------------------------------ printing
def show(t, d=0):
    o, a = t.op, t.args
    if d > 40:
        return '…'
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o == 'int':
        return str(a[0])
    if o == 'sym':
        return a[0]
    if o == 'bv':
        return f'#{a[0]}' if a[1] == 0 else f'#{a[0]}.{a[1]}'
    if o == 'lin':
        r = ' + '.join((f'{k}*' if k != 1 else '') + s(x) for x, k in a[1])
        return f'({r}{" + " + str(a[0]) if a[0] else ""})'
    if o == 'mk':
        return f'{a[0]}.{a[1]}(' + ', '.join(s(x) for x in a[2:]) + ')'
    if o == 'fld':
        return f'{s(a[0])}.{a[1]}.{a[2]}' if a[1] else f'{s(a[0])}.{a[2]}'
    if o == 'lit':
        if all(32 <= c < 0x110000 or c in (9, 10) for c in a[0]):
            return repr(''.join(map(chr, a[0])))
        return str(a[0])
    if o == 'cat':
        return '[' + ' ++ '.join(s(x) for x in a) + ']'
    if o == 'unit':
        return f'<{s(a[0])}>'
    if o == 'flat':
        return f'flat#{a[0]}({s(a[1])}: {s(a[2])})'
    if o in ('psum', 'first'):
        return f'{o}#{a[0]}({s(a[1])}: {s(a[2])})'
    if o == 'rec':
        return f'rec#{a[0]}({s(a[1])}, {a[2]}; ' + ', '.join(map(s, a[3])) + '; ' + ', '.join(map(s, a[4])) + ')'
    if o == 'eq':
        return f'({s(a[0])} = {s(a[1])})'
    if o == 'le0':
        return f'({s(a[0])} <= 0)'
    if o == 'not':
        return f'¬{s(a[0])}'
    if o == 'and':
        return '(' + ' ∧ '.join(map(s, a)) + ')'
    if o == 'or':
        return '(' + ' ∨ '.join(map(s, a)) + ')'
    if o == 'ite':
        return f'({s(a[0])} ? {s(a[1])} : {s(a[2])})'
    if o == 'at':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'app':
        return f'{a[0]}(' + ', '.join(map(s, a[1:])) + ')'
    return f'{o}(' + ', '.join(map(s, a)) + ')'
