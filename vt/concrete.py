"""Concrete evaluation of obligations: turns a failed equality into a refutation when some assignment separates it.

Only assignments in which every fact holds and every operation has a known meaning count; anything else is discarded,
so a refutation is a genuine counter-model of the obligation (of the code's terms under the assumed contracts)."""
import random
import time
import term as tm
from term import T, NONE


class Abort(Exception):
    pass


class Op:
    """a lazily chosen opaque value"""
    __slots__ = ('name', 'kind', 'd', 'f', 'seq', 'nv', 'eqs')

    def __init__(self, name, nv=None):
        self.name = name
        self.kind = None
        self.d = None
        self.f = {}
        self.seq = None
        self.nv = nv


class Mk:
    __slots__ = ('name', 'v', 'args')

    def __init__(self, name, v, args):
        self.name, self.v, self.args = name, v, args


class App:
    __slots__ = ('name', 'args')

    def __init__(self, name, args):
        self.name, self.args = name, args


JUNK = object()
CHARS = [ord(c) for c in 'abn0'] + [38, 60, 9]


class Eval:
    def __init__(self, rnd, free=()):
        self.r = rnd
        self.env = {}
        self.parent = {}
        self.diff = set()
        self.steps = 0
        self.free = free
        self.memo = {}

    # union-find over opaque values
    def find(self, o):
        while o in self.parent:
            o = self.parent[o]
        return o

    def num(self, rng=None):
        lo, hi = rng if rng else (0, 100)
        lo = -5 if lo is None else lo
        hi = lo + 100 if hi is None else hi
        k = self.r.random()
        if k < 0.15:
            return self.r.choice([lo, hi])
        if lo <= 0 <= hi and k < 0.8:
            return self.r.randint(max(lo, -4), min(hi, 6))
        return self.r.randint(lo, hi)

    def leaf(self, t, sort, name):
        if sort == 'B':
            return self.r.random() < 0.5
        if sort == 'I':
            return self.num(tm.interval(t) if t is not None else None)
        return Op(name, tm.NV.get(t) if t is not None else None)

    def seq(self, o, sort=None):
        """force an opaque value to be a sequence"""
        if isinstance(o, tuple):
            return o
        if not isinstance(o, Op):
            raise Abort('seq of ' + type(o).__name__)
        o = self.find(o)
        if o.kind is None:
            o.kind = 'seq'
            o.seq = [None] * self.r.choice([0, 0, 1, 1, 2, 2, 3, 4])
            o.d = sort
        if o.kind != 'seq':
            raise Abort('kind')
        return o

    def seqlen(self, o):
        s = self.seq(o)
        return len(s) if isinstance(s, tuple) else len(s.seq)

    def get(self, o, i, sort='U'):
        s = self.seq(o)
        if isinstance(s, tuple):
            if not 0 <= i < len(s):
                return JUNK
            return s[i]
        if not 0 <= i < len(s.seq):
            return JUNK
        if s.seq[i] is None:
            s.seq[i] = self.r.choice(CHARS) if sort == 'I' and s.d == 'chars' else self.leaf(None, sort, f'{s.name}[{i}]')
        return s.seq[i]

    def struct(self, o):
        o = self.find(o)
        if o.kind is None:
            o.kind = 'struct'
        if o.kind != 'struct':
            raise Abort('kind')
        return o

    def discr(self, o, t=None):
        if o is JUNK:
            return JUNK
        if isinstance(o, Mk):
            return o.v
        if isinstance(o, Op):
            o = self.struct(o)
            if o.d is None:
                n = o.nv or (tm.NV.get(t) if t is not None else None)
                if n is None:
                    n = 2
                o.d = self.r.randrange(n)
            return o.d
        raise Abort('discr')

    def field(self, o, v, i, sort, t=None):
        if o is JUNK:
            return JUNK
        if isinstance(o, Mk):
            if o.v != v or i >= len(o.args):
                return JUNK
            return o.args[i]
        if isinstance(o, Op):
            o = self.struct(o)
            k = (v, i)
            if k not in o.f:
                o.f[k] = self.leaf(t, sort, f'{o.name}.{v}.{i}')
            return o.f[k]
        raise Abort('field')

    def eq(self, a, b, final=False):
        self.steps += 1
        if self.steps > 60000:
            raise Abort('steps')
        if a is JUNK or b is JUNK:
            raise Abort('junk')
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, int) or isinstance(b, int):
            if type(a) is not type(b):
                raise Abort('types')
            return a == b
        if isinstance(a, Op):
            a = self.find(a)
        if isinstance(b, Op):
            b = self.find(b)
        if a is b:
            return True
        if isinstance(a, Mk) and isinstance(b, Mk):
            if a.v != b.v or len(a.args) != len(b.args):
                return False
            return all(self.eq(x, y, final) for x, y in zip(a.args, b.args))
        if isinstance(a, App) and isinstance(b, App):
            if a.name != b.name or len(a.args) != len(b.args):
                raise Abort('apps')
            if all(self.eq(x, y, final) if not isinstance(x, str) else x == y for x, y in zip(a.args, b.args)):
                return True
            if a.name in self.free:
                return False
            raise Abort('app')
        if isinstance(a, App) or isinstance(b, App):
            raise Abort('app')
        if isinstance(a, Mk) or isinstance(b, Mk):
            m, o = (a, b) if isinstance(a, Mk) else (b, a)
            if not isinstance(o, Op):
                raise Abort('mk/seq')
            if self.discr(o) != m.v:
                return False
            return all(self.eq(self.field(o, m.v, i, 'I' if isinstance(x, int) and not isinstance(x, bool) else 'B' if isinstance(x, bool) else 'U'), x, final) for i, x in enumerate(m.args))
        if isinstance(a, tuple) or isinstance(b, tuple) or (isinstance(a, Op) and a.kind == 'seq') or (isinstance(b, Op) and b.kind == 'seq'):
            if isinstance(a, tuple) and isinstance(b, Op) and b.kind is None or isinstance(b, tuple) and isinstance(a, Op) and a.kind is None:
                # sometimes choose the constant itself
                o, c = (b, a) if isinstance(b, Op) else (a, b)
                if self.r.random() < 0.5:
                    o.kind = 'seq'
                    o.seq = list(c)
                    return True
            n, m = self.seqlen(a), self.seqlen(b)
            if n != m:
                return False
            for i in range(n):
                x, y = self.peek(a, i), self.peek(b, i)
                if x is None and y is None:
                    raise Abort('unknown elements')
                s = x if x is not None else y
                so = 'B' if isinstance(s, bool) else 'I' if isinstance(s, int) else 'U'
                if not self.eq(self.get(a, i, so), self.get(b, i, so), final):
                    return False
            return True
        # two opaque values
        k = (min(id(a), id(b)), max(id(a), id(b)))
        if k in self.diff:
            return False
        if a.kind is None and b.kind is None:
            if not final and self.r.random() < 0.35:
                self.parent[a] = b
                return True
            self.diff.add(k)
            return False
        if a.kind is None or b.kind is None:
            if final:
                self.diff.add(k)
                return False
            raise Abort('expanded')
        if a.d is not None and b.d is not None and a.d != b.d:
            return False
        for f in a.f:
            if f in b.f and not self.eq(a.f[f], b.f[f], final):
                return False
        raise Abort('struct')

    def peek(self, o, i):
        s = self.seq(o)
        return s[i] if isinstance(s, tuple) else s.seq[i]

    def ev(self, t, bv=()):
        """bv: {(height, j): value}"""
        self.steps += 1
        if self.steps > 60000:
            raise Abort('steps')
        o, a = t.op, t.args
        if o == 'int':
            return a[0]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'sym':
            if t not in self.env:
                self.env[t] = self.leaf(t, t.sort, a[0])
            return self.env[t]
        if o == 'bv':
            return bv[(a[0], a[1])]
        if o == 'junk':
            return JUNK
        if not bv:
            r = self.memo.get(t)
            if r is None:
                r = self.ev1(t, o, a, bv)
                self.memo[t] = r
            return r
        return self.ev1(t, o, a, bv)

    def i(self, t, bv):
        r = self.ev(t, bv)
        if r is JUNK or isinstance(r, bool) or not isinstance(r, int):
            raise Abort('int')
        return r

    def b(self, t, bv):
        r = self.ev(t, bv)
        if not isinstance(r, bool):
            raise Abort('bool')
        return r

    def ev1(self, t, o, a, bv):
        if o == 'lin':
            return a[0] + sum(k * self.i(x, bv) for x, k in a[1])
        if o == 'mul':
            r = 1
            for x in a:
                r *= self.i(x, bv)
            return r
        if o in ('tdiv', 'tmod'):
            x, y = self.i(a[0], bv), self.i(a[1], bv)
            if y == 0:
                raise Abort('div')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if o == 'tdiv' else x - q * y
        if o == 'wrap':
            lo, hi = tm.TYR[a[1]]
            x = self.i(a[0], bv)
            return (x - lo) % (hi - lo + 1) + lo
        if o == 'b2i':
            return int(self.b(a[0], bv))
        if o == 'not':
            return not self.b(a[0], bv)
        if o in ('and', 'or'):
            # all atoms are evaluated lazily; an undefined one may be irrelevant
            ab = None
            for x in a:
                try:
                    if self.b(x, bv) == (o == 'or'):
                        return o == 'or'
                except Abort as e:
                    ab = e
            if ab:
                raise ab
            return o == 'and'
        if o == 'le0':
            return self.i(a[0], bv) <= 0
        if o == 'eq':
            return self.eq(self.ev(a[0], bv), self.ev(a[1], bv))
        if o == 'ite':
            return self.ev(a[1] if self.b(a[0], bv) else a[2], bv)
        if o == 'discr':
            return self.discr(self.ev(a[0], bv), a[0])
        if o == 'fld':
            return self.field(self.ev(a[0], bv), a[1], a[2], t.sort, t)
        if o == 'mk':
            return Mk(a[0], a[1], [self.ev(x, bv) for x in a[2:]])
        if o == 'len':
            return self.seqlen(self.ev(a[0], bv))
        if o == 'at':
            return self.get(self.ev(a[0], bv), self.i(a[1], bv), t.sort)
        if o == 'lit':
            return tuple(a[0])
        if o == 'unit':
            return (self.ev(a[0], bv),)
        if o == 'cat':
            r = ()
            for x in a:
                r += self.elems(self.ev(x, bv))
            return r
        if o in ('flat', 'psum', 'first', 'rec'):
            h = a[0]
            d = dict(bv)
            if o == 'rec':
                n = self.i(a[1], bv)
                if n > 12:
                    raise Abort('big')
                cur = [self.ev(x, bv) for x in a[3]]
                for k in range(n):
                    d[(h, 0)] = k
                    for j, x in enumerate(cur):
                        d[(h, j + 1)] = x
                    cur = [self.ev(s, dict(d)) for s in a[4]]
                return cur[a[2]]
            n = None if a[1] is NONE else self.i(a[1], bv)
            if n is not None and n > 40:
                raise Abort('big')
            r = () if o == 'flat' else 0
            k = 0
            while n is None or k < n:
                if k > 40:
                    raise Abort('unbounded')
                d[(h, 0)] = k
                x = self.ev(a[2], dict(d))
                if o == 'flat':
                    r += self.elems(x)
                elif o == 'psum':
                    r += x
                elif x:
                    return k
                k += 1
            return k if o == 'first' else r
        if o == 'app':
            f = FUN.get(a[0])
            args = [self.ev(x, bv) if isinstance(x, T) else x for x in a[1:]]
            if f:
                return f(self, *args)
            if a[0] in self.free:
                return self.freeapp(t, a[0], args)
            raise Abort('app ' + str(a[0]))
        raise Abort(o)

    def freeapp(self, t, name, args):
        if t.sort != 'U':
            raise Abort('app')
        return App(name, args)

    def elems(self, o):
        s = self.seq(o)
        if isinstance(s, tuple):
            return s
        for i in range(len(s.seq)):
            if s.seq[i] is None:
                s.seq[i] = Op(f'{s.name}[{i}]')
        return tuple(s.seq)


def _dec(e, n):
    return tuple(map(ord, str(n)))


FUN = {'dec': _dec}


def show(e, o, d=0):
    if isinstance(o, Op):
        o = e.find(o)
        if o.kind == 'seq':
            return '[' + ', '.join(show(e, x, d + 1) if x is not None else '_' for x in o.seq) + ']'
        if o.kind == 'struct':
            return f'{o.name}#{o.d}{{' + ', '.join(f'{k[1]}={show(e, x, d + 1)}' for k, x in o.f.items()) + '}'
        return o.name
    if isinstance(o, Mk):
        return f'{o.name}.{o.v}(' + ', '.join(show(e, x, d + 1) for x in o.args) + ')'
    if isinstance(o, App):
        return f'{o.name}(' + ', '.join(show(e, x, d + 1) if not isinstance(x, str) else x for x in o.args) + ')'
    if isinstance(o, tuple):
        if o and all(isinstance(x, int) and not isinstance(x, bool) and 32 <= x < 127 for x in o):
            return repr(''.join(map(chr, o)))
        return '[' + ', '.join(show(e, x, d + 1) for x in o) + ']'
    return str(o) if o is not JUNK else 'undefined'


def refute(a, b, facts=(), q=(), seconds=2.0, seed=1, free=()):
    """text of an assignment separating a and b (b None: falsifying a), or None"""
    rnd = random.Random(seed)
    end = time.time() + seconds
    n = 0
    while time.time() < end and n < 4000:
        n += 1
        e = Eval(rnd, free)
        try:
            if any(e.ev(f) is not True for f in facts):
                continue
            if b is None:
                bad = e.ev(a) is False
            else:
                x, y = e.ev(a), e.ev(b)
                bad = not e.eq(x, y, True)
            if not bad:
                continue
            if any(e.ev(f) is not True for f in facts):
                continue
            if q and not all(checkq(e, f) for f in q):
                continue
            env = '; '.join(f'{s.args[0]} = {show(e, v)}' for s, v in e.env.items())
            return f'with {env}' + (f': got {show(e, x)[:300]}, wanted {show(e, y)[:300]}' if b is not None else '')
        except Abort:
            continue
        except (RecursionError, TypeError, KeyError):
            continue
    return None


def checkq(e, f):
    n, g = f[0], f[1]
    import itertools
    for c in itertools.product(range(5), repeat=n):
        r = e.ev(g(*[tm.I(x) for x in c]))
        if r is not True:
            return False
    return True
