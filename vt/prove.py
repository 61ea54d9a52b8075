"""Discharging obligations: structural equality of normalised terms, case splits, congruence under binders, z3."""
import itertools
import time
import z3
import term as tm
from term import *

STATS = {'z3_calls': 0, 'z3_unknown': 0, 'z3_s': 0.0, 'splits': 0}
DEADLINE = [None]


class Out(Exception):
    pass


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Out('proof budget')


# ------------------------------------------------------------------ z3 encoding
US = z3.DeclareSort('U')


class Enc:
    """terms -> z3, shared by all queries: each term keeps its own side conditions and the terms it depends on"""

    def __init__(self):
        self.memo = {}
        self.funs = {}
        self.own = {}
        self.deps = {}
        self.stack = []
        self.side = None

    def query(self):
        """start collecting for one query"""
        self.firsts = {}
        self.psums = {}
        self.ixs = {}
        self.lits = {}
        self.seen = {}
        self.qside = []

    def reach(self, t):
        st = [t]
        while st:
            x = st.pop()
            if x in self.seen:
                continue
            self.seen[x] = True
            o = self.own.get(x)
            if o:
                self.qside += o
            if x.op == 'first':
                self.firsts[x] = True
            elif x.op == 'psum':
                self.psums[x] = True
            elif x.op == 'lit':
                self.lits[x] = self.memo[x]
            elif x.sort == 'I' and x.op in ('sym', 'bv', 'junk'):
                self.ixs[x] = True
            st += self.deps.get(x, ())

    def root(self, t, s='B'):
        """encode a term used by the current query"""
        r = self.as_(t, s)
        self.reach(t)
        return r

    def f(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.funs:
            self.funs[k] = z3.Function('_'.join(map(str, k))[:200] + f'_{len(self.funs)}', *sorts)
        return self.funs[k]

    def srt(self, s):
        return {'I': z3.IntSort(), 'B': z3.BoolSort()}.get(s, US)

    def e(self, t):
        r = self.memo.get(t)
        if self.stack:
            self.stack[-1].append(t)
        if r is None:
            self.stack.append([])
            sv, self.side = self.side, []
            try:
                r = self.e1(t)
                self.memo[t] = r
                self.deps[t] = tuple(dict.fromkeys(self.stack[-1]))
                if self.side:
                    self.own[t] = self.side
            finally:
                self.stack.pop()
                self.side = sv
        return r

    def as_(self, t, s):
        x = self.e(t)
        if x.sort() == self.srt(s):
            return x
        return self.f('cast', x.sort(), self.srt(s))(x)

    def e1(self, t):
        o, a = t.op, t.args
        if o == 'int':
            return z3.IntVal(a[0])
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'lin':
            return z3.Sum([z3.IntVal(a[0])] + [k * self.as_(x, 'I') for x, k in a[1]])
        if o == 'mul':
            r = self.as_(a[0], 'I')
            for x in a[1:]:
                r = r * self.as_(x, 'I')
            return r
        if o in ('tdiv', 'tmod'):
            x, y = self.as_(a[0], 'I'), self.as_(a[1], 'I')
            q = z3.Int(f'q{t.id}')
            r = z3.Int(f'r{t.id}')
            ay = z3.If(y < 0, -y, y)
            self.side.append(z3.Implies(y != 0, z3.And(x == q * y + r, z3.If(x >= 0, z3.And(r >= 0, r < ay), z3.And(r <= 0, -r < ay)))))
            return q if o == 'tdiv' else r
        if o == 'wrap':
            lo, hi = tm.TYR[a[1]]
            x = self.as_(a[0], 'I')
            m = z3.Int(f'w{t.id}')
            r = z3.Int(f'wr{t.id}')
            self.side.append(z3.And(r == x + m * (hi - lo + 1), r >= lo, r <= hi))
            return r
        if o == 'b2i':
            return z3.If(self.as_(a[0], 'B'), z3.IntVal(1), z3.IntVal(0))
        if o == 'not':
            return z3.Not(self.as_(a[0], 'B'))
        if o == 'and':
            return z3.And([self.as_(x, 'B') for x in a])
        if o == 'or':
            return z3.Or([self.as_(x, 'B') for x in a])
        if o == 'le0':
            return self.as_(a[0], 'I') <= 0
        if o == 'eq':
            x, y = self.e(a[0]), self.e(a[1])
            if x.sort() != y.sort():
                y = self.as_(a[1], a[0].sort)
                if x.sort() != y.sort():
                    x = self.f('cast', x.sort(), y.sort())(x)
            if a[1].op == 'lit' and len(a[1].args[0]) <= 12 and x.sort() == US and all(type(c) is int for c in a[1].args[0]):
                # a text is a literal exactly when its length and its characters are (extensionality)
                ln, at_ = self.f('len', US, z3.IntSort()), self.f('at', US, z3.IntSort(), z3.IntSort())
                cs = [ln(x) == len(a[1].args[0])] + [at_(x, z3.IntVal(i)) == c for i, c in enumerate(a[1].args[0])]
                self.side.append((x == y) == z3.And(cs))
            return x == y
        if o == 'ite':
            return z3.If(self.as_(a[0], 'B'), self.as_(a[1], t.sort), self.as_(a[2], t.sort))
        if o == 'discr':
            r = self.f('discr', US, z3.IntSort())(self.as_(a[0], 'U'))
            self.side.append(z3.And(r >= 0, r < tm.NV.get(a[0], 256)))
            return r
        if o == 'len':
            r = self.f('len', US, z3.IntSort())(self.as_(a[0], 'U'))
            self.side.append(z3.And(r >= 0, r < 2**63))
            return r
        if o == 'at':
            return self.f('at', US, z3.IntSort(), self.srt(t.sort))(self.as_(a[0], 'U'), self.as_(a[1], 'I'))
        if o == 'fld':
            x = self.e(a[0])
            return self.f(f'fld{a[1]}_{a[2]}', x.sort(), self.srt(t.sort))(x)
        if o == 'mk':
            xs = [self.e(x) for x in a[2:]]
            r = self.f(f'mk{a[0]}_{a[1]}', *[x.sort() for x in xs], US)(*xs) if xs else z3.Const(f'mk{a[0]}_{a[1]}', US)
            self.side.append(self.f('discr', US, z3.IntSort())(r) == a[1])
            for i, x in enumerate(xs):
                self.side.append(self.f(f'fld{a[1]}_{i}', US, x.sort())(r) == x)
            return r
        if o == 'app':
            xs = [self.e(x) if isinstance(x, T) else z3.Const('k_' + str(x), US) for x in a[1:]]
            r = self.f('app_' + str(a[0]), *[x.sort() for x in xs], self.srt(t.sort))(*xs) if xs else z3.Const('app_' + str(a[0]), self.srt(t.sort))
            lo, hi = tm.interval(t) if t.sort == 'I' else (None, None)
            if lo is not None:
                self.side.append(r >= lo)
            if hi is not None:
                self.side.append(r <= hi)
            return r
        if o == 'lit':
            c = z3.Const(f'lit{t.id}', US)
            self.side.append(self.f('len', US, z3.IntSort())(c) == len(a[0]))
            for i, v in enumerate(a[0][:40]):
                self.side.append(self.f('at', US, z3.IntSort(), z3.IntSort())(c, z3.IntVal(i)) == v)
            return c
        if o == 'unit':
            x = self.e(a[0])
            return self.f('unit', x.sort(), US)(x)
        if o == 'cat':
            xs = [self.e(x) for x in a]
            r = self.f(f'cat{len(xs)}', *[US] * len(xs), US)(*xs) if xs else z3.Const('empty', US)
            n = len_(t)
            if n.op != 'len':
                self.side.append(self.f('len', US, z3.IntSort())(r) == self.as_(n, 'I'))
            return r
        if o == 'flat':
            c = z3.Const(f'flat{t.id}', US)
            return c
        if o == 'first':
            c = z3.Int(f'first{t.id}')
            return c
        if o == 'psum':
            c = z3.Int(f'psum{t.id}')
            if tm.interval(t)[0] is not None:
                self.side.append(c >= 0)
            return c
        if o == 'rec':
            return z3.Const(f'rec{t.id}', self.srt(t.sort))
        if o == 'ptr':
            return z3.Const(f'ptr{t.id}', US)
        if o in ('sym', 'bv', 'junk'):
            c = z3.Const(f's{t.id}', self.srt(t.sort))
            if t.sort == 'I':
                lo, hi = tm.interval(t)
                if lo is not None:
                    self.side.append(c >= lo)
                if hi is not None:
                    self.side.append(c <= hi)
            return c
        raise ValueError('enc ' + o)

    def rootI(self, t):
        return self.root(t, 'I')

    def axioms(self, depth=2):
        """instances of the defining properties of first(...)"""
        done = set()
        for _ in range(depth):
            ixs = list(self.ixs) + list(self.firsts)
            for t in list(self.firsts):
                n = t.args[1]
                e = self.rootI(t)
                if t not in done:
                    done.add(t)
                    self.qside.append(e >= 0)
                    if n is not NONE:
                        N = self.root(n, 'I')
                        self.qside.append(z3.Implies(N >= 0, e <= N))
                        self.qside.append(z3.Implies(N <= 0, e == 0))
                        self.qside.append(z3.Implies(e < N, self.root(opn(t, t), 'B')))
                    else:
                        self.qside.append(self.root(opn(t, t), 'B'))
                if len(ixs) <= 8:
                    for j in ixs:
                        if j is t or (t, j) in done:
                            continue
                        done.add((t, j))
                        self.qside.append(z3.Implies(z3.And(self.rootI(j) >= 0, self.rootI(j) < e), z3.Not(self.root(opn(t, j), 'B'))))
        done = set()
        for _ in range(depth):
            for t in list(self.psums):
                if t not in done:
                    done.add(t)
                    self.qside.append(z3.Implies(self.root(t.args[1], 'I') <= 0, self.rootI(t) == 0))
                for u in list(self.psums):
                    if u is t or u.args[2] is not t.args[2] or (t, u) in done:
                        continue
                    done.add((t, u))
                    d = sub(u.args[1], t.args[1])
                    if d.op == 'int' and 0 < d.args[0] <= 3:
                        xs = [self.root(opn(t, add(t.args[1], I(i))), 'I') for i in range(d.args[0])]
                        self.qside.append(z3.Implies(self.root(t.args[1], 'I') >= 0, self.rootI(u) == z3.Sum([self.rootI(t)] + xs)))
        ls = list(self.lits.values())
        if len(ls) > 1:
            self.qside.append(z3.Distinct(*ls))


ENC = Enc()


def z3_valid(goal, facts, ms=2000, q=()):
    """is goal implied by facts and the quantified facts q? True / False (counter-model of the abstraction) / None"""
    tick()
    enc = ENC
    enc.query()
    g = enc.root(goal)
    fs = [enc.root(f) for f in facts]
    if q:
        ix0 = list(enc.ixs)[:6]
        ix = [x for x in list(enc.ixs) + list(enc.firsts) if not x.fv or True][:9]
        for f in q:
            if len(f) > 2:
                continue
            for c in itertools.product(ix, repeat=f[0]):
                r = f[1](*c)
                if r is not TRUE:
                    fs.append(enc.root(r))
        done = set()
        for rnd in range(3):
            m = len(done)
            ats = {}
            for t in enc.seen:
                if t.op in ('at', 'app', 'fld', 'first', 'rec', 'len'):
                    ats.setdefault(t.op, []).append(t)
            for qi, f in enumerate(q):
                if len(f) < 3:
                    continue
                for pat in f[3]:
                    if not isinstance(pat, T):
                        for t in ats.get(pat[0], ()):
                            for c in pat[1](t):
                                if (qi, c) not in done:
                                    done.add((qi, c))
                                    r = f[1](*c)
                                    if r is not TRUE:
                                        fs.append(enc.root(r))
                        continue
                    for t in ats.get(pat.op, ()):
                        b = {}
                        if not match(pat, t, f[2], b):
                            continue
                        # holes the pattern leaves open range over the index symbols of the query
                        for c in itertools.product(*[(b[h],) if h in b else ix0 for h in f[2]]):
                            if (qi, c) in done:
                                continue
                            done.add((qi, c))
                            r = f[1](*c)
                            if r is not TRUE:
                                fs.append(enc.root(r))
            enc.axioms(1)
            if len(done) == m:
                break
    enc.axioms()
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*fs)
    s.add(*enc.qside)
    s.add(z3.Not(g))
    t = time.time()
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_s'] += time.time() - t
    if r == z3.unknown:
        STATS['z3_unknown'] += 1
    return True if r == z3.unsat else False if r == z3.sat else None


def match(p, t, holes, b):
    """syntactic matching of a pattern with holes against a ground term"""
    if p is t:
        return True
    if p in holes:
        if p in b:
            return b[p] is t
        b[p] = t
        return True
    if p.op != t.op or len(p.args) != len(t.args) or not (p.fv & frozenset(holes)):
        return False
    for x, y in zip(p.args, t.args):
        if isinstance(x, T):
            if not isinstance(y, T) or not match(x, y, holes, b):
                return False
        elif x != y:
            return False
    return True


def forall(n, fn, pats):
    """quantified fact: fn for all n indices, instantiated where a pattern occurs; pats(*holes) -> pattern terms"""
    hs = tuple(fresh('hole', 'I') for _ in range(n))
    return (n, fn, hs, tuple(pats(*hs)))


_cons = {}


def consistent(F):
    facts = F.list()
    k = (tuple(sorted(f.id for f in facts)), F.q)
    r = _cons.get(k)
    if r is None:
        r = z3_valid(FALSE, facts, q=F.q) is not True
        _cons[k] = r
    return r


# ------------------------------------------------------------------ rewriting under facts
class Facts:
    """a set of literals assumed true"""

    def __init__(self, lits=(), rw=(), q=()):
        self.l = {}
        self.q = tuple(q)           # quantified facts: (arity, function of index terms)
        self.rw = dict(rw)          # term -> term (oriented equations)
        self.fv = frozenset()
        self.memo = {}
        self.bad = False
        for x in lits:
            self.add(x)

    def list(self):
        return list(self.l)

    def add(self, x):
        if x is TRUE:
            return
        if x is FALSE:
            self.bad = True
            return
        if x.op == 'and':
            for y in x.args:
                self.add(y)
            return
        if x in self.l:
            return
        if not_(x) in self.l:
            self.bad = True
        self.l[x] = True
        self.fv = self.fv | x.fv
        if x.op == 'eq' and x.args[1].op in ('int', 'lit') and x.args[0].op not in ('lin',):
            self.rw[x.args[0]] = x.args[1]
        if x.op == 'le0':
            # v <= c with c the least value of v
            c, p = tm._lin_parts(x.args[0])
            if len(p) == 1 and p[0][1] == 1 and p[0][0].op != 'lin' and tm.interval(p[0][0])[0] == -c:
                self.rw[p[0][0]] = I(-c)
        self.memo = {}

    def with_(self, *xs):
        f = Facts(q=self.q)
        f.l = dict(self.l)
        f.rw = dict(self.rw)
        f.fv = self.fv
        f.bad = self.bad
        for x in xs:
            f.add(f.simp(x) if x.op != 'eq' else x)
            if x.op == 'eq':
                pass
        return f

    def equate(self, t, r):
        """t = r, used from left to right"""
        self.rw[t] = r
        e = eq(t, r)
        if e is not TRUE and e is not FALSE:
            self.l[e] = True
        self.fv = self.fv | t.fv
        self.memo = {}

    def simp(self, t):
        if not self.l and not self.rw:
            return t
        m = self.memo
        r = m.get(t)
        if r is not None:
            return r
        r = self.simp1(t)
        m[t] = r
        return r

    def simp1(self, t):
        if t.op in ('int', 'lit', 'bv', 'true', 'false'):
            return t
        if t in self.rw:
            return self.rw[t] if self.rw[t] is t else self.simp(self.rw[t])
        if t.sort == 'B':
            if t in self.l:
                return TRUE
            n = not_(t)
            if n in self.l:
                return FALSE
        if t.op == 'sym':
            return t
        if not (t.fv & self.fv) and not self.rw:
            return t
        r = tm.rebuild(t, self.simp)
        if r is not t and r.sort == 'B':
            if r in self.l:
                return TRUE
            if not_(r) in self.l:
                return FALSE
        if r in self.rw and r is not t:
            return self.simp(self.rw[r])
        if r is not t and r not in self.memo:
            self.memo[r] = r
        return r


# ------------------------------------------------------------------ proof search
class Fail:
    def __init__(self, a, b, facts, why=''):
        self.a, self.b, self.facts, self.why = a, b, facts, why

    def __str__(self):
        s = f'{self.why}: {show(self.a)[:600]}  ≠  {show(self.b)[:600]}' if self.b is not None else f'{self.why}: {show(self.a)[:900]}'
        f = [show(x)[:160] for x in self.facts.list()][:14]
        return s + ('   under ' + '; '.join(f) if f else '')


def conds(t, seen, out, lim=400):
    """ite conditions in t (outside binders), outermost first"""
    st = [t]
    n = 0
    while st and n < lim:
        x = st.pop(0)
        if x in seen or x.op in ('int', 'sym', 'lit', 'bv', 'true', 'false'):
            continue
        seen.add(x)
        n += 1
        if x.op == 'ite':
            out.append(x.args[0])
            st += [x.args[1], x.args[2]]
            continue
        if x.op in ('flat', 'psum', 'first', 'rec'):
            for y in tm.unscoped(x):
                st.append(y) if y is not NONE else None
            continue
        if x.op in ('le0', 'eq', 'and', 'or', 'not') and x.sort == 'B':
            pass
        st += tm.children(x)


def atom_of(c):
    """a literal to split on"""
    while c.op in ('and', 'or'):
        c = min(c.args, key=lambda x: (x.op in ('and', 'or'), x.id))
    if c.op == 'not':
        return c.args[0]
    return c


SEQ = ('cat', 'flat', 'unit', 'lit')


def range_facts(k, n):
    return [le(I(0), k), lt(k, n)]


def prove_eq(a, b, F=None, depth=0):
    """None when a = b is proved under F, otherwise a Fail"""
    tick()
    if F is None:
        F = Facts()
    if F.bad:
        return None
    a, b = F.simp(a), F.simp(b)
    if a is b:
        return None
    G = unguard([a, b], F)
    if G is not None:
        return prove_eq(a, b, G, depth + 1)
    if depth > 80:
        return Fail(a, b, F, 'depth')
    # constructor against constructor
    if a.op == 'mk' and b.op == 'mk':
        if a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
            for x, y in zip(a.args[2:], b.args[2:]):
                r = prove_eq(x, y, F, depth + 1)
                if r is not None:
                    return r
            return None
        if not consistent(F):
            return None
        return Fail(a, b, F, 'constructors')
    if a.op == 'unit' and b.op == 'unit':
        return prove_eq(a.args[0], b.args[0], F, depth + 1)
    # split on a condition
    out = []
    if a.op in SEQ and b.op in SEQ:
        # conditions that decide the shape first, those inside the elements only when needed
        out = [x.args[0] for x in tm.segs(a) + tm.segs(b) if x.op == 'ite']
        if not out:
            r = prove_seq(a, b, F, depth + 1)
            if r is None:
                return None
    if not out:
        conds(a, set(), out)
        conds(b, set(), out)
    if out:
        c = atom_of(out[0])
        STATS['splits'] += 1
        for lit_ in (c, not_(c)):
            G = F.with_(lit_)
            if G.bad or not consistent(G):
                continue
            r = prove_eq(a, b, G, depth + 1)
            if r is not None:
                return r
        return None
    if a.sort == 'B' or b.sort == 'B':
        return prove(eq(a, b), F, depth + 1)
    if a.sort == 'I' and b.sort == 'I':
        return prove(eq(a, b), F, depth + 1)
    # eta
    if a.op == 'mk' or b.op == 'mk':
        m, x = (a, b) if a.op == 'mk' else (b, a)
        if x.op in ('sym', 'fld', 'at', 'app'):
            if m.args[0] in ('tup',) or m.args[1] == 0 and m.args[0] not in ('Option', 'Result') and not multi(m.args[0]):
                pass
            else:
                r = prove(eq(discr(x), I(m.args[1])), F, depth + 1)
                if r is not None:
                    return Fail(a, b, F, 'variant')
            for i, y in enumerate(m.args[2:]):
                r = prove_eq(y, fld(x, m.args[1], i, y.sort), F, depth + 1)
                if r is not None:
                    return r
            return None
        return Fail(a, b, F, 'structure')
    if (a.op == 'rec') != (b.op == 'rec') and a.sort == 'U':
        r = prove_prefix(a, b, F, depth) if a.op == 'rec' else prove_prefix(b, a, F, depth)
        if r is None:
            return None
    for p, w in ((a, b), (b, a)):
        if p.op == 'flat':
            rs = []
            collect(p, {'rec'}, rs, set())
            for t in rs:
                if t is not w and t.sort == 'U' and prove_prefix(t, w, F, depth) is None:
                    G = F.with_()
                    G.rw[t] = w
                    return prove_eq(a, b, G, depth + 1)
    # sequences
    if a.op in ('cat', 'flat', 'unit', 'lit') or b.op in ('cat', 'flat', 'unit', 'lit'):
        return prove_seq(a, b, F, depth + 1)
    # congruence
    if a.op == b.op and len(a.args) == len(b.args):
        if a.op == 'at':
            r = prove_eq(a.args[0], b.args[0], F, depth + 1) or prove_eq(a.args[1], b.args[1], F, depth + 1)
            if r is None:
                return None
        elif a.op == 'fld' and a.args[1:] == b.args[1:]:
            r = prove_eq(a.args[0], b.args[0], F, depth + 1)
            if r is None:
                return None
        elif a.op == 'app' and a.args[0] == b.args[0]:
            if all((x is y) or (isinstance(x, T) and isinstance(y, T) and prove_eq(x, y, F, depth + 1) is None) for x, y in zip(a.args[1:], b.args[1:])):
                return None
        elif a.op == 'rec':
            r = prove_rec(a, b, F, depth)
            if r is None:
                return None
    if not consistent(F):
        return None
    if z3_valid(eq(a, b), F.list(), q=F.q) is True:
        return None
    return Fail(a, b, F, 'values')


def prove_prefix(a, b, F, depth):
    """a loop result (rec, one state component that matters) equals the sequence b: after k rounds the state is b[..k]"""
    n = a.args[1]
    r = prove(eq(n, len_(b)), F, depth + 1)
    if r is not None:
        return r
    if len(a.args[3]) != 1:
        return Fail(a, b, F, 'recursion over several variables')
    r = prove(eq(len_(a.args[3][0]), I(0)), F, depth + 1)
    if r is not None:
        return r
    k = fresh('k', 'I', (0, 2**63 - 1))
    G = F.with_(*range_facts(k, n))
    so = esort(b) or 'U'
    pre = sslice(b, I(0), k)
    return prove_eq(open_rec(a, [k, pre])[0], cat(pre, unit(at(b, k, so))), G, depth + 1)


def multi(name):
    import exe
    return name in exe.ENUMS


def prove_rec(a, b, F, depth):
    if a.args[2] != b.args[2] or len(a.args[3]) != len(b.args[3]) or len(a.args[4]) != len(b.args[4]):
        return Fail(a, b, F, 'recursion')
    r = prove_eq(a.args[1], b.args[1], F, depth + 1)
    if r is not None:
        return r
    for x, y in zip(a.args[3], b.args[3]):
        r = prove_eq(x, y, F, depth + 1)
        if r is not None:
            return r
    k = fresh('k', 'I', (0, 2**63 - 1))
    vs = [fresh('r', x.sort) for x in a.args[3]]
    G = F.with_(*range_facts(k, a.args[1]))
    for x, y in zip(open_rec(a, [k] + vs), open_rec(b, [k] + vs)):
        r = prove_eq(x, y, G, depth + 1)
        if r is not None:
            return r
    return None


def inst(t, k):
    return opn(t, k)


def prove_seq(a, b, F, depth):
    sa, sb = tm.segs(a), tm.segs(b)
    sa, sb = list(sa), list(sb)
    while True:
        # strip empty flats
        while sa and sb and sa[0] is sb[0]:
            sa.pop(0)
            sb.pop(0)
        while sa and sb and sa[-1] is sb[-1]:
            sa.pop()
            sb.pop()
        if not sa and not sb:
            return None
        if not sa or not sb:
            rest = cat(*(sa or sb))
            return prove(eq(len_(rest), I(0)), F, depth + 1)
        x, y = sa[0], sb[0]
        if x.op == 'lit' and y.op == 'lit':
            p, q = x.args[0], y.args[0]
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return Fail(cat(*sa), cat(*sb), F, 'text') if consistent(F) else None
            sa[0:1] = [lit(p[n:])] if len(p) > n else []
            sb[0:1] = [lit(q[n:])] if len(q) > n else []
            continue
        if x.op == 'unit' and y.op == 'unit':
            r = prove_eq(x.args[0], y.args[0], F, depth + 1)
            if r is not None:
                return r
            sa.pop(0)
            sb.pop(0)
            continue
        if x.op == 'unit' and y.op == 'lit' or x.op == 'lit' and y.op == 'unit':
            u, l, su, sl = (x, y, sa, sb) if x.op == 'unit' else (y, x, sb, sa)
            r = prove_eq(u.args[0], I(l.args[0][0]), F, depth + 1)
            if r is not None:
                return r
            su.pop(0)
            sl[0:1] = [lit(l.args[0][1:])] if len(l.args[0]) > 1 else []
            continue
        if x.op == 'flat' and y.op == 'flat':
            if prove(eq(x.args[1], y.args[1]), F, depth + 1) is None:
                k = fresh('k', 'I', (0, 2**63 - 1))
                r = prove_eq(inst(x, k), inst(y, k), F.with_(*range_facts(k, x.args[1])), depth + 1)
                if r is None:
                    sa.pop(0)
                    sb.pop(0)
                    continue
                if len(sa) == len(sb) == 1:
                    return r
        # opaque segments that are equal
        if x.op not in ('flat', 'unit', 'lit') and y.op == x.op:
            if prove_eq(x, y, F, depth + 1) is None:
                sa.pop(0)
                sb.pop(0)
                continue
        # possibly empty first segments
        for s in (sa, sb):
            n = len_(s[0])
            if n.op != 'int' and prove(eq(n, I(0)), F, depth + 1) is None:
                s.pop(0)
                break
        else:
            break
    A, B = cat(*sa), cat(*sb)
    # element-wise
    if pointwise(A) and pointwise(B):
        r = prove(eq(len_(A), len_(B)), F, depth + 1)
        if r is not None:
            return r
        k = fresh('k', 'I', (0, 2**63 - 1))
        s = esort(A) or esort(B) or 'U'
        return prove_eq(at(A, k, s), at(B, k, s), F.with_(*range_facts(k, len_(A))), depth + 1)
    if not consistent(F):
        return None
    return Fail(A, B, F, 'sequences')


def pointwise(s):
    if s.op == 'cat':
        return all(pointwise(x) for x in s.args)
    if s.op == 'flat':
        k = fresh('k', 'I')
        b = opn(s, k)
        return b.op == 'unit' or b.op == 'lit' and len(b.args[0]) == 1
    return s.op in ('unit', 'lit', 'sym', 'fld', 'at', 'app', 'ite')


def esort(s):
    if s.op == 'cat':
        for x in s.args:
            r = esort(x)
            if r:
                return r
    if s.op == 'unit':
        return s.args[0].sort
    if s.op == 'lit':
        return 'I'
    if s.op == 'flat':
        k = fresh('k', 'I')
        return esort(opn(s, k))
    return None


def prove(g, F=None, depth=0):
    """None when the boolean g is proved under F"""
    if F is None:
        F = Facts()
    if F.bad:
        return None
    g = F.simp(g)
    if g is TRUE:
        return None
    if g.op == 'and':
        for x in g.args:
            r = prove(x, F, depth + 1)
            if r is not None:
                return r
        return None
    G = unguard([g] + F.list(), F) if depth < 40 else None
    if G is not None:
        return prove(g, G, depth + 1)
    r = z3_valid(g, F.list(), q=F.q)
    if r is True:
        return None
    if depth < 40:
        if g.op == 'or':
            # the literals of a clause simplify each other
            G = clause(g, F)
            if G is None or G.bad:
                return None
            if G is not F:
                return prove(FALSE, G, depth + 1)
        # disequal parts
        if g.op == 'eq' and g.args[1].op == 'int' and g.args[0].op == 'lin':
            r = prove_lin(g, F, depth)
            if r is None:
                return None
        if g.op == 'eq' and g.args[0].sort == 'U':
            return prove_eq(g.args[0], g.args[1], F, depth + 1) if not (g.args[0].op in ('sym', 'fld', 'at', 'app') and g.args[1].op == 'lit') else Fail(g, None, F, 'not implied')
        out = []
        conds(g, set(), out)
        if out:
            c = atom_of(out[0])
            for l in (c, not_(c)):
                G = F.with_(l)
                if G.bad or not consistent(G):
                    continue
                r = prove(g, G, depth + 1)
                if r is not None:
                    return r
            return None
        if g.op == 'or' and any(bindy(x) for x in g.args):
            # (p ∧ q) ∨ (¬p ∧ ¬q): an equivalence
            r = prove_iff(g, F, depth)
            if r is None:
                return None
        G = unwrap_casts([g] + F.list(), F)
        if G is not None:
            return prove(g, G, depth + 1)
    return Fail(g, None, F, 'not implied')


def unwrap_casts(ts, F):
    """machine casts that keep their value under F, conditions inside terms that F decides -> stronger Facts or None"""
    ws, cs = [], []
    seen, seen2 = set(), set()
    for t in ts:
        collect(t, {'wrap'}, ws, seen)
        conds(t, seen2, cs)
    H = Facts()
    for t in ws[:12]:
        if t in F.rw or dangling(t):
            continue
        if z3_valid(eq(t, t.args[0]), F.list(), ms=500, q=F.q) is True:
            H.rw[t] = t.args[0]
    new = []
    for c in list(dict.fromkeys(atom_of(c) for c in cs))[:12]:
        if dangling(c):
            continue
        for x in (c, not_(c)):
            if x not in F.l and z3_valid(x, F.list(), ms=300, q=F.q) is True:
                H.l[x] = True
                H.fv = H.fv | x.fv
                new.append(x)
                break
    if not H.rw and not new:
        return None
    return Facts([H.simp(x) if x not in H.l else x for x in F.list()] + new, rw={**F.rw, **H.rw}, q=F.q)


def clause(g, F):
    """facts under which the clause g fails, each simplified by the others"""
    lits = [not_(x) for x in g.args]
    old = F.list()
    cur = old + lits
    for _ in range(4):
        G = Facts(q=F.q)
        G.rw = dict(F.rw)
        for x in sorted(cur, key=lambda x: (x.op != 'eq' and x.op != 'not', x.id)):
            y = G.simp(x)
            G.add(y)
            if G.bad:
                return None
        new = G.list()
        if new == cur:
            break
        cur = new
    for x, r in F.rw.items():
        if x in F.rw and x not in G.rw:
            G.rw[x] = r
    return G


def bindy(t):
    return True


def prove_iff(g, F, depth):
    if len(g.args) != 2:
        return Fail(g, None, F, 'not implied')
    x, y = g.args
    for p in (x.args if x.op == 'and' else (x,)):
        for q in (y.args if y.op == 'and' else (y,)):
            pass
    # congruent first(...) terms: rewrite one into the other when their predicates agree
    fs = []
    collect(g, {'first', 'psum'}, fs, set())
    for i in range(len(fs)):
        for j in range(i):
            if fs[i].op == fs[j].op and same_binder(fs[i], fs[j], F, depth):
                G = F.with_()
                x, y = sorted((fs[i], fs[j]), key=size)
                G.equate(y, x)
                return prove(g, G, depth + 1)
    return Fail(g, None, F, 'not implied')


_ung = {}


def binders(t, out, seen):
    """binder terms of t with an ite in their body, innermost first"""
    if t in seen:
        return
    seen.add(t)
    for x in tm.children(t):
        binders(x, out, seen)
    if t.op in ("psum", "rec", "first") and has_ite(t) and not dangling(t):
        out.append(t)


def dangling(t):
    """has bound variables of an enclosing binder"""
    return bool(free_bv(t))


_fb = {}


def free_bv(t):
    r = _fb.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t.args[0],))
        elif t.op in ('flat', 'psum', 'first', 'rec'):
            un = [x for x in tm.unscoped(t) if x is not NONE]
            r = frozenset()
            for x in tm.children(t):
                if not any(x is u for u in un):
                    r = r | free_bv(x)
            r = r - {t.args[0]}
            for u in un:
                r = r | free_bv(u)
        else:
            r = frozenset()
            for x in tm.children(t):
                r = r | free_bv(x)
        _fb[t] = r
    return r


_hi = {}


def has_ite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op == 'ite' or any(has_ite(x) for x in tm.children(t))
        _hi[t] = r
    return r


def unguard(ts, F, depth=0):
    """rewrite binders whose bodies are guarded by conditions that their own range decides -> stronger Facts or None"""
    bs = []
    seen = set()
    for t in ts:
        if t is not None:
            binders(t, bs, seen)
    if not bs:
        return None
    key = tuple(sorted(f.id for f in F.list()))
    G = None
    for t in bs:
        if t in F.rw:
            continue
        k0 = (t, key)
        if k0 not in _ung:
            _ung[k0] = unguard1(t, F)
        r = _ung[k0]
        if r is not None and r is not t:
            if G is None:
                G = F.with_()
            G.equate(t, r)
    return G


def unguard1(t, F):
    k = fresh('k', 'I', (0, 2**63 - 1))
    n = t.args[1]
    if t.op == 'rec':
        vs = [fresh('r', x.sort) for x in t.args[3]]
        bodies = open_rec(t, [k] + vs)
    else:
        vs = []
        bodies = [opn(t, k)]
    H = Facts(F.list())
    H.rw = dict(F.rw)
    for x in (range_facts(k, n) if n is not NONE else [le(I(0), k)]):
        H.add(x)
    cs = []
    for b in bodies:
        conds(b, set(), cs)
    ch = False
    for c in list(dict.fromkeys(atom_of(c) for c in cs))[:8]:
        v = H.simp(c)
        if v is TRUE or v is FALSE:
            ch = True
            continue
        for x in (c, not_(c)):
            if z3_valid(x, H.list(), ms=300) is True:
                H.add(x)
                ch = True
                break
    if not ch:
        return None
    bodies = [H.simp(b) for b in bodies]
    if t.op == 'rec':
        return tm.rec(n, list(t.args[3]), vs, k, bodies, t.args[2])
    if t.op == 'psum':
        return tm.psum(n, k, bodies[0])
    return tm.first(None if n is NONE else n, k, bodies[0])


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += tm.children(x)
    return len(seen)


def collect(t, ops, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op in ops:
        out.append(t)
        return
    for x in tm.children(t):
        collect(x, ops, out, seen)


def same_binder(x, y, F, depth):
    if x is y:
        return False
    n, m = x.args[1], y.args[1]
    if (n is NONE) != (m is NONE):
        return False
    if n is not NONE and prove_eq(n, m, F, depth + 1) is not None:
        return False
    k = fresh('k', 'I', (0, 2**63 - 1))
    G = F.with_(*(range_facts(k, n) if n is not NONE else [le(I(0), k)]))
    return prove_eq(opn(x, k), opn(y, k), G, depth + 1) is None


def prove_lin(g, F, depth):
    """equality of linear combinations whose binder atoms agree pairwise"""
    fs = []
    collect(g.args[0], {'first', 'psum', 'rec'}, fs, set())
    for i in range(len(fs)):
        for j in range(i):
            if fs[i].op == fs[j].op and fs[i].op != 'rec' and same_binder(fs[i], fs[j], F, depth):
                G = F.with_()
                x, y = sorted((fs[i], fs[j]), key=size)
                G.equate(y, x)
                return prove(g, G, depth + 1)
    for x, k in g.args[0].args[1]:
        for y, l in g.args[0].args[1]:
            if x.id < y.id and k == -l and x.op == y.op and x.op in ('at', 'fld', 'app', 'rec'):
                if prove_eq_c(x, y, F, depth + 1):
                    G = F.with_()
                    G.rw[x] = y
                    return prove(g, G, depth + 1)
    return Fail(g, None, F, 'not implied')


def prove_eq_c(a, b, F, depth):
    """congruence only"""
    if a is b:
        return True
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op == 'rec':
        return prove_rec(a, b, F, depth) is None
    for x, y in zip(a.args, b.args):
        if isinstance(x, T) and isinstance(y, T):
            if prove_eq(x, y, F, depth + 1) is not None:
                return False
        elif x != y:
            return False
    return True
