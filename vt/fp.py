"""Proofs over IEEE 754 doubles: floating-point terms of the executor in z3's theory of floating-point arithmetic.
Multiplications and divisions that occur on both sides of an equivalence are abstracted to arbitrary values."""
import time
import z3
import term as tm
from term import *
import prove as pv
from prove import Fail, Facts

F64, F32 = z3.Float64(), z3.Float32()
RNE, RNA, RTZ = z3.RNE(), z3.RNA(), z3.RTZ()
W = 72


class Cant(Exception):
    pass


class Tr:
    def __init__(self, abstract=(), sorts=None):
        self.memo = {}
        self.side = []
        self.abstract = abstract
        self.sorts = sorts or {}
        self.n = 0

    def f(self, t):
        """a term of sort U that stands for a float"""
        r = self.memo.get(('f', t))
        if r is None:
            r = self.memo['f', t] = self._f(t)
        return r

    def fvar(self, t, sort=F64):
        self.n += 1
        return z3.FP(f'f{self.n}', sort)

    def _f(self, t):
        if t in self.abstract:
            return self.fvar(t)
        if t.op == 'ite':
            return z3.If(self.b(t.args[0]), self.f(t.args[1]), self.f(t.args[2]))
        if t.op == 'app':
            a = t.args
            if a[0] == 'i2f':
                if is_int(a[1]):
                    return z3.FPVal(int(a[1].args[0]), F64)
                return z3.fpSignedToFP(RNE, self.i(a[1]), F64)
            if a[0] in ('f64', 'f32'):
                return z3.FPVal(float(a[1]), F64)
            if a[0] in ('fmul', 'fdiv', 'fadd', 'fsub'):
                x, y = self.f(a[1]), self.f(a[2])
                return {'fmul': z3.fpMul, 'fdiv': z3.fpDiv, 'fadd': z3.fpAdd, 'fsub': z3.fpSub}[a[0]](RNE, x, y)
            if a[0] in ('fround', 'ftrunc', 'ffloor', 'fceil'):
                return z3.fpRoundToIntegral({'fround': RNA, 'ftrunc': RTZ, 'ffloor': z3.RTN(), 'fceil': z3.RTP()}[a[0]], self.f(a[1]))
            if a[0] == 'fabs':
                return z3.fpAbs(self.f(a[1]))
            if a[0] == 'fneg':
                return z3.fpNeg(self.f(a[1]))
            if a[0] == 'f2f' and a[2] == 'f64':
                return z3.fpFPToFP(RNE, self.fvar(a[1], F32) if a[1].op == 'sym' else self.f(a[1]), F64)
            if a[0] == 'f2f':
                return z3.fpFPToFP(RNE, self.f(a[1]), F32)
        if t.op in ('sym', 'fld', 'at', 'app'):
            if t.op == 'app' and t.args[0][0] == 'f' and t.args[0] not in self.okapp:
                raise Cant('float operation ' + t.args[0])
            return self.fvar(t, self.sorts.get(t, F64))
        raise Cant('float ' + show(t)[:100])
    okapp = ()

    def i(self, t):
        r = self.memo.get(('i', t))
        if r is None:
            r = self.memo['i', t] = self._i(t)
        return r

    def _i(self, t):
        if is_int(t):
            return z3.BitVecVal(int(t.args[0]), W)
        if t.op == 'ite':
            return z3.If(self.b(t.args[0]), self.i(t.args[1]), self.i(t.args[2]))
        if t.op == 'lin':
            c, parts = t.args[0], t.args[1]
            r = z3.BitVecVal(c, W)
            for x, k in parts:
                r = r + z3.BitVecVal(k, W) * self.i(x)
            return r
        if t.op == 'app' and t.args[0] == 'f2i':
            lo, hi = TYR[t.args[2]] if isinstance(t.args[2], str) else TYR['i64']
            x = self.f(t.args[1])
            if hi > 2**63 - 1:
                raise Cant('cast to a wide integer')
            v = z3.SignExt(W - 64, z3.fpToSBV(RTZ, x, z3.BitVecSort(64)))
            L, H = z3.FPVal(float(lo), F64), z3.FPVal(float(hi), F64)
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, W), z3.If(z3.fpLEQ(x, L), z3.BitVecVal(lo, W), z3.If(z3.fpGEQ(x, H), z3.BitVecVal(hi, W), v)))
        if t.op in ('sym', 'fld', 'at') or t.op == 'app':
            lo, hi = interval(t)
            if lo is None or hi is None or lo < -2**64 or hi > 2**64:
                raise Cant('unbounded integer ' + show(t)[:80])
            self.n += 1
            r = z3.BitVec(f'i{self.n}', W)
            self.side += [r >= lo, r <= hi]
            return r
        raise Cant('integer ' + show(t)[:100])

    def b(self, t):
        r = self.memo.get(('b', t))
        if r is None:
            r = self.memo['b', t] = self._b(t)
        return r

    def _b(self, t):
        if t is TRUE:
            return z3.BoolVal(True)
        if t is FALSE:
            return z3.BoolVal(False)
        if t.op in ('and', 'or'):
            return (z3.And if t.op == 'and' else z3.Or)(*[self.b(x) for x in t.args])
        if t.op == 'not':
            return z3.Not(self.b(t.args[0]))
        if t.op == 'ite':
            return z3.If(self.b(t.args[0]), self.b(t.args[1]), self.b(t.args[2]))
        if t.op == 'app':
            a = t.args
            if a[0] in ('flt', 'fle', 'feq'):
                return {'flt': z3.fpLT, 'fle': z3.fpLEQ, 'feq': z3.fpEQ}[a[0]](self.f(a[1]), self.f(a[2]))
            if a[0] == 'fisnan':
                return z3.fpIsNaN(self.f(a[1]))
            if a[0] == 'fisinf':
                return z3.fpIsInf(self.f(a[1]))
            if a[0] == 'ffinite':
                x = self.f(a[1])
                return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        if t.op == 'le0':
            return self.i(t.args[0]) <= 0
        if t.op == 'eq' and t.args[0].sort == 'I':
            return self.i(t.args[0]) == self.i(t.args[1])
        if t.sort == 'B' and t.op in ('eq', 'app', 'sym', 'fld', 'at'):
            self.n += 1
            return z3.Bool(f'b{self.n}')
        raise Cant('condition ' + show(t)[:100])


def leaves(t, pc=()):
    if t.op == 'ite':
        yield from leaves(t.args[1], pc + (t.args[0],))
        yield from leaves(t.args[2], pc + (not_(t.args[0]),))
    elif t.op == 'mk' and any(isinstance(a, T) and a.op == 'ite' and a.sort == 'U' for a in t.args[2:]):
        i = next(i for i, a in enumerate(t.args) if i >= 2 and isinstance(a, T) and a.op == 'ite' and a.sort == 'U')
        c, x, y = t.args[i].args
        for cc, z in ((c, x), (not_(c), y)):
            xs = list(t.args)
            xs[i] = z
            yield from leaves(mk(*xs), pc + (cc,))
    elif t.op == 'mk':
        i = next((i for i, a in enumerate(t.args) if i >= 2 and isinstance(a, T) and a.op == 'mk' and list(leaves(a)) != [((), a)]), None)
        if i is None:
            yield pc, t
        else:
            for p2, z in leaves(t.args[i]):
                xs = list(t.args)
                xs[i] = z
                yield from leaves(mk(*xs), pc + p2)
    else:
        yield pc, t


def flat_fields(t):
    if t.op == 'mk':
        for a in t.args[2:]:
            yield from flat_fields(a)
    else:
        yield t


def shape(t):
    if t.op == 'mk':
        return (t.args[0], t.args[1]) + tuple(shape(a) for a in t.args[2:])
    return '*'


def hard(t, out):
    if t.op == 'app' and t.args[0] in ('fmul', 'fdiv', 'fadd', 'fsub'):
        out.add(t)
        return
    for c in children(t):
        hard(c, out)


def check(tr, hyp, goal, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*hyp)
    s.add(z3.Not(goal))
    s.add(*tr.side)
    t = time.time()
    r = s.check()
    pv.STATS['z3_s'] += time.time() - t
    pv.STATS['z3_calls'] += 1
    if r == z3.unknown:
        pv.STATS['z3_unknown'] += 1
    return r, (s.model() if r == z3.sat else None)


def equivalent(a, b, facts=(), notnan=(), ms=60000):
    """values a and b (trees of constructors, floats and integers) agree under the facts.
    notnan: terms that, when abstracted, are known not to be NaN"""
    ha, hb = set(), set()
    hard(a, ha)
    hard(b, hb)
    tr = Tr(abstract=ha & hb)
    F = Facts()
    try:
        hyp = [tr.b(f) for f in facts]
        for t in notnan:
            hyp.append(z3.Not(z3.fpIsNaN(tr.f(t))))
        for pa, x in leaves(a):
            for pb, y in leaves(b):
                pc = [tr.b(c) for c in pa + pb]
                if shape(x) != shape(y):
                    goals = [z3.BoolVal(False)]
                else:
                    goals = []
                    for u, w in zip(flat_fields(x), flat_fields(y)):
                        if u is w:
                            continue
                        if u.sort == 'I':
                            goals.append(tr.i(u) == tr.i(w))
                        elif u.sort == 'B':
                            goals.append(tr.b(u) == tr.b(w))
                        else:
                            goals.append(tr.f(u) == tr.f(w))
                if not goals:
                    continue
                r, m = check(tr, hyp + pc, z3.And(*goals), ms)
                if r == z3.unsat:
                    continue
                f = Fail(TRUE, None, F, f'{show(x)} / {show(y)} under {"; ".join(show(c) for c in pa + pb)}' + (f' with {m}' if m is not None else ''))
                if r == z3.sat and (ha | hb) == (ha & hb):
                    f.refuted = not ha
                return f
    except Cant as e:
        from exe import Unsupported
        raise Unsupported('floating point: ' + str(e))
    return None
