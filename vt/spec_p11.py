"""P11: coordinates convert exactly between degrees and fixed point.

The code's terms are compared with the specification in z3's theory of IEEE 754 arithmetic.  The round trip rests on the
standard model of floating-point arithmetic (a product or quotient of normal doubles is exact up to a factor 1+d, |d| <= 2^-53):
in real arithmetic the product is then within 1/4 of the fixed-point value, and rounding it gives that value."""
from fractions import Fraction
import struct
import z3
from verify import *
import fp
import models

ASSUMPTIONS = ['f64::round rounds to the nearest integer, ties away from zero (z3: roundToIntegral RNA)',
               'std: f64::from_str(Display of x) is x for every finite x',
               'standard model of floating-point arithmetic for the products and quotients of the round trip (no overflow or underflow there)']
I32 = TYR['i32']
LO, HI = I32
SCALE = app('i2f', I(10_000_000))


def run(v):
    for L in ('Lat', 'Lon'):
        coordinate(v, L)
    lemma(v)


def spec_from(L, f):
    x = app('fround', app('fmul', f, SCALE))
    return ite(app('flt', app('i2f', I(HI)), x, sort='B'), err(V_('TooLarge')), ite(app('flt', x, app('i2f', I(LO)), sort='B'), err(V_('TooSmall')),
               ok(mk(L, 0, app('f2i', x, 'i32', sort='I', rng=I32)))))


def V_(name, *a):
    import exe
    vs = exe.ENUMS.get('ParseLatLonError')
    if not vs or name not in vs:
        raise Unsupported('ParseLatLonError::' + name)
    return mk('ParseLatLonError', vs.index(name), *a)


def kinds(t):
    """errors without what they carry"""
    if t.op == 'ite':
        return ite(t.args[0], kinds(t.args[1]), kinds(t.args[2]))
    if t.op == 'mk' and t.args[0] == 'Result' and t.args[1] == 1 and t.args[2].op == 'mk':
        return err(mk(*t.args[2].args[:2]))
    if t.op == 'mk' and t.args[0] == 'Result' and t.args[1] == 1 and t.args[2].op == 'ite':
        c, a, b = t.args[2].args
        return ite(c, kinds(err(a)), kinds(err(b)))
    return t


def value(t):
    """the double of a term without symbols"""
    if t.op == 'app':
        a = t.args
        if a[0] == 'i2f':
            return Fraction(int(a[1].args[0])) if is_int(a[1]) else None
        if a[0] == 'f64':
            return Fraction(float(a[1]))
    return None


def real(t, i, ctx):
    """standard model: a real-arithmetic value of a floating-point term over the integer i"""
    x = value(t)
    if x is not None:
        return z3.RealVal(x)
    if t.op == 'app' and t.args[0] == 'i2f' and t.args[1] is i:
        return ctx['i']
    if t.op == 'app' and t.args[0] in ('fmul', 'fdiv'):
        a, b = real(t.args[1], i, ctx), real(t.args[2], i, ctx)
        if t.args[0] == 'fdiv' and value(t.args[2]) in (None, 0):
            raise Unsupported('division by a variable')
        d = z3.Real(f'd{len(ctx["d"])}')
        ctx['d'].append(d)
        return (a * b if t.args[0] == 'fmul' else a / b) * (1 + d)
    raise Unsupported('real value of ' + show(t)[:100])


def near(t, i):
    """|t - i| <= 1/4 for every 32-bit integer i"""
    ctx = {'i': z3.Real('i'), 'd': []}
    r = real(t, i, ctx)
    s = z3.Solver()
    s.set('timeout', 30000)
    u = z3.RealVal(Fraction(1, 2**53))
    s.add(ctx['i'] >= LO, ctx['i'] <= HI, *[z3.And(d >= -u, d <= u) for d in ctx['d']])
    s.add(z3.Or(r - ctx['i'] > z3.RealVal(Fraction(1, 4)), r - ctx['i'] < z3.RealVal(Fraction(-1, 4))))
    t0 = time.time()
    k = s.check()
    pv.STATS['z3_s'] += time.time() - t0
    pv.STATS['z3_calls'] += 1
    if k == z3.unknown:
        raise Unsupported('real arithmetic: no answer')
    return k == z3.unsat


def ev(t, env):
    """a floating-point term on concrete values"""
    a = t.args
    if t in env:
        return env[t]
    if t.op == 'app':
        if a[0] == 'i2f':
            return float(env[a[1]] if a[1] in env else a[1].args[0])
        if a[0] == 'f64':
            return float(a[1])
        if a[0] in ('fmul', 'fdiv', 'fadd', 'fsub'):
            x, y = ev(a[1], env), ev(a[2], env)
            return {'fmul': lambda: x * y, 'fdiv': lambda: x / y, 'fadd': lambda: x + y, 'fsub': lambda: x - y}[a[0]]()
    raise Unsupported('value of ' + show(t)[:80])


def coordinate(v, L):
    i, j = sym('i', 'I', I32), sym('j', 'I', I32)
    f = sym('degrees')
    s = sym('text')
    RES = f'std::result::Result<{L}, ParseLatLonError>'

    def call(fname, args, tys, ret):
        x = v.ex()
        st = State()
        ps = [v.cell(x, st, a, t[1:]) if t.startswith('&') and t != '&str' else a for a, t in zip(args, tys)]
        r = v.call(x, st, fname, ps, tys, ret)
        p = v.panics(x, Facts())
        return r, p

    def eqn(name, fname, args, tys, ret, want):
        def goal():
            r, p = call(fname, args, tys, ret)
            g = prove_eq(r, want, Facts())
            if g is not None:
                return v.tryrefute(g, r, want, Facts())
            return p
        v.ob(f'{L}: {name}', goal)
    l, m = mk(L, 0, i), mk(L, 0, j)
    eqn('from_inner keeps the value', f'{L}::from_inner', [i], ['i32'], L, l)
    eqn('inner gives the value', f'{L}::inner', [l], ['&' + L], 'i32', i)
    DEG = app('fdiv', app('i2f', i), SCALE)

    def degrees(fname, args, tys):
        def goal():
            r, p = call(fname, args, tys, 'f64')
            if r is DEG:
                return p
            for n in (1, 3, 7, 9, 13, 123456789, 515000003, 1800000000, HI, LO, -77, 33, 1234567):
                a, b = ev(r, {i: n}), n / 1e7
                if a != b:
                    q = Fail(TRUE, None, Facts(), f'fixed point {n} gives {a!r} degrees instead of {b!r}')
                    q.refuted = True
                    return q
            return fp.equivalent(tup(r), tup(DEG))
        return goal
    v.ob(f'{L}: degrees are the value divided by ten million', degrees(f'{L}::degrees', [l], ['&' + L]))
    v.ob(f'{L}: as f64, the degrees', degrees(f'<f64 as From<{L}>>::from', [l], [L]))

    def shown():
        x = v.ex()
        st = State()
        f0 = sym('f')
        c = v.cell(x, st, f0, 'Formatter')
        r = v.call(x, st, f'<{L} as Display>::fmt', [v.cell(x, st, l, L), c], ['&' + L, "&mut std::fmt::Formatter<'_>"], 'std::result::Result<(), std::fmt::Error>')
        d, p = call(f'{L}::degrees', [l], ['&' + L], 'f64')
        return prove_eq(x.read(st, ('loc', c.args[0], ())), cat(f0, app('fdec', d)), Facts()) or prove_eq(r, ok(UNIT), Facts()) or p
    v.ob(f'{L}: displayed as its degrees', shown)

    # conversion of any finite number of degrees
    def nearest(arg, fname, ty_, ret=RES):
        def goal():
            r, p = call(fname, [f], [ty_], ret)
            d = arg(f)
            g = fp.equivalent(kinds(r), spec_from(L, d), facts=[app('ffinite', d, sort='B')], notnan=[app('fmul', d, SCALE)])
            return g or p
        return goal
    v.ob(f'{L}: try_from(f64) gives the nearest value, or fails by size', nearest(lambda f: f, f'<{L} as TryFrom<f64>>::try_from', 'f64'))
    v.ob(f'{L}: try_from(f32) gives the nearest value, or fails by size', nearest(lambda f: app('f2f', f, 'f64'), f'<{L} as TryFrom<f32>>::try_from', 'f32'))

    def text(good):
        def goal():
            r, p = call(f'<{L} as FromStr>::from_str', [s], ['&str'], RES)
            q = app('parse:f64', s)
            tm.NV[q] = 2
            if good:
                d = fld(q, 0, 0)
                r = subst(r, {discr(q): I(0)})
                return fp.equivalent(kinds(r), spec_from(L, d), facts=[app('ffinite', d, sort='B')], notnan=[app('fmul', d, SCALE)]) or p
            return prove(eq(discr(r), I(1)), Facts([eq(discr(q), I(1))])) or p
        return goal
    v.ob(f'{L}: from_str of a number gives the nearest value, or fails by size', text(True))
    v.ob(f'{L}: from_str of anything else fails', text(False))

    # round trips
    def back(src, fname, ty_, fl):
        def goal():
            d, p = call(f'{L}::degrees', [l], ['&' + L], 'f64') if src != 'text' else (None, None)
            if src == 'text':
                x = v.ex()
                st = State()
                c = v.cell(x, st, EMPTY, 'Formatter')
                v.call(x, st, f'<{L} as Display>::fmt', [v.cell(x, st, l, L), c], ['&' + L, "&mut std::fmt::Formatter<'_>"], 'std::result::Result<(), std::fmt::Error>')
                d = x.read(st, ('loc', c.args[0], ()))
            r, p = call(fname, [d], [ty_], RES)
            hs = set()
            fp.hard(r, hs)
            facts = []
            for h in hs:
                if not near(h, i):
                    return Fail(TRUE, None, Facts(), f'{show(h)} is not shown to be within 1/4 of {show(i)}')
                a = app('i2f', i)
                q = app('f64', '0.25')
                facts += [(h, a, q)]
            return roundtrip(r, ok(l), i, facts) or p
        v.ob(f'{L}: {fl}', goal)
    back('degrees', f'<{L} as TryFrom<f64>>::try_from', 'f64', 'converting the degrees back gives the same value')
    back('text', f'<{L} as FromStr>::from_str', '&str', 'parsing the displayed text gives the same value')

    # order
    lst, eqt, gtt = mk('Ordering', 0), mk('Ordering', 1), mk('Ordering', 2)
    c = ite(lt(i, j), lst, ite(eq(i, j), eqt, gtt))
    R = ['&' + L] * 2
    for tr, m_, ret, w in (('PartialEq', 'eq', 'bool', eq(i, j)), ('PartialEq', 'ne', 'bool', ne(i, j)), ('Ord', 'cmp', 'std::cmp::Ordering', c),
                           ('PartialOrd', 'partial_cmp', 'std::option::Option<std::cmp::Ordering>', some(c)),
                           ('PartialOrd', 'lt', 'bool', lt(i, j)), ('PartialOrd', 'le', 'bool', le(i, j)), ('PartialOrd', 'gt', 'bool', lt(j, i)), ('PartialOrd', 'ge', 'bool', le(j, i))):
        eqn(f'{m_} follows the fixed-point value', f'<{L} as {tr}>::{m_}', [l, m], R, ret, w)
    eqn('a clone is the same coordinate', f'<{L} as Clone>::clone', [l], ['&' + L], L, l)


def roundtrip(r, want, i, near_):
    """r = want where every h of near_ is any double within 1/4 of i"""
    tr = fp.Tr(abstract={h for h, _, _ in near_})
    try:
        hyp = []
        for h, a, q in near_:
            x, c = tr.f(h), tr.f(a)
            hyp += [z3.fpLEQ(z3.fpSub(fp.RNE, c, z3.FPVal(0.25, fp.F64)), x), z3.fpLEQ(x, z3.fpAdd(fp.RNE, c, z3.FPVal(0.25, fp.F64)))]
        for pa, y in fp.leaves(r):
            pc = [tr.b(k) for k in pa]
            if fp.shape(y) != fp.shape(want):
                g = z3.BoolVal(False)
            else:
                g = z3.And(*[tr.i(a) == tr.i(b) for a, b in zip(fp.flat_fields(y), fp.flat_fields(want))])
            k, m = fp.check(tr, hyp + pc, g, 90000)
            if k != z3.unsat:
                if k == z3.unknown:
                    raise Unsupported('floating point: no answer')
                return Fail(TRUE, None, Facts(), f'round trip: {show(y)[:200]}' + (f' with {m}' if m is not None else ''))
    except fp.Cant as e:
        raise Unsupported('floating point: ' + str(e))
    return None


def lemma(v):
    def notnan():
        x = z3.FP('x', fp.F64)
        t = fp.Tr()
        r, m = fp.check(t, [z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x))], z3.Not(z3.fpIsNaN(z3.fpMul(fp.RNE, x, z3.FPVal(1e7, fp.F64)))), 60000)
        return None if r == z3.unsat else Fail(TRUE, None, Facts(), 'not proved')
    v.ob('lemma: the product of a finite number and ten million is a number', notnan)

    def nearest():
        # p = x*1e7 up to rounding, r = the integer nearest to p: r is within 1/2 of p
        p = z3.FP('p', fp.F64)
        k = z3.fpRoundToIntegral(fp.RNA, p)
        big = z3.FPVal(float(2**33), fp.F64)
        h = z3.FPVal(0.5, fp.F64)
        d = z3.fpSub(fp.RNE, k, p)
        r, m = fp.check(fp.Tr(), [z3.fpLEQ(z3.fpAbs(p), big)], z3.fpLEQ(z3.fpAbs(d), h), 100000)
        return None if r == z3.unsat else Fail(TRUE, None, Facts(), f'{r} {m}')
    v.ob('lemma: the rounded product is within one half of the product', nearest)
