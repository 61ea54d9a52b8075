"""P12: timestamps mean the same instant in either representation.

The calendar is chrono's, assumed: C(t) = the text chrono gives to the instant t (UTC, whole seconds, `Z`) is read back as
the instant t, and for instants in the years 0 to 9999 these texts are ordered as the instants are."""
from verify import *
import models

ASSUMPTIONS = ['chrono: DateTime::parse_from_rfc3339(C(t)) is an instant with timestamp t, where C(t) = from_timestamp(t, 0).to_rfc3339_opts(Secs, true), for t in the years 0 to 9999',
               'chrono: C(a) and C(b) compare as strings as a and b do (fixed-width fields, years 0 to 9999)',
               'an EpochNumber outside the range of chrono has no text (Display panics): not covered']
TF = 'TimestampFormat'
I64 = TYR['i64']


def C(t):
    """the canonical text of an instant"""
    import exe
    return app('to_rfc3339', fld(app('from_ts', t, I(0)), 1, 0), mk('SecondsFormat', 0), I(1))


def parse(i, s):
    s = i.deep(s)
    if s.op == 'app' and s.args[0] == 'to_rfc3339' and s is C(s.args[1].args[0].args[1] if s.args[1].op == 'fld' and s.args[1].args[0].op == 'app' else I(0)):
        return ok(app('instant', s.args[1].args[0].args[1]))
    r = app('rfc3339', s)
    tm.NV[r] = 2
    return r


EXTRA = {'DateTime::parse_from_rfc3339': parse}


def run(v):
    def call(fname, args, tys, ret):
        x = v.ex(extra=EXTRA)
        st = State()
        ps = [v.cell(x, st, a, t[1:]) if t.startswith('&') and t != '&str' else a for a, t in zip(args, tys)]
        r = v.call(x, st, fname, ps, tys, ret)
        return x, st, ps, r

    def check(name, fname, args, tys, ret, want, facts=(), post=lambda x, st, ps, r: r):
        """result and absence of panics"""
        def goal():
            x, st, ps, r = call(fname, args, tys, ret)
            F = Facts(list(facts))
            f = prove_eq(post(x, st, ps, r), want, F)
            if f is not None:
                return v.tryrefute(f, post(x, st, ps, r), want, F)
            return v.panics(x, F)
        v.ob(name, goal)

    def valid(t):
        o = app('from_ts', t, I(0))
        tm.NV[o] = 2
        return eq(discr(o), I(1))
    variants = models_variants()
    iso = lambda s: mk(TF, variants['ISOString'], s)
    num = lambda t: mk(TF, variants['EpochNumber'], t)
    a, b = sym('a', 'I', I64), sym('b', 'I', I64)
    s = sym('s')
    p = app('rfc3339', s)
    tm.NV[p] = 2
    self_ = '&' + TF
    # representation conversions
    check('to_epoch_number of an epoch number', f'{TF}::to_epoch_number', [num(a)], [self_], 'i64', a)
    check('to_epoch_number of an RFC 3339 string: its instant', f'{TF}::to_epoch_number', [iso(s)], [self_], 'i64', app('ts', fld(p, 0, 0), sort='I', rng=I64), [eq(discr(p), I(0))])
    check('to_epoch_number of a canonical string', f'{TF}::to_epoch_number', [iso(C(a))], [self_], 'i64', a)
    check('to_iso_string of an epoch number: the canonical string', f'{TF}::to_iso_string', [num(a)], [self_], 'String', C(a), [valid(a)])
    check('to_iso_string of a string', f'{TF}::to_iso_string', [iso(s)], [self_], 'String', s)
    check('from an integer', f'<{TF} as From<T>>::from', [a], ['T'], TF, num(a))

    def parsed(arg, facts, okv):
        def goal():
            x, st, ps, r = call(f'<{TF} as FromStr>::from_str', [arg], ['&str'], f'std::result::Result<{TF}, std::string::String>')
            F = Facts(list(facts))
            want = eq(discr(r), I(1)) if okv is None else eq(r, ok(okv))
            return prove(want, F) or v.panics(x, F)
        return goal
    v.ob('from_str of an RFC 3339 string: its instant', parsed(s, [eq(discr(p), I(0))], num(app('ts', fld(p, 0, 0), sort='I', rng=I64))))
    v.ob('from_str of any other string: an error', parsed(s, [eq(discr(p), I(1))], None))
    v.ob('from_str of a canonical string', parsed(C(a), [], num(a)))
    for nm, x_, w, fs in (('an epoch number: the canonical string', num(a), C(a), [valid(a)]), ('a string: the string', iso(s), s, [])):
        def shown(x_=x_, w=w, fs=fs):
            x = v.ex(extra=EXTRA)
            st = State()
            f0 = sym('f')
            f = v.cell(x, st, f0, 'Formatter')
            r = v.call(x, st, f'<{TF} as Display>::fmt', [v.cell(x, st, x_, TF), f], [self_, "&mut std::fmt::Formatter<'_>"], 'std::result::Result<(), std::fmt::Error>')
            F = Facts(fs)
            return prove_eq(x.read(st, ('loc', f.args[0], ())), cat(f0, w), F) or prove_eq(r, ok(UNIT), F) or v.panics(x, F)
        v.ob(f'Display of {nm}', shown)
    # comparison
    lst, eqt, gtt = mk('Ordering', 0), mk('Ordering', 1), mk('Ordering', 2)
    cmp_ = ite(lt(a, b), lst, ite(eq(a, b), eqt, gtt))
    strcmp = app('strcmp', C(a), C(b))
    e = eq(C(a), C(b))
    axioms = [or_(not_(e), eq(a, b)), or_(e, not_(eq(a, b)))]

    def ordered(x, st, ps, r):
        return subst(r, {strcmp: cmp_})
    for na, va in (('epoch', num(a)), ('string', iso(C(a)))):
        for nb, vb in (('epoch', num(b)), ('string', iso(C(b)))):
            for tr, m, ret, w in (('PartialEq', 'eq', 'bool', eq(a, b)), ('PartialEq', 'ne', 'bool', ne(a, b)), ('PartialOrd', 'partial_cmp', 'std::option::Option<std::cmp::Ordering>', some(cmp_)),
                                  ('PartialOrd', 'lt', 'bool', lt(a, b)), ('PartialOrd', 'le', 'bool', le(a, b)), ('PartialOrd', 'gt', 'bool', lt(b, a)), ('PartialOrd', 'ge', 'bool', le(b, a))):
                check(f'{m} of {na} and {nb}: chronological', f'<{TF} as {tr}>::{m}', [va, vb], [self_, self_], ret, w, axioms, ordered)
    x_ = sym('x')
    tm.NV[x_] = 2
    check('a clone is the same timestamp', f'<{TF} as Clone>::clone', [x_], [self_], TF, x_)


def models_variants():
    import exe
    vs = exe.ENUMS.get(TF)
    if not vs or set(vs) != {'ISOString', 'EpochNumber'}:
        raise Unsupported('variants of ' + TF)
    return {n: i for i, n in enumerate(vs)}
