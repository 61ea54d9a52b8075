"""Assumed contracts of the standard library and of the dependencies.

Sequences (Vec, VecDeque, SmallVec, slices, arrays, String, str, Rc<str>, Arc<str>, SmolStr, Cow<str>) are mathematical
sequences; integers are mathematical with the machine's overflow checks as obligations; shared references, Box, Rc, Arc
are transparent; iterators are (sequence, position) with adaptors applied eagerly to effect-free closures."""
import re
from term import *
import term as tm
import mir
from exe import Unsupported, Diverge, sort_of, base, generics, strip_ref, unify, is_tyvar, ENUMS, STRUCTS, INTS, CallInfo, tsubst, ty_norm

REG = {}
TRUSTED = {}


def m(*keys):
    def d(f):
        for k in keys:
            REG[k] = f
        return f
    return d


STRLIKE = {'str', 'String', 'SmolStr', 'Rc<str>', 'Arc<str>', 'Cow', 'Rc', 'Arc'}
SEQT = {'Vec', 'SmallVec', 'VecDeque', 'String', 'str', 'SmolStr'}


class Models:
    def __init__(self, extra=None):
        self.extra = extra or {}

    def find(self, info):
        for k in (info.key,):
            if k in self.extra:
                return self.extra[k]
            if k in REG:
                return REG[k]
        b, mth = info.key.rsplit('::', 1)
        if b.startswith('[') or b in SEQT or b in ('slice', 'vec', 'str'):
            if 'seq::' + mth in self.extra:
                return self.extra['seq::' + mth]
            if 'seq::' + mth in REG:
                return REG['seq::' + mth]
        if b in TYR and 'int::' + mth in REG:
            return REG['int::' + mth]
        if b in ('f64', 'f32') and 'float::' + mth in REG:
            return REG['float::' + mth]
        if '*::' + mth in REG:
            return REG['*::' + mth]
        return None


# ---------------------------------------------------------------------------------------------- helpers
def osort(info, idx=0, ty=None):
    """sort of the payload of an Option/Result receiver"""
    for t in ([ty] if ty else []) + [info.selfty or '', info.tys[0] if info.tys else '']:
        if t and base(t) in ('Option', 'Result'):
            g = generics(t)
            if len(g) > idx:
                return sort_of(g[idx])
    return 'U'


def pay(info, o, idx=0, var=1, ty=None):
    return fld(o, var, 0, osort(info, idx, ty))


def okv(info, r):
    return fld(r, 0, 0, osort(info, 0))


def errv(info, r):
    return fld(r, 1, 0, 'U')


def it_mk(seq, pos=None, sort='U', kind='Iter'):
    return mk(kind + ':' + sort, 0, seq, pos if pos is not None else I(0))


def is_it(v):
    return v.op == 'mk' and isinstance(v.args[0], str) and (v.args[0].startswith('Iter:') or v.args[0].startswith('IterMut:'))


def it_sort(v):
    return v.args[0].split(':')[1]


def rest(v):
    """remaining sequence of an iterator value"""
    if v.op == 'ite':
        return ite(v.args[0], rest(v.args[1]), rest(v.args[2]))
    if not is_it(v) or v.args[0].startswith('IterMut:'):
        raise Unsupported('iterator value ' + show(v)[:60])
    s, p = v.args[2], v.args[3]
    return sslice(s, p, len_(s))


def rsort(v):
    if v.op == 'ite':
        return rsort(v.args[1])
    return it_sort(v)


def as_iter(info, v, ty):
    """IntoIterator::into_iter"""
    v0 = v
    v = info.deep(v)
    if is_it(v) or (v.op == 'ite' and is_it(v.args[1])):
        return v0 if v0.op == 'ptr' else v
    if v.op == 'mk' and v.args[0] == 'EventReader':
        return mk('Events', 0, v.args[2], I(0))
    if v.op == 'mk' and v.args[0] == 'Range':
        a, b = v.args[2], v.args[3]
        k = fresh('k', 'I', (0, 2**63 - 1))
        n = sub(b, a)
        if interval(n)[0] is None or interval(n)[0] < 0:
            n = ite(le(a, b), n, I(0))
        return it_mk(flat(n, k, unit(add(a, k))), I(0), 'I')
    if v.op == 'mk' and v.args[0] == 'Events':
        return v0
    if base(ty) == 'Option' and v.op != 'mk':
        g = generics(strip_ref(ty))
        so = sort_of(g[0]) if g else 'U'
        return it_mk(opt_seq(v, so), I(0), so)
    if v.op == 'mk' and v.args[0] == 'Option':
        return it_mk(unit(v.args[2]) if v.args[1] == 1 else EMPTY, I(0), 'U')
    if v.op == 'mk' and v.args[0] not in ('tup',):
        if v.args[0] == 'Map':
            return it_mk(app('map_entries', v.args[2]))
        if crate_iter(info, v):
            return v0
        raise Unsupported('into_iter of ' + str(v.args[0]))
    s = 'U'
    b = base(ty)
    t = strip_ref(ty)
    if b in ('Vec', 'VecDeque'):
        s = sort_of(generics(t)[0]) if generics(t) else 'U'
    elif b == 'SmallVec':
        g = generics(t)
        if g:
            s = sort_of(g[0].strip('[]').split(';')[0])
    elif b.startswith('['):
        s = sort_of(b[1:-1].split(';')[0])
    elif b == 'HashMap':
        return it_mk(app('map_entries', v))
    return it_mk(v, I(0), s)


def under_facts(info, facts, f):
    info.ex.ctx.append(facts)
    try:
        return f()
    finally:
        info.ex.ctx.pop()


def pure(info, f, *args):
    """call a closure that must leave the caller's state alone"""
    ex = info.ex
    before = dict(info.st.m)
    nst = type(info.st)(dict(before))
    r = ex.call_value(nst, info.pc, info.fr, f, list(args))
    for c, v in before.items():
        if nst.m.get(c) is not v:
            raise Unsupported('closure with effects in an iterator adaptor')
    for c, v in nst.m.items():
        if c not in before and c[0] == 'h':
            info.st.m[c] = v
    return r


def mapseq(info, s, sort, g):
    """sequence of the concatenation of g(x) for x in s; g returns a sequence"""
    if s.op == 'cat':
        return cat(*[mapseq(info, x, sort, g) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], under(info, s.args[0], lambda: mapseq(info, s.args[1], sort, g)), under(info, not_(s.args[0]), lambda: mapseq(info, s.args[2], sort, g)))
    if s.op == 'unit':
        return g(s.args[0])
    if s.op == 'lit' and len(s.args[0]) <= 16:
        return cat(*[g(I(x)) for x in s.args[0]])
    if s.op == 'flat' and s.args[2].op not in ('lit',):
        k = fresh('k', 'I', (0, 2**63 - 1))
        b = opn(s, k)
        return flat(s.args[1], k, under_facts_k(info, k, s.args[1], lambda: mapseq(info, b, sort, g)))
    k = fresh('k', 'I', (0, 2**63 - 1))
    n = len_(s)
    return flat(n, k, under_facts_k(info, k, n, lambda: g(at(s, k, sort))))


def under(info, c, f):
    """a sequence that matters only where c holds"""
    old = info.pc
    p = info.ex.addpc(tuple(old), c)
    if p is None:
        return EMPTY
    info.pc = p
    try:
        return f()
    finally:
        info.pc = old


def under_facts_k(info, k, n, f):
    info.ex.ctx.append(('range', k, n))
    try:
        return f()
    finally:
        info.ex.ctx.pop()


def opt_seq(o, sort='U'):
    if o.op == 'ite':
        return ite(o.args[0], opt_seq(o.args[1], sort), opt_seq(o.args[2], sort))
    if o.op == 'mk':
        return unit(o.args[2]) if o.args[1] == 1 else EMPTY
    return ite(is_some(o), unit(fld(o, 1, 0, sort)), EMPTY)


def vsort(t):
    return t.sort


def head(s, sort):
    """Option of the first element of a sequence"""
    if s.op == 'cat':
        if not s.args:
            return NONE
        h = head(s.args[0], sort)
        return or_opt(h, lambda: head(cat(*s.args[1:]), sort))
    if s.op == 'unit':
        return some(s.args[0])
    if s.op == 'lit':
        return some(I(s.args[0][0]))
    if s.op == 'ite':
        return ite(s.args[0], head(s.args[1], sort), head(s.args[2], sort))
    if s.op == 'flat':
        n = s.args[1]
        k = fresh('k', 'I', (0, 2**63 - 1))
        b = opn(s, k)
        p = lt(I(0), len_(b))
        idx = first(n, k, p)
        hb = head(subst(b, {k: idx}), sort)
        return ite(lt(idx, n), unopt(hb), NONE)
    return ite(lt(I(0), len_(s)), some(at(s, I(0), sort)), NONE)


def unopt(h):
    """an option known to be Some: drop None branches"""
    if h.op == 'ite':
        a, b = h.args[1], h.args[2]
        if a is NONE:
            return unopt(b)
        if b is NONE:
            return unopt(a)
        return ite(h.args[0], unopt(a), unopt(b))
    return h


def or_opt(h, f):
    if h is NONE:
        return f()
    if h.op == 'mk':
        return h
    if h.op == 'ite':
        return ite(h.args[0], or_opt(h.args[1], f), or_opt(h.args[2], f))
    return ite(is_some(h), h, f())


def with_opt(info, o, fsome, fnone, sort='U'):
    """fsome(info, payload) under Some, fnone(info) under None"""
    c = is_some(o)
    x = fld(o, 1, 0, sort)
    a = info.guarded(c, lambda i: fsome(i, x))
    b = info.guarded(not_(c), fnone)
    return join(c, a, b)


def join(c, a, b):
    if a is None:
        return b
    if b is None:
        return a
    return ite(c, a, b)


# ---------------------------------------------------------------------------------------------- Option / Result
@m('Option::is_some')
def _(i, o): return is_some(i.deep(o))
@m('Option::is_none')
def _(i, o): return not_(is_some(i.deep(o)))
@m('Option::is_some_and')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: j.call(f, x), lambda j: FALSE, osort(i))
@m('Option::is_none_or')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: j.call(f, x), lambda j: TRUE, osort(i))
@m('Option::map')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: some(j.call(f, x)), lambda j: NONE, osort(i))
@m('Option::inspect')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: (j.call(f, x), some(x))[1], lambda j: NONE, osort(i))
@m('Option::and_then')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: j.call(f, x), lambda j: NONE, osort(i))
@m('Option::filter')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: ite(j.call(f, x), some(x), NONE), lambda j: NONE, osort(i))
@m('Option::map_or')
def _(i, o, d, f):
    return with_opt(i, o, lambda j, x: j.call(f, x), lambda j: d, osort(i))
@m('Option::map_or_else')
def _(i, o, d, f):
    return with_opt(i, o, lambda j, x: j.call(f, x), lambda j: j.call(d), osort(i))
@m('Option::unwrap')
def _(i, o):
    i.panic(not_(is_some(o)), 'unwrap on None')
    return unopt_val(o, osort(i))
@m('Option::expect')
def _(i, o, msg):
    i.panic(not_(is_some(o)), 'expect on None')
    return unopt_val(o, osort(i))
@m('Option::unwrap_or')
def _(i, o, d): return ite(is_some(o), fld(o, 1, 0, osort(i)), d)
@m('Option::unwrap_or_default')
def _(i, o):
    g = generics(i.selfty or '') or generics(i.tys[0])
    return ite(is_some(o), fld(o, 1, 0, osort(i)), default(i, g[0]))
@m('Option::unwrap_or_else')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: x, lambda j: j.call(f), osort(i))
@m('Option::or')
def _(i, o, p): return ite(is_some(o), o, p)
@m('Option::or_else')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: o, lambda j: j.call(f), osort(i))
@m('Option::and')
def _(i, o, p): return ite(is_some(o), p, NONE)
@m('Option::zip')
def _(i, o, p): return ite(and_(is_some(o), is_some(p)), some(tup(fld(o, 1, 0, osort(i)), fld(p, 1, 0, osort(i, 0, i.tys[1])))), NONE)
@m('Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied')
def _(i, o): return i.deep(o)
@m('Option::as_mut', 'Option::as_deref_mut')
def _(i, o):
    v = i.get(o)
    if v is o:
        return o
    loc = i.ex.deref(o, ('val', o))
    g = generics(strip_ref(i.tys[0]))
    t = g[0] if g else '?'
    q = i.ex.locptr(i.ex.sub(loc, ('f', 1, 0, sort_of(t), t)))
    return ite(is_some(v), some(q), NONE)
@m('Option::take')
def _(i, p):
    v = i.get(p)
    i.set(p, NONE)
    return v
@m('Option::replace')
def _(i, p, x):
    v = i.get(p)
    i.set(p, some(x))
    return v
@m('Option::insert')
def _(i, p, x):
    i.set(p, some(x))
    loc = i.ex.deref(p, ('val', p))
    return i.ex.locptr(i.ex.sub(loc, ('f', 1, 0, 'U', '?')))
@m('Option::get_or_insert')
def _(i, p, x):
    v = i.get(p)
    x = ite(is_some(v), fld(v, 1, 0, osort(i)), x)
    i.set(p, some(x))
    loc = i.ex.deref(p, ('val', p))
    return i.ex.locptr(i.ex.sub(loc, ('f', 1, 0, x.sort, '?')))
@m('Option::xor')
def _(i, o, p): return ite(is_some(o), ite(is_some(p), NONE, o), p)
@m('Option::get_or_insert_with')
def _(i, p, f):
    v = i.get(p)
    x = with_opt(i, v, lambda j, x: x, lambda j: j.call(f), osort(i))
    i.set(p, some(x))
    loc = i.ex.deref(p, ('val', p))
    return i.ex.locptr(i.ex.sub(loc, ('f', 1, 0, x.sort, '?')))
@m('Option::ok_or')
def _(i, o, e): return ite(is_some(o), ok(fld(o, 1, 0, osort(i))), err(e))
@m('Option::ok_or_else')
def _(i, o, f):
    return with_opt(i, o, lambda j, x: ok(x), lambda j: err(j.call(f)), osort(i))
@m('Context::context')
def _(i, o, e):
    return with_context(i, o, lambda j: e)
@m('Context::with_context')
def _(i, o, f):
    return with_context(i, o, lambda j: j.call(f))
def with_context(i, o, f):
    """anyhow's: the same value, or an error of which nothing else is known"""
    b = base(i.selfty)
    if b not in ('Option', 'Result'):
        raise Unsupported('context of ' + i.selfty)
    c = is_some(o) if b == 'Option' else isv(o, 0)
    i.guarded(not_(c), f)
    return ite(c, ok(fld(o, 1 if b == 'Option' else 0, 0, osort(i))), err(app('error', o)))
@m('Option::iter')
def _(i, o): return it_mk(opt_seq(i.deep(o), osort(i)), I(0), osort(i))
@m('Option::transpose')
def _(i, o):
    # Option<Result<T,E>> -> Result<Option<T>,E>
    r = fld(o, 1, 0)
    return ite(is_some(o), ite(isv(r, 0), ok(some(fld(r, 0, 0))), err(fld(r, 1, 0))), ok(NONE))
@m('Option::flatten')
def _(i, o): return ite(is_some(o), fld(o, 1, 0), NONE)


def unopt_val(o, sort):
    return fld(unopt(o), 1, 0, sort)


@m('Result::is_ok_and')
def _(i, r, f):
    c = isv(r, 0)
    return join(c, None if c is FALSE else i.guarded(c, lambda j: j.call(f, okv(i, r))), FALSE)
@m('Result::is_err_and')
def _(i, r, f):
    c = isv(r, 0)
    return join(c, FALSE, None if c is TRUE else i.guarded(not_(c), lambda j: j.call(f, errv(i, r))))
@m('Result::unwrap_err', 'Result::expect_err')
def _(i, r, *a):
    i.panic(isv(r, 0), 'unwrap_err on Ok')
    return errv(i, r)
@m('Result::is_ok')
def _(i, r): return isv(i.deep(r), 0)
@m('Result::is_err')
def _(i, r): return isv(i.deep(r), 1)
@m('Result::ok')
def _(i, r): return ite(isv(r, 0), some(okv(i, r)), NONE)
@m('Result::err')
def _(i, r): return ite(isv(r, 0), NONE, some(errv(i, r)))
@m('Result::unwrap', 'Result::expect')
def _(i, r, *a):
    c = isv(r, 0)
    i.panic(not_(c), 'unwrap on Err')
    if r.op == 'ite':
        i.ex.assume_state(i.st, [c])
        r = i.ex.assume(r, [c])
    return okv(i, r)
@m('Result::unwrap_or')
def _(i, r, d): return ite(isv(r, 0), okv(i, r), d)
@m('Result::unwrap_or_default')
def _(i, r):
    g = generics(i.selfty or '') or generics(i.tys[0])
    return ite(isv(r, 0), okv(i, r), default(i, g[0]))
@m('Result::unwrap_or_else')
def _(i, r, f):
    c = isv(r, 0)
    b = i.guarded(not_(c), lambda j: j.call(f, errv(i, r)))
    return join(c, okv(i, r), b)
@m('Result::map')
def _(i, r, f):
    c = isv(r, 0)
    a = i.guarded(c, lambda j: ok(j.call(f, okv(i, r))))
    return join(c, a, None if c is TRUE else err(errv(i, r)))
@m('Result::map_err')
def _(i, r, f):
    c = isv(r, 0)
    b = i.guarded(not_(c), lambda j: err(j.call(f, errv(i, r))))
    return join(c, None if c is FALSE else ok(okv(i, r)), b)
@m('Result::or')
def _(i, r, q): return ite(isv(r, 0), ok(okv(i, r)), q)
def ordering(o, *ks):
    return or_(*[isv(o, k) for k in ks])
@m('Ordering::then')
def _(i, o, p): return ite(ordering(o, 1), p, o)
@m('Ordering::then_with')
def _(i, o, f):
    c = ordering(o, 1)
    return join(c, None if c is FALSE else i.guarded(c, lambda j: j.call(f)), o)
@m('Ordering::reverse')
def _(i, o): return ite(ordering(o, 1), o, ite(ordering(o, 0), mk('Ordering', 2), mk('Ordering', 0)))
@m('Ordering::is_eq')
def _(i, o): return ordering(o, 1)
@m('Ordering::is_ne')
def _(i, o): return ordering(o, 0, 2)
@m('Ordering::is_lt')
def _(i, o): return ordering(o, 0)
@m('Ordering::is_gt')
def _(i, o): return ordering(o, 2)
@m('Ordering::is_le')
def _(i, o): return ordering(o, 0, 1)
@m('Ordering::is_ge')
def _(i, o): return ordering(o, 1, 2)
@m('Result::and_then')
def _(i, r, f):
    c = isv(r, 0)
    a = i.guarded(c, lambda j: j.call(f, okv(i, r)))
    return join(c, a, None if c is TRUE else err(errv(i, r)))
@m('Result::map_or')
def _(i, r, d, f):
    c = isv(r, 0)
    a = i.guarded(c, lambda j: j.call(f, okv(i, r)))
    return join(c, a, d)
@m('Result::transpose')
def _(i, r):
    # Result<Option<T>,E> -> Option<Result<T,E>>
    g = generics(i.selfty or '') or generics(i.tys[0])
    s = sort_of(generics(g[0])[0]) if g and generics(g[0]) else 'U'
    o = fld(r, 0, 0)
    return ite(isv(r, 0), ite(is_some(o), some(ok(fld(o, 1, 0, s))), NONE), some(err(fld(r, 1, 0))))
@m('Result::as_ref', 'Result::as_mut', 'Result::cloned', 'Result::copied')
def _(i, r): return i.deep(r)


@m('Try::branch')
def _(i, r):
    if base(i.selfty) == 'Option':
        return ite(is_some(r), mk('ControlFlow', 0, fld(r, 1, 0, osort(i))), mk('ControlFlow', 1, NONE))
    return ite(isv(r, 0), mk('ControlFlow', 0, okv(i, r)), mk('ControlFlow', 1, err(errv(i, r))))


@m('Try::from_output')
def _(i, x): return some(x) if base(i.selfty) == 'Option' else ok(x)


@m('FromResidual::from_residual')
def _(i, r):
    if base(i.selfty) == 'Option':
        return NONE
    src = generics(generics(i.trait)[0])[1] if generics(i.trait) else '?'
    dst = generics(i.selfty)
    if len(dst) == 1:      # anyhow::Result
        return err(app('anyerr', errv(i, r)))
    return err(convert(i, errv(i, r), src, dst[1]))


# ---------------------------------------------------------------------------------------------- conversions
def strish(t):
    t = strip_ref(t)
    t = re.sub(r'^(?:\w+::)*(Rc|Arc|Box|Cow)<', r'\1<', t)
    if re.match(r"^(Rc|Arc|Box)<str>$", t) or base(t) in ('str', 'String', 'SmolStr'):
        return True
    return bool(re.match(r"^Cow<('\w+, )?str>$", t))


def convert(info, v, src, dst):
    s, d = strip_ref(src).strip(), strip_ref(dst).strip()
    if ty_norm(s) == ty_norm(d) or base(s) == base(d) and base(s) in SEQT:
        return info.deep(v)
    if strish(s) and strish(d):
        return info.deep(v)
    if is_tyvar(s) or is_tyvar(d) or s in ('?', '_') or d in ('?', '_') or s.startswith('<') or d.startswith('<'):
        # a conversion chosen by the caller: the argument stands for the converted value
        return info.deep(v)
    bs, bd = base(s), base(d)
    if bd == 'Value' and strish(s):
        return mk('Value', 3, info.deep(v))          # serde_json
    if bs in INTS | {'char', 'bool'} and bd in INTS | {'char'}:
        return b2i(v) if v.sort == 'B' else v
    if bs in INTS and bd in ('f64', 'f32'):
        return app('i2f', v)
    if bs == 'f32' and bd == 'f64':
        return app('f2f', v, 'f64')
    if bd == 'Option':
        g = generics(d)[0]
        if bs != 'Option':
            return some(convert(info, v, s, g))
        return info.deep(v)
    lz = info.ex.resolve(dst, f'From<{src}>', 'from', [], [src], dst)
    if lz is not None:
        return info.ex.call_fn(info.st, lz[0], [v], [src], lz[1], info.pc)
    if bd == 'UninitializedFieldError':
        return app('UninitializedFieldError', info.deep(v))
    if bd == 'Box' or bd.startswith('dyn ') or bd == 'Error':
        return app('boxerr', v)
    if bs in SEQT | {'Rc', 'Arc', 'Box'} or bs.startswith('['):
        if bd in SEQT | {'Rc', 'Arc', 'Box'} or bd.startswith('['):
            return info.deep(v)
    raise Unsupported(f'conversion {src} -> {dst}')


@m('Into::into')
def _(i, v): return convert(i, v, i.selfty, generics(i.trait)[0] if generics(i.trait) else i.dty)
@m('From::from')
def _(i, v): return convert(i, v, generics(i.trait)[0] if generics(i.trait) else i.tys[0], i.selfty)


def try_int(v, dst):
    lo, hi = TYR[dst]
    return ite(and_(le(I(lo), v), le(v, I(hi))), ok(v), err(app('TryFromIntError')))


@m('TryFrom::try_from', 'TryInto::try_into')
def _(i, v):
    if i.meth == 'try_from':
        src, dst = generics(i.trait)[0], i.selfty
    else:
        src, dst = i.selfty, generics(i.trait)[0]
        lz = i.ex.resolve(dst, f'TryFrom<{src}>', 'try_from', [], [src], f'Result<{dst}, ?>')
        if lz is not None:
            return i.ex.call_fn(i.st, lz[0], [v], [src], lz[1], i.pc)
    if base(dst) in TYR and v.sort == 'I':
        return try_int(v, base(dst))
    if ty_norm(src) == ty_norm(dst):
        return ok(v)
    return app('try_into:' + base(dst), v)


@m('AsRef::as_ref', 'Borrow::borrow', 'Deref::deref', 'ToOwned::to_owned', 'Rc::clone', 'Arc::clone', 'Box::new', 'Rc::new', 'Arc::new',
   'String::as_str', 'SmolStr::as_str', 'SmolStr::new', 'SmolStr::new_static', 'SmolStr::new_inline', 'SmolStr::from', 'seq::as_slice', 'seq::to_vec', 'seq::to_owned', 'seq::into_boxed_str',
   'seq::into_boxed_slice', 'seq::into_vec', 'Box::pin', 'seq::into_iter_', 'str::to_string', 'seq::as_str', 'seq::into_string',
   'Cow::into_owned', 'Cow::to_mut', 'seq::from_vec', 'hint::must_use', '::must_use', '__private::must_use', 'seq::as_ref', 'SmallVec::from_vec', 'seq::from_slice', 'seq::into_owned',
   'boxed::box_assume_init_into_vec_unsafe', 'mem::ManuallyDrop', 'seq::as_bytes_', 'seq::to_smolstr', 'ToSmolStr::to_smolstr', 'seq::into_string', 'convert::identity',
   'seq::from_buf', 'QName::local_name', 'QName::as_ref', 'LocalName::as_ref', 'LocalName::into_inner', 'QName::into_inner', 'BytesEnd::local_name_', 'DebugAsDisplay::x')
def _(i, v, *a):
    r = i.deep(v)
    if i.key == 'Deref::deref' and base(i.selfty) == 'MessageField':
        return app('msg', r)
    return r


@m('Box::new_uninit', 'MaybeUninit::new_uninit')
def _(i): return i.ex.heap(i.st, sym('uninit'))


@m('Clone::clone', 'Option::clone')
def _(i, v):
    r = i.deep(v)
    return r


@m('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'seq::as_mut_slice', 'seq::by_ref', 'Iterator::by_ref', 'Write::by_ref')
def _(i, v): return v


@m('mem::take')
def _(i, p):
    v = i.get(p)
    g = i.gs[0] if i.gs else '?'
    i.set(p, default(i, g))
    return v
@m('mem::replace')
def _(i, p, x):
    v = i.get(p)
    i.set(p, x)
    return v
@m('mem::swap')
def _(i, p, q):
    a, b = i.get(p), i.get(q)
    i.set(p, b)
    i.set(q, a)
    return UNIT
@m('mem::drop', 'mem::forget', '::drop')
def _(i, v): return UNIT


def default(info, ty):
    b = base(ty)
    if b == 'Option':
        return NONE
    if b in SEQT or b in ('Rc', 'Arc'):
        return EMPTY
    if b in INTS:
        return I(0)
    if b == 'bool':
        return FALSE
    if b == 'HashMap':
        return mk('Map', 0, EMPTY)
    if b.startswith('('):
        return tup(*[default(info, t) for t in mir.split_top(b[1:-1])])
    if b == 'MessageField':
        return app('msg_none')
    if b == 'SpecialFields':
        return mk('SpecialFields', 0)
    lz = info.ex.resolve(ty, 'Default', 'default', [], [], ty)
    if lz is not None:
        return info.ex.call_fn(info.st, lz[0], [], [], lz[1], info.pc)
    raise Unsupported('default of ' + ty)


@m('Default::default')
def _(i): return default(i, i.selfty)


# ---------------------------------------------------------------------------------------------- comparison
def eqv(info, a, b, ty):
    """PartialEq of two values of (textual) type ty"""
    a, b = info.deep(a), info.deep(b)
    t = base(ty)
    if t == 'Option':
        g = generics(ty)
        ib = g[0] if g else '?'
        if needs_eq(info, ib):
            s = sort_of(ib)
            return or_(and_(not_(is_some(a)), not_(is_some(b))), and_(is_some(a), is_some(b), eqv(info, fld(a, 1, 0, s), fld(b, 1, 0, s), ib)))
    if needs_eq(info, ty):
        lz = info.ex.resolve(strip_ref(ty), 'PartialEq', 'eq', [], ['&' + strip_ref(ty), '&' + strip_ref(ty)], 'bool')
        if lz is not None:
            return info.ex.call_fn(info.st, lz[0], [a, b], ['&' + strip_ref(ty)] * 2, lz[1], info.pc)
    if t in ('f64', 'f32'):
        return app('feq', a, b, sort='B')
    return eq(a, b)


def needs_eq(info, ty):
    return base(ty) in ('TimestampFormat',)


@m('PartialEq::eq')
def _(i, a, b): return eqv(i, a, b, i.selfty)
@m('PartialEq::ne')
def _(i, a, b): return not_(eqv(i, a, b, i.selfty))


def cmpv(info, a, b, ty):
    a, b = info.deep(a), info.deep(b)
    t = base(ty)
    if a.sort == 'I' and b.sort == 'I':
        return ite(lt(a, b), mk('Ordering', 0), ite(eq(a, b), mk('Ordering', 1), mk('Ordering', 2)))
    if t in ('String', 'str', 'SmolStr'):
        return app('strcmp', a, b)
    lz = info.ex.resolve(strip_ref(ty), 'PartialOrd', 'partial_cmp', [], ['&' + strip_ref(ty)] * 2, 'std::option::Option<std::cmp::Ordering>')
    if lz is not None:
        r = info.ex.call_fn(info.st, lz[0], [a, b], ['&' + strip_ref(ty)] * 2, lz[1], info.pc)
        if r.op == 'mk' and r.args[1] == 1:
            return fld(r, 1, 0)
    raise Unsupported('comparison of ' + ty)


@m('Ord::cmp')
def _(i, a, b): return cmpv(i, a, b, i.selfty)
@m('PartialOrd::partial_cmp')
def _(i, a, b): return some(cmpv(i, a, b, i.selfty))
@m('PartialOrd::lt')
def _(i, a, b): return isv(cmpv(i, a, b, i.selfty), 0)
@m('PartialOrd::gt')
def _(i, a, b): return isv(cmpv(i, a, b, i.selfty), 2)
@m('PartialOrd::le')
def _(i, a, b): return not_(isv(cmpv(i, a, b, i.selfty), 2))
@m('PartialOrd::ge')
def _(i, a, b): return not_(isv(cmpv(i, a, b, i.selfty), 0))
@m('Ord::max', 'cmp::max', 'int::max')
def _(i, a, b):
    if a.sort == 'U':
        return ite(isv(cmpv(i, a, b, i.selfty or '?'), 2), a, b)
    return ite(le(a, b), b, a)
@m('Ord::min', 'cmp::min', 'int::min')
def _(i, a, b):
    if a.sort == 'U':
        return ite(isv(cmpv(i, a, b, i.selfty or '?'), 2), b, a)
    return ite(le(a, b), a, b)


# ---------------------------------------------------------------------------------------------- integers
@m('AddAssign::add_assign')
def _(i, p, d):
    r = add(i.get(p), i.deep(d))
    ovf(i, r, i.selfty)
    i.set(p, r)
    return UNIT
@m('SubAssign::sub_assign')
def _(i, p, d):
    r = sub(i.get(p), i.deep(d))
    ovf(i, r, i.selfty)
    i.set(p, r)
    return UNIT
@m('Add::add')
def _(i, a, b):
    r = add(i.deep(a), i.deep(b))
    ovf(i, r, i.selfty)
    return r
@m('Sub::sub')
def _(i, a, b):
    r = sub(i.deep(a), i.deep(b))
    ovf(i, r, i.selfty)
    return r
@m('Mul::mul')
def _(i, a, b):
    r = mul(i.deep(a), i.deep(b))
    ovf(i, r, i.selfty)
    return r
@m('Not::not')
def _(i, a): return not_(i.deep(a))


def ovf(i, r, ty):
    b = base(ty)
    if b in TYR:
        lo, hi = TYR[b]
        i.panic(or_(lt(r, I(lo)), lt(I(hi), r)), 'arithmetic overflow')


@m('int::wrapping_add')
def _(i, a, b): return wrap(add(a, b), base(i.selfty))
@m('int::wrapping_sub')
def _(i, a, b): return wrap(sub(a, b), base(i.selfty))
@m('int::wrapping_mul')
def _(i, a, b): return wrap(mul(a, b), base(i.selfty))


def checked(i, r):
    lo, hi = TYR[base(i.selfty)]
    return ite(and_(le(I(lo), r), le(r, I(hi))), some(r), NONE)


@m('int::checked_add')
def _(i, a, b): return checked(i, add(a, b))
@m('int::checked_sub')
def _(i, a, b): return checked(i, sub(a, b))
@m('int::checked_mul')
def _(i, a, b): return checked(i, mul(a, b))


def clampv(i, r):
    lo, hi = TYR[base(i.selfty)]
    return ite(lt(r, I(lo)), I(lo), ite(lt(I(hi), r), I(hi), r))


@m('int::saturating_add')
def _(i, a, b): return clampv(i, add(a, b))
@m('int::saturating_sub')
def _(i, a, b): return clampv(i, sub(a, b))
@m('int::saturating_mul')
def _(i, a, b): return clampv(i, mul(a, b))
def edge(i, a, what):
    b = base(i.selfty)
    i.panic(eq(a, I(TYR[b][0])), what)
@m('int::abs')
def _(i, a):
    edge(i, a, 'abs of the least value')
    return ite(lt(a, I(0)), sub(I(0), a), a)
@m('int::unsigned_abs')
def _(i, a): return ite(lt(a, I(0)), sub(I(0), a), a)
@m('int::abs_diff')
def _(i, a, b): return ite(lt(a, b), sub(b, a), sub(a, b))
@m('int::signum')
def _(i, a): return ite(lt(a, I(0)), I(-1), ite(eq(a, I(0)), I(0), I(1)))
@m('int::is_negative')
def _(i, a): return lt(a, I(0))
@m('int::is_positive')
def _(i, a): return lt(I(0), a)
@m('int::checked_neg')
def _(i, a): return checked(i, sub(I(0), a))
@m('int::wrapping_neg')
def _(i, a): return wrap(sub(I(0), a), base(i.selfty))


def euclid(i, a, b, panics=True):
    b_ = base(i.selfty)
    bad = or_(eq(b, I(0)), and_(eq(a, I(TYR[b_][0])), eq(b, I(-1))) if TYR[b_][0] < 0 else FALSE)
    if panics:
        i.panic(bad, 'division by zero or overflow')
    q, r = tm.tdiv(a, b), tm.tmod(a, b)
    return ite(lt(r, I(0)), ite(lt(I(0), b), sub(q, I(1)), add(q, I(1))), q), ite(lt(r, I(0)), ite(lt(I(0), b), add(r, b), sub(r, b)), r), bad, q, r
@m('int::div_euclid')
def _(i, a, b): return euclid(i, a, b)[0]
@m('int::rem_euclid')
def _(i, a, b): return euclid(i, a, b)[1]
@m('int::checked_div')
def _(i, a, b):
    e = euclid(i, a, b, False)
    return ite(e[2], NONE, some(e[3]))
@m('int::checked_rem')
def _(i, a, b):
    e = euclid(i, a, b, False)
    return ite(e[2], NONE, some(e[4]))
@m('Ord::clamp', 'int::clamp')
def _(i, a, lo, hi):
    if a.sort == 'U':
        raise Unsupported('clamp')
    i.panic(lt(hi, lo), 'clamp of an empty range')
    return ite(lt(a, lo), lo, ite(lt(hi, a), hi, a))
@m('float::round')
def _(i, a): return app('fround', a)
@m('float::trunc')
def _(i, a): return app('ftrunc', a)
@m('float::floor')
def _(i, a): return app('ffloor', a)
@m('float::ceil')
def _(i, a): return app('fceil', a)
@m('float::abs')
def _(i, a): return app('fabs', a)
@m('float::is_nan')
def _(i, a): return app('fisnan', i.deep(a), sort='B')
@m('float::is_finite')
def _(i, a): return app('fisfinite', i.deep(a), sort='B')
@m('float::from_str', 'FromStr::from_str')
def _(i, s): return parse_std(base(i.selfty), i.deep(s))


# ---------------------------------------------------------------------------------------------- sequences
@m('seq::new', 'seq::with_capacity', 'seq::new_const', 'seq::default')
def _(i, *a): return EMPTY
@m('vec::from_elem')
def _(i, x, n):
    k = fresh('k', 'I', (0, 2**63 - 1))
    return flat(n, k, unit(x))
@m('seq::reserve', 'seq::shrink_to_fit', 'seq::reserve_exact')
def _(i, *a): return UNIT
@m('seq::push', 'seq::push_back')
def _(i, p, x):
    i.set(p, cat(i.deep(p), unit(x)))
    return UNIT
@m('seq::push_front')
def _(i, p, x):
    i.set(p, cat(unit(x), i.deep(p)))
    return UNIT
@m('seq::push_str')
def _(i, p, x):
    i.set(p, cat(i.deep(p), i.deep(x)))
    return UNIT
@m('seq::extend_from_slice', 'seq::append_')
def _(i, p, x):
    i.set(p, cat(i.deep(p), i.deep(x)))
    return UNIT
@m('seq::append')
def _(i, p, q):
    i.set(p, cat(i.deep(p), i.deep(q)))
    i.set(q, EMPTY)
    return UNIT
@m('Extend::extend')
def _(i, p, x):
    if i.key == 'Extend::extend' and base(i.selfty) == 'HashMap':
        raise Unsupported('extend of a map')
    t = i.tys[1]
    it = i.deep(as_iter(i, force(i, x), t))
    i.set(p, cat(i.deep(p), rest(it)))
    return UNIT
@m('seq::len')
def _(i, s):
    s = i.deep(s)
    return blen(s) if base(i.selfty) in ('str', 'String') else len_(s)
@m('seq::is_empty')
def _(i, s): return eq(len_(i.deep(s)), I(0))
@m('seq::clear')
def _(i, p):
    i.set(p, EMPTY)
    return UNIT
@m('seq::retain')
def _(i, p, f):
    s = i.deep(p)
    i.set(p, mapseq(i, s, stsort(i), lambda x: ite(pure(i, f, x), unit(x), EMPTY)))
    return UNIT
def typed(s, so):
    """s, remembered to be of elements of sort so"""
    if so != 'U':
        tm.ELTSORT[s] = so
    return s
@m('seq::split_at')
def _(i, p, k):
    s = typed(i.deep(p), stsort(i))
    n = len_(s)
    i.panic(lt(n, k), 'split_at: mid > len')
    return tup(sslice(s, I(0), k), sslice(s, k, n))
@m('seq::split_off')
def _(i, p, k):
    s = typed(i.deep(p), stsort(i))
    n = len_(s)
    i.panic(lt(n, k), 'split_off: at > len')
    i.set(p, sslice(s, I(0), k))
    return sslice(s, k, n)
@m('seq::truncate')
def _(i, p, n):
    s = typed(i.deep(p), stsort(i))
    i.set(p, ite(lt(n, len_(s)), sslice(s, I(0), n), s))
    return UNIT


def esort(i, ty=None):
    t = strip_ref(ty or i.tys[0])
    b = base(t)
    if b in ('Vec', 'VecDeque'):
        g = generics(re.sub(r'^.*?\b(Vec|VecDeque)<', r'\1<', t))
        return sort_of(g[0]) if g else 'U'
    if b == 'SmallVec':
        g = generics(t)
        return sort_of(g[0].strip()[1:].split(';')[0]) if g else 'U'
    if b.startswith('['):
        return sort_of(b[1:-1].rsplit(';', 1)[0])
    if b in ('String', 'str', 'SmolStr'):
        return 'I'
    return 'U'


def ety(i, ty=None):
    t = strip_ref(ty or i.tys[0])
    b = base(t)
    if b in ('Vec', 'VecDeque'):
        g = generics(t)
        return g[0] if g else '?'
    if b == 'SmallVec':
        g = generics(t)
        return g[0].strip()[1:-1].rsplit(';', 1)[0] if g else '?'
    if b.startswith('['):
        return b[1:-1].rsplit(';', 1)[0].strip()
    return '?'


def stsort(i):
    return esort(i, i.selfty) if i.selfty else esort(i)


@m('seq::remove')
def _(i, p, k):
    s = typed(i.deep(p), stsort(i))
    n = len_(s)
    so = stsort(i)
    if base(i.selfty) == 'VecDeque':
        i.set(p, ite(lt(k, n), cat(sslice(s, I(0), k), sslice(s, add(k, 1), n)), s))
        return ite(lt(k, n), some(at(s, k, so)), NONE)
    i.panic(le(n, k), 'remove: index out of bounds')
    i.set(p, cat(sslice(s, I(0), k), sslice(s, add(k, 1), n)))
    return at(s, k, so)
@m('seq::insert')
def _(i, p, k, x):
    s = i.deep(p)
    n = len_(s)
    i.panic(lt(n, k), 'insert: index out of bounds')
    i.set(p, cat(sslice(s, I(0), k), unit(x), sslice(s, k, n)))
    return UNIT
@m('seq::swap_remove')
def _(i, p, k):
    s = typed(i.deep(p), stsort(i))
    n = len_(s)
    so = stsort(i)
    i.panic(le(n, k), 'swap_remove: index out of bounds')
    l = sub(n, I(1))
    i.set(p, ite(eq(k, l), sslice(s, I(0), l), cat(sslice(s, I(0), k), unit(at(s, l, so)), sslice(s, add(k, 1), l))))
    return at(s, k, so)
@m('seq::pop', 'seq::pop_back')
def _(i, p):
    s = typed(i.deep(p), stsort(i))
    n = len_(s)
    so = stsort(i)
    c = lt(I(0), n)
    i.set(p, ite(c, sslice(s, I(0), sub(n, I(1))), s))
    return ite(c, some(at(s, sub(n, I(1)), so)), NONE)
@m('seq::pop_front')
def _(i, p):
    s = typed(i.deep(p), stsort(i))
    n = len_(s)
    so = stsort(i)
    c = lt(I(0), n)
    i.set(p, ite(c, sslice(s, I(1), n), s))
    return ite(c, some(at(s, I(0), so)), NONE)
@m('seq::reverse')
def _(i, p):
    s = i.deep(p)
    i.set(p, rev(s, stsort(i)))
    return UNIT


def rev(s, so):
    if s.op == 'cat' and len(s.args) <= 1:
        return s
    if s.op == 'unit':
        return s
    if s.op == 'ite':
        return ite(s.args[0], rev(s.args[1], so), rev(s.args[2], so))
    if s.op == 'cat' and all(x.op == 'unit' for x in s.args):
        return cat(*reversed(s.args))
    k = fresh('k', 'I', (0, 2**63 - 1))
    n = len_(s)
    return flat(n, k, unit(at(s, sub(sub(n, I(1)), k), so)))


@m('seq::first', 'seq::front')
def _(i, p):
    s = i.deep(p)
    return ite(lt(I(0), len_(s)), some(at(s, I(0), stsort(i))), NONE)
@m('seq::split_first')
def _(i, p):
    s = typed(i.deep(p), stsort(i))
    return ite(lt(I(0), len_(s)), some(tup(at(s, I(0), stsort(i)), sslice(s, I(1), len_(s)))), NONE)
@m('seq::split_last')
def _(i, p):
    s = typed(i.deep(p), stsort(i))
    n = sub(len_(s), I(1))
    return ite(lt(I(0), len_(s)), some(tup(at(s, n, stsort(i)), sslice(s, I(0), n))), NONE)
@m('seq::last', 'seq::back')
def _(i, p):
    s = i.deep(p)
    return ite(lt(I(0), len_(s)), some(at(s, sub(len_(s), I(1)), stsort(i))), NONE)
@m('seq::get')
def _(i, p, k):
    s = i.deep(p)
    if k.op == 'mk' and k.args[0] == 'Range':
        a, b = k.args[2], k.args[3]
        return ite(and_(le(a, b), le(b, len_(s))), some(sslice(s, a, b)), NONE)
    if k.sort != 'I':
        raise Unsupported('get with ' + show(k)[:40])
    return ite(lt(k, len_(s)), some(at(s, k, stsort(i))), NONE)
@m('seq::get_mut')
def _(i, p, k):
    s = i.deep(p)
    return ite(lt(k, len_(s)), some(elptr(i, p, k, ety(i, i.selfty))), NONE)
@m('seq::first_mut')
def _(i, p):
    s = i.deep(p)
    return ite(lt(I(0), len_(s)), some(elptr(i, p, I(0), ety(i, i.selfty))), NONE)
@m('seq::last_mut')
def _(i, p):
    s = i.deep(p)
    return ite(lt(I(0), len_(s)), some(elptr(i, p, sub(len_(s), I(1)), ety(i, i.selfty))), NONE)


def elptr(i, p, k, t):
    loc = deeploc(i, p)
    return i.ex.locptr(i.ex.sub(loc, ('ix', k, sort_of(t), t)))


def deeploc(i, p):
    loc = i.ex.deref(p, ('val', p))
    while loc[0] == 'loc':
        cur = i.ex.read(i.st, loc)
        if cur.op == 'ptr':
            loc = i.ex.deref(cur, loc)
        else:
            break
    return loc


@m('Index::index')
def _(i, p, k):
    s = i.deep(p)
    k = i.deep(k)
    if base(i.selfty) == 'HashMap':
        raise Unsupported('index of a map')
    if base(i.selfty) in ('str', 'String') and not (k.op == 'mk' and k.args[0] == 'RangeFull'):
        raise Unsupported('part of a text by byte positions')
    n = len_(s)
    if k.op == 'mk':
        a, b = bounds(i, k, n)
        return s if b is n and a.op == 'int' and a.args[0] == 0 else sslice(s, a, b)
    i.panic(le(n, k), 'index out of bounds')
    return at(s, k, esort(i, i.selfty))
@m('IndexMut::index_mut')
def _(i, p, k):
    s = i.deep(p)
    i.panic(le(len_(s), k), 'index out of bounds')
    return elptr(i, p, k, ety(i, i.selfty))
def bounds(i, r, n):
    """first and end index of a range of indices of a sequence of n elements"""
    w = r.args[0] if r.op == 'mk' else None
    if w == 'RangeFull':
        return I(0), n
    if w == 'RangeFrom':
        i.panic(lt(n, r.args[2]), 'slice index')
        return r.args[2], n
    if w in ('RangeTo', 'RangeToInclusive'):
        b = r.args[2] if w == 'RangeTo' else add(r.args[2], I(1))
        i.panic(lt(n, b), 'slice index')
        return I(0), b
    if w == 'Range':
        a, b = r.args[2], r.args[3]
        i.panic(or_(lt(n, b), lt(b, a)), 'slice index')
        return a, b
    raise Unsupported('range ' + str(w or show(r)[:60]))
def blen(s):
    """length of a text in bytes"""
    if s.op == 'lit':
        return I(len(''.join(map(chr, s.args[0])).encode()))
    if s.op == 'cat':
        r = I(0)
        for p in s.args:
            r = add(r, blen(p))
        return r
    if s.op == 'ite':
        return ite(s.args[0], blen(s.args[1]), blen(s.args[2]))
    n = len_(s)
    return ite(eq(n, I(0)), I(0), add(n, app('more_bytes', s, sort='I', rng=(0, 2**62))))


WHITE = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]


def within(c, rs):
    return or_(*[and_(le(I(a), c), le(c, I(b))) if a < b else eq(c, I(a)) for a, b in rs])


DIGIT, UPPER, LOWER = (48, 57), (65, 90), (97, 122)
CHARS = {'is_control': [(0, 31), (127, 159)], 'is_whitespace': WHITE, 'is_ascii': [(0, 127)], 'is_ascii_digit': [DIGIT], 'is_ascii_uppercase': [UPPER],
         'is_ascii_lowercase': [LOWER], 'is_ascii_alphabetic': [UPPER, LOWER], 'is_ascii_alphanumeric': [DIGIT, UPPER, LOWER],
         'is_ascii_control': [(0, 31), (127, 127)], 'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)], 'is_ascii_graphic': [(33, 126)],
         'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)], 'is_ascii_hexdigit': [DIGIT, (65, 70), (97, 102)]}
for n_, rs_ in CHARS.items():
    m(f'char::{n_}', f'methods::{n_}', *([f'u8::{n_}'] if 'ascii' in n_ else []))(lambda i, c, rs=rs_: within(i.deep(c), rs))


def shift_case(c, r, d):
    return ite(within(c, [r]), add(c, I(d)), c)


@m('char::to_ascii_lowercase', 'u8::to_ascii_lowercase')
def _(i, c): return shift_case(i.deep(c), UPPER, 32)
@m('char::to_ascii_uppercase', 'u8::to_ascii_uppercase')
def _(i, c): return shift_case(i.deep(c), LOWER, -32)
@m('char::eq_ignore_ascii_case', 'u8::eq_ignore_ascii_case')
def _(i, a, b): return eq(shift_case(i.deep(a), UPPER, 32), shift_case(i.deep(b), UPPER, 32))
@m('char::len_utf8')
def _(i, c): return ite(lt(c, I(128)), I(1), ite(lt(c, I(0x800)), I(2), ite(lt(c, I(0x10000)), I(3), I(4))))


def pattern(i, p):
    t = strip_ref(i.tys[1]) if len(i.tys) > 1 else '?'
    if base(t) == 'char':
        return unit(p)
    if base(t) in ('str', 'String'):
        return p
    raise Unsupported('text pattern ' + t)


def on_lit(f, g, idem=True):
    """a function of texts, computed where the text is known; idempotent"""
    def h(s):
        if s.op == 'lit':
            return lit(g(''.join(map(chr, s.args[0]))))
        if s is EMPTY:
            return EMPTY
        if idem and s.op == 'app' and s.args[0] == f:
            return s
        if s.op == 'ite':
            return ite(s.args[0], app(f, s.args[1]), app(f, s.args[2]))
        return None
    tm.NORM[f] = h


def white(s):
    return ''.join(map(chr, (c for a, b in WHITE for c in range(a, b + 1))))


W_ = white('')
for n_, g_ in (('trim', lambda s: s.strip(W_)), ('trim_start', lambda s: s.lstrip(W_)), ('trim_end', lambda s: s.rstrip(W_)),
               ('to_ascii_lowercase', lambda s: ''.join(c.lower() if c < '\x80' else c for c in s)), ('to_ascii_uppercase', lambda s: ''.join(c.upper() if c < '\x80' else c for c in s)),
               ('to_lowercase', lambda s: s.lower()), ('to_uppercase', lambda s: s.upper())):
    on_lit(n_, g_, n_ not in ('to_lowercase', 'to_uppercase'))
    m('seq::' + n_)(lambda i, s, n=n_: app(n, i.deep(s)))


@m('seq::eq_ignore_ascii_case')
def _(i, a, b): return eq(app('to_ascii_lowercase', i.deep(a)), app('to_ascii_lowercase', i.deep(b)))


def affix(i, s, p, end):
    s = i.deep(s)
    p = pattern(i, i.deep(p)) if base(i.selfty) in ('str', 'String') else i.deep(p)
    n, k = len_(s), len_(p)
    part, other = (sslice(s, sub(n, k), n), sslice(s, I(0), sub(n, k))) if end else (sslice(s, I(0), k), sslice(s, k, n))
    return and_(le(k, n), eq(part, p)), other


@m('seq::starts_with')
def _(i, s, p): return affix(i, s, p, False)[0]
@m('seq::ends_with')
def _(i, s, p): return affix(i, s, p, True)[0]
@m('seq::strip_prefix')
def _(i, s, p):
    c, o = affix(i, s, p, False)
    return ite(c, some(o), NONE)
@m('seq::strip_suffix')
def _(i, s, p):
    c, o = affix(i, s, p, True)
    return ite(c, some(o), NONE)


@m('seq::concat')
def _(i, p): return mapseq(i, i.deep(p), 'U', lambda x: x)
@m('seq::contains')
def _(i, p, x):
    s = i.deep(p)
    x = i.deep(x)
    if base(i.selfty) in ('str', 'String'):
        p = pattern(i, x)
        k = fresh('k', 'I', (0, 2**63 - 1))
        n = sub(len_(s), sub(len_(p), I(1)))
        return and_(le(len_(p), len_(s)), lt(first(n, k, eq(sslice(s, k, add(k, len_(p))), p)), n))
    k = fresh('k', 'I', (0, 2**63 - 1))
    n = len_(s)
    return lt(first(n, k, eq(at(s, k, esort(i)), x)), n)
@m('seq::chars')
def _(i, p): return it_mk(i.deep(p), I(0), 'I')
@m('seq::as_bytes', 'seq::bytes_', 'seq::into_bytes')
def _(i, p):
    s = i.deep(p)
    return utf8(s)
@m('str::from_utf8', '::from_utf8', 'String::from_utf8')
def _(i, p):
    s = i.deep(p)
    if s.op == 'app' and s.args[0] == 'utf8':
        return ok(s.args[1])
    if s.op == 'lit' and all(x < 128 for x in s.args[0]):
        return ok(s)
    return app('from_utf8', s)


def utf8(s):
    if s.op == 'lit' and all(x < 128 for x in s.args[0]):
        return s
    if s.op == 'cat':
        return cat(*[utf8(x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], utf8(s.args[1]), utf8(s.args[2]))
    return app('utf8', s)


@m('char::encode_utf8', 'methods::encode_utf8', '*::encode_utf8')
def _(i, c, buf): return unit(c)
@m('str::parse', 'seq::parse')
def _(i, s):
    t = i.gs[0] if i.gs else '?'
    s = i.deep(s)
    b = base(t)
    lz = i.ex.resolve(t, 'FromStr', 'from_str', [], ['&str'], i.dty)
    if lz is not None:
        lzn, env = lz
        for pat, c in i.ex.contracts.items():
            if (lzn.name == pat or lzn.name.endswith('::' + pat)) and lzn.name not in i.ex.stack:
                i.ex.used_contracts[lzn.name] = 1
                return c(i, [s])
        return i.ex.call_fn(i.st, lzn, [s], ['&str'], env, i.pc)
    return parse_std(b, s)


def parse_std(b, s):
    """FromStr of a standard number type; the displayed text of a value of that type is read back as the value"""
    if s.op == 'app' and s.args[0] == 'fdec' and b == 'f64':
        return ok(s.args[1])
    if s.op == 'app' and s.args[0] == 'dec' and b in TYR:
        lo, hi = interval(s.args[1])
        if lo is not None and hi is not None and TYR[b][0] <= lo and hi <= TYR[b][1]:
            return ok(s.args[1])
    r = app('parse:' + b, s)
    NV[r] = 2
    return r


# ---------------------------------------------------------------------------------------------- iterators
@m('seq::iter', 'seq::into_iter', 'seq::drain_all')
def _(i, p):
    s = i.deep(p)
    return it_mk(s, I(0), stsort(i))
@m('seq::iter_mut')
def _(i, p):
    loc = deeploc(i, p)
    q = i.ex.locptr(loc)
    return mk('IterMut:' + (ety(i, i.selfty)), 0, q, I(0))
@m('seq::drain')
def _(i, p, r):
    s = typed(i.deep(p), stsort(i))
    a, b = bounds(i, r, len_(s))
    # what was drained is gone once the iterator is, whether it was used up or not
    i.set(p, cat(sslice(s, I(0), a), sslice(s, b, len_(s))))
    return it_mk(sslice(s, a, b), I(0), stsort(i))
@m('iter::empty', 'Empty::new')
def _(i, *a): return it_mk(EMPTY)
@m('iter::once')
def _(i, x): return it_mk(unit(x), I(0), x.sort)
@m('IntoIterator::into_iter')
def _(i, v): return as_iter(i, v, i.tys[0] if i.tys[0] != '?' else i.selfty)
@m('Iterator::copied', 'Iterator::cloned', 'Iterator::fuse', 'Copied::new', 'Cloned::new', 'Fuse::new')
def _(i, it): return i.deep(it) if it.op == 'ptr' and not is_it(i.deep(it)) else it
@m('Iterator::map')
def _(i, it, f):
    return lazy(i, 'map', it, f, lambda: map_(i, it, f))
def map_(i, it, f):
    it = consume(i, it)
    if is_mut(it):
        raise Unsupported('closure with effects')
    s = rest(it)
    out = []

    def g(x):
        r = pure(i, f, x)
        out.append(r.sort)
        return unit(r)
    q = mapseq(i, s, rsort(it), g)
    return it_mk(q, I(0), out[0] if out else 'U')


LAZY = {}


def lazy(i, name, it, f, run):
    """an adaptor: the sequence of its results when the closure has no effects, else the pending calls, made by the consumer"""
    it0, m0 = it, dict(i.st.m)
    try:
        return run()
    except Unsupported as e:
        if 'with effects' not in str(e):
            raise
        i.st.m.clear()
        i.st.m.update(m0)
    v = mk('Lazy:' + name, 0, it0, f)
    LAZY[v] = (list(i.tys), i.fr)
    return v


def force(i, v):
    if v.op == 'mk' and str(v.args[0]).startswith('Lazy:'):
        tys, fr = LAZY[v]
        o = (i.tys, i.fr)
        i.tys, i.fr = tys, fr
        try:
            q = prelude(i, 'vt_' + v.args[0][5:], v.args[3], 1, (consume(i, v.args[2]), v.args[3]), B='?')
        finally:
            i.tys, i.fr = o
        return it_mk(q, I(0), esort_of(q))
    return v


def crate_iter(i, v):
    """a value of a type of the crate that implements Iterator"""
    return v.op == 'mk' and any(l.trait and l.implfor and base(l.trait) == 'Iterator' and base(l.implfor) == v.args[0] for l in i.ex.prog.by.get('next', ()))


def consume(i, it, full=False, upto=None):
    """the iterator a consumer reads; full: to its end, upto: the number of elements taken, else unknown"""
    if crate_iter(i, it) and i.tys and base(i.tys[0]) == it.args[0]:
        q = i.ex.call_fn(i.st, i.ex.prog.by['vt_all'][0], [it], [i.tys[0]], dict(i.fr.env if i.fr is not None else {}, I=i.tys[0], VtItem='?'), i.pc)
        return it_mk(q, I(0), esort_of(q))
    if it.op == 'ptr':
        # by_ref: adaptors over &mut iterator
        v = i.deep(it)
        if is_it(v):
            if upto is not None:
                i.set(it, mk(v.args[0], 0, v.args[2], add(v.args[3], upto(v))))
            elif full:
                i.set(it, mk(v.args[0], 0, v.args[2], len_(v.args[2])))
            else:
                raise Unsupported('an adaptor over an iterator used again later')
        return v
    return it


@m('Iterator::filter_map', 'FilterMap::new')
def _(i, it, f):
    return lazy(i, 'filter_map', it, f, lambda: filter_map_(i, it, f))
def filter_map_(i, it, f):
    it = consume(i, it)
    if is_mut(it):
        raise Unsupported('closure with effects')
    out = []
    g0 = generics(i.dty)

    def g(x):
        r = pure(i, f, x)
        return opt_seq(r, optsort(r))
    q = mapseq(i, rest(it), rsort(it), g)
    return it_mk(q, I(0), esort_of(q))


def optsort(o):
    if o.op == 'ite':
        a = optsort(o.args[1])
        return a if a != '?' else optsort(o.args[2])
    if o.op == 'mk':
        return o.args[2].sort if o.args[1] == 1 else '?'
    return 'U'


def esort_of(q):
    """sort of the elements of a sequence, where it shows"""
    if q.op == 'unit':
        return q.args[0].sort
    if q.op == 'lit':
        return 'I'
    if q.op == 'flat':
        k = fresh('k', 'I')
        return esort_of(opn(q, k))
    if q.op in ('cat', 'ite'):
        for x in q.args:
            if x.op in ('unit', 'lit', 'flat', 'ite', 'cat') and x.sort == 'U':
                r = esort_of(x)
                if r != 'U':
                    return r
    return 'U'


@m('Iterator::filter', 'Filter::new')
def _(i, it, f):
    it = consume(i, it)
    q = mapseq(i, rest(it), rsort(it), lambda x: ite(pure(i, f, x), unit(x), EMPTY))
    return it_mk(q, I(0), rsort(it))
@m('Iterator::flat_map', 'FlatMap::new')
def _(i, it, f):
    it = consume(i, it)

    def g(x):
        r = pure(i, f, x)
        r = i.deep(r)
        if r.op == 'mk' and r.args[0] == 'Option' or r.op == 'ite' and not is_it(r.args[1]):
            return opt_seq(r)
        if is_it(r):
            return rest(r)
        return r
    q = mapseq(i, rest(it), rsort(it), g)
    return it_mk(q, I(0), esort_of(q))
@m('Iterator::flatten')
def _(i, it):
    it = consume(i, it)
    def g(x):
        if x.op in ('mk', 'ite'):
            return opt_seq(x) if not is_it(x) else rest(x)
        return x
    q = mapseq(i, rest(it), rsort(it), g)
    return it_mk(q, I(0), esort_of(q))
@m('Iterator::enumerate', 'Enumerate::new')
def _(i, it):
    it = consume(i, it)
    s = rest(it)
    k = fresh('k', 'I', (0, 2**63 - 1))
    return it_mk(flat(len_(s), k, unit(tup(k, at(s, k, rsort(it))))))
@m('Iterator::zip', 'iter::zip', 'Zip::new')
def _(i, a, b):
    a = consume(i, a)
    b2 = as_iter(i, b, i.tys[1])
    b2 = consume(i, b2)
    s, t = rest(a), rest(b2)
    n, l = len_(s), len_(t)
    mn = n if n is l else ite(le(n, l), n, l)
    k = fresh('k', 'I', (0, 2**63 - 1))
    return it_mk(flat(mn, k, unit(tup(at(s, k, rsort(a)), at(t, k, rsort(b2))))))
@m('Iterator::chain', 'Chain::new')
def _(i, a, b):
    a = consume(i, a)
    b2 = consume(i, as_iter(i, b, i.tys[1]))
    return it_mk(cat(rest(a), rest(b2)), I(0), rsort(a))
@m('Iterator::skip', 'Skip::new')
def _(i, it, n):
    it = consume(i, it)
    s = typed(rest(it), rsort(it))
    return it_mk(ite(le(n, len_(s)), sslice(s, n, len_(s)), EMPTY), I(0), rsort(it))
@m('Iterator::take', 'Take::new')
def _(i, it, n):
    it = consume(i, it, upto=lambda v: ite(le(n, len_(rest(v))), n, len_(rest(v))))
    s = typed(rest(it), rsort(it))
    return it_mk(ite(le(n, len_(s)), sslice(s, I(0), n), s), I(0), rsort(it))
def stop(i, it, f, neg):
    """(sequence, index of the first element f is (not) true of)"""
    s = rest(it)
    n = len_(s)
    k = fresh('k', 'I', (0, 2**63 - 1))
    c = under_facts_k(i, k, n, lambda: pure(i, f, at(s, k, rsort(it))))
    return s, n, first(n, k, not_(c) if neg else c)
@m('Iterator::take_while', 'TakeWhile::new')
def _(i, it, f):
    def upto(v):
        # the element that ends it is taken too
        _, n, x = stop(i, v, f, True)
        return ite(le(n, x), n, add(x, I(1)))
    it = consume(i, it, upto=upto)
    s, n, x = stop(i, it, f, True)
    return it_mk(ite(le(n, x), s, sslice(s, I(0), x)), I(0), rsort(it))
@m('Iterator::skip_while', 'SkipWhile::new')
def _(i, it, f):
    it = consume(i, it)
    s, n, x = stop(i, it, f, True)
    return it_mk(ite(le(n, x), EMPTY, sslice(s, x, n)), I(0), rsort(it))
@m('Iterator::nth')
def _(i, p, k):
    it = i.deep(p)
    if is_mut(it):
        raise Unsupported('nth')
    s = rest(it)
    advance(i, p, it, k)
    return ite(lt(k, len_(s)), some(at(s, k, rsort(it))), NONE)
@m('Iterator::unzip')
def _(i, it):
    s = rest(consume(i, it, True))
    j, k = fresh('k', 'I', (0, 2**63 - 1)), fresh('k', 'I', (0, 2**63 - 1))
    return tup(flat(len_(s), j, unit(fld(at(s, j), 0, 0, gsort(i, 0)))), flat(len_(s), k, unit(fld(at(s, k), 0, 1, gsort(i, 1)))))
def gsort(i, n):
    return sort_of(i.gs[n]) if n < len(i.gs) else 'U'
@m('Iterator::eq')
def _(i, a, b):
    return eq(rest(consume(i, a)), rest(consume(i, as_iter(i, b, i.tys[1]))))
@m('Iterator::ne')
def _(i, a, b):
    return ne(rest(consume(i, a)), rest(consume(i, as_iter(i, b, i.tys[1]))))
@m('Iterator::rev', 'Rev::new')
def _(i, it):
    it = consume(i, it)
    s = rest(it)
    return it_mk(rev(s, rsort(it)), I(0), rsort(it))
@m('Iterator::collect', 'FromIterator::from_iter', 'seq::from_iter')
def _(i, it):
    it = consume(i, force(i, it), True)
    t = i.gs[0] if i.gs else i.dty
    if i.meth == 'from_iter':
        t = i.selfty
        it = consume(i, as_iter(i, it, i.tys[0]), True)
    if base(t) in SEQT or base(t) in ('Box', 'Rc', 'Arc') or base(t).startswith('[') or t in ('?', '_') or base(t) == '_':
        r = rest(it)
        if base(t) == 'String' and rsort(it) != 'I':
            r = mapseq(i, r, 'U', lambda x: x)
        return r
    if base(t) in ('HashMap', 'Map', 'BTreeMap'):
        return mk('Map', 0, rest(it))
    if base(t) in ('Result', 'Option'):
        s = rest(it)
        k = fresh('k', 'I', (0, 2**63 - 1))
        n = len_(s)
        v = 0 if base(t) == 'Result' else 1
        e = first(n, k, not_(isv(at(s, k), v)))
        so = sort_of(generics(generics(t)[0])[0]) if generics(generics(t)[0]) else 'U'
        k2 = fresh('k', 'I', (0, 2**63 - 1))
        good = flat(n, k2, unit(fld(at(s, k2), v, 0, so)))
        bad = NONE if v == 1 else err(fld(at(s, e), 1, 0))
        return ite(lt(e, n), bad, mk(base(t), v, good))
    raise Unsupported('collect into ' + t)
@m('Iterator::count', 'ExactSizeIterator::len', 'Iterator::size')
def _(i, it):
    it = i.deep(force(i, it))
    return len_(rest(it))
@m('Iterator::last')
def _(i, it):
    s = rest(consume(i, it, True))
    return ite(lt(I(0), len_(s)), some(at(s, sub(len_(s), I(1)), rsort(it))), NONE)
def advance(i, p, it, x):
    """leave the iterator behind p after the element x"""
    if p.op == 'ptr' and is_it(it):
        s, pos = it.args[2], it.args[3]
        n = len_(s)
        e = add(pos, x, I(1))
        i.set(p, mk(it.args[0], 0, s, ite(le(e, n), e, n)))
def mut_rest(i, it):
    """(sequence, element type, element pointer) of an iterator over mutable references"""
    q, pos = it.args[2], it.args[3]
    s = i.deep(q)
    t = it.args[0][8:]
    loc = i.ex.deref(q, ('val', q))
    return sslice(s, pos, len_(s)), sort_of(t), lambda x: i.ex.locptr(i.ex.sub(loc, ('ix', add(pos, x), sort_of(t), t)))
def is_mut(it): return it.op == 'mk' and str(it.args[0]).startswith('IterMut:')
def search(i, p, f, neg=False):
    it = i.deep(p)
    if is_mut(it):
        s, so, el = mut_rest(i, it)
    else:
        s, so = rest(it), rsort(it)
        el = lambda x: at(s, x, so)
    n = len_(s)
    k = fresh('k', 'I', (0, 2**63 - 1))
    c = under_facts_k(i, k, n, lambda: pure(i, f, at(s, k, so)))
    x = first(n, k, not_(c) if neg else c)
    if is_mut(it):
        e = add(it.args[3], x, I(1))
        if p.op == 'ptr':
            i.set(p, mk(it.args[0], 0, it.args[2], e))
    else:
        advance(i, p, it, x)
    return x, n, el
@m('Iterator::position')
def _(i, p, f):
    x, n, el = search(i, p, f)
    return ite(lt(x, n), some(x), NONE)
@m('Iterator::find')
def _(i, p, f):
    x, n, el = search(i, p, f)
    return ite(lt(x, n), some(el(x)), NONE)
@m('Iterator::find_map')
def _(i, p, f):
    it = i.deep(p)
    q = mapseq(i, rest(it), rsort(it), lambda x: opt_seq(pure(i, f, x)))
    return head(q, esort_of(q))
@m('Iterator::any')
def _(i, p, f):
    x, n, el = search(i, p, f)
    return lt(x, n)
@m('Iterator::all')
def _(i, p, f):
    x, n, el = search(i, p, f, True)
    return le(n, x)
def prelude(i, name, f, nargs, args, **env):
    """run the documented equivalent of a std method (prelude.rs)"""
    f = i.deep(f)
    item = '?'
    if f.op == 'mk' and str(f.args[0]).startswith('{closure@'):
        ls = i.ex.prog.by.get(f.args[0], [])
        if ls and len(ls[0].args) > nargs:
            item = ls[0].args[nargs][1]
    e = dict(i.fr.env) if i.fr is not None else {}
    e.update({'I': i.tys[0], 'VtItem': item, 'F': i.tys[-1]}, **env)
    return i.ex.call_fn(i.st, i.ex.prog.by[name][0], list(args), [i.tys[0]] + ['?'] * (len(args) - 1), e, i.pc)
@m('FnMut::call_mut', 'Fn::call', 'FnOnce::call_once')
def _(i, f, a):
    if a.op != 'mk':
        raise Unsupported('call of a function value')
    return i.call(f, *a.args[2:])
@m('Iterator::fold')
def _(i, it, a, f):
    return prelude(i, 'vt_fold', f, 2, (consume(i, it, True), a, f), B=i.dty)
@m('Iterator::for_each')
def _(i, it, f):
    return prelude(i, 'vt_for_each', f, 1, (consume(i, it, True), f))
@m('Iterator::try_for_each')
def _(i, it, f):
    n = {'Result': 'result', 'Option': 'option'}.get(base(i.dty))
    if n is None:
        raise Unsupported('try_for_each into ' + i.dty)
    return prelude(i, 'vt_try_for_each_' + n, f, 1, (i.deep(it) if it.op != 'ptr' else it, f), E=(generics(i.dty) + ['?', '?'])[1])
@m('Iterator::map_while')
def _(i, it, f):
    q = prelude(i, 'vt_map_while', f, 1, (consume(i, it), f), B='?')
    return it_mk(q, I(0), esort_of(q))
@m('Iterator::try_fold')
def _(i, it, a, f):
    n = {'Result': 'result', 'Option': 'option'}.get(base(i.dty))
    if n is None:
        raise Unsupported('try_fold into ' + i.dty)
    return prelude(i, 'vt_try_fold_' + n, f, 2, (i.deep(it) if it.op != 'ptr' else it, a, f), B=generics(i.dty)[0], E=(generics(i.dty) + ['?', '?'])[1])
@m('Iterator::scan')
def _(i, it, a, f):
    so = []
    q = prelude(i, 'vt_scan', f, 2, (consume(i, it), a, f), S=i.tys[1], B='?')
    return it_mk(q, I(0), esort_of(q))
@m('Iterator::sum')
def _(i, it):
    s = rest(consume(i, force(i, it), True))
    k = fresh('k', 'I', (0, 2**63 - 1))
    return psum(len_(s), k, at(s, k, 'I'))


@m('BufReader::new', 'BufReader::with_capacity')
def _(i, *a):                  # buffering does not change the bytes delivered (the count read ahead is not observed)
    return a[-1]


@m('EventReader::new')
def _(i, r):
    return mk('EventReader', 0, app('xml_events', r))


@m('Iterator::next')
def _(i, p):
    v = i.get(p)
    if v.op == 'ptr':
        p = v
        v = i.get(p)
    if v.op == 'mk' and v.args[0] == 'Range':
        a, b = v.args[2], v.args[3]
        c = lt(a, b)
        i.set(p, mk('Range', 0, ite(c, add(a, 1), a), b))
        return ite(c, some(a), NONE)
    if v.op == 'mk' and v.args[0] == 'Events':      # xml_rs: the events of a document (reading goes on past the end: none)
        E, pos = v.args[2], v.args[3]
        more = lt(pos, len_(E))
        i.set(p, mk('Events', 0, E, ite(more, add(pos, I(1)), pos)))
        return ite(more, some(mk('Result', 0, at(E, pos))), NONE)
    if not is_it(v):
        raise Unsupported('next on ' + show(v)[:60] + ' : ' + str(i.selfty)[:60])
    if v.args[0].startswith('IterMut:'):
        q, pos = v.args[2], v.args[3]
        s = i.deep(q)
        t = v.args[0][8:]
        i.set(p, mk(v.args[0], 0, q, add(pos, 1)))
        loc = i.ex.deref(q, ('val', q))
        e = i.ex.locptr(i.ex.sub(loc, ('ix', pos, sort_of(t), t)))
        return ite(lt(pos, len_(s)), some(e), NONE)
    s, pos = v.args[2], v.args[3]
    i.set(p, mk(v.args[0], 0, s, add(pos, 1)))
    if pos.op == 'int' and pos.args[0] == 0 and s.op in ('flat', 'cat', 'ite'):
        return head(s, it_sort(v))
    return ite(lt(pos, len_(s)), some(at(s, pos, it_sort(v))), NONE)


# ---------------------------------------------------------------------------------------------- maps (insertion log)
@m('HashMap::new', 'HashMap::with_capacity', 'Map::new')
def _(i, *a):
    if i.key == 'Map::new' and len(a) == 2:      # std::iter::Map
        return REG['Iterator::map'](i, *a)
    return mk('Map', 0, EMPTY)
@m('HashMap::insert', 'Map::insert', 'BTreeMap::insert')
def _(i, p, k, v):
    mp = i.get(p)
    log = fld(mp, 0, 0)
    i.set(p, mk('Map', 0, cat(log, unit(tup(k, v)))))
    return app('map_old', log, k)
@m('HashMap::get')
def _(i, p, k): return app('map_get', fld(i.deep(p), 0, 0), i.deep(k))
@m('HashMap::contains_key')
def _(i, p, k): return is_some(app('map_get', fld(i.deep(p), 0, 0), i.deep(k)))
@m('HashMap::len')
def _(i, p): return len_(app('map_entries', fld(i.deep(p), 0, 0)))
@m('HashMap::is_empty')
def _(i, p): return eq(len_(app('map_entries', fld(i.deep(p), 0, 0))), I(0))
@m('HashMap::drain')
def _(i, p):
    v = i.deep(p)
    i.set(p, mk('Map', 0, EMPTY))
    return it_mk(app('map_entries', fld(v, 0, 0)))
@m('HashMap::iter', 'HashMap::into_iter')
def _(i, p): return it_mk(app('map_entries', fld(i.deep(p), 0, 0)))
@m('HashMap::keys', 'HashMap::values')
def _(i, p):
    s = app('map_entries', fld(i.deep(p), 0, 0))
    k = fresh('k', 'I', (0, 2**63 - 1))
    return it_mk(flat(len_(s), k, unit(fld(at(s, k), 0, 0 if i.meth == 'keys' else 1))))
@m('HashMap::clear')
def _(i, p):
    i.set(p, mk('Map', 0, EMPTY))
    return UNIT


# ---------------------------------------------------------------------------------------------- text
def display(info, v, ty):
    v = info.deep(v)
    t = strip_ref(ty)
    b = base(t)
    if strish(t) or b in ('Cow',):
        return v
    if b in INTS:
        return app('dec', v)
    if b == 'char':
        return unit(v)
    if b == 'bool':
        return ite(v, lit('true'), lit('false'))
    if b in ('f64', 'f32'):
        return app('fdec', v)
    if b == 'Arguments':
        return fld(v, 0, 0)
    lz = info.ex.resolve(t, 'std::fmt::Display', 'fmt', [], ['&' + t, '&mut Formatter'], '?') or info.ex.resolve(t, 'fmt::Display', 'fmt', [], ['&' + t, '?'], '?')
    if lz is not None:
        p = info.ex.heap(info.st, EMPTY)
        info.ex.call_fn(info.st, lz[0], [v, p], ['&' + t, '&mut Formatter'], lz[1], info.pc)
        return info.ex.read(info.st, ('loc', p.args[0], ()))
    return app('display:' + b, v)


@m('Argument::new_display')
def _(i, v):
    t = i.gs[0] if i.gs else i.tys[0]
    return mk('Arg', 0, display(i, v, t))
@m('Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def _(i, v): return mk('Arg', 0, app(i.meth, i.deep(v)))
@m('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def _(i, s): return mk('Arguments', 0, i.deep(s))
@m('Arguments::new')
def _(i, tmpl, args):
    t = i.deep(tmpl)
    a = i.deep(args)
    if t.op != 'lit':
        raise Unsupported('format template')
    bs = t.args[0]
    n = 0
    k = 0
    out = []
    buf = bytearray()

    def flush():
        if buf:
            out.append(lit(bytes(buf).decode('utf8')))
            del buf[:]
    while k < len(bs):
        b = bs[k]
        k += 1
        if b == 0:
            break
        if b < 0x80:
            buf += bytes(bs[k:k + b])
            k += b
        elif b == 0x80:
            ln = bs[k] | bs[k + 1] << 8
            k += 2
            buf += bytes(bs[k:k + ln])
            k += ln
        elif b == 0xC0:
            flush()
            out.append(fld(at(a, I(n)), 0, 0))
            n += 1
        else:
            raise Unsupported('formatting directive %#x' % b)
    flush()
    return mk('Arguments', 0, cat(*out))
@m('fmt::format', '::format')
def _(i, a): return fld(i.deep(a), 0, 0)
@m('ToString::to_string')
def _(i, v): return display(i, v, i.selfty)
@m('Formatter::write_fmt')
def _(i, p, a):
    i.set(p, cat(i.deep(p), fld(a, 0, 0)))
    return ok(UNIT)
@m('Formatter::write_str', 'Formatter::pad')
def _(i, p, s):
    i.set(p, cat(i.deep(p), i.deep(s)))
    return ok(UNIT)
@m('Formatter::write_char')
def _(i, p, c):
    i.set(p, cat(i.deep(p), unit(c)))
    return ok(UNIT)
@m('Display::fmt', 'Debug::fmt')
def _(i, v, p):
    if i.key == 'Debug::fmt':
        txt = app('debug', i.deep(v))
    else:
        txt = display(i, v, i.selfty)
    i.set(p, cat(i.deep(p), txt))
    return ok(UNIT)


def emit(i, p, text):
    """write text to a writer"""
    w = i.deep(p)
    if w.op == 'mk' and w.args[0] == 'W':
        # an output that may fail: (trace, number of failures seen, oracle state)
        tr, bad = w.args[2], w.args[3]
        f = app('fails', tr, text, sort='B')
        i.set(p, mk('W', 0, ite(f, cat(tr, app('part', tr, text)), cat(tr, text)), or_(bad, f)))
        return ite(f, err(app('ioerr', tr, text)), ok(UNIT))
    i.set(p, cat(w, text))
    return ok(UNIT)


@m('Write::write_fmt')
def _(i, p, a): return emit(i, p, fld(a, 0, 0))
@m('Write::write_all')
def _(i, p, b):
    s = i.deep(b)
    if s.op == 'app' and s.args[0] == 'utf8':
        s = s.args[1]
    elif s.op == 'cat':
        s = cat(*[x.args[1] if x.op == 'app' and x.args[0] == 'utf8' else x for x in s.args])
    return emit(i, p, s)
@m('Write::write_char', 'Write::write_str')
def _(i, p, s):
    return emit(i, p, unit(s) if i.meth == 'write_char' else i.deep(s))
@m('Write::flush')
def _(i, p): return ok(UNIT)


# ---------------------------------------------------------------------------------------------- panics
@m('rt::panic_fmt', 'panicking::panic_fmt', 'panicking::panic', 'panicking::assert_failed', 'rt::begin_panic', '::panic_fmt', 'panicking::panic_display', 'panicking::unreachable_display', 'panicking::panic_const', 'option::expect_failed')
def _(i, *a): raise Diverge(i.key)


# ---------------------------------------------------------------------------------------------- chrono
@m('DateTime::parse_from_rfc3339')
def _(i, s):
    s = i.deep(s)
    return app('rfc3339', s)
def instant_secs(d):
    """seconds of an instant: a parsed text, the text of a known instant, or one of these seen in another time zone"""
    if d.op == 'app':
        n = d.args[0]
        if n == 'instant':
            return d.args[1]
        if n == 'utc':
            return instant_secs(d.args[1])
        if n == 'local':          # the wall clock of the text taken as if it were UTC
            return add(instant_secs(d.args[1]), instant_off(d.args[1]))
    return app('ts', d, sort='I', rng=TYR['i64'])
def instant_off(d):
    if d.op == 'app' and d.args[0] in ('instant', 'utc', 'local'):
        return I(0)
    return app('utc_offset', d, sort='I', rng=(-86399, 86399))
def instant_sub(d):
    """nanoseconds within the second"""
    if d.op == 'app':
        if d.args[0] == 'instant':
            return I(0)
        if d.args[0] in ('utc', 'local'):
            return instant_sub(d.args[1])
    return app('subsec', d, sort='I', rng=(0, 1999999999))
def canonical(t):
    return app('to_rfc3339', fld(app('from_ts', t, I(0)), 1, 0), mk('SecondsFormat', 0), I(1))
@m('DateTime::timestamp')
def _(i, d): return instant_secs(i.deep(d))
@m('DateTime::timestamp_millis')
def _(i, d): return add(mul(I(1000), instant_secs(i.deep(d))), tm.tdiv(instant_sub(i.deep(d)), I(1000000)))
@m('DateTime::timestamp_micros')
def _(i, d): return add(mul(I(1000000), instant_secs(i.deep(d))), tm.tdiv(instant_sub(i.deep(d)), I(1000)))
@m('DateTime::with_timezone', 'DateTime::to_utc', 'DateTime::naive_utc')
def _(i, d, *z):
    if i.meth == 'with_timezone' and 'Utc' not in ''.join(i.gs):
        raise Unsupported('with_timezone ' + str(i.gs))
    return app('utc', i.deep(d))
@m('DateTime::naive_local')
def _(i, d): return app('local', i.deep(d))
@m('NaiveDateTime::and_utc')
def _(i, d): return i.deep(d)
@m('DateTime::from_timestamp')
def _(i, s, n):
    return app('from_ts', s, n)
@m('DateTime::to_rfc3339_opts')
def _(i, d, f, z):
    d = i.deep(d)
    if d.op == 'app' and d.args[0] in ('utc', 'local') and f.op == 'mk' and f.args[1] == 0 and z is TRUE:
        return canonical(instant_secs(d))
    return app('to_rfc3339', d, f, ite(z, I(1), I(0)))


# ---------------------------------------------------------------------------------------------- errors
@m('__private::format_err', '__private::not', 'UninitializedFieldError::new', 'Error::msg', 'Error::new', 'UninitializedFieldError::field_name')
def _(i, *a):
    if i.meth == 'not':
        return not_(i.deep(a[0]))
    return app('err:' + i.meth, *[i.deep(x) for x in a])


# ---------------------------------------------------------------------------------------------- quick_xml
@m('Reader::read_event_into')
def _(i, p, buf):
    r = i.get(p)
    r = i.deep(p)
    if not (r.op == 'mk' and r.args[0] == 'QReader'):
        raise Unsupported('event reader ' + show(r)[:60])
    ev, pos = r.args[2], r.args[3]
    i.set(p, mk('QReader', 0, ev, add(pos, 1)))
    return at(ev, pos)
@m('BytesStart::name', 'BytesEnd::name', 'BytesStart::local_name', 'BytesEnd::local_name')
def _(i, e): return app('elname', i.deep(e))
@m('BytesStart::attributes')
def _(i, e): return it_mk(app('attrs', i.deep(e)))
@m('Attribute::normalized_value', 'Attribute::unescape_value')
def _(i, a, *r): return app('norm', i.deep(a))
@m('BytesStart::try_get_attribute')
def _(i, e, n): raise Unsupported('try_get_attribute')
@m('__private229::from_utf8_lossy', 'String::from_utf8_lossy')
def _(i, v): return app('utf8_lossy', i.deep(v))


# ---------------------------------------------------------------------------------------------- protobuf
tm.NORM['msg_some'] = lambda f: FALSE if f.op == 'app' and f.args[0] == 'msg_none' else None
@m('MessageField::none')
def _(i): return app('msg_none')
@m('SpecialFields::new')
def _(i): return mk('SpecialFields', 0)
@m('MessageField::is_some')
def _(i, f): return app('msg_some', i.deep(f), sort='B')
@m('MessageField::is_none')
def _(i, f): return not_(app('msg_some', i.deep(f), sort='B'))
@m('MessageField::as_ref')
def _(i, f):
    f = i.deep(f)
    return ite(app('msg_some', f, sort='B'), some(app('msg', f)), NONE)
@m('MessageField::take', 'MessageField::into_option')
def _(i, p):
    f = i.deep(p)
    if i.meth == 'take':
        i.set(p, app('msg_none'))
    return ite(app('msg_some', f, sort='B'), some(app('msg', f)), NONE)
@m('MessageField::unwrap', 'MessageField::get_or_default')
def _(i, f): return app('msg', i.deep(f))
@m('EnumOrUnknown::unwrap')
def _(i, e):
    v = i.deep(e)
    i.panic(not_(app('enum_known', v, sort='B')), 'unknown enum value')
    return app('enum', v)
@m('EnumOrUnknown::enum_value_or_default')
def _(i, e): return app('enum', i.deep(e))


# ---------------------------------------------------------------------------------------------- byte streams
# a reader is mk('Stream', 0, bytes, position): it delivers the bytes in order and fails at their end
IOERR = mk('IoError', 0)


def stream(i, p):
    s = i.deep(p)
    if not (s.op == 'mk' and s.args[0] == 'Stream'):
        raise Unsupported('read from ' + show(s)[:60])
    return s.args[2], s.args[3]


@m('ReadBytesExt::read_u32', 'ReadBytesExt::read_i32', 'ReadBytesExt::read_u64', 'ReadBytesExt::read_u16')
def _(i, p):
    b, at_ = stream(i, p)
    t = i.meth.split('_')[1]
    n = int(t[1:]) // 8
    e = 'be' if i.gs and 'BigEndian' in i.gs[0] else 'le' if i.gs and 'LittleEndian' in i.gs[0] else None
    if e is None:
        raise Unsupported('byte order ' + str(i.gs))
    name = e + t
    tm.APPR[name] = TYR[t]
    ok_ = le(add(at_, I(n)), len_(b))
    i.set(p, mk('Stream', 0, b, ite(ok_, add(at_, I(n)), len_(b))))
    return ite(ok_, mk('Result', 0, app(name, b, at_, sort='I')), mk('Result', 1, IOERR))


@m('Read::read_exact')
def _(i, p, buf):
    b, at_ = stream(i, p)
    n = len_(i.deep(buf))
    ok_ = le(add(at_, n), len_(b))
    i.set(buf, ite(ok_, sslice(b, at_, add(at_, n)), app('unfilled', i.deep(buf))))
    i.set(p, mk('Stream', 0, b, ite(ok_, add(at_, n), len_(b))))
    return ite(ok_, mk('Result', 0, UNIT), mk('Result', 1, IOERR))


@m('Cursor::new')
def _(i, v): return v
@m('ZlibDecoder::new')
def _(i, v): return mk('Zlib', 0, i.deep(v))
@m('Read::read_to_end')
def _(i, r, buf):
    z = i.deep(r)
    if not (z.op == 'mk' and z.args[0] == 'Zlib'):
        raise Unsupported('read_to_end of ' + show(z)[:60])
    x = app('inflate', z.args[2])
    tm.NV[x] = 2
    d = fld(x, 0, 0)
    ok_ = eq(discr(x), I(0))
    old = i.deep(buf)
    i.set(buf, ite(ok_, cat(old, d), cat(old, app('partial', x))))
    i.set(r, mk('Zlib', 1, z.args[2]))
    return ite(ok_, mk('Result', 0, len_(d)), mk('Result', 1, IOERR))


@m('Message::parse_from_bytes')
def _(i, b):
    r = app('parse:' + strip_ref(i.selfty).split('<')[0].split('::')[-1], i.deep(b))
    tm.NV[r] = 2
    return r

