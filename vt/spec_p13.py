"""P13: the tags of an object are an insertion-ordered map, seen identically by every accessor.

The map of an object is the sequence of pairs its tags() iterator yields. set_tag / unset_tag must transform that
sequence as the map operation does, leave every other getter alone, and all other accessors must be functions of it."""
from verify import *
from spec_p14 import frame

ASSUMPTIONS = ['the tag map view is the sequence yielded by tags(); that its keys stay distinct is a lemma proved from the set/unset contracts']


def index_of(S, key):
    k = fresh('k', 'I', (0, 2**63 - 1))
    return first(len_(S), k, eq(fld(at(S, k), 0, 0), key))


def spec_set(S, key, val):
    i = index_of(S, key)
    p = tup(key, val)
    return ite(lt(i, len_(S)), cat(sslice(S, I(0), i), unit(p), sslice(S, add(i, 1), len_(S))), cat(S, unit(p)))


def spec_unset(S, key):
    i = index_of(S, key)
    return ite(lt(i, len_(S)), cat(sslice(S, I(0), i), sslice(S, add(i, 1), len_(S))), S)


def spec_tag(S, key):
    i = index_of(S, key)
    return ite(lt(i, len_(S)), some(fld(at(S, i), 0, 1)), NONE)


def run(v):
    key, val = sym('key'), sym('value')
    for fam in FAM:
        for kind in KINDS + ['OSMObj']:
            t = ty(fam, kind)
            b = t.split('::')[1]

            def view(t=t):
                x = v.ex()
                st = State()
                o, p = v.obj(x, st, t)
                return x, st, p, getter(v, x, st, t, 'tags', p)

            def lazy(f):
                c = []

                def g():
                    if not c:
                        c.append(f())
                    return c[0]
                return g

            def S0(t=t):
                return view(t)[3]
            frame2(v, f'{b}::set_tag', t, kind, 'set_tag', ['&str', 'std::string::String'], [key, val], lambda t=t: spec_set(S0(t), key, val))
            frame2(v, f'{b}::unset_tag', t, kind, 'unset_tag', ['&str'], [key], lambda t=t: spec_unset(S0(t), key))

            def acc(g, args, tys, dty, spec, t=t, wf=()):
                def f():
                    x, st, p, S = view(t)
                    r = v.call(x, st, f'<{t} as OSMObjBase>::{g}', [p] + args, ['&' + t] + tys, dty)
                    e = v.panics(x, wf)
                    if e is not None:
                        raise Unsupported(f'possible panic {e}')
                    return r, spec(S)
                v.eq(f'{b}::{g}: describes the map', f)
            acc('tag', [key], ['&str'], 'Option<&str>', lambda S: spec_tag(S, key))
            acc('has_tag', [key], ['&str'], 'bool', lambda S: lt(index_of(S, key), len_(S)))
            acc('num_tags', [], [], 'usize', lambda S: len_(S))
            acc('untagged', [], [], 'bool', lambda S: eq(len_(S), I(0)))
            acc('tagged', [], [], 'bool', lambda S: not_(eq(len_(S), I(0))))
            acc('tags_json_string', [], [], 'std::string::String', spec_json)
    lemmas(v)


def spec_json(S):
    k = fresh('k', 'I', (0, 2**63 - 1))
    log = flat(len_(S), k, unit(tup(fld(at(S, k), 0, 0), mk('Value', 3, fld(at(S, k), 0, 1)))))
    return ite(eq(len_(S), I(0)), lit('{}'), app('display:Value', mk('Value', 5, mk('Map', 0, log))))


def frame2(v, name, t, kind, f, tys, args, want):
    cache = {}

    def setup():
        if 'x' not in cache:
            try:
                x = v.ex()
                st = State()
                o, p = v.obj(x, st, t)
                s1 = st.copy()
                v.call(x, s1, f'<{t} as OSMObjBase>::{f}', [p] + args, ['&mut ' + t] + tys, '()')
                cache['x'] = (x, st, s1, p)
            except (Unsupported, Diverge) as e:
                cache['x'] = e
        if isinstance(cache['x'], Exception):
            raise cache['x']
        return cache['x']

    def one(g):
        x, s0, s1, p = setup()
        return getter(v, x, s1, t, g, p), (want() if g == 'tags' else getter(v, x, s0, t, g, p))
    for g in all_getters(kind):
        v.eq(f'{name}: ' + ('the map is updated' if g == 'tags' else f'{g} is unchanged'), lambda g=g: one(g))
    v.ob(f'{name}: does not panic', lambda: v.panics(setup()[0]))


def lemmas(v):
    """the map laws, over the specification functions: S any sequence of pairs with distinct keys"""
    S, key, val, k2 = sym('S'), sym('key'), sym('value'), sym('key2')

    def K(s, i):
        return fld(at(s, i), 0, 0)

    def distinct(s, p, q):
        return or_(eq(p, q), not_(eq(K(s, p), K(s, q))))

    def insts(s, ixs):
        n = len_(s)
        fs = []
        for a in ixs:
            for b in ixs:
                if a.id < b.id:
                    fs.append(or_(lt(a, I(0)), le(n, a), lt(b, I(0)), le(n, b), distinct(s, a, b)))
        return fs
    p, q, j = sym('p', 'I'), sym('q', 'I'), sym('j', 'I')
    i = index_of(S, key)
    n = len_(S)
    for nm, S1 in (('set', spec_set(S, key, val)), ('unset', spec_unset(S, key))):
        ix = [p, q, add(p, 1), add(q, 1), i]
        v.ob(f'lemma: {nm} keeps keys distinct', lambda S1=S1, ix=ix: prove(distinct(S1, p, q), Facts(insts(S, ix) + [le(I(0), p), lt(p, len_(S1)), le(I(0), q), lt(q, len_(S1))])))
    # lookup laws, pointwise: position j of the new map holds key2
    S1 = spec_set(S, key, val)
    v.ob('lemma: after set the key has the value', lambda: prove(eq(spec_tag(S1, key), some(val)), Facts()))
    v.ob('lemma: after set another key is where it was', lambda: prove(
        or_(eq(k2, key), and_(lt(j, len_(S1)), eq(K(S1, j), k2), eq(fld(at(S1, j), 0, 1), fld(at(S, j), 0, 1)))), Facts([le(I(0), j), lt(j, n), eq(K(S, j), k2)])))
    v.ob('lemma: set adds no other key', lambda: prove(
        or_(eq(k2, key), and_(lt(j, n), eq(K(S, j), k2))), Facts([le(I(0), j), lt(j, len_(S1)), eq(K(S1, j), k2)])))
    S2 = spec_unset(S, key)
    v.ob('lemma: after unset the key is absent', lambda: prove(
        not_(eq(K(S2, j), key)), Facts(insts(S, [j, add(j, 1), i]) + [le(I(0), j), lt(j, len_(S2))])))
    m = ite(lt(i, j), sub(j, 1), j)
    v.ob('lemma: after unset other keys keep value and order', lambda: prove(
        or_(eq(k2, key), and_(le(I(0), m), lt(m, len_(S2)), eq(K(S2, m), k2), eq(fld(at(S2, m), 0, 1), fld(at(S, j), 0, 1)))),
        Facts([le(I(0), j), lt(j, n), eq(K(S, j), k2)])))


def _json_empty(t):
    x = t.args[1]
    if x.op == 'mk' and x.args[:2] == ('Value', 5) and x.args[2].op == 'mk' and x.args[2].args[2] is EMPTY:
        return lit('{}')
    return t


tm.APPNORM['display:Value'] = _json_empty
