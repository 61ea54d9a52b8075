"""P16: From<Rc*/Arc*> for String*: every getter of the result is the getter of the original.

Hypothesis (the object invariant every constructor and setter keeps, see P13): the keys of the original are distinct."""
from verify import *

ASSUMPTIONS = ['the tag keys of the converted object are pairwise distinct (the invariant proved for set_tag/unset_tag in P13; readers of files with repeated keys are outside)']


def distinct(S):
    def f(i, j):
        n = len_(S)
        return or_(lt(i, I(0)), le(n, i), lt(j, I(0)), le(n, j), eq(i, j), not_(eq(fld(at(S, i), 0, 0), fld(at(S, j), 0, 0))))
    return (2, f)


def run(v):
    for fam in ('rc', 'arc'):
        for kind in KINDS + ['OSMObj']:
            ts, t = ty('string', kind), ty(fam, kind)
            b = t.split('::')[1]
            c = {}

            def setup(ts=ts, t=t, b=b, c=c):
                if 'r' not in c:
                    try:
                        x = v.ex()
                        st = State()
                        o, p = v.obj(x, st, t)
                        r = v.call(x, st, f'<{ts} as From<{b}>>::from', [o], [t], ts)
                        c['r'] = x, st, p, v.cell(x, st, r, ts), list(x.obs)
                    except (Unsupported, Diverge) as e:
                        c['r'] = e
                if isinstance(c['r'], Exception):
                    raise c['r']
                return c['r']

            def one(g, setup=setup, ts=ts, t=t):
                x, st, p, q, obs = setup()
                a = getter(v, x, st, ts, g, q)
                w = getter(v, x, st, t, g, p)
                F = Facts()
                if g == 'tags':
                    F = Facts(q=[distinct(w)])
                return a, w, F
            for g in all_getters(kind) + (['object_type'] if kind == 'OSMObj' else []):
                v.eq(f'String{kind}::from({b}): {g} is kept', lambda g=g, one=one: one(g))
            if kind == 'OSMObj':
                # per held kind: the structure of the held object as well
                for i, k in enumerate(KINDS):
                    def held(g, i=i, k=k, setup=setup, fam=fam):
                        x, st, p, q, obs = setup()
                        o = x.read(st, ('loc', p.args[0], ()))
                        r = x.read(st, ('loc', q.args[0], ()))
                        a = getter(v, x, st, ty('string', k), g, v.cell(x, st, fld(r, i, 0), ty('string', k)))
                        w = getter(v, x, st, ty(fam, k), g, v.cell(x, st, fld(o, i, 0), ty(fam, k)))
                        return a, w, [isv(o, i)]
                    g = {'Node': 'lat_lon', 'Way': 'nodes', 'Relation': 'members'}[k]
                    v.eq(f'StringOSMObj::from({b}) holding {k}: {g} is kept', lambda g=g, held=held: held(g))

            def nopanic(setup=setup):
                x, st, p, q, obs = setup()
                x.obs = obs
                return v.panics(x)
            v.ob(f'String{kind}::from({b}): does not panic', nopanic)
