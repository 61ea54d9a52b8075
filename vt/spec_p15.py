"""P15: a mixed object behaves exactly as the object it holds.

For each family and each kind k: over o = OSMObj::k(x) with x an arbitrary object of that kind, every query of o
returns what the same query of x returns, every mutator leaves o holding kind k with every getter as after the same
mutator on x, and the projections succeed exactly for k and give x itself."""
from verify import *
from spec_p14 import SETTERS

QUERIES = [(g, [], [], RET.get(g, '?')) for g in GETTERS] + [
    ('tag', ['key'], ['&str'], 'Option<&str>'), ('has_tag', ['key'], ['&str'], 'bool'), ('num_tags', [], [], 'usize'),
    ('untagged', [], [], 'bool'), ('tagged', [], [], 'bool'), ('tags_json_string', [], [], 'std::string::String'), ('tags', [], [], '?')]


def run(v):
    key, val = sym('key'), sym('value')
    for fam in FAM:
        to = ty(fam, 'OSMObj')
        bo = to.split('::')[1]
        for i, kind in enumerate(KINDS):
            tk = ty(fam, kind)

            def start(i=i, tk=tk, to=to, bo=bo):
                x = v.ex()
                st = State()
                h = sym('held')
                o = mk(bo, i, h)
                return x, st, h, v.cell(x, st, o, to), v.cell(x, st, h, tk), o
            n = f'{bo} holding {kind}'

            def q(meth, args, tys, dty, trait='OSMObjBase', start=start, tk=tk, to=to):
                def f():
                    x, st, h, po, ph, o = start()
                    a = v.call(x, st, f'<{to} as {trait}>::{meth}', [po] + args, ['&' + to] + tys, dty)
                    pa = list(x.obs)
                    x.obs = []
                    b = v.call(x, st, f'<{tk} as {trait}>::{meth}', [ph] + args, ['&' + tk] + tys, dty)
                    if pa and not x.obs:
                        x.obs = pa
                        e = v.panics(x)
                        if e is not None:
                            raise Unsupported(str(e))
                    if meth == 'tags':
                        a, b = models.rest(a), models.rest(b)
                    return a, b
                return f
            for m_, args, tys, dty in QUERIES:
                v.eq(f'{n}: {m_} answers as the held object', q(m_, [key] if args else [], tys, dty))
            v.eq(f'{n}: object_type is the held kind', lambda start=start, to=to, i=i: (lambda s: (
                v.call(s[0], s[1], f'<{to} as OSMObjBase>::object_type', [s[3]], ['&' + to], 'OSMObjectType'), mk('OSMObjectType', i)))(start()))
            v.eq(f'{fam.capitalize()}{kind}: object_type is {kind}', lambda start=start, tk=tk, i=i: (lambda s: (
                v.call(s[0], s[1], f'<{tk} as OSMObjBase>::object_type', [s[4]], ['&' + tk], 'OSMObjectType'), mk('OSMObjectType', i)))(start()))
            # mutators
            muts = [(s, [sym('val', so)], [aty]) for s, g, so, aty in SETTERS] + [
                ('set_tag', [key, val], ['&str', 'std::string::String']), ('unset_tag', [key], ['&str']), ('strip_metadata', [], [])]
            for meth, args, tys in muts:
                c = {}

                def setup(meth=meth, args=args, tys=tys, c=c, start=start, tk=tk, to=to):
                    if 'r' not in c:
                        x, st, h, po, ph, o = start()
                        v.call(x, st, f'<{to} as OSMObjBase>::{meth}', [po] + args, ['&mut ' + to] + tys, '()')
                        v.call(x, st, f'<{tk} as OSMObjBase>::{meth}', [ph] + args, ['&mut ' + tk] + tys, '()')
                        c['r'] = x, st, po, ph
                    return c['r']

                def kindkept(setup=setup, i=i):
                    x, st, po, ph = setup()
                    return discr(x.read(st, ('loc', po.args[0], ()))), I(i)
                v.eq(f'{n}: {meth} keeps the kind', kindkept)

                def fieldeq(g, setup=setup, i=i, tk=tk):
                    x, st, po, ph = setup()
                    h2 = fld(x.read(st, ('loc', po.args[0], ())), i, 0)
                    p2 = v.cell(x, st, h2, tk)
                    return getter(v, x, st, tk, g, p2), getter(v, x, st, tk, g, ph)
                for g in all_getters(kind):
                    v.eq(f'{n}: after {meth} {g} is as on the held object', lambda g=g, fieldeq=fieldeq: fieldeq(g))
            # projections
            for j, kj in enumerate(KINDS):
                low = kj.lower()
                tj = ty(fam, kj)

                def proj(meth, by, start=start, to=to, tj=tj, i=i, j=j):
                    x, st, h, po, ph, o = start()
                    r = v.call(x, st, f'<{to} as OSMObj>::{meth}', [o if by == 'val' else po], [{'val': '', 'ref': '&', 'mut': '&mut '}[by] + to], 'Option<' + {'val': '', 'ref': '&', 'mut': '&mut '}[by] + tj + '>')
                    return x, st, h, po, r
                v.eq(f'{n}: into_{low}', lambda proj=proj, low=low, i=i, j=j: (lambda r: (r[4], some(r[2]) if i == j else NONE))(proj(f'into_{low}', 'val')))

                def asref(proj=proj, low=low, i=i, j=j):
                    x, st, h, po, r = proj(f'as_{low}', 'ref')
                    return x.deep(st, r) if hasattr(x, 'deep') else r, some(h) if i == j else NONE
                v.eq(f'{n}: as_{low}', asref)

                def asmut(proj=proj, low=low, i=i, j=j, bo=bo):
                    x, st, h, po, r = proj(f'as_{low}_mut', 'mut')
                    if i != j:
                        return r, NONE
                    if r is NONE:
                        return r, some(h)
                    if r.op != 'mk' or r.args[1] != 1 or r.args[2].op != 'ptr':
                        raise Unsupported('result of as_mut ' + show(r)[:100])
                    p = r.args[2]
                    y = sym('other')
                    before = x.read(st, ('loc', p.args[0], p.args[1]))
                    x.write(st, ('loc', p.args[0], p.args[1]), y)
                    return tup(before, x.read(st, ('loc', po.args[0], ()))), tup(h, mk(bo, i, y))
                v.eq(f'{n}: as_{low}_mut', asmut)
                v.eq(f'{n}: is_{low}', lambda proj=proj, low=low, i=i, j=j, start=start, to=to: (lambda s: (
                    v.call(s[0], s[1], f'<{to} as OSMObj>::is_{low}', [s[3]], ['&' + to], 'bool'), B(i == j)))(start()))
            if fam == 'string':
                v.eq(f'{bo}::from({kind}) holds it', lambda start=start, to=to, tk=tk, bo=bo, i=i: (lambda s: (
                    v.call(s[0], s[1], f'<{to} as From<{tk.split("::")[1]}>>::from', [s[2]], [tk], to), mk(bo, i, s[2])))(start()))
