"""P07: writing an object as OSM XML and reading it gives an equal object.

  writer    XMLWriter::write_obj appends, for an object of each kind, a text whose XML events (xmltext) are the start tag,
            the children and the end tag of one element; ensure_header and close frame them in one document
  reader    the contracts of P08: from these events the reader makes an object with the spec'd getters, and each call of
            next() takes the next element
  so, getter by getter, what is read equals what was written: spec(events of the text of obj) = getters of obj
The contracts the writer relies on (escaping P06, numbers P11, timestamps P12) are discharged here as well."""
from writers import *
from spec_p10 import suffix
from spec_p04 import memo
import spec_p06
import spec_p08
import spec_p11
import spec_p12
import xmltext
from spec_p08 import START, END, OBJ, lookup, named
import term as tm

ASSUMPTIONS = spec_p08.ASSUMPTIONS + [
    'texts consist of characters XML can represent; the parser un-escapes as XML 1.0 says (lemmas over the escaping: P06)',
    'keys of headers are distinct XML names other than version and generator',
    'std: reading the displayed text of a number gives the number',
    'chrono: see P12; a timestamp given as text is canonical (P12), one given as a number is one chrono can represent']
TF = 'TimestampFormat'


def attr_contract(i, args):
    s = i.deep(args[1])
    return models.emit(i, args[0], app('esc', s) if s.op != 'lit' else spec_p06.esc(s))


def five_contract(i, args):
    # escapes the five characters only: a tab or newline would not be read back
    return models.emit(i, args[0], app('esc5', i.deep(args[1])))


CON = dict(CONTRACTS, write_xml_attribute=attr_contract, write_xml_escaped=five_contract)


def typed(x):
    """the type of an integer of an abstract object"""
    t = x
    if t.op == 'fld' and t.args[0].op == 'at' and t.args[0].args[0].op == 'app' and t.args[0].args[0].args[0] == 'g:members' and t.args[1:3] == (0, 1):
        return 'i64'
    if t.op == 'at' and t.args[0].op == 'app' and t.args[0].args[0] == 'g:nodes':
        return 'i64'
    if t.op == 'app' and t.args[0] == 'g:id':
        return 'i64'
    if t.op == 'fld' and t.args[0].op == 'app' and t.args[0].args[0] in ('g:version', 'g:changeset_id', 'g:uid'):
        return 'u32'
    return None


def n_parse(ty_):
    def n(s):
        """std: the displayed text of a value of the type is read back as the value"""
        if s.op == 'ite':
            return ite(s.args[0], app('parse:' + ty_, s.args[1]), app('parse:' + ty_, s.args[2]))
        if s.op == 'app' and s.args[0] == 'dec':
            x = s.args[1]
            if x.op == 'ite':
                return ite(x.args[0], n(app('dec', x.args[1])), n(app('dec', x.args[2])))
            lo, hi = TYR[ty_]
            a, b = TYR[typed(x)] if typed(x) else tm.interval(x)
            c = [] if a is not None and a >= lo else [le(I(lo), x)]
            c += [] if b is not None and b <= hi else [le(x, I(hi))]
            return ite(and_(*c), ok(x), err(sym('ParseIntError')))
        return None
    return n


def n_coord(ty_):
    def n(s):
        """P11: the displayed text of a coordinate is read back as the coordinate"""
        if s.op == 'app' and s.args[0] == 'fdec' and s.args[1].op == 'app' and s.args[1].args[0] == 'deg':
            return ok(mk(ty_, 0, s.args[1].args[1]))
        return None
    return n


def n_epoch(s):
    """P12: the instant of the canonical text of n is n"""
    if s.op == 'app' and s.args[0] == 'iso':
        return s.args[1]
    return None


def rules():
    tm.NORM['parse:i64'] = n_parse('i64')
    tm.NORM['parse:u32'] = n_parse('u32')
    tm.NORM['parse:Lat'] = n_coord('Lat')
    tm.NORM['parse:Lon'] = n_coord('Lon')
    tm.NORM['epoch'] = n_epoch


def unrules():
    for k in ('parse:i64', 'parse:u32', 'parse:Lat', 'parse:Lon', 'epoch'):
        tm.NORM.pop(k, None)


CRATE = spec_p08.crate_parse


def crate_parse(v, ty_, o):
    if ty_ in ('Lat', 'Lon'):
        r = app('parse:' + ty_, fld(o, 1, 0))
        return ite(and_(is_some(o), eq(discr(r), I(0))), some(fld(r, 0, 0)), NONE)
    return CRATE(v, ty_, o)


def concat_map(s, f):
    """f(e) concatenated over the elements e of a sequence"""
    if s.op == 'cat':
        return cat(*[concat_map(x, f) for x in s.args])
    if s.op == 'unit':
        return f(s.args[0])
    if s.op == 'ite':
        return ite(s.args[0], concat_map(s.args[1], f), concat_map(s.args[2], f))
    if s.op == 'flat':
        k = fresh('k', 'I', (0, 2**63 - 1))
        return flat(s.args[1], k, concat_map(opn(s, k), f))
    raise Unsupported('events ' + show(s)[:100])


def all_events(s, f):
    """a proof of f(e) for every element e"""
    if s.op in ('cat', 'ite', 'flat'):
        for x in {'cat': lambda: s.args, 'ite': lambda: s.args[1:], 'flat': lambda: (opn(s, fresh('k', 'I', (0, 2**63 - 1))),)}[s.op]():
            r = all_events(x, f)
            if r is not None:
                return r
        return None
    if s.op == 'unit':
        return f(s.args[0])
    raise Unsupported('events ' + show(s)[:100])


def names(s):
    """the events without attributes"""
    def f(e):
        if e.op == 'mk' and e.args[1] == START:
            return unit(mk('XmlEvent', START, e.args[2]))
        return unit(e)
    return concat_map(s, f)


def split_element(ev):
    """events of one object -> (its start tag, what follows)"""
    ps = list(ev.args) if ev.op == 'cat' else [ev]
    while ps and ps[0].op == 'unit' and discr(ps[0].args[0]) is I(xmltext.SPACE):
        ps.pop(0)
    if not ps or ps[0].op != 'unit' or discr(ps[0].args[0]) is not I(START):
        if ps and ps[0].op == 'ite':
            raise Unsupported('the start tag depends on a condition')
        raise Unsupported('no start tag: ' + show(ev)[:200])
    return ps[0].args[0], cat(*ps[1:])


def expected(k, o):
    """getter -> value, for the object o"""
    j = fresh('k', 'I', (0, 2**63 - 1))
    g = lambda n, s='U': app('g:' + n, o, sort=s)
    for n in ('version', 'changeset_id', 'uid', 'user', 'timestamp', 'lat_lon'):
        tm.NV[g(n)] = 2
    opt = lambda n, s='U': ite(is_some(g(n)), some(fld(g(n), 1, 0, s)), NONE)
    e = at(g('tags'), j)
    w = {'id': app('g:id', o, sort='I', rng=TYR['i64']), 'version': opt('version', 'I'), 'changeset_id': opt('changeset_id', 'I'), 'uid': opt('uid', 'I'),
         'user': opt('user'), 'deleted': g('deleted', 'B'), 'tags': flat(len_(g('tags')), j, unit(tup(fld(e, 0, 0), fld(e, 0, 1)))), 'timestamp': g('timestamp')}
    if k == 'node':
        p = fld(g('lat_lon'), 1, 0)
        w['lat_lon'] = ite(is_some(g('lat_lon')), some(tup(mk('Lat', 0, fld(fld(p, 0, 0), 0, 0, 'I')), mk('Lon', 0, fld(fld(p, 0, 1), 0, 0, 'I')))), NONE)
    if k == 'way':
        n = g('nodes')
        w['nodes'] = flat(len_(n), j, unit(at(n, j, 'I')))
    if k == 'relation':
        m = at(g('members'), j)
        tm.NV[fld(m, 0, 0)] = 3
        kind = ite(eq(discr(fld(m, 0, 0)), I(0)), mk('OSMObjectType', 0), ite(eq(discr(fld(m, 0, 0)), I(1)), mk('OSMObjectType', 1), mk('OSMObjectType', 2)))
        w['members'] = flat(len_(g('members')), j, unit(tup(kind, fld(m, 0, 1, 'I'), fld(m, 0, 2))))
    return w


def run(v):
    document(v, 'xml', 'XMLWriter', 'xml::XMLReader<R>', ('osm',))


def document(v, mod, wty, rty, outer):
    W0 = memo(lambda: Writer(v, mod, wty, contracts=CON))

    def texts(kind):
        """what write_obj appends, from a writer that has begun -> (text, header text, element stack)"""
        W = Writer(v, mod, wty, kind=kind, contracts=CON)
        r0, s0 = W.write_obj(W.init)
        head = suffix(W.out(s0), W.w0)
        s1 = W.with_out(s0, W.w0)
        r1, s2 = W.write_obj(s1)
        t = suffix(W.out(s2), W.w0)
        r2, s3 = W.op(s1, 'close')
        tail = suffix(W.out(s3), W.w0)
        return W, (r0, r1, r2), head, t, tail, s1, s2

    def broken(fn):
        def g():
            try:
                return fn()
            except xmltext.Broken as e:
                return Fail(TRUE, None, Facts(), 'not well-formed XML: ' + str(e))
        return g
    for k, kind in OBJ.items():
        tx = memo(lambda kind=kind: texts(kind))

        def succeed():
            W, rs, *_ = tx()
            for r in rs:
                f = prove_eq(r, ok(UNIT))
                if f is not None:
                    return f
            return v.panics(W.x)
        v.ob(f'{wty}, {k}: writing succeeds', succeed)

        def framing():
            """header ++ element, element, closing text: one document, whatever was written before"""
            W, rs, head, t, tail, s1, s2 = tx()
            ev, st = xmltext.read(head)
            if tuple(st) != outer:
                return Fail(TRUE, None, Facts(), f'open elements while writing: {st}')
            f = prove_eq(W.with_out(s2, W.w0), s1)
            if f is not None:
                return f
            e1, st1 = xmltext.read(t, outer)
            if tuple(st1) != outer:
                return Fail(TRUE, None, Facts(), f'open elements after an object: {st1}')
            e2, st2 = xmltext.read(tail, outer)
            if st2:
                return Fail(TRUE, None, Facts(), f'open elements after close: {st2}')
            # the first object is written like every other, behind the header
            parts = list(ev.args) if ev.op == 'cat' else [ev]
            n = len(parts)
            own = list(e1.args) if e1.op == 'cat' else [e1]
            f = prove_eq(cat(*parts[n - len(own):]), e1)
            if f is not None:
                return f
            pre = cat(*parts[:n - len(own)])
            quiet = lambda e: prove(and_(not_(named(e, START)), not_(named(e, END))))
            return all_events(pre, quiet) or all_events(e2, quiet)
        v.ob(f'{wty}, {k}: one well-formed document, each object one element', broken(framing))

        def element():
            """the element: start tag of the kind first, its end tag last, none of an object between"""
            W, rs, head, t, tail, s1, s2 = tx()
            ev, st = xmltext.read(t, outer)
            s, rest_ = split_element(ev)

            def last(x):
                ps = list(x.args) if x.op == 'cat' else [x]
                if ps[-1].op == 'ite':
                    for y in ps[-1].args[1:]:
                        f = last(cat(*ps[:-1], y))
                        if f is not None:
                            return f
                    return None
                if ps[-1].op != 'unit':
                    return Fail(TRUE, None, Facts(), 'no end tag at the end')
                f = prove(and_(eq(discr(ps[-1].args[0]), I(END)), eq(fld(fld(ps[-1].args[0], END, 0), 0, 0), lit(k))))
                return f or all_events(cat(*ps[:-1]), lambda e: prove(and_(not_(named(e, START)), not_(named(e, END)))))
            return prove(eq(fld(fld(s, START, 0), 0, 0), lit(k))) or last(rest_)

        def headers():
            W, rs, head, t, tail, s1, s2 = tx()
            h = tup(sym('key'), sym('value'))
            r, s = W.op(W.init, 'set_header', [h], ['(&str, &str)'])
            r2, s = W.op(s, 'set_header', [tup(sym('key2'), sym('value2'))], ['(&str, &str)'])
            r3, s = W.write_obj(s)
            ev, st = xmltext.read(suffix(W.out(s), W.w0))
            e0, _ = xmltext.read(head)
            if tuple(st) != outer:
                return Fail(TRUE, None, Facts(), f'open elements while writing: {st}')
            return prove_eq(tup(r, r2, r3), tup(*[ok(UNIT)] * 3)) or prove_eq(names(ev), names(e0)) or v.panics(W.x)
        if wty == 'XMLWriter' and k == 'node':
            v.ob(f'{wty}: headers leave the document well formed', broken(headers))
        v.ob(f'{wty}, {k}: the element has the name of the kind and ends with its end tag', broken(element))

        def values():
            W, rs, head, t, tail, s1, s2 = tx()
            ev, st = xmltext.read(t, outer)
            s, rest_ = split_element(ev)
            rules()
            try:
                return read_back(v, k, s, rest_, W)
            finally:
                unrules()
        vals = memo(values)
        for g in all_getters(kind):
            def one(g=g):
                got, want = vals()
                if g == 'timestamp':
                    return same_time(v, got[g], want[g])
                f = prove_eq(got[g], want[g])
                if f is not None:
                    f = v.tryrefute(f, got[g], want[g], Facts())
                return f
            v.ob(f'{wty}, {k}: {g} is read back', broken(one))

        def has_id():
            got, want = vals()
            return prove(got['exists'])
        v.ob(f'{wty}, {k}: the element is read as an object', broken(has_id))
    spec_p08.run(v)
    if rty != 'xml::XMLReader<R>':
        spec_p08.pull(v, rty)
    spec_p06.run(v)
    v.part('displayed as|displayed text', spec_p11.run)
    spec_p12.run(v)


def read_back(v, k, s, rest_, W):
    """the getters of the object P08 makes of these events -> (read, written)"""
    A = fld(s, START, 1)
    old = spec_p08.crate_parse
    spec_p08.crate_parse = crate_parse
    try:
        one = lambda e: spec_p08.spec(v, k, A, lambda j: e, I(1))
        got = one(sym('nothing'))
        for g in ('tags', 'nodes', 'members'):
            if g in got:
                got[g] = concat_map(rest_, lambda e: one(e)[g])
        got['exists'] = is_some(spec_p08.parsed('i64', lookup(A, lit('id'))))
    finally:
        spec_p08.crate_parse = old
    return got, expected(k, W.obj)


def same_time(v, got, want):
    """equal under the equality of TimestampFormat, absent where absent"""
    f = prove_eq(is_some(got), is_some(want))
    if f is not None:
        return f
    x = v.ex(contracts=CON)
    st = State()
    a, b = fld(got, 1, 0), fld(want, 1, 0)
    tm.NV[b] = 2
    F = Facts([is_some(want)])
    pa, pb = v.cell(x, st, F.simp(a), TF), v.cell(x, st, b, TF)
    rules()
    try:
        r = v.call(x, st, f'<{TF} as PartialEq>::eq', [pa, pb], ['&' + TF] * 2, 'bool')
        return prove(r, F) or v.panics(x, F)
    finally:
        unrules()
