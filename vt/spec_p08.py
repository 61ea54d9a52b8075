"""P08: what the XML reader makes of the events of a document.

The XML parser is a sequence of events, all of them Ok (a well-formed document).  Contracts:
  get_xml_attribute(attrs, key)  the value of the attribute named key, if there is one; it leaves every attribute
                                 of another name in the list
  xml_elements_to_osm_obj(els)   the object the element els[0] with its children els[1..] describes (None without a
                                 readable id), getter by getter
  XMLReader::next                from position p: the object of the events from the first start tag of an object at or
                                 after p up to and including the first end tag of an object after that; it goes on
                                 after that end tag.  None, at the end, when there is no further start tag
"""
import itertools
import re
from verify import *
import openfile
from spec_p04 import memo, facts, goal, discharge, split4, iterator
from pbfspec import imp
import term as tm

ASSUMPTIONS = ['the XML parser turns a well-formed document into the events of its elements, attribute values unescaped (xml_rs)',
               'an element has no two attributes of the same (local) name (well-formedness)',
               'parsing of numbers by the standard library is a function of the text',
               'start tags of objects are not nested (OSM XML)']
POS = (0, 2**62)
START, END = 3, 4
OBJ = {'node': 'Node', 'way': 'Way', 'relation': 'Relation'}


# ------------------------------------------------------------------ attributes
def islit(k): return k.op == 'lit' or k is EMPTY
def norm(L, k):
    """equations of lookup: which attribute a list has once others have been taken out"""
    if not islit(k):
        raise Unsupported('attribute name')
    if L.op == 'ite':
        return ite(L.args[0], lookup(L.args[1], k), lookup(L.args[2], k))
    if L.op == 'app' and L.args[0] == 'without':
        if not islit(L.args[2]):
            raise Unsupported('attribute name')
        return NONE if L.args[2] is k else lookup(L.args[1], k)
    if L.op == 'app' and L.args[0] == 'attrs':       # a given list of attributes
        for a, b in zip(L.args[1::2], L.args[2::2]):
            if a is k:
                return b
        return NONE
    return None


tm.NORM['lookup'] = norm


def lookup(L, k):
    """the value of attribute k of L"""
    r = app('lookup', L, k)
    if r.op == 'app':
        tm.NV[r] = 2
    return r


def get_attr(log):
    def c(i, args):
        a, k = i.deep(args[0]), i.deep(args[1])
        log.append(k)
        i.set(args[0], app('without', a, k))
        return lookup(a, k)
    return c


def nm(a):
    """local name of an attribute"""
    return fld(fld(a, 0, 0), 0, 0)


def attr_body(v):
    """get_xml_attribute on its real body"""
    x = v.ex()
    st = State()
    A, key = sym('A'), sym('key')
    p = v.cell(x, st, A, 'Vec<OwnedAttribute>')
    r = v.call(x, st, 'xml::get_xml_attribute', [p, key], ['&mut Vec<OwnedAttribute>', '&str'], 'std::option::Option<std::string::String>')
    B_ = st.m[p.args[0]]
    n = len_(A)
    i = fresh('k', 'I', POS)
    q = first(n, i, eq(nm(at(A, i)), key))
    return x, A, key, q, r, B_


def run(v):
    ab = memo(lambda: attr_body(v))

    def names_distinct(A, n):
        """quantified: attributes i < j have different names"""
        return forall(2, lambda i, j: imp(and_(le(I(0), i), lt(i, j), lt(j, n)), ne(nm(at(A, i)), nm(at(A, j)))), lambda i, j: (at(A, i), at(A, j)))

    def result():
        x, A, key, q, r, B_ = ab()
        return prove_eq(r, ite(lt(q, len_(A)), some(fld(at(A, q), 0, 1)), NONE))
    v.ob('get_xml_attribute: the value of the first attribute of that name', result)

    def kept(forward):
        def g():
            x, A, key, q, r, B_ = ab()
            n = len_(A)
            found = lt(q, n)
            last = []
            # where an attribute of another name is afterwards: moved into the gap, shifted, or unmoved
            for name in ('swap', 'shift', 'same'):
                i = fresh('i', 'I', POS)
                if forward:
                    w = {'swap': ite(and_(found, eq(i, sub(n, I(1)))), q, i), 'shift': ite(and_(found, lt(q, i)), sub(i, I(1)), i), 'same': i}[name]
                    f = Facts([lt(i, n), ne(nm(at(A, i)), key), le(I(0), i)])
                    r_ = prove(and_(le(I(0), w), lt(w, len_(B_))), f) or prove_eq(at(B_, w), at(A, i), f)
                else:
                    w = {'swap': ite(and_(found, eq(i, q)), sub(n, I(1)), i), 'shift': ite(and_(found, le(q, i)), add(i, I(1)), i), 'same': i}[name]
                    f = Facts([lt(i, len_(B_)), le(I(0), i)])
                    r_ = prove(and_(le(I(0), w), lt(w, n)), f) or prove_eq(at(B_, i), at(A, w), f)
                if r_ is None:
                    return None
                last.append(name + ': ' + str(r_)[:600])
            return ' | '.join(last)
        return g
    v.ob('get_xml_attribute: every attribute of another name stays', kept(True))
    v.ob('get_xml_attribute: no attribute is invented', kept(False))
    v.ob('get_xml_attribute: no panic', lambda: v.panics(ab()[0]))

    for k in OBJ:
        element(v, k)
    others(v)
    for ty_, mod in (('xml::XMLReader<R>', 'xml'),):
        pull(v, ty_)
    v.assumptions += openfile.ASSUMPTIONS
    new = ('<xml::XMLReader<R> as OSMReader>::new', 'xml::XMLReader<R>')
    for fn, bz in (('xml::from_filename_bz2', True), ('xml::from_filename_uncompressed', False), ('read_xml', True)):
        src = 'bzip2::read::MultiBzDecoder<std::fs::File>' if bz else 'std::io::BufReader<std::fs::File>'
        openfile.opened(v, fn, fn, new, '&str', f'std::result::Result<xml::XMLReader<{src}>, anyhow::Error>', bz=bz)


# ------------------------------------------------------------------ one element
def event(name, attrs, extra='e'):
    return mk('XmlEvent', START, mk('OwnedName', 0, name, sym(extra + '_ns'), sym(extra + '_prefix')), attrs, sym(extra + '_namespace'))


def run_element(v, els, log=None):
    log = [] if log is None else log
    x = v.ex(contracts={'get_xml_attribute': get_attr(log)})
    st = State()
    p = v.cell(x, st, els, '[XmlEvent]')
    r = v.call(x, st, 'xml::xml_elements_to_osm_obj', [p], ['&mut [XmlEvent]'], 'std::option::Option<StringOSMObj>')
    if any(not islit(k) for k in log):
        raise Unsupported('attribute name')
    return x, st, r


def parsed(ty_, o):
    """the number an optional text stands for"""
    t = app('parse:' + ty_, fld(o, 1, 0))
    tm.NV[t] = 2
    return ite(and_(is_some(o), eq(discr(t), I(0))), some(fld(t, 0, 0, 'I')), NONE)


def crate_parse(v, ty_, o):
    x = v.ex()
    st = State()
    err = 'ParseLatLonError' if ty_ in ('Lat', 'Lon') else 'std::string::String'
    r = v.call(x, st, f'<{ty_} as FromStr>::from_str', [fld(o, 1, 0)], ['&str'], f'std::result::Result<{ty_}, {err}>')
    if r.op == 'app' and r.args[0].startswith('parse:'):
        raise Unsupported(f'no from_str of {ty_}')
    return ite(and_(is_some(o), eq(discr(r), I(0))), some(fld(r, 0, 0)), NONE)


def spec(v, k, A, child, n, first_=0):
    """getter -> value, for an element of kind k with attributes A and the further events child(first_) .. child(n - 1)"""
    a = lambda s: lookup(A, lit(s))
    vis = a('visible')
    ts = a('timestamp')
    w = {'id': fld(parsed('i64', a('id')), 1, 0, 'I'),
         'version': parsed('u32', a('version')),
         'changeset_id': parsed('u32', a('changeset')),
         'uid': parsed('u32', a('uid')),
         'user': ite(is_some(a('user')), some(fld(a('user'), 1, 0)), NONE),
         'timestamp': ite(is_some(ts), some(mk('TimestampFormat', exe.ENUMS['TimestampFormat'].index('ISOString'), fld(ts, 1, 0))), NONE),
         'deleted': and_(is_some(vis), eq(fld(vis, 1, 0), lit('false')))}
    j = fresh('k', 'I', POS)
    e = child(j)
    here0 = le(I(first_), j)
    here = lambda s: and_(eq(discr(e), I(START)), eq(fld(fld(e, START, 0), 0, 0), lit(s)))
    c = lambda s: lookup(fld(e, START, 1), lit(s))
    w['tags'] = flat(n, j, ite(and_(here0, here('tag'), is_some(c('k')), is_some(c('v'))), unit(tup(fld(c('k'), 1, 0), fld(c('v'), 1, 0))), EMPTY))
    ref = parsed('i64', c('ref'))
    if k == 'node':
        la, lo = crate_parse(v, 'Lat', a('lat')), crate_parse(v, 'Lon', a('lon'))
        w['lat_lon'] = ite(and_(is_some(la), is_some(lo)), some(tup(fld(la, 1, 0), fld(lo, 1, 0))), NONE)
    if k == 'way':
        w['nodes'] = flat(n, j, ite(and_(here0, here('nd'), is_some(ref)), unit(fld(ref, 1, 0, 'I')), EMPTY))
    if k == 'relation':
        t = crate_parse(v, 'OSMObjectType', c('type'))
        role = ite(is_some(c('role')), fld(c('role'), 1, 0), EMPTY)
        w['members'] = flat(n, j, ite(and_(here0, here('member'), is_some(ref), is_some(t)), unit(tup(fld(t, 1, 0), fld(ref, 1, 0, 'I'), role)), EMPTY))
    return w


def element(v, k):
    A, R = sym('A'), sym('rest')
    els = cat(unit(event(lit(k), A)), R)

    def go():
        log = []
        x, st, r = run_element(v, els, log)
        # the children counted from 0, or from 1 behind the start tag: two ways to write the same
        w = spec(v, k, A, lambda j: at(R, j), len_(R))
        w1 = spec(v, k, A, lambda j: at(els, j), len_(els), 1)
        return x, st, r, {g: [w[g]] + [w1[g]] * (w1[g] is not w[g]) for g in w}, log
    get = memo(go)

    def exists():
        x, st, r, w, log = get()
        if not log:
            raise Unsupported('get_xml_attribute is not used')
        return prove_eq(is_some(r), is_some(parsed('i64', lookup(A, lit('id')))))
    v.ob(f'{k} element: an object exactly when it has a readable id', exists)

    def kind():
        x, st, r, w, log = get()
        o = fld(r, 1, 0)
        return prove_eq(discr(o), I(KINDS.index(OBJ[k])), Facts([is_some(r)]))
    v.ob(f'{k} element: kind', kind)
    for g in all_getters(OBJ[k]):
        def one(g=g):
            x, st, r, w, log = get()
            o = fld(r, 1, 0)
            F = Facts([is_some(r)])
            o = F.simp(o)
            if not (o.op == 'mk' and o.args[0] == 'StringOSMObj'):
                raise Unsupported('shape of the object')
            o = o.args[2]
            x2 = v.ex()
            s2 = State()
            t = ty('string', OBJ[k])
            p = v.cell(x2, s2, o, t)
            val = getter(v, x2, s2, t, g, p)
            for want in w[g]:
                f = prove_eq(val, want, F)
                if f is None:
                    return v.panics(x2)
            return v.tryrefute(f, val, want, F)
        v.ob(f'{k} element: {g}', one)
    v.ob(f'{k} element: no panic', lambda: v.panics(get()[0]))


def others(v):
    """a list that does not begin with the start tag of an object is no object"""
    E0, R = sym('first'), sym('rest')

    def none():
        x, st, r = run_element(v, EMPTY)
        return prove_eq(r, NONE) or v.panics(x)
    v.ob('no element: no object', none)

    def other():
        # the head is a start tag of another name or no start tag
        x, st, r = run_element(v, cat(unit(E0), R))
        name = fld(fld(E0, START, 0), 0, 0)
        F = Facts([or_(ne(discr(E0), I(START)), and_(*[ne(name, lit(s)) for s in OBJ]))])
        return prove(not_(is_some(r)), F) or v.panics(x, F)
    v.ob('another element: no object', other)


# ------------------------------------------------------------------ pulling the next element out of the document
def named(e, tag):
    n = fld(fld(e, tag, 0), 0, 0)
    return and_(eq(discr(e), I(tag)), or_(*[eq(n, lit(s)) for s in OBJ]))


def pull(v, ty_):
    """ty_::next from position p"""
    mod = ty_.split('::')[0]

    def initial():
        x = v.ex()
        st = State()
        r = v.call(x, st, f'<{ty_} as OSMReader>::new', [sym('input')], ['R'], ty_)
        ev = [y for y in r.args[2:] if isinstance(y, T) and y.op == 'mk' and y.args[0] == 'Events'] if r.op == 'mk' else []
        if len(ev) != 1:
            raise Unsupported('shape of the reader')
        return x, r, ev[0]
    new = memo(initial)

    def start():
        x, r, ev = new()
        return prove_eq(ev, mk('Events', 0, app('xml_events', sym('input')), I(0))) or v.panics(x)
    v.ob(f'{ty_}::new: at the first event of the document', start)

    def case(more):
        """the part each flag of the loop plays is found by trying: set once the element has begun, or constant"""
        flags = []
        c = case1(more, ('begun',), flags)
        n = len(flags)
        if n <= 1:
            return c
        if n > 4:
            raise Unsupported('variables of the loop of next')
        for choice in itertools.product(('begun', 'done', 'const'), repeat=n):
            try:
                E, x, pre, post = c = case1(more, choice, [])
            except Diverge:
                continue
            if all(goal(a, b, facts(x, pre + x.facts + list(pc))) is None for _, a, b, pc in x.invobs):
                return c
        raise Unsupported('variables of the loop of next')

    def case1(more, choice, flags):
        """more: an object starts at s >= p and its end tag is at e; otherwise no object starts from p on"""
        _, r0, ev0 = new()
        E, p, s, e = sym('E'), sym('p', 'I', POS), sym('s', 'I', POS), sym('e', 'I', POS)
        n = len_(E)
        # E is the sequence of the events: the parser yields Ok(E[i])
        pre = [le(p, n)]
        if more:
            pre += [le(p, s), lt(s, e), lt(e, n), named(at(E, s), START), named(at(E, e), END)]

            def doc(i):
                return and_(imp(and_(le(p, i), lt(i, s)), and_(not_(named(at(E, i), START)), not_(named(at(E, i), END)))),
                            # the first end tag is that of the object: no other object starts inside
                            imp(and_(le(s, i), lt(i, e)), not_(named(at(E, i), END))), imp(and_(lt(s, i), lt(i, e)), not_(named(at(E, i), START))))
            last = e
        else:
            def doc(i):
                return imp(and_(le(p, i), lt(i, n)), and_(not_(named(at(E, i), START)), not_(named(at(E, i), END))))
            s = last = n
        upto = lambda q: ite(le(q, n), q, n)
        reader = lambda q: subst(r0, {ev0: mk('Events', 0, E, q)})
        x = v.ex()
        x.prune = True
        seen = []

        def conv(info, args):
            x_ = info.deep(args[0])
            seen.append(x_)
            o = app('object', x_)
            tm.NV[o] = 2
            return o
        x.contracts = {'xml_elements_to_osm_obj': conv}
        st = State()
        rc = v.cell(x, st, reader(p), ty_)
        cell = rc.args[0]
        heads = []

        def posn(t):
            f = [y for y in t.args[2:] if isinstance(y, T) and y.op == 'mk' and y.args[0] == 'Events']
            if len(f) != 1:
                raise Unsupported('shape of the reader')
            return f[0].args[3]

        def inv(x, S, k):
            heads.append(k)
            q = add(p, k)
            roles = {}
            for c, t in S.m.items():
                if c == cell or t.op != 'sym' or t is x.entry.m.get(c):
                    continue
                if t.sort == 'B' and x.entry.m[c] in (TRUE, FALSE):
                    flags.append(c)
                    roles[c] = choice[len(flags) - 1] if len(flags) <= len(choice) else 'begun'
                elif t.sort == 'U' and x.entry.m[c] is EMPTY:
                    roles[c] = 'els'
                else:
                    raise Unsupported('variables of the loop of next')

            def value(c, q):
                q1 = upto(q)
                b_ = lt(s, q1)
                w = roles[c]
                if w == 'els':
                    return sslice(E, s, ite(b_, q1, s))
                if w == 'const':
                    return x.entry.m[c]
                if w == 'done':
                    b_ = lt(last, q)
                return b_ if x.entry.m[c] is FALSE else not_(b_)
            # with a flag that ends the loop there is one more round
            stop = last if 'done' not in roles.values() else add(last, I(1))
            m = {posn(S.m[cell]): upto(q)}

            def goals(S2, k2, head):
                q2 = add(p, k2)
                g = [('position', posn(S2.m[cell]), upto(q2)), ('not past the element', le(q2, stop), None)]
                for c in roles:
                    if c in S2.m:
                        g.append(('collected so far', S2.m[c], value(c, q2)))
                return g
            for c in roles:
                m[S.m[c]] = value(c, q)
            return dict(map=m, facts=[doc(q), le(q, stop)], goals=goals)
        l = x.resolve(*split4(f'<{ty_} as OSMReader>::next'), ['&mut ' + ty_], '?')
        if l is None:
            raise Unsupported('no next')
        x.invs[l[0].name] = inv
        # or a loop over the events in a function that next calls
        x.invs[re.compile(r'<(&mut )*(\w+::)*(Events<.*|[A-Z]) as (std::iter::)?Iterator>::next$')] = inv
        r = v.call(x, st, f'<{ty_} as OSMReader>::next', [rc], ['&mut ' + ty_], 'std::option::Option<StringOSMObj>')
        if len(heads) != 1 or not seen:
            raise Unsupported('loops of next')
        els = sslice(E, s, add(e, I(1))) if more else EMPTY
        o = app('object', els)
        tm.NV[o] = 2
        post = [('result', r, o), ('position afterwards', posn(st.m[cell]), add(e, I(1)) if more else n)]
        return E, x, pre, post
    for more, w in ((True, 'an object follows'), (False, 'no object follows')):
        discharge(v, None, f'{ty_}::next, {w}', memo(lambda more=more: case(more)), ['result', 'position afterwards'])
    v.ob(f'{ty_}: objects() yields what next() yields', lambda: iterator(v, ty_))
