"""P19: what the changeset reader makes of the events of a changeset dump.

The document is a sequence of events (quick_xml).  From position p, let p+m be the first event that is the start of a
changeset (or ends the stream), and for a changeset with a body let t be the number of events before its end tag.  Then
next_changeset gives the changeset with the attribute values of that element and the tags of these t events, and goes on
after the end tag.  Loops: where each ends, and what it has gathered then, is proved by induction under the hypotheses
on the document (World below)."""
from verify import *
import openfile
from spec_p04 import memo
from pbfspec import imp
from exe import INTS
import models
from prove import forall
import term as tm

ASSUMPTIONS = ['the XML parser (quick_xml) turns a document into the events of its elements, and attribute values are un-escaped by normalized_value; every position yields an event or an error, and after the last one Eof',
               'an element has no two attributes of the same local name (well-formedness)',
               'parsing of numbers by the standard library is a function of the text',
               'the fields of a HashMap are those of the (key, value) pairs inserted into it, the last one of a key counting']
POS = (0, 2**62)
START, END, EMPTYEL, EOF = 0, 1, 2, 10
REQ = {'id': 'u32', 'created_at': None, 'open': None, 'num_changes': 'u64', 'comments_count': 'u64'}
OPT = {'closed_at': None, 'user': None, 'uid': 'i64'}
NAMES = tuple(REQ) + tuple(OPT)
TAG = ('k', 'v')


def ev(pos):
    return app('evt', pos)


def elname(e):
    return app('elname', e)


def key(a):
    return fld(a, 0, 0)


class World:
    """hypotheses on the document; everything not stated is arbitrary"""

    def __init__(self, v):
        self.v = v
        self.special = {}        # position -> event
        self.broken = []         # positions of errors of the parser
        self.names = {}          # element -> its name
        self.attrs = {}          # element -> names its attributes are distinguished by
        self.missing = {}        # element -> names it lacks
        self.bad = []            # (element, index): the attribute there cannot be read
        self.notnum = set()      # (element, name): the text is no number
        self.ends = []           # (element, index): a loop over its attributes ends there
        self.raws = {}           # (element, name) -> value
        self.loops = []          # (index at which a loop over events ends, function index -> facts before, indices looked at one by one)
        self.resets = []         # (index of the event from which on things count, facts before, facts after)
        self.generic = TAG       # attributes of the elements not named in attrs
        self.types = {**REQ, **OPT}
        self.facts = []
        self.q = []              # quantified facts
        self.log = []
        self.open = []           # loops no closed form was found for

    # ---- the functions of the document
    def qev(self, pos):
        r = ok(ev(pos))
        for q in self.broken:
            r = ite(eq(pos, q), err(sym('XmlError')), r)
        return r

    def ix(self, e, f):
        return app('ix:' + f, e, sort='I', rng=POS)

    def qattr(self, e, i):
        r = ok(mk('Attribute', 0, app('akey', e, i), app('araw', e, i)))
        for e2, j in self.bad:
            if e2 is e or e2 is None and self.attrs.get(e) is None:
                j = self.ix(e, '!') if j is None else j
                r = ite(eq(i, j), err(sym('AttrError')), r)
        return r

    def akey(self, e, i):
        if i.op == 'app' and i.args[0].startswith('ix:') and i.args[1] is e:
            return lit(i.args[0][3:])

    def araw(self, e, i):
        if i.op == 'app' and i.args[0].startswith('ix:') and i.args[1] is e:
            return self.raw(e, i.args[0][3:])

    def elname(self, e):
        if e.op == 'ite':
            return ite(e.args[0], elname(e.args[1]), elname(e.args[2]))
        return self.names.get(e)

    def raw(self, e, f):
        if (e, f) in self.raws:
            return self.raws[e, f]
        return app('raw:' + f, e)

    def text(self, raw):
        """an attribute value, un-escaped"""
        return app('text', raw)

    def number(self, ty_, s):
        """std: the text of an attribute as a number: the value it has, where that fits the type"""
        if any(s is self.text(self.raw(e, f)) for e, f in self.notnum):
            return err(sym('ParseIntError'))
        if s.op == 'app' and s.args[0] == 'text' and s.args[1].op == 'app' and (None, s.args[1].args[0][4:]) in self.notnum:
            n = app('num', s, sort='I', rng=TYR[ty_])
            return ite(self.isnum(s), ok(n), err(sym('ParseIntError')))
        if s.op == 'app' and s.args[0] == 'text' and s.args[1].op == 'app' and s.args[1].args[0].startswith('raw:'):
            t = self.types.get(s.args[1].args[0][4:])
            if t:
                n = app('num', s, sort='I', rng=TYR[t])
                lo, hi = TYR[ty_]
                return ite(and_(le(I(lo), n), le(n, I(hi))), ok(n), err(sym('ParseIntError')))
        return None

    def isnum(self, s):
        return app('isnum', s, sort='B')

    def num(self, e, f):
        return app('num', self.text(self.raw(e, f)), sort='I', rng=TYR[self.types[f]])

    def n(self, e):
        return app('nattr', e, sort='I', rng=POS)

    def present(self, e, f):
        return lt(self.ix(e, f), self.n(e))

    def install(self):
        N = tm.NORM
        N['qev'] = self.qev
        N['qattr'] = self.qattr
        N['evt'] = self.special.get
        N['akey'] = self.akey
        N['araw'] = self.araw
        N['elname'] = self.elname
        N['norm'] = lambda a: ok(self.text(fld(a, 0, 1)))
        for t in INTS:
            N['parse:' + t] = lambda s, t=t: self.number(t, s)

    def remove(self):
        for f in ['qev', 'evt', 'qattr', 'akey', 'araw', 'elname', 'norm'] + ['parse:' + t for t in INTS]:
            tm.NORM.pop(f, None)

    def models(self):
        def read(i, p, buf=None):
            r = i.deep(p)
            if not (r.op == 'mk' and r.args[0] == 'QReader'):
                raise Unsupported('event reader ' + show(r)[:60])
            i.set(p, mk('QReader', 0, r.args[2], add(r.args[3], I(1))))
            return app('qev', r.args[3])

        def attributes(i, e):
            e = i.deep(e)
            j = fresh('i', 'I', POS)
            return models.it_mk(flat(self.n(e), j, unit(app('qattr', e, j))))
        return {'Reader::read_event_into': read, 'Reader::read_event': read, 'BytesStart::attributes': attributes}

    # ---- closed forms of loops
    def elements(self, t, k):
        """elements whose attribute k occurs in a term"""
        out = set()
        seen = set()

        def go(x):
            if x in seen or k not in x.fv:
                return
            seen.add(x)
            if x.op == 'app' and x.args[0] in ('akey', 'araw') and x.args[2] is k:
                out.add(x.args[1])
            for a in x.args:
                if isinstance(a, T):
                    go(a)
        go(t)
        return out

    def cases(self, t, k):
        """every index k of an attribute: one of the named ones, or another -> (substitution, facts)"""
        es = self.elements(t, k)
        if len(es) > 1:
            raise Unsupported('attributes of several elements in one loop')
        for e in es:
            fs = self.fields(e)
            for f in fs:
                yield {k: self.ix(e, f)}, [lt(self.ix(e, f), self.n(e))] + [ne(self.ix(e, f), self.ix(e, g)) for g in fs if g != f]
            yield {}, [lt(k, self.n(e))] + [x for f in fs for x in differs(app('akey', e, k), f)] + [ne(k, self.ix(e, f)) for f in fs]
        if not es:
            yield {}, []

    def fields(self, e):
        return self.attrs.get(e) or self.generic

    def holds(self, t, k, facts=()):
        """t for every attribute index k"""
        for sb, fs in self.cases(t, k):
            F = Facts(self.facts + fs + [le(I(0), subst(k, sb))] + [subst(x, sb) for x in facts])
            r = prove(subst(t, sb), F)
            if r is not None:
                self.log.append(str(r)[:500])
                return False
        return True

    def exit(self, E, k):
        # over the attributes of an element: at their end
        for e in self.elements(E, k):
            n = self.n(e)
            if self.holds(not_(E), k, [lt(k, n)]) and prove(subst(E, {k: n}), Facts(self.facts)) is None:
                return n
            for e2, i in self.ends:
                if e2 is None and i is not None:
                    bad = and_(self.present(e, i), not_(self.isnum(self.text(self.raw(e, i)))))
                    e2, i = e, ite(bad, self.ix(e, i), n)
                elif e2 is None:
                    e2, i = e, ite(lt(self.ix(e, '!'), n), self.ix(e, '!'), n)
                if e2 is e and self.holds(not_(E), k, [lt(k, i)]) and prove(subst(E, {k: i}), Facts(self.facts)) is None:
                    return i
        for n, before, points in self.loops:
            if prove(subst(E, {k: n}), Facts(self.facts)) is not None:
                continue
            r = prove(not_(E), Facts(self.facts + [lt(k, n), le(I(0), k)] + [ne(k, i) for i in points] + before(k)))
            for i in points:
                r = r or prove(not_(subst(E, {k: i})), Facts(self.facts))
            if r is None:
                return n
            self.log.append('exit: ' + str(r)[:500])
        self.open.append('its end: ' + show(E)[:300])
        return None

    def rec(self, v, v0, u, k):
        for e in self.elements(u, k):
            for f in self.fields(e):
                i = self.ix(e, f)
                val = subst(u, {k: i, v: v0})
                if v in val.fv or val is v0:
                    continue
                W = lambda k_: ite(lt(i, k_), val, v0)
                good = True
                for sb, fs in self.cases(u, k):
                    F = Facts(self.facts + fs + [le(I(0), subst(k, sb)), lt(subst(k, sb), self.n(e))])
                    k_ = subst(k, sb)
                    r = prove_eq(subst(u, {**sb, v: W(k_)}), W(add(k_, I(1))), F)
                    if r is not None:
                        self.log.append(f'closed form with {f}: ' + str(r)[:500])
                        good = False
                        break
                if good:
                    return W(k)
        return self.rec2(v, v0, u, k)

    def rec2(self, v, v0, u, k):
        """set at one event; before and after that unchanged, or appended to"""
        for s, before, after in self.resets:
            val = Facts(self.facts).simp(subst(u, {k: s}))
            if v in val.fv:
                continue
            X = subst(u, {v: EMPTY}) if v.sort == 'U' else None
            j = fresh('k', 'I', POS)
            # (value before, value after the event, the same one step later)
            forms = [(lambda k_: v0, lambda k_: val, lambda k_: v0, lambda k_: val)]
            if X is not None and v not in X.fv:
                # a concatenation of n + 1 parts is one of n parts and the last
                part = lambda a, n: flat(n, j, subst(X, {k: add(a, j)}))
                b_ = lambda k_: cat(v0, part(I(0), k_))
                a_ = lambda k_: cat(val, part(add(s, I(1)), sub(k_, add(s, I(1)))))
                forms.append((b_, a_, lambda k_: cat(b_(k_), subst(X, {k: k_})), lambda k_: cat(a_(k_), subst(X, {k: k_}))))
            for b_, a_, b1, a1 in forms:
                r = prove_eq(ite(lt(s, I(0)), a_(I(0)), b_(I(0))), v0, Facts(self.facts))
                r = r or prove_eq(subst(u, {k: s, v: b_(s)}), a_(add(s, I(1))), Facts(self.facts))
                for fs, w0, w1 in (([lt(k, s)] + before(k), b_, b1), ([lt(s, k)] + after(k), a_, a1)):
                    r = r or prove_eq(subst(u, {v: w0(k)}), w1(k), Facts(self.facts + [le(I(0), k)] + fs))
                if r is None:
                    return ite(lt(s, k), a_(k), b_(k))
                self.log.append('set at an event: ' + str(r)[:500])
        self.open.append('what it gathers: ' + show(u)[:300])
        return None


def differs(s, f):
    """the text s is not f, compared as a whole or byte by byte"""
    return [ne(s, lit(f)), not_(and_(eq(len_(s), I(len(f))), *[eq(at(s, I(i), 'I'), I(ord(c))) for i, c in enumerate(f)]))]


def quiet(e):
    """an event that neither begins a changeset nor ends the stream"""
    return [ne(discr(e), I(EOF)), or_(ne(discr(e), I(START)), ne(elname(fld(e, START, 0)), lit('changeset'))),
            or_(ne(discr(e), I(EMPTYEL)), ne(elname(fld(e, EMPTYEL, 0)), lit('changeset')))]


def is_tag(e):
    return or_(*[and_(eq(discr(e), I(d)), eq(elname(fld(e, d, 0)), lit('tag'))) for d in (START, EMPTYEL)])


def tagged(e, f):
    """f(element) of a tag event"""
    return ite(eq(discr(e), I(START)), f(fld(e, START, 0)), f(fld(e, EMPTYEL, 0)))


def body(w, k, e):
    """an event inside of a changeset, of a well-formed document: not its end tag; a tag has a key and a value"""
    r = [ne(discr(e), I(EOF)), or_(ne(discr(e), I(END)), ne(elname(fld(e, END, 0)), lit('changeset')))]
    for d in (START, EMPTYEL):
        el = fld(e, d, 0)
        r.append(imp(and_(eq(discr(e), I(d)), eq(elname(el), lit('tag'))), and_(w.present(el, 'k'), w.present(el, 'v'), *[not_(w.present(el, '!'))] * (None in [a for a, _ in w.bad]))))
    return r


def attr(w, el, f):
    return w.text(w.raw(el, f))


class Scene:
    """a document, and next_changeset run at position p"""

    def __init__(self, v, kind, bad=None, cut=None, tagbad=None):
        self.v = v
        w = self.w = World(v)
        p, m, t = [fresh(n, 'I', POS) for n in 'pmt']
        e0, e1, e2 = fresh('e'), fresh('e'), fresh('e')
        self.p, self.m, self.t, self.e0 = p, m, t, e0
        at0 = add(p, m)
        att = add(p, m, t, I(1))
        w.loops.append((m, lambda k: quiet(ev(add(p, k))), ()))
        if kind in (START, EMPTYEL):
            w.special[at0] = mk('Event', kind, e0)
            w.names[e0] = lit('changeset')
            w.attrs[e0] = NAMES
            w.raws[e0, 'open'] = ite(sym('open?', 'B'), lit('true'), lit('false')) if bad != 'open' else app('raw:open', e0)
        elif kind == EOF:
            w.special[at0] = mk('Event', EOF)
        else:
            w.broken.append(at0)
        if bad == 'open':
            w.facts += [lt(w.ix(e0, 'open'), w.n(e0))] + differs(w.raw(e0, 'open'), 'true') + differs(w.raw(e0, 'open'), 'false')
            w.ends.append((e0, w.ix(e0, 'open')))
        elif bad == 'attribute':
            b = fresh('b', 'I', POS)
            w.bad.append((e0, b))
            w.ends.append((e0, b))
            w.facts.append(lt(b, w.n(e0)))
        elif bad:
            w.notnum.add((e0, bad))
            w.facts.append(lt(w.ix(e0, bad), w.n(e0)))
            w.ends.append((e0, w.ix(e0, bad)))
        if kind == START:
            w.loops.append((t, lambda k: body(w, k, ev(add(p, m, k, I(1)))), ()))
            first_ = add(at0, I(1))
            w.q.append(forall(1, lambda i: imp(and_(le(first_, i), lt(i, att)), and_(*body(w, i, ev(i)))), lambda i: [ev(i)]))
            if cut == 'end':
                w.special[att] = mk('Event', EOF)
            elif cut == 'error':
                w.broken.append(att)
            elif tagbad:
                d, what = tagbad
                w.special[att] = mk('Event', d, e2)
                w.names[e2] = lit('tag')
                if what == 'attribute':
                    w.bad.append((None, None))
                    w.ends.append((None, None))
                    w.facts.append(lt(w.ix(e2, '!'), w.n(e2)))
                else:
                    w.facts.append(le(w.n(e2), w.ix(e2, what)))
            else:
                w.special[att] = mk('Event', END, e1)
                w.names[e1] = lit('changeset')
        w.facts = [x for x in w.facts if x is not TRUE]
        self.full = [w.present(e0, f) for f in REQ]

    def go(self, fname, r0, ty_, ret):
        w, v = self.w, self.v
        w.install()
        try:
            x = v.ex(extra=w.models())
            x.guess = w
            st = State()
            c = v.cell(x, st, r0, ty_)
            r = v.call(x, st, fname, [c], ['&mut ' + ty_], ret)
            return x, st, r, st.m[c.args[0]]
        finally:
            w.remove()

    def within(self, fn):
        def g():
            self.w.install()
            try:
                f = fn()
                if f is not None and self.w.open:
                    # no verdict: what such a loop does is not known
                    raise Unsupported('a loop: ' + self.w.open[0][:300])
                return f
            finally:
                self.w.remove()
        return g

    def tags(self):
        """the tags of the events of the body"""
        w = self.w
        k = fresh('k', 'I', POS)
        e = ev(add(self.p, self.m, k, I(1)))
        el = ite(eq(discr(e), I(EMPTYEL)), fld(e, EMPTYEL, 0), fld(e, START, 0))
        return flat(self.t, k, ite(is_tag(e), unit(tup(attr(w, el, 'k'), attr(w, el, 'v'))), EMPTY))


def reader(v, new, ty_, mod=''):
    """new(input) -> (state, function position -> state of the reader there)"""
    x = v.ex(extra={'Reader::from_reader': lambda i, r: mk('QReader', 0, app('xml_events', i.deep(r)), I(0))})
    st = State()
    r = v.call(x, st, new, [sym('input')], ['R'], ty_)
    q = mk('QReader', 0, app('xml_events', sym('input')), I(0))
    if r.op != 'mk':
        raise Unsupported('shape of the reader')
    return x, r, q


def qpos(r):
    f = [y for y in r.args[2:] if isinstance(y, T) and y.op == 'mk' and y.args[0] == 'QReader'] if r.op == 'mk' else []
    if len(f) != 1:
        raise Unsupported('shape of the reader')
    return f[0].args[3]


def at_position(v, r, q, p):
    """the reader anywhere: all else it holds is arbitrary"""
    a = [mk('QReader', 0, q.args[2], p) if y is q else fresh('field', y.sort) if isinstance(y, T) else y for y in r.args[2:]]
    return mk(r.args[0], r.args[1], *a)


C, CR = 'Changeset', 'ChangesetReader<R>'
RET = 'std::result::Result<std::option::Option<Changeset>, anyhow::Error>'


def fields(r):
    """the changeset of a result by field"""
    names = exe.STRUCTS.get(C)
    if not names:
        raise Unsupported('struct Changeset')
    return {n: fld(r, 0, i) for i, n in enumerate(names)}


def run(v):
    new = memo(lambda: reader(v, 'ChangesetReader::<R>::new', CR))

    def start():
        x, r, q = new()
        return prove(B(qpos(r) is I(0) and any(y is q for y in r.args[2:]))) or v.panics(x)
    v.ob('ChangesetReader::new: at the first event of the document', start)
    v.assumptions += openfile.ASSUMPTIONS
    MB = 'bzip2::read::MultiBzDecoder<{}>'
    xe = {'Reader::from_reader': lambda i, r: mk('QReader', 0, app('xml_events', i.deep(r)), I(0))}
    FR = 'ChangesetReader<' + MB.format('std::fs::File') + '>'
    NEWR = ('ChangesetReader::<R>::new', CR)
    openfile.opened(v, 'ChangesetReader::from_filename', FR.replace('Reader<', 'Reader::<', 1) + '::from_filename', NEWR, '&str', f'std::result::Result<{FR}, anyhow::Error>', True, extra=xe)
    openfile.opened(v, 'ChangesetReader::from_bz2_reader', 'ChangesetReader::<' + MB.format('R') + '>::from_bz2_reader', NEWR, 'R', 'ChangesetReader<' + MB.format('R') + '>', True, result=False, file=False, extra=xe)
    openfile.opened(v, 'ChangesetReader::from_reader', 'ChangesetReader::<R>::from_reader', NEWR, 'R', CR, result=False, file=False, extra=xe)

    def scene(**k):
        S = Scene(v, **k)
        _, r0, q = new()
        return (S,) + S.go('ChangesetReader::<R>::next_changeset', at_position(v, r0, q, S.p), CR, RET)

    def good(kind, name):
        get = memo(lambda: scene(kind=kind))

        def on(fn):
            def g():
                S = get()[0]
                return S.within(lambda: fn(*get()))()
            return g
        iso = lambda t: mk('TimestampFormat', exe.ENUMS['TimestampFormat'].index('ISOString'), t)

        def result(S, x, st, r, after):
            F = Facts(S.w.facts + S.full, q=S.w.q)
            return prove(and_(eq(discr(r), I(0)), eq(discr(fld(r, 0, 0)), I(1))), F)
        v.ob(f'{name}: a changeset is read', on(result))
        E = lambda S: S.e0
        opt = lambda S, f, val: ite(S.w.present(S.e0, f), some(val), NONE)
        A = lambda S, f: attr(S.w, S.e0, f)
        want = {'id': lambda S: S.w.num(S.e0, 'id'), 'created': lambda S: iso(A(S, 'created_at')), 'closed': lambda S: opt(S, 'closed_at', iso(A(S, 'closed_at'))),
                'open': lambda S: sym('open?', 'B'), 'uid': lambda S: opt(S, 'uid', S.w.num(S.e0, 'uid')), 'user': lambda S: opt(S, 'user', A(S, 'user')),
                'num_changes': lambda S: S.w.num(S.e0, 'num_changes'), 'comments_count': lambda S: S.w.num(S.e0, 'comments_count'),
                'tags': lambda S: mk('Map', 0, S.tags() if kind == START else EMPTY)}
        for f in want:
            def field(S, x, st, r, after, f=f):
                F = Facts(S.w.facts + S.full, q=S.w.q)
                c = F.simp(fld(fld(r, 0, 0), 1, 0))
                fs = fields(c)
                if f not in fs:
                    raise Unsupported('field ' + f)
                return prove_eq(fs[f], want[f](S), F)
            v.ob(f'{name}: {f}', on(field))

        def where(S, x, st, r, after):
            return prove_eq(qpos(after), add(S.p, S.m, S.t, I(2)) if kind == START else add(S.p, S.m, I(1)), Facts(S.w.facts + S.full, q=S.w.q))
        v.ob(f'{name}: the reader is behind the element', on(where))
        v.ob(f'{name}: no panic', on(lambda S, x, st, r, after: v.panics(x, Facts(S.w.facts, q=S.w.q))))
        for f in REQ:
            v.ob(f'{name}, no {f}: an error', on(lambda S, x, st, r, after, f=f: prove(eq(discr(r), I(1)), Facts(S.w.facts + [not_(S.w.present(S.e0, f))], q=S.w.q))))
    good(START, 'a changeset with a body')
    good(EMPTYEL, 'a changeset without a body')

    def other(name, want, **k):
        get = memo(lambda: scene(**k))

        def g():
            S, x, st, r, after = get()
            return S.within(lambda: want(r, Facts(S.w.facts, q=S.w.q)) or v.panics(x, Facts(S.w.facts, q=S.w.q)))()
        v.ob(name, g)
    is_err = lambda r, F: prove(eq(discr(r), I(1)), F)
    other('no further changeset: the end', lambda r, F: prove_eq(r, ok(NONE), F), kind=EOF)
    other('an error of the parser before a changeset: an error', is_err, kind=None)
    for kind, nm in ((START, 'with'), (EMPTYEL, 'without')):
        for b in ('id', 'uid', 'num_changes', 'comments_count'):
            other(f'a changeset {nm} a body, {b} is no number: an error', is_err, kind=kind, bad=b)
        other(f'a changeset {nm} a body, open is neither true nor false: an error', is_err, kind=kind, bad='open')
        other(f'a changeset {nm} a body, an attribute cannot be read: an error', is_err, kind=kind, bad='attribute')
    other('the document ends inside of a changeset: an error', is_err, kind=START, cut='end')
    other('an error of the parser inside of a changeset: an error', is_err, kind=START, cut='error')
    for d, nm in ((START, 'with'), (EMPTYEL, 'without')):
        for f in TAG:
            other(f'a tag {nm} content lacks {f}: an error', is_err, kind=START, tagbad=(d, f))
        other(f'a tag {nm} content has an attribute that cannot be read: an error', is_err, kind=START, tagbad=(d, 'attribute'))
    accessors(v)
    v.ob('ChangesetReader yields what next_changeset gives, once per call', lambda: yields(v, CR, 'next_changeset'))


def accessors(v):
    """the accessors of a changeset describe its tags"""
    key = sym('key')

    def scene(fn, args, tys, ret):
        x = v.ex()
        st = State()
        c, p = v.obj(x, st, C, 'changeset')
        r = v.call(x, st, f'{C}::{fn}', ([c] if fn == 'into_tags' else [p]) + args, [('&mut ' if fn == 'tags_mut' else '' if fn == 'into_tags' else '&') + C] + tys, ret)
        return x, st, c, p, r
    tags = lambda c: fld(c, 0, exe.STRUCTS[C].index('tags'))
    log = lambda c: fld(tags(c), 0, 0)
    n = lambda c: len_(app('map_entries', log(c)))
    got = lambda c: app('map_get', log(c), key)
    B_ = '&str'
    for fn, args, tys, ret, want in (
            ('tag', [key], [B_], 'std::option::Option<&str>', got), ('has_tag', [key], [B_], 'bool', lambda c: eq(discr(got(c)), I(1))),
            ('num_tags', [], [], 'usize', n), ('tagged', [], [], 'bool', lambda c: ne(n(c), I(0))), ('untagged', [], [], 'bool', lambda c: eq(n(c), I(0))),
            ('into_tags', [], [], 'std::collections::HashMap<std::string::String, std::string::String>', tags)):
        def g(fn=fn, args=args, tys=tys, ret=ret, want=want):
            x, st, c, p, r = scene(fn, args, tys, ret)
            return prove_eq(r, want(c)) or prove_eq(st.m[p.args[0]], c) or v.panics(x)
        v.ob(f'Changeset::{fn}: describes the tags', g)

    def mut():
        x, st, c, p, r = scene('tags_mut', [], [], '&mut std::collections::HashMap<std::string::String, std::string::String>')
        new = sym('new_tags')
        f = prove_eq(x.read(st, ('loc', r.args[0], r.args[1])), tags(c))
        x.write(st, ('loc', r.args[0], r.args[1], C), new)
        i = exe.STRUCTS[C].index('tags')
        c, c2 = x.expand(c, C, 0), st.m[p.args[0]]
        for j, nm in enumerate(exe.STRUCTS[C]):
            f = f or prove_eq(fld(c2, 0, j), new if j == i else fld(c, 0, j))
        return f or v.panics(x)
    v.ob('Changeset::tags_mut: gives the tags', mut)


def yields(v, ty_, meth):
    """Iterator::next: Ok(None) ends the iteration, everything else is handed on"""
    n = 'after_' + meth

    def nxt(info, args):
        s = info.deep(args[0])
        info.set(args[0], app(n, s))
        r = app('result_of', s)
        tm.NV[r] = 2
        tm.NV[fld(r, 0, 0)] = 2
        return r
    x = v.ex(contracts={meth: nxt})
    st = State()
    s = sym('reader')
    c = v.cell(x, st, s, ty_)
    for _ in range(2):
        r = v.call(x, st, f'<{ty_} as Iterator>::next', [c], ['&mut ' + ty_], '?')
        q = app('result_of', s)
        want = ite(eq(discr(q), I(1)), some(err(fld(q, 1, 0))), ite(eq(discr(fld(q, 0, 0)), I(1)), some(ok(fld(fld(q, 0, 0), 1, 0))), NONE))
        f = prove_eq(r, want) or prove_eq(st.m[c.args[0]], app(n, s))
        if f is not None:
            return f
        s = app(n, s)
    return v.panics(x)
