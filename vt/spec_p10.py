"""P10: writers follow the open/started/closed protocol.

The operations are run, one by one, from the three states a writer can be in:
  s0  new, with any headers set           s1  after an object            s2  after close
With C = what close writes from s1, and H ++ C = what close writes from s0, the contracts say what every operation writes
and which of these states it leads to; over any sequence of calls the output is then H, the objects, C (or nothing yet).
A second set of contracts has an output that may fail at any write: an operation during which one failed returns Err."""
from writers import *
import prove as pv
import re

ASSUMPTIONS = ['an output accepts a whole text or fails (std::io::Write::write_fmt)', 'Drop panics when the output fails while the closing tags are written: not a protocol violation',
               'XMLWriter writes its closing tag again when a closed writer is closed or dropped: known finding P10-xml-second-close (/verif/known_findings.txt)']


def memo(f):
    c = []

    def g():
        if not c:
            try:
                c.append((f(), None))
            except Exception as e:
                c.append((None, e))
        if c[0][1] is not None:
            raise c[0][1]
        return c[0][0]
    return g


def leaves(a, b, path=()):
    if a is b:
        return
    if a.op == 'mk' and b.op == 'mk' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) and len(a.args) > 2:
        for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])):
            yield from leaves(x, y, path + ((a.args[1], i),))
        return
    yield path


def suffix(t, w0):
    """t = w0 ++ rest -> rest"""
    if t is w0:
        return EMPTY
    if t.op == 'cat' and t.args[0] is w0:
        return cat(*t.args[1:])
    if t.op == 'ite':
        return ite(t.args[0], suffix(t.args[1], w0), suffix(t.args[2], w0))
    raise Unsupported('the output is not appended to: ' + show(t)[:200])


def drop_suffix(t, c):
    """t = r ++ c (c a literal) -> r"""
    ps = list(t.args) if t.op == 'cat' else [t]
    if c.op != 'lit' or ps[-1].op != 'lit':
        raise Unsupported('closing text')
    a, b = ps[-1].args[0], c.args[0]
    if len(a) < len(b) or tuple(a[len(a) - len(b):]) != tuple(b):
        return None
    return cat(*ps[:-1], lit(a[:len(a) - len(b)]))


def text(t):
    ps = t.args if t.op == 'cat' else [t]
    return ''.join(''.join(map(chr, p.args[0])) if p.op == 'lit' else '\0' for p in ps)


def fail(why):
    return Fail(TRUE, None, Facts(), why)


class Proto:
    def __init__(self, v, mod, ty):
        self.v = v
        W = self.W = Writer(v, mod, ty)
        self.ty = ty
        init = W.init
        self.hdr = tup(sym('key'), sym('value'))
        try:
            r, s = W.op(init, 'set_header', [self.hdr], ['(&str, &str)'])
            for n, p in enumerate(list(leaves(init, s))):
                init = W.with_out(init, sym(f'headers{n}'), p)
        except Diverge:
            W.x.obs.clear()     # set_header is not implemented
        self.s0 = init
        # the state reached by writing an object; what distinguishes the states
        r, s = W.write_obj(init)
        self.s1 = W.with_out(s, W.w0)
        r, s = W.op(self.s1, 'close')
        self.s2 = W.with_out(s, W.w0)
        for s in (self.s1, self.s2):
            if pv.prove_eq(W.out(s), W.w0, Facts()) is not None:
                raise Unsupported('output of the writer')
        self.key = {p for a, b in ((self.s0, self.s1), (self.s1, self.s2), (self.s0, self.s2)) for p in leaves(a, b)}

    def same(self, got, want):
        """got is the state want, whatever was written"""
        got = self.W.with_out(got, self.W.w0) if got.op == 'mk' else got
        f = pv.prove_eq(got, want, Facts())
        if f is not None:
            ds = list(leaves(got, want))
            if not any(d[:len(k)] == k or k[:len(d)] == d for d in ds for k in self.key):
                raise Unsupported('a further part of the writer changes')
        return f

    def op(self, name, state):
        W = self.W
        if name == 'write_obj':
            return W.write_obj(state)
        if name == 'set_header':
            return W.op(state, 'set_header', [self.hdr], ['(&str, &str)'])
        if name == 'drop':
            return W.op(state, 'drop', ret='()')
        if name == 'is_open':
            return W.op(state, 'is_open', ret='bool', by='&')
        return W.op(state, name)

    def written(self, s):
        return suffix(self.W.out(s), self.W.w0)


def run(v):
    for mod, ty in (('xml', 'XMLWriter'), ('osc', 'OSCWriter')):
        protocol(v, mod, ty)
        faults(v, mod, ty)
        all_objects(v, mod, ty)


def all_objects(v, mod, ty):
    """OSMWriter::from_iter, over the contracts of new, write_obj and close: a writer is the list of calls made to it"""
    OBJ, CLOSE, NEW = (lit(s) for s in ('write_obj', 'close', 'new'))

    def called(what, res):
        def f(i, args):
            w = i.get(args[0])
            if w.op != 'mk' or w.args[0] != 'Calls':
                raise Unsupported('a writer made elsewhere')
            a = [i.deep(t) for t in args[1:]]
            i.set(args[0], mk('Calls', 0, cat(w.args[2], unit(tup(what, *a)))))
            r = app(res, *a)
            tm.NV[r] = 2
            return r
        return f

    @memo
    def go():
        x = v.ex(contracts={'new': lambda i, args: mk('Calls', 0, unit(tup(NEW, *[i.deep(a) for a in args]))),
                            'write_obj': called(OBJ, 'wrote'), 'close': called(CLOSE, 'closed')})
        objs = sym('objs')
        r = v.call(x, State(), f'<{mod}::{ty}<W> as OSMWriter<W>>::from_iter', [sym('out'), models.it_mk(objs)], ['W', 'I'], f'{mod}::{ty}<W>')
        if r.op != 'mk' or r.args[0] != 'Calls':
            raise Unsupported('from_iter goes about it in another way')
        return x, objs, r

    def calls():
        x, objs, r = go()
        n = sym('n', 'I')
        return r.args[2], cat(unit(tup(NEW, sym('out'))), flat(len_(objs), n, unit(tup(OBJ, at(objs, n)))), unit(tup(CLOSE)))
    v.eq(f'{ty}::from_iter makes a writer, writes every object in order and closes', calls)

    def reported():
        x, objs, r = go()
        for what, why in (('wrote', 'an object that could not be written'), ('closed', 'a writer that could not be closed')):
            seen = [(o, t) for o in x.obs for t in {*subs(o.bad)} if t.op == 'app' and t.args[0] == what]
            if not seen:
                return fail(why + ' goes unreported')

            def panics_then(o, t):
                fs = [eq(discr(t), I(1))]
                if what == 'wrote':
                    e = t.args[1]
                    if e.op != 'at' or e.args[0] is not objs or e.args[1].op != 'sym':
                        return False
                    fs += [le(I(0), e.args[1]), lt(e.args[1], len_(objs))]
                return prove(o.bad, pv.Facts(fs)) is None
            if not any(panics_then(o, t) for o, t in seen):
                raise Unsupported(f'when {why} panics')
        return None
    v.ob(f'{ty}::from_iter panics when a write fails', reported)


def protocol(v, mod, ty):
    P = memo(lambda: Proto(v, mod, ty))
    S = {0: 'new writer', 1: 'started writer', 2: 'closed writer'}

    runs = {}

    def at_(op, n):
        if (op, n) not in runs:
            runs[op, n] = memo(lambda: P().op(op, getattr(P(), f's{n}')))
        return runs[op, n]()

    @memo
    def parts():
        C = P().written(at_('close', 1)[1])
        HC = P().written(at_('close', 0)[1])
        H = drop_suffix(HC, C)
        X = P().written(at_('write_obj', 1)[1])
        return H, X, C

    def H():
        r = parts()[0]
        if r is None:
            raise Unsupported('closing a new writer does not end as closing a started one')
        return r
    X, C = (lambda: parts()[1]), (lambda: parts()[2])

    def states_differ():
        p = P()
        return None if len({p.s0, p.s1, p.s2}) == 3 else fail('the states new, started and closed are not told apart')

    def closing_agrees():
        return None if parts()[0] is not None else fail('closing a new writer: ' + text(P().written(at_('close', 0)[1]))[-200:] + ' / closing a started one: ' + text(C()))

    def framing():
        h, c = text(H()), text(C())
        m = re.fullmatch(r'(<\?xml [^<>]*\?>)\s*<([\w:]+)((?:\s+[\w:]+="[^"<>\0]*")*)\0?\s*>((?:\s*<[\w:]+>)*)\s*', h)
        e = re.fullmatch(r'(?:\s*</[\w:]+>)+\s*', c)
        if not m or not e:
            raise Unsupported('shape of the header or of the closing tags')
        opened = [m.group(2)] + re.findall(r'<([\w:]+)>', m.group(4))
        closed = re.findall(r'</([\w:]+)>', c)
        return None if opened == closed[::-1] else fail(f'opened {opened}, closed {closed}')
    v.ob(f'{ty}: new, started and closed are distinct states', states_differ)
    v.ob(f'{ty}: what closes a document does not depend on how many objects were written', closing_agrees)
    v.ob(f'{ty}: the closing tags close what the header opened', framing)

    def wrote(op, n, want, to, name):
        def out():
            return prove_eq(P().written(at_(op, n)[1]), want(), Facts())

        def state():
            return P().same(at_(op, n)[1], getattr(P(), f's{to}'))
        v.ob(f'{ty}::{op} on a {S[n]}: writes {name}', out)
        v.ob(f'{ty}::{op} on a {S[n]}: leaves a {S[to]}', state)

    def result(op, n, want):
        v.eq(f'{ty}::{op} on a {S[n]}: result', lambda: (at_(op, n)[0], want()))
    OK = lambda: ok(UNIT)
    E = lambda k: lambda: err(exe_variant('OSMWriteError', k))
    nothing = lambda: EMPTY
    wrote('write_obj', 0, lambda: cat(H(), X()), 1, 'the header, then the object')
    wrote('write_obj', 1, X, 1, 'the object alone')
    wrote('write_obj', 2, nothing, 2, 'nothing')
    wrote('close', 0, lambda: cat(H(), C()), 2, 'the header and the closing tags')
    wrote('close', 1, C, 2, 'the closing tags alone')
    wrote('drop', 0, lambda: cat(H(), C()), 2, 'the header and the closing tags')
    wrote('drop', 1, C, 2, 'the closing tags alone')
    for op in ('close', 'drop'):
        def again(op=op):
            w = P().written(at_(op, 2)[1])
            if ty == 'XMLWriter' and pv.prove_eq(w, C(), Facts()) is None:
                return None         # known finding P10-xml-second-close, reported by the replay harness
            return prove_eq(w, EMPTY, Facts())
        v.ob(f'{ty}::{op} on a closed writer: writes nothing' + (' more than known finding P10-xml-second-close' if ty == 'XMLWriter' else ''), again)
        v.ob(f'{ty}::{op} on a closed writer: leaves a closed writer', lambda op=op: P().same(at_(op, 2)[1], P().s2))
    result('write_obj', 0, OK)
    result('write_obj', 1, OK)
    result('write_obj', 2, E('AlreadyClosed'))
    for n in (0, 1, 2):
        result('close', n, OK)
    for n in (0, 1, 2):
        v.eq(f'{ty}::is_open on a {S[n]}', lambda n=n: (at_('is_open', n)[0], B(n < 2)))
        wrote('is_open', n, nothing, n, 'nothing')
    headers = ty == 'XMLWriter'
    if headers:
        result('set_header', 0, OK)
        result('set_header', 1, E('AlreadyStarted'))
        result('set_header', 2, E('AlreadyClosed'))
        for n in (1, 2):
            wrote('set_header', n, nothing, n, 'nothing')
        v.ob(f'{ty}::set_header on a new writer: writes nothing', lambda: prove_eq(P().written(at_('set_header', 0)[1]), EMPTY, Facts()))

        def stays_new():
            p = P()
            s = at_('set_header', 0)[1]
            # whatever the headers are, the writer is still new: something that set_header leaves alone tells it from a started and from a closed one
            ds = list(leaves(p.s0, s))
            for t in (p.s1, p.s2):
                if not any(all(d[:len(k)] != k and k[:len(d)] != d for d in ds) for k in leaves(p.s0, t)):
                    return fail('the state changes')
            return None
        v.ob(f'{ty}::set_header on a new writer: leaves a new writer', stays_new)

        def log():
            c = [m.args[2] for m in subs(P().s0) if m.op == 'mk' and m.args[0] == 'Map' and m.args[2].op == 'sym']
            if len(c) != 1:
                raise Unsupported('how headers are kept')
            return c[0]

        def kept():
            l = log()
            c = [m.args[2] for m in subs(at_('set_header', 0)[1]) if m.op == 'mk' and m.args[0] == 'Map']
            if len(c) != 1:
                raise Unsupported('how headers are kept')
            return c[0], cat(l, unit(P().hdr))
        v.eq(f'{ty}::set_header on a new writer: keeps the header under its key', kept)

        def shown():
            l = log()
            e = app('map_entries', l)
            h = H()
            if not any(s is l for s in subs(h)):
                return fail('the header does not depend on the headers set: ' + text(h))
            fs = [p for p in (h.args if h.op == 'cat' else [h]) if p.op == 'flat' and p.args[1] is len_(e)]
            if len(fs) != 1:
                raise Unsupported('how headers are written')
            from spec_p06 import esc, ALL
            n = sym('n', 'I')
            want = flat(len_(e), n, cat(lit(' '), fld(at(e, n), 0, 0), lit('="'), esc(fld(at(e, n), 0, 1), ALL), lit('"')))
            return prove_eq(fs[0], want, Facts())
        v.ob(f'{ty}: the header has every header set, with its value escaped', shown)

    def panics():
        for op in ('write_obj', 'close', 'drop', 'is_open') + (('set_header',) if headers else ()):
            for n in (0, 1, 2):
                at_(op, n)
        return v.panics(P().W.x)
    v.ob(f'{ty}: no operation panics', panics)


def subs(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        yield from subs(a, seen)


def exe_variant(enum, name):
    import exe
    vs = exe.ENUMS.get(enum)
    if not vs or name not in vs:
        raise Unsupported(f'{enum}::{name}')
    return mk(enum, vs.index(name))


def no_failure(x, S, k):
    """the invariant of every loop: no write has failed so far"""
    ws = lambda s: [w for t in s.m.values() for w in outs(t)]
    return dict(map={w.args[3]: FALSE for w in ws(S) if w.args[3].op == 'sym'}, facts=[],
                goals=lambda s, k, head: [('no write has failed', not_(or_(*[w.args[3] for w in ws(s)])), None)])


def faults(v, mod, ty):
    P0 = memo(lambda: Proto(v, mod, ty))

    def state(n):
        """state n of a writer whose output may fail: (writer, state)"""
        p = P0()
        W = Writer(v, mod, ty, fault=True)
        W.x.prune = True

        W.x.invs['*'] = no_failure
        s = W.with_out(getattr(p, f's{n}'), W.w0, W.path)
        return W, s

    for op in ('write_obj', 'close'):
        for n, nm in ((0, 'new'), (1, 'started'), (2, 'closed')):
            def reported(op=op, n=n):
                W, s = state(n)
                r, s2 = W.write_obj(s) if op == 'write_obj' else W.op(s, op)
                w = W.out(s2)
                for name, a, b, pc in W.x.invobs:
                    f = prove(a, Facts(pc)) if b is None else prove_eq(a, b, Facts(pc))
                    if f is not None:
                        return f
                return prove(or_(not_(fld(w, 0, 1, 'B')), eq(discr(r), I(1))), Facts(W.x.facts))
            v.ob(f'{ty}::{op} on a {nm} writer: a failing write is reported', reported)

    for name in ('write_xml_attribute', 'write_xml_escaped'):
        if ty != 'XMLWriter':
            continue

        def esc_reported(name=name):
            x = v.ex(fault=True)
            x.prune = True

            x.invs['*'] = no_failure
            st = State()
            p = v.cell(x, st, mk('W', 0, sym('out'), FALSE), 'W')
            r = v.call(x, st, name, [p, sym('text')], ['&mut W', '&str'], 'std::result::Result<(), std::io::Error>')
            w = x.read(st, ('loc', p.args[0], ()))
            for nm, a, b, pc in x.invobs:
                f = prove(a, Facts(pc)) if b is None else prove_eq(a, b, Facts(pc))
                if f is not None:
                    return f
            return prove(or_(not_(fld(w, 0, 1, 'B')), eq(discr(r), I(1))), Facts(x.facts))
        v.ob(f'{name}: a failing write is reported', esc_reported)


def outs(t, d=0):
    if t.op == 'mk':
        if t.args[0] == 'W' and len(t.args) == 4:
            yield t
        else:
            for a in t.args[2:]:
                if isinstance(a, T) and d < 6:
                    yield from outs(a, d + 1)
