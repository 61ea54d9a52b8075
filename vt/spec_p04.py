"""P04: a PBF stream yields every object of every data blob once and in file order.

The stream is a sequence of K frames; frame j starts at byte pos(j).  Contracts:
  FileReader::get_next_osmdata_blob  from pos(j): the first data frame j+n (or the end), ending after it
  blob_raw_data                      the content of a blob
  decode_block_to_objs               the objects of a block (P01-P03; here for blocks with groups of every kind)
  PBFReader::next                    what is still to come = buffered objects ++ rest(frame), where
                                     rest(j) = objects of the data frames from j on: next() takes its head
"""
import re
from verify import *
import openfile
from pbfspec import *
import pbfcheck
import term as tm

ASSUMPTIONS = ['a byte stream delivers its bytes in order and fails at its end (std::io::Read)',
               'inflate and the protobuf parser are functions of the bytes they are given']
U = (0, 2**64 - 1)


class Stream:
    """a well-formed stream of PBF frames, and what it means"""

    def __init__(self, mod):
        self.mod = mod
        self.P = Pbf(mod)
        self.bytes = sym('bytes')
        self.K = sym('K', 'I', POS)
        tm.APPR['framepos'] = POS

    def pos(self, j):
        return app('framepos', j, sort='I')

    def f(self, o, msg, name):
        names = exe.STRUCTS.get(f'{self.mod}::fileformat::{msg}')
        if not names or name not in names:
            raise Unsupported(f'no field {msg}.{name}')
        i = names.index(name)
        r = fld(o, 0, i)
        if 'Option<' in exe.FTYPES.get((f'{self.mod}::fileformat::{msg}', 0), [''] * 99)[i].split('::')[-1] or 'option::Option<' in exe.FTYPES.get((f'{self.mod}::fileformat::{msg}', 0), [''] * 99)[i]:
            tm.NV[r] = 2
        return r

    def hsize(self, j):
        return app('beu32', self.bytes, self.pos(j), sort='I')

    def header(self, j):
        p = add(self.pos(j), I(4))
        return app('parse:BlobHeader', sslice(self.bytes, p, add(p, self.hsize(j))))

    def hfield(self, j, n, s='U'):
        return fld(self.f(fld(self.header(j), 0, 0), 'BlobHeader', n), 1, 0, s)

    def is_data(self, j):
        return eq(self.hfield(j, 'type_'), lit(b'OSMData'))

    def body(self, j):
        p = add(self.pos(j), I(4), self.hsize(j))
        return sslice(self.bytes, p, add(p, self.hfield(j, 'datasize', 'I')))

    def blob(self, j):
        return fld(app('parse:Blob', self.body(j)), 0, 0)

    def frame_ok(self, j):
        """frame j (guarded: only where there is a frame j)"""
        h = fld(self.header(j), 0, 0)
        for n in (self.header(j), app('parse:Blob', self.body(j))):
            tm.NV[n] = 2
        ds = self.hfield(j, 'datasize', 'I')
        end = add(self.pos(j), I(4), self.hsize(j), ds)
        return imp(rng2(j, self.K), and_(
            eq(discr(self.header(j)), I(0)),
            is_some(self.f(h, 'BlobHeader', 'type_')), is_some(self.f(h, 'BlobHeader', 'datasize')), le(I(0), ds), le(ds, I(2**31 - 1)),
            eq(self.pos(add(j, I(1))), end), le(end, len_(self.bytes)),
            imp(self.is_data(j), eq(discr(app('parse:Blob', self.body(j))), I(0)))))

    def end_ok(self):
        return eq(self.pos(self.K), len_(self.bytes))

    def reader(self, at_):
        return mk('FileReader', 0, mk('Stream', 0, self.bytes, at_))

    # ---- the content of a blob: stored raw, or compressed with zlib
    def content(self, b):
        raw, z = self.f(b, 'Blob', 'raw'), self.f(b, 'Blob', 'zlib_data')
        return ite(is_some(raw), fld(raw, 1, 0), fld(app('inflate', fld(z, 1, 0)), 0, 0))

    def blob_ok(self, b):
        raw, z = self.f(b, 'Blob', 'raw'), self.f(b, 'Blob', 'zlib_data')
        i = app('inflate', fld(z, 1, 0))
        tm.NV[i] = 2
        return or_(is_some(raw), and_(is_some(z), eq(discr(i), I(0))))

    def block(self, j):
        return fld(app('parse:PrimitiveBlock', self.content(self.blob(j))), 0, 0)

    # ---- the objects of the data frames from j on
    filter = [B(True)] * 3

    def objs(self, j):
        return self.decode(self.block(j))

    def decode(self, blk):
        return app('objs', blk, *self.filter)

    def rest(self, j):
        return app('rest', j)

    def rest_ok(self, j):
        return and_(imp(eq(j, self.K), eq(self.rest(j), EMPTY)),
                    imp(and_(rng2(j, self.K), not_(self.is_data(j))), eq(self.rest(j), self.rest(add(j, I(1))))),
                    imp(and_(rng2(j, self.K), self.is_data(j)), eq(self.rest(j), cat(self.objs(j), self.rest(add(j, I(1)))))))

    def data_ok(self, j):
        x = app('parse:PrimitiveBlock', self.content(self.blob(j)))
        tm.NV[x] = 2
        return imp(and_(rng2(j, self.K), self.is_data(j)), and_(self.blob_ok(self.blob(j)), lt(I(0), len_(self.content(self.blob(j)))), eq(discr(x), I(0))))


FAMNAME = {'string': 'string_types::String', 'arc': 'arc_types::Arc'}


def split4(n):
    a = exe.split_call(n)
    return a[0], a[1], a[2], a[3]


def at_position(x, cell, st, r=None):
    r = st.m[cell] if r is None else r
    if not (r.op == 'mk' and r.args[0] == 'FileReader' and r.args[2].op == 'mk' and r.args[2].args[0] == 'Stream'):
        raise Unsupported('shape of the file reader')
    return r.args[2].args[3]


def file_reader(v, mod):
    """get_next_osmdata_blob from the start of frame j0"""
    S = Stream(mod)
    x = v.ex()
    x.prune = True
    st = State()
    j0 = sym('j', 'I', POS)
    rc = v.cell(x, st, S.reader(S.pos(j0)), f'{mod}::FileReader<R>')
    cell = rc.args[0]

    ks = []

    def inv(x, s, k):
        ks.append(k)
        j = add(j0, k)
        return dict(map={at_position(x, cell, s): S.pos(j)}, facts=[le(j, S.K), S.frame_ok(j), S.end_ok(), S.rest_ok(j)],
                    goals=lambda s, k, head: [('a frame of the stream', le(add(j0, k), S.K), None), ('position', at_position(x, cell, s), S.pos(add(j0, k))),
                                              ('no data frame is passed', S.rest(add(j0, k)), S.rest(j0))] if k.op != 'x' else [])
    x.invs['get_next_osmdata_blob'] = inv
    pre = [le(j0, S.K), S.frame_ok(j0), S.end_ok()]
    r = v.call(x, st, f'{mod}::FileReader::<R>::get_next_osmdata_blob', [rc], [f'&mut {mod}::FileReader<R>'], f'std::option::Option<{mod}::fileformat::Blob>')
    if len(ks) != 1:
        raise Unsupported('loops of get_next_osmdata_blob')
    j = add(j0, ks[0])
    end = eq(j, S.K)
    post = [('result', r, ite(end, NONE, some(S.blob(j)))),
            ('position afterwards', at_position(x, cell, st), S.pos(ite(end, S.K, add(j, I(1))))),
            ('what is returned is a data blob', or_(end, S.is_data(j)), None)]
    return S, x, pre, post


def next_blob(S, log):
    """the contract of FileReader::get_next_osmdata_blob, for its callers"""
    def c(info, args):
        x = info.ex
        p = info.deep(args[0])
        if not (p.op == 'mk' and p.args[0] == 'FileReader' and p.args[2].op == 'mk' and p.args[2].args[0] == 'Stream' and p.args[2].args[2] is S.bytes):
            raise Unsupported('get_next_osmdata_blob on an unknown reader')
        at_ = p.args[2].args[3]
        if x.discovering and at_.op == 'sym':
            o = fresh('o', 'U')
            tm.NV[o] = 2
            info.set(args[0], S.reader(fresh('p', 'I')))
            return o
        if not (at_.op == 'app' and at_.args[0] == 'framepos'):
            raise Unsupported('get_next_osmdata_blob inside a frame')
        j = at_.args[1]
        n = fresh('n', 'I', POS)
        f = add(j, n)
        log.append((j, f))
        x.facts += [imp(and_(le(I(0), j), le(j, S.K)), and_(le(f, S.K), or_(eq(f, S.K), S.is_data(f)))), S.end_ok(), S.frame_ok(f), S.data_ok(f)]
        # rest(j) = rest(f), and f is the end or a data frame
        x.rws.append((S.rest(j), ite(eq(f, S.K), EMPTY, cat(S.objs(f), S.rest(add(f, I(1)))))))
        x.rws.append((S.rest(S.K), EMPTY))
        end = eq(f, S.K)
        info.set(args[0], S.reader(S.pos(ite(end, S.K, add(f, I(1))))))
        return ite(end, NONE, some(S.blob(f)))
    return c


def decode_contract(S, fam):
    def c(info, args):
        if fam == 'pos':
            if len(args) != 2:
                raise Unsupported('signature of decode_block_to_objs')
            o = S.decode(info.deep(args[0]))
            info.set(args[1], cat(info.deep(args[1]), o))
            return len_(o)
        want = 3 if fam == 'string' else 1
        if len(args) != want:
            raise Unsupported('signature of decode_block_to_objs')
        blk = info.deep(args[0])
        if fam == 'arc':
            return app('objs', blk, B(True), B(True), B(True))
        f = info.deep(args[1])
        o = app('objs', blk, *[fld(f, 0, i, 'B') for i in range(3)])
        info.set(args[2], cat(info.deep(args[2]), o))
        return len_(o)
    return c


def find(t, p, path=()):
    if p(t):
        return path
    if t.op == 'mk':
        for i, y in enumerate(t.args[2:]):
            if isinstance(y, T):
                r = find(y, p, path + (i,))
                if r is not None:
                    return r
    return None


def get(t, path):
    for i in path:
        if t.op != 'mk':
            raise Unsupported('shape of the reader')
        t = t.args[2 + i]
    return t


def put(t, path, w):
    if not path:
        return w
    xs = list(t.args)
    xs[2 + path[0]] = put(xs[2 + path[0]], path[1:], w)
    return mk(*xs)


NEW = '<{0} as OSMReader>::new'
NEXT = '<{0} as OSMReader>::next'


def pbf_new(v, mod, ty_=None, new=NEW):
    """PBFReader::new -> stream, the new reader and where its parts are"""
    ty_ = ty_ or f'{mod}::PBFReader<R>'
    S = Stream(mod)
    x = v.ex()
    st = State()
    r = v.call(x, st, new.format(ty_), [mk('Stream', 0, S.bytes, I(0))], ['R'], ty_)
    if x.obs:
        raise Unsupported('new may panic')
    fr = find(r, lambda t: t.op == 'mk' and t.args[0] == 'FileReader')
    buf = find(r, lambda t: t is EMPTY)
    flt = find(r, lambda t: t.op == 'mk' and t.args[0] == 'tup' and len(t.args) == 5 and all(y.sort == 'B' for y in t.args[2:]))
    if fr is None or buf is None or (flt is None) != (ty_ != 'stringpbf::PBFReader<R>'):
        raise Unsupported('shape of the reader: ' + show(r)[:200])
    return S, r, fr, buf, flt


def pbf_next(v, mod, fam, ty_, new=NEW, next_=NEXT, ret='?', decode=None):
    S, r0, fr, buf, flt = pbf_new(v, mod, ty_, new)
    log = []
    x = v.ex()
    x.contracts = {'get_next_osmdata_blob': next_blob(S, log), decode or mod + '::decode_block_to_objs': decode_contract(S, fam)}
    x.prune = True
    st = State()
    j0 = sym('j', 'I', POS)
    c0 = sym('buffered')
    S.filter = [sym('f%d' % i, 'B') for i in range(3)] if flt is not None else [B(True)] * 3
    enc = (lambda s: s) if fam != 'arc' else (lambda s: models.rev(s, 'U'))
    r1 = put(put(r0, buf, enc(c0)), fr, S.reader(S.pos(j0)))
    if flt is not None:
        r1 = put(r1, flt, tup(*S.filter))
    rc = v.cell(x, st, r1, ty_)
    cell = rc.args[0]

    def frame(s):
        def go(p):
            if p.op == 'ite':
                return ite(p.args[0], go(p.args[1]), go(p.args[2]))
            if not (p.op == 'app' and p.args[0] == 'framepos'):
                raise Unsupported('position of the reader: ' + show(p)[:100])
            return p.args[1]
        return go(at_position(x, None, s, get(s.m[cell], fr)))

    def rem(s):
        """what is still to come"""
        return cat(enc(get(s.m[cell], buf)), S.rest(frame(s)))

    heads = []

    def inv(x, s, k):
        j = fresh('j', 'I', POS)
        p = at_position(x, None, s, get(s.m[cell], fr))
        m = {p: S.pos(j)}
        b = get(s.m[cell], buf)
        if fam == 'arc' and b.op == 'sym':
            m[b] = enc(fresh('b', 'U'))
        h = State({c: subst(t, m) for c, t in s.m.items()})
        heads.append(h)

        def goals(s, k, head):
            f = frame(s)
            g = [('a frame of the stream', le(f, S.K), None)]
            if s is not head:
                g.append(('nothing is lost, repeated or reordered', rem(s), rem(head)))
                left = [len_(get(t.m[cell], buf)) for t in (s, head)]
                g.append(('every further iteration has read a frame or emptied the buffer further',
                          or_(lt(frame(head), frame(s)), and_(eq(frame(s), frame(head)), lt(*left))), None))
            if flt is not None:
                g.append(('filter', get(s.m[cell], flt), tup(*S.filter)))
            return g
        return dict(map=m, facts=[le(I(0), j), le(j, S.K)], goals=goals)
    l = x.resolve(*split4(next_.format(ty_)), ['&mut ' + ty_], '?')
    if l is None:
        raise Unsupported('no ' + next_.format(ty_))
    x.invs[l[0].name] = inv
    # or a loop over the data blobs in a function that next calls
    x.invs[re.compile(r'get_next_osmdata_blob$|FileReader<.*> as (std::iter::)?Iterator>::next$')] = inv
    pre = [le(I(0), j0), le(j0, S.K), S.end_ok()]
    r = v.call(x, st, next_.format(ty_), [rc], ['&mut ' + ty_], ret)
    if len(heads) != 1:
        raise Unsupported('loops of PBFReader::next')
    for want in ('get_next_osmdata_blob', 'decode_block_to_objs'):
        if not any(n.endswith(want) for n in x.used_contracts):
            raise Unsupported('next does not call ' + want)
    one = ite(is_some(r), unit(fld(r, 1, 0)), EMPTY)
    post = [('the object returned is the first of what was to come', cat(one, rem(st)), rem(heads[0])),
            ('nothing more is only answered at the end', or_(is_some(r), and_(eq(frame(st), S.K), eq(len_(get(st.m[cell], buf)), I(0)))), None)]
    return S, x, pre, post


def memo(f):
    c = []

    def g():
        if not c:
            try:
                c.append(f())
            except (Unsupported, Diverge) as e:
                c.append(e)
        if isinstance(c[0], Exception):
            raise c[0]
        return c[0]
    return g


def facts(x, fs):
    F = Facts(fs)
    for a, b in x.rws:
        F.equate(a, b)
    return F


def goal(a, b, F):
    return prove(a, F) if b is None else prove_eq(a, b, F)


def discharge(v, pre, name, get, labels):
    """get() -> (_, executor, preconditions, postconditions): invariants, postconditions, absence of panics"""
    for lb in labels:
        def post(lb=lb):
            S, x, pc, po = get()
            for n, a, b in po:
                if n == lb:
                    return goal(a, b, facts(x, pc + x.facts + x.exits))
            raise Unsupported('no postcondition ' + lb)
        v.ob(f'{name}: {lb}', post)

    def invs():
        S, x, pc, po = get()
        for n, a, b, p in x.invobs:
            r = goal(a, b, facts(x, pc + x.facts + list(p)))
            if r is not None:
                r.why = n + ': ' + r.why
                return r

    def vac():
        S, x, pc, po = get()
        if prove(FALSE, facts(x, pc + x.facts + x.exits)) is None:
            raise Unsupported('contradictory assumptions')
        return v.panics(x, facts(x, pc + x.facts))
    v.ob(f'{name}: loop invariants', invs)
    v.ob(f'{name}: no panic', vac)


def run(v):
    import pbwire
    v.assumptions += pbwire.ASSUMPTIONS
    pbwire.run(v, 'P04')
    for mod in ('stringpbf', 'arcpbf'):
        fb = memo(lambda mod=mod: file_reader(v, mod))
        discharge(v, None, f'{mod}::FileReader::get_next_osmdata_blob', fb, ['result', 'position afterwards', 'what is returned is a data blob'])
        fam = 'string' if mod == 'stringpbf' else 'arc'
        nx = memo(lambda mod=mod, fam=fam: pbf_next(v, mod, fam, f'{mod}::PBFReader<R>', ret=f'std::option::Option<{FAMNAME[fam]}OSMObj>'))
        discharge(v, None, f'{mod}::PBFReader::next', nx, ['the object returned is the first of what was to come', 'nothing more is only answered at the end'])

        def fresh_reader(mod=mod):
            S, r, fr, buf, flt = pbf_new(v, mod)
            f = prove_eq(get(r, fr), S.reader(S.pos(I(0))), Facts([eq(S.pos(I(0)), I(0))]))
            if f is None and flt is not None:
                f = prove_eq(get(r, flt), tup(B(True), B(True), B(True)))
            return f
        v.ob(f'{mod}::PBFReader::new: at the first frame, nothing buffered, every kind wanted', fresh_reader)
        v.ob(f'{mod}::PBFReader: objects() yields what next() yields', lambda mod=mod: iterator(v, f'{mod}::PBFReader<R>'))
    pbfcheck.run(v, KINDS)
    v.assumptions += openfile.ASSUMPTIONS
    B_ = 'std::io::BufReader<std::fs::File>'
    for mod in ('stringpbf', 'arcpbf'):
        ty_ = f'{mod}::PBFReader<{B_}>'
        openfile.opened(v, f'{mod}::PBFReader::from_filename', f'{mod}::PBFReader::<{B_}>::from_filename', (NEW.format(f'{mod}::PBFReader<R>'), f'{mod}::PBFReader<R>'), '&str',
                        f'std::result::Result<{ty_}, anyhow::Error>')
    openfile.opened(v, 'read_pbf', 'read_pbf', (NEW.format('stringpbf::PBFReader<R>'), 'stringpbf::PBFReader<R>'), '&str', f'std::result::Result<stringpbf::PBFReader<{B_}>, anyhow::Error>')


def iterator(v, ty_):
    """OSMReader::objects and OSMObjectIterator::next: the iterator asks the reader, once per call"""
    def nxt(info, args):
        s = info.deep(args[0])
        info.set(args[0], app('after_next', s))
        r = app('next_of', s)
        tm.NV[r] = 2
        return r
    x = v.ex()
    l = x.resolve(*split4(f'<{ty_} as OSMReader>::next'), ['&mut ' + ty_], '?')
    x.contracts = {l[0].name: nxt}
    st = State()
    s0 = sym('reader')
    rc = v.cell(x, st, s0, ty_)
    it = v.call(x, st, f'<{ty_} as OSMReader>::objects', [rc], ['&mut ' + ty_], f"OSMObjectIterator<'_, {ty_}>")
    ic = v.cell(x, st, it, f"OSMObjectIterator<'_, {ty_}>")
    s = s0
    for _ in range(2):
        r = v.call(x, st, f"<OSMObjectIterator<'_, {ty_}> as Iterator>::next", [ic], [f"&mut OSMObjectIterator<'_, {ty_}>"], '?')
        f = prove_eq(r, app('next_of', s)) or prove_eq(st.m[rc.args[0]], app('after_next', s))
        if f is not None:
            return f
        s = app('after_next', s)
    return v.panics(x)
