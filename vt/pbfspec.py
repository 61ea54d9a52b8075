"""What a PBF block means (shared by P01-P05): the objects a PrimitiveBlock encodes, written from the format
description (osmformat.proto), and when a block is well formed."""
import re
from verify import *
import exe
import term as tm
import models
from prove import match

POS = (0, 2**63 - 1)
I64 = TYR['i64']


class Pbf:
    """accessors of the protobuf messages of one reader (module 'stringpbf' or 'arcpbf')"""

    def __init__(self, mod):
        self.mod = mod

    def f(self, o, msg, name):
        names = exe.STRUCTS.get(f'{self.mod}::osmformat::{msg}')
        if not names or name not in names:
            raise Unsupported(f'no field {msg}.{name}')
        i = names.index(name)
        r = fld(o, 0, i)
        t = exe.FTYPES.get((f'{self.mod}::osmformat::{msg}', 0), [''] * 99)[i]
        if re.match(r'^(::)?(std::option::)?Option<', t):
            tm.NV[r] = 2
        return r

    # ---- optional scalars and the defaults of the format
    def opt(self, o, msg, name, dflt=None):
        x = self.f(o, msg, name)
        v = fld(x, 1, 0, 'B' if name == 'visible' else 'I')
        return ite(is_some(x), v, I(dflt))

    def table(self, blk):
        return self.f(app('msg', self.f(blk, 'PrimitiveBlock', 'stringtable')), 'StringTable', 's')

    def string(self, blk, i):
        """the text with number i of the string table"""
        return fld(app('from_utf8', at(self.table(blk), i)), 0, 0)

    def groups(self, blk):
        return self.f(blk, 'PrimitiveBlock', 'primitivegroup')

    def gran(self, blk):
        return self.opt(blk, 'PrimitiveBlock', 'granularity', 100)

    def dgran(self, blk):
        return self.opt(blk, 'PrimitiveBlock', 'date_granularity', 1000)

    def offs(self, blk):
        return self.opt(blk, 'PrimitiveBlock', 'lat_offset', 0), self.opt(blk, 'PrimitiveBlock', 'lon_offset', 0)

    def dense(self, g):
        return app('msg', self.f(g, 'PrimitiveGroup', 'dense'))

    def ways(self, g):
        return self.f(g, 'PrimitiveGroup', 'ways')

    def relations(self, g):
        return self.f(g, 'PrimitiveGroup', 'relations')

    def has_dense(self, g):
        return app('msg_some', self.f(g, 'PrimitiveGroup', 'dense'), sort='B')

    def nodes(self, g):
        return self.f(g, 'PrimitiveGroup', 'nodes')


def S(seq, i):
    """the i-th running sum (delta coding)"""
    v = fresh('k', 'I', POS)
    return psum(add(i, I(1)), v, at(seq, v, 'I'))


def epoch(n):
    return mk('TimestampFormat', exe.ENUMS['TimestampFormat'].index('EpochNumber'), n)


def seconds(P, blk, t):
    """a stored time in units of the date granularity (milliseconds) as whole seconds"""
    return epoch(tdiv(mul(t, P.dgran(blk)), I(1000)))


def run_start(kv, i):
    """where the tags of node i start in keys_vals: after i runs of pairs ended by 0"""
    k, p = fresh('k', 'I', POS), fresh('p', 'I', POS)
    return rec(i, [I(0)], [p], k, [add(p, I(1), scale(run_len(kv, p), 2))], 0)


def first_pat(t):
    return t


def run_len(kv, p):
    m = fresh('k', 'I', POS)
    return first(None, m, eq(at(kv, add(p, scale(m, 2)), 'I'), I(0)))


VIEW = ['id', 'version', 'deleted', 'changeset_id', 'timestamp', 'uid', 'user', 'tags']


def expect(kind, id_, version, deleted, changeset, timestamp, uid, user, tags, last):
    return tup(mk('OSMObjectType', KINDS.index(kind)), id_, version, deleted, changeset, timestamp, uid, user, tags, last)


def dense_node(P, blk, g, i):
    """the observable content of node i of a dense group"""
    d = P.dense(g)
    D = lambda n: P.f(d, 'DenseNodes', n)
    inf = app('msg', D('denseinfo'))
    M = lambda n: P.f(inf, 'DenseInfo', n)
    has = lambda s: lt(i, len_(s))
    la, lo = P.offs(blk)
    deg = lambda off, s: tdiv(add(off, mul(P.gran(blk), S(s, i))), I(100))
    kv = D('keys_vals')
    st = run_start(kv, i)
    m = fresh('k', 'I', POS)
    j = add(st, scale(m, 2))
    tags = ite(eq(len_(kv), I(0)), EMPTY, flat(run_len(kv, st), m, unit(tup(P.string(blk, at(kv, j, 'I')), P.string(blk, at(kv, add(j, I(1)), 'I'))))))
    return expect('Node', S(D('id'), i),
                  ite(has(M('version')), some(at(M('version'), i, 'I')), NONE),
                  and_(has(M('visible')), not_(at(M('visible'), i, 'B'))),
                  ite(has(M('changeset')), some(S(M('changeset'), i)), NONE),
                  ite(has(M('timestamp')), some(seconds(P, blk, S(M('timestamp'), i))), NONE),
                  ite(has(M('uid')), some(S(M('uid'), i)), NONE),
                  ite(has(M('user_sid')), some(P.string(blk, S(M('user_sid'), i))), NONE),
                  tags, some(tup(mk('Lat', 0, deg(la, D('lat'))), mk('Lon', 0, deg(lo, D('lon'))))))


def common(P, blk, o, msg):
    inf = app('msg', P.f(o, msg, 'info'))
    M = lambda n: P.f(inf, 'Info', n)
    V_ = lambda n, s='I': fld(M(n), 1, 0, s)
    keys, vals = P.f(o, msg, 'keys'), P.f(o, msg, 'vals')
    m = fresh('k', 'I', POS)
    return dict(id_=fld(P.f(o, msg, 'id'), 1, 0, 'I'),
                version=ite(is_some(M('version')), some(V_('version')), NONE),
                deleted=and_(is_some(M('visible')), not_(V_('visible', 'B'))),
                changeset=ite(is_some(M('changeset')), some(V_('changeset')), NONE),
                timestamp=ite(is_some(M('timestamp')), some(seconds(P, blk, V_('timestamp'))), NONE),
                uid=ite(is_some(M('uid')), some(V_('uid')), NONE),
                user=ite(is_some(M('user_sid')), some(P.string(blk, V_('user_sid'))), NONE),
                tags=flat(len_(keys), m, unit(tup(P.string(blk, at(keys, m, 'I')), P.string(blk, at(vals, m, 'I'))))))


def way(P, blk, w):
    refs = P.f(w, 'Way', 'refs')
    m = fresh('k', 'I', POS)
    return expect('Way', last=flat(len_(refs), m, unit(S(refs, m))), **common(P, blk, w, 'Way'))


def mtype(t):
    e = app('enum', t)
    return ite(eq(discr(e), I(0)), mk('OSMObjectType', 0), ite(eq(discr(e), I(1)), mk('OSMObjectType', 1), mk('OSMObjectType', 2)))


def relation(P, blk, r):
    mem, roles, types = (P.f(r, 'Relation', n) for n in ('memids', 'roles_sid', 'types'))
    m = fresh('k', 'I', POS)
    return expect('Relation', last=flat(len_(mem), m, unit(tup(mtype(at(types, m)), S(mem, m), P.string(blk, at(roles, m, 'I'))))),
                  **common(P, blk, r, 'Relation'))


def group_objects(P, blk, g, kinds):
    i = fresh('k', 'I', POS)
    r = EMPTY
    if 'Relation' in kinds:
        rs = P.relations(g)
        r = flat(len_(rs), i, unit(relation(P, blk, at(rs, i))))
    if 'Way' in kinds:
        ws = P.ways(g)
        a = flat(len_(ws), i, unit(way(P, blk, at(ws, i))))
        r = cat(a, r)
    if 'Node' in kinds:
        n = len_(P.f(P.dense(g), 'DenseNodes', 'id'))
        a = flat(n, i, unit(dense_node(P, blk, g, i)))
        r = cat(ite(P.has_dense(g), a, EMPTY), r)
    return r


def block_objects(P, blk, kinds):
    """the objects of a block, in file order"""
    k = fresh('k', 'I', POS)
    gs = P.groups(blk)
    return flat(len_(gs), k, group_objects(P, blk, at(gs, k), kinds))


# ------------------------------------------------------------------------------------------ well-formedness
def rng(x, lo, hi):
    return and_(le(I(lo), x), le(x, I(hi)))


def imp(a, b):
    return or_(not_(a), b)


def u32(x):
    return rng(x, 0, 2**32 - 1)


def text_ok(P, blk):
    return forall(1, lambda j: imp(rng2(j, len_(P.table(blk))), eq(discr(app('from_utf8', at(P.table(blk), j))), I(0))), lambda j: [at(P.table(blk), j)])


def rng2(j, n):
    return and_(le(I(0), j), lt(j, n))


def sid_ok(P, blk, x):
    return and_(rng2(x, len_(P.table(blk))), eq(discr(app('from_utf8', at(P.table(blk), x))), I(0)))


def info_ok(P, blk, o, msg):
    inf = app('msg', P.f(o, msg, 'info'))
    M = lambda n: P.f(inf, 'Info', n)
    V_ = lambda n, s='I': fld(M(n), 1, 0, s)
    r = []
    for n in ('version', 'changeset', 'uid'):
        r.append(imp(is_some(M(n)), u32(V_(n))))
    r.append(imp(is_some(M('user_sid')), sid_ok(P, blk, V_('user_sid'))))
    r.append(imp(is_some(M('timestamp')), fits(mul(V_('timestamp'), P.dgran(blk)))))
    r.append(is_some(P.f(o, msg, 'id')))
    r.append(eq(len_(P.f(o, msg, 'keys')), len_(P.f(o, msg, 'vals'))))
    return and_(*r)


def fits(x):
    return rng(x, *I64)


def wf(P, blk, kinds):
    """-> facts, quantified facts: a well-formed block whose groups hold the given kinds of objects (one kind per group)"""
    gs = P.groups(blk)
    G = lambda k: at(gs, k)
    ing = lambda k: rng2(k, len_(gs))
    facts = [app('msg_some', P.f(blk, 'PrimitiveBlock', 'stringtable'), sort='B')]
    q = [text_ok(P, blk), forall(1, lambda k: eq(len_(P.nodes(G(k))), I(0)), lambda k: [G(k)])]

    # one kind of object per group, of the given kinds only
    def single(k):
        g = G(k)
        d, w, r = P.has_dense(g), lt(I(0), len_(P.ways(g))), lt(I(0), len_(P.relations(g)))
        return imp(ing(k), and_(imp(d, and_(not_(w), not_(r))), imp(w, not_(r)),
                                *[not_(x) for x, n in ((d, 'Node'), (w, 'Way'), (r, 'Relation')) if n not in kinds]))
    q.append(forall(1, single, lambda k: [G(k)]))
    for kind, fn, msg in (('Way', P.ways, 'Way'), ('Relation', P.relations, 'Relation')):
        if kind not in kinds:
            continue

        def ok2(k, w, fn=fn, msg=msg):
            s = fn(G(k))
            return imp(and_(ing(k), rng2(w, len_(s))), info_ok(P, blk, at(s, w), msg) if msg == 'Way' else and_(info_ok(P, blk, at(s, w), msg), rel_ok(P, at(s, w))))

        def ok3(k, w, j, fn=fn, msg=msg):
            o = at(fn(G(k)), w)
            keys, vals = P.f(o, msg, 'keys'), P.f(o, msg, 'vals')
            c = [imp(rng2(j, len_(keys)), and_(sid_ok(P, blk, at(keys, j, 'I')), sid_ok(P, blk, at(vals, j, 'I'))))]
            ids = P.f(o, msg, 'refs' if msg == 'Way' else 'memids')
            c.append(imp(rng2(j, len_(ids)), fits(S(ids, j))))
            c.append(imp(rng2(add(j, I(1)), len_(ids)), fits(S(ids, add(j, I(1))))))
            if msg == 'Relation':
                c.append(imp(rng2(j, len_(ids)), and_(sid_ok(P, blk, at(P.f(o, msg, 'roles_sid'), j, 'I')), app('enum_known', at(P.f(o, msg, 'types'), j), sort='B'))))
            return imp(and_(ing(k), rng2(w, len_(fn(G(k))))), and_(*c))
        names = ['keys', 'vals'] + (['refs'] if kind == 'Way' else ['memids', 'roles_sid', 'types'])
        q.append(forall(2, ok2, lambda k, w, fn=fn: [at(fn(G(k)), w)]))
        q.append(forall(3, ok3, lambda k, w, j, fn=fn, msg=msg, names=names: [at(P.f(at(fn(G(k)), w), msg, n), j, so) for n in names for so in 'IU']))
    if 'Node' in kinds:
        def okd(k, i):
            g = G(k)
            d = P.dense(g)
            D = lambda n: P.f(d, 'DenseNodes', n)
            inf = app('msg', D('denseinfo'))
            M = lambda n: P.f(inf, 'DenseInfo', n)
            has = lambda s: lt(i, len_(s))
            la, lo = P.offs(blk)
            kv = D('keys_vals')
            st = run_start(kv, i)
            c = [fits(S(D('id'), i)), eq(len_(D('lat')), len_(D('id'))), eq(len_(D('lon')), len_(D('id')))]
            for off, n in ((la, 'lat'), (lo, 'lon')):
                s = S(D(n), i)
                c += [fits(s), fits(mul(P.gran(blk), s)), fits(add(off, mul(P.gran(blk), s))), rng(tdiv(add(off, mul(P.gran(blk), s)), I(100)), *TYR['i32'])]
            c.append(imp(has(M('version')), u32(at(M('version'), i, 'I'))))
            c.append(imp(has(M('changeset')), u32(S(M('changeset'), i))))
            c.append(imp(has(M('uid')), rng(S(M('uid'), i), 0, 2**31 - 1)))
            c.append(imp(has(M('user_sid')), and_(rng(S(M('user_sid'), i), 0, 2**31 - 1), sid_ok(P, blk, S(M('user_sid'), i)))))
            c.append(imp(has(M('timestamp')), and_(fits(S(M('timestamp'), i)), fits(mul(S(M('timestamp'), i), P.dgran(blk))))))
            c.append(imp(lt(I(0), len_(kv)), and_(le(I(0), st), lt(add(st, scale(run_len(kv, st), 2)), len_(kv)))))
            return imp(and_(ing(k), P.has_dense(g), rng2(i, len_(D('id')))), and_(*c))

        def okkv(k, i, m):
            g = G(k)
            d = P.dense(g)
            kv = P.f(d, 'DenseNodes', 'keys_vals')
            st = run_start(kv, i)
            j = add(st, scale(m, 2))
            return imp(and_(ing(k), P.has_dense(g), rng2(i, len_(P.f(d, 'DenseNodes', 'id'))), rng2(m, run_len(kv, st))),
                       and_(sid_ok(P, blk, at(kv, j, 'I')), sid_ok(P, blk, at(kv, add(j, I(1)), 'I'))))
        D = lambda k, n: P.f(P.dense(G(k)), 'DenseNodes', n)
        M = lambda k, n: P.f(app('msg', D(k, 'denseinfo')), 'DenseInfo', n)
        def same(k):
            return imp(and_(ing(k), P.has_dense(G(k))), and_(*[eq(len_(D(k, n)), len_(D(k, 'id'))) for n in ('lat', 'lon')]))
        q.append(forall(1, same, lambda k: [len_(D(k, n)) for n in ('id', 'lat', 'lon')]))
        q.append(forall(2, okd, lambda k, i: [at(D(k, n), i, 'I') for n in ('id', 'lat', 'lon')] + [at(M(k, n), i, 'I') for n in ('version', 'changeset', 'uid', 'user_sid', 'timestamp')]
                        + [len_(D(k, 'id'))] + [first_pat(run_len(D(k, 'keys_vals'), run_start(D(k, 'keys_vals'), i)))]))

        def kvpats(k, i, m):
            kv = D(k, 'keys_vals')
            def find(t):
                # keys_vals[start of node i + 2m (+1)]
                if not match(kv, t.args[0], (k,), b0 := {}):
                    return
                c, ps = tm._lin_parts(t.args[1])
                for x, co in ps:
                    if co == 1 and x.op == 'rec' and k in b0 and run_start(D(b0[k], 'keys_vals'), x.args[1]) is x:
                        r = sub(t.args[1], x)
                        c2, p2 = tm._lin_parts(r)
                        if all(q % 2 == 0 for _, q in p2):
                            yield (b0[k], x.args[1], tm._lin(c2 // 2, {y: q // 2 for y, q in p2}))
            return [('at', find)]
        q.append(forall(3, okkv, kvpats))
    return facts, q


def rel_ok(P, r):
    n = len_(P.f(r, 'Relation', 'memids'))
    return and_(eq(len_(P.f(r, 'Relation', 'roles_sid')), n), eq(len_(P.f(r, 'Relation', 'types')), n))


# ------------------------------------------------------------------------------------------ running the decoders
def decoded(v, fam, filt=(True, True, True)):
    """run decode_block_to_objs of one reader on an arbitrary block -> executor, state, resulting sequence, block"""
    x = v.ex()
    st = State()
    blk = sym('block')
    if fam == 'string':
        q = models.EMPTY_DEQUE() if hasattr(models, 'EMPTY_DEQUE') else EMPTY
        sink = v.cell(x, st, q, 'std::collections::VecDeque<StringOSMObj>')
        f = v.cell(x, st, tup(*[B(b) for b in filt]), '(bool, bool, bool)')
        v.call(x, st, 'stringpbf::decode_block_to_objs', [blk, f, sink], ['stringpbf::osmformat::PrimitiveBlock', '&(bool, bool, bool)', '&mut std::collections::VecDeque<StringOSMObj>'], 'usize')
        r = x.read(st, ('loc', sink.args[0], ()))
    else:
        r = v.call(x, st, 'arcpbf::decode_block_to_objs', [blk], ['arcpbf::osmformat::PrimitiveBlock'], 'std::vec::Vec<ArcOSMObj>')
    return x, st, r, blk


def view(v, fam, o):
    """what the getters of a mixed object answer"""
    x = v.ex()
    st = State()
    t = ty(fam, 'OSMObj')
    p = v.cell(x, st, o, t)
    kind = v.call(x, st.copy(), f'<{t} as OSMObjBase>::object_type', [p], ['&' + t], 'OSMObjectType')
    if kind.op != 'mk':
        raise Unsupported('object of unknown kind: ' + show(kind)[:100])
    k = KINDS[kind.args[1]]
    vals = [getter(v, x, st, t, g, p) for g in VIEW]
    inner = v.cell(x, st, fld(o, kind.args[1], 0), ty(fam, k))
    last = getter(v, x, st, ty(fam, k), {'Node': 'lat_lon', 'Way': 'nodes', 'Relation': 'members'}[k], inner)
    if x.obs and v.panics(x) is not None:
        raise Unsupported('a getter may panic')
    return tup(kind, *vals, last)


def mapseq(s, f):
    """map over the elements of a symbolic sequence"""
    if s.op == 'cat':
        return cat(*[mapseq(y, f) for y in s.args])
    if s.op == 'ite':
        return ite(s.args[0], mapseq(s.args[1], f), mapseq(s.args[2], f))
    if s.op == 'unit':
        return unit(f(s.args[0]))
    if s.op == 'flat':
        k = fresh('k', 'I', POS)
        return flat(s.args[1], k, mapseq(opn(s, k), f))
    raise Unsupported('sequence of objects: ' + show(s)[:120])


def in_memory(r):
    """a sequence held in memory has fewer than 2^63 elements, and so have its parts"""
    if r.op != 'flat':
        return []
    n = r.args[1]
    seq = n.args[0] if n.op == 'len' else None
    if seq is None:
        return []
    return [forall(1, lambda k: imp(rng2(k, n), le(len_(flat2(r, add(k, I(1)))), I(2**63 - 1))), lambda k: [at(seq, k)])]


def flat2(r, n):
    k = fresh('k', 'I', POS)
    return flat(n, k, opn(r, k))
