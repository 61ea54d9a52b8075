"""P05: specialised PBF iteration agrees with full iteration (uses the contracts of P04)."""
from verify import *
import openfile
from pbfspec import *
import spec_p04 as s4
from spec_p04 import memo, facts, discharge
import term as tm

ASSUMPTIONS = s4.ASSUMPTIONS
FILTERS = {'Node': (True, False, False), 'Way': (False, True, False), 'Relation': (False, False, True)}
METHOD = {'Node': 'nodes', 'Way': 'ways', 'Relation': 'relations'}


def decode(v, kind):
    """with the filter for one kind, a block of groups of any kind gives its objects of that kind"""
    P = Pbf('stringpbf')
    d = memo(lambda: decoded(v, 'string', FILTERS[kind]))

    def objs():
        x, st, r, blk = d()
        f, q = wf(P, blk, KINDS)
        return mapseq(r, lambda o: view(v, 'string', o)), block_objects(P, blk, [kind]), Facts(f, q=q)

    def nopanic():
        x, st, r, blk = d()
        f, q = wf(P, blk, KINDS)
        return v.panics(x, Facts(f, q=q + in_memory(r)))
    v.eq(f'stringpbf::decode_block_to_objs with the filter of {METHOD[kind]}(): the {kind} objects of the block, in order', objs)
    v.ob(f'stringpbf::decode_block_to_objs with the filter of {METHOD[kind]}(): no panic', nopanic)


def of_kind(s, kind):
    """the objects of one kind among s (the enum of kinds has the same order as its variants)"""
    k = fresh('k', 'I', POS)
    o = at(s, k)
    i = KINDS.index(kind)
    return flat(len_(s), k, ite(eq(discr(o), I(i)), unit(fld(o, i, 0)), EMPTY))


def special(v, kind):
    """PBFReader::nodes and so on: sets the filter, and gives the objects of that kind among those the reader yields"""
    S, r0, fr, buf, flt = s4.pbf_new(v, 'stringpbf')
    x = v.ex()
    s = sym('objs')

    def objects(info, args):
        return models.it_mk(s, I(0), 'U')
    x.contracts = {'OSMReader::objects': objects}
    st = State()
    rc = v.cell(x, st, s4.put(r0, flt, tup(*[sym('f%d' % i, 'B') for i in range(3)])), 'stringpbf::PBFReader<R>')
    r = v.call(x, st, f'stringpbf::PBFReader::<R>::{METHOD[kind]}', [rc], ['&mut stringpbf::PBFReader<R>'], '?')
    if not x.used_contracts:
        raise Unsupported('does not use objects()')
    k = fresh('k', 'I', POS)
    tm.NV[at(s, k)] = 3
    return x, models.rest(r), of_kind(s, kind), s4.get(st.m[rc.args[0]], flt)


def mixed():
    """the contracts of mixed objects (P15): kind, views and projections of an object of one of three kinds"""
    def proj(i):
        def f(info, o):
            o = info.deep(o)
            tm.NV[o] = 3
            return ite(eq(discr(o), I(i)), some(fld(o, i, 0)), NONE)
        return f

    def is_(i):
        return lambda info, o: eq(discr(info.deep(o)), I(i))

    r = {'OSMObjBase::object_type': lambda info, o: kind_of(info.deep(o))}
    for i, k in enumerate(KINDS):
        for m in ('into_', 'as_'):
            r[f'OSMObj::{m}{k.lower()}'] = proj(i)
        r[f'OSMObj::is_{k.lower()}'] = is_(i)
    return r


def kind_of(o):
    tm.NV[o] = 3
    d = discr(o)
    return ite(eq(d, I(0)), mk('OSMObjectType', 0), ite(eq(d, I(1)), mk('OSMObjectType', 1), mk('OSMObjectType', 2)))


def generic(v, kind):
    """the default nodes(), ways() and relations() of every reader"""
    x = v.ex(extra=mixed())
    s = sym('objs')
    k = fresh('k', 'I', POS)
    tm.NV[at(s, k)] = 3
    x.contracts = {'OSMReader::objects': lambda info, args: models.it_mk(s, I(0), 'U')}
    st = State()
    rc = v.cell(x, st, sym('reader'), 'Self')
    r = v.call(x, st, f'<Self as OSMReader>::{METHOD[kind]}', [rc], ['&mut Self'], '?')
    if not x.used_contracts:
        raise Unsupported('does not use objects()')
    it = x.read(st, ('loc', r.args[0], r.args[1])) if r.op == 'ptr' else r
    return models.rest(it), of_kind(s, kind)


# ------------------------------------------------------------------------------------------ positions only
def node_pos(P, blk, g, i):
    d = P.dense(g)
    la, lo = P.offs(blk)
    deg = lambda off, n: tdiv(add(off, mul(P.gran(blk), S(P.f(d, 'DenseNodes', n), i))), I(100))
    return tup(S(P.f(d, 'DenseNodes', 'id'), i), tup(mk('Lat', 0, deg(la, 'lat')), mk('Lon', 0, deg(lo, 'lon'))))


def positions(P, blk):
    k, i = fresh('k', 'I', POS), fresh('k', 'I', POS)
    gs = P.groups(blk)
    g = at(gs, k)
    return flat(len_(gs), k, ite(P.has_dense(g), flat(len_(P.f(P.dense(g), 'DenseNodes', 'id')), i, unit(node_pos(P, blk, g, i))), EMPTY))


POSDEC = 'stringpbf::node_id_pos::decode_block_to_objs'


def decoded_pos(v):
    x = v.ex()
    st = State()
    blk = sym('block')
    sink = v.cell(x, st, EMPTY, 'std::collections::VecDeque<(i64, (Lat, Lon))>')
    v.call(x, st, POSDEC, [blk, sink], ['stringpbf::osmformat::PrimitiveBlock', '&mut std::collections::VecDeque<(i64, (Lat, Lon))>'], 'usize')
    return x, x.read(st, ('loc', sink.args[0], ())), blk


def run(v):
    for kind in KINDS:
        decode(v, kind)
        sp = memo(lambda kind=kind: special(v, kind))

        def yields(kind=kind, sp=sp):
            x, a, b, f = sp()
            return prove_eq(a, b, Facts()) or v.panics(x)

        def filt(kind=kind, sp=sp):
            x, a, b, f = sp()
            return prove_eq(f, tup(*[B(y) for y in FILTERS[kind]]), Facts())
        v.ob(f'stringpbf::PBFReader::{METHOD[kind]}: yields exactly the {kind} objects of objects()', yields)
        v.ob(f'stringpbf::PBFReader::{METHOD[kind]}: asks for {kind} groups only', filt)
        v.eq(f'OSMReader::{METHOD[kind]}: yields exactly the {kind} objects of objects()', lambda kind=kind: generic(v, kind))

    P = Pbf('stringpbf')
    dp = memo(lambda: decoded_pos(v))

    def pos():
        x, r, blk = dp()
        f, q = wf(P, blk, KINDS)
        return r, positions(P, blk), Facts(f, q=q)

    def pos_is_view():
        """the position of a node is the one full iteration gives (specifications agree)"""
        blk, g, i = sym('block'), sym('g'), sym('i', 'I', POS)
        o = dense_node(P, blk, g, i)
        # view: kind, id, ..., last = Some((lat, lon))
        return tup(fld(o, 0, 1, 'I'), fld(fld(o, 0, len(VIEW) + 1), 1, 0)), node_pos(P, blk, g, i)

    def nopanic():
        x, r, blk = dp()
        f, q = wf(P, blk, KINDS)
        return v.panics(x, Facts(f, q=q + in_memory(r)))
    v.eq(f'{POSDEC[11:]}: id and position of every node of the block, in order', pos)
    v.ob(f'{POSDEC[11:]}: no panic', nopanic)
    v.eq('lemma: the positions are those of the nodes full iteration yields', pos_is_view)

    T = 'stringpbf::node_id_pos::PBFNodePositionReader<R>'
    nx = memo(lambda: s4.pbf_next(v, 'stringpbf', 'pos', T, new='{0}::from_reader', next_='<{0} as Iterator>::next', ret='std::option::Option<(i64, (Lat, Lon))>', decode='node_id_pos::decode_block_to_objs'))
    discharge(v, None, 'PBFNodePositionReader::next', nx, ['the object returned is the first of what was to come', 'nothing more is only answered at the end'])

    def fresh_reader():
        S, r, fr, buf, flt = s4.pbf_new(v, 'stringpbf', T, '{0}::from_reader')
        return prove_eq(s4.get(r, fr), S.reader(S.pos(I(0))), Facts([eq(S.pos(I(0)), I(0))]))
    v.ob('PBFNodePositionReader::from_reader: at the first frame, nothing buffered', fresh_reader)

    v.assumptions += openfile.ASSUMPTIONS
    B_ = 'std::io::BufReader<std::fs::File>'
    N_ = 'stringpbf::node_id_pos::PBFNodePositionReader'
    openfile.opened(v, 'PBFNodePositionReader::from_filename', f'{N_}::<{B_}>::from_filename', (f'{T}::from_reader', T), '&str', f'std::result::Result<{N_}<{B_}>, anyhow::Error>')
