"""Writers of objects (XML, OsmChange): abstract objects, outputs, and running the operations of a writer."""
from verify import *
import models
from spec_p06 import esc

tm.APPR['g:id'] = TYR['i64']


def obj_models(kind=None):
    """the trait OSMObj of an arbitrary object o: its getters are functions of o; exactly the projection to its kind
    succeeds (P15), and gives an object with the same getters"""
    def g(name, sort='U', opt=None):
        def f(i, o, *a):
            r = app('g:' + name, i.deep(o), sort=sort)
            if opt:
                tm.NV[r] = opt
            return r
        return f

    def ty_(i, o):
        r = app('g:object_type', i.deep(o))
        tm.NV[r] = 3
        return r if kind is None else mk('OSMObjectType', KINDS.index(kind))

    def as_(k):
        def f(i, o):
            o = i.deep(o)
            if kind is not None:
                return some(o) if kind == k else NONE
            return ite(isv(ty_(i, o), KINDS.index(k)), some(o), NONE)
        return f

    def seq(name):
        return lambda i, o: models.it_mk(app('g:' + name, i.deep(o)))
    E = {'OSMObjBase::id': lambda i, o: app('g:id', i.deep(o), sort='I', rng=TYR['i64']), 'OSMObjBase::deleted': g('deleted', 'B'),
         'OSMObjBase::object_type': ty_, 'OSMObjBase::tags': seq('tags'), 'Relation::members': seq('members'),
         'Way::nodes': g('nodes'), 'Way::num_nodes': lambda i, o: len_(app('g:nodes', i.deep(o))), 'Node::lat_lon': g('lat_lon', opt=2)}
    for n in ('version', 'changeset_id', 'timestamp', 'uid', 'user'):
        E['OSMObjBase::' + n] = g(n, opt=2)
    for k in KINDS:
        E[f'OSMObj::as_{k.lower()}'] = as_(k)
    return E


def iso(i, args):
    return app('iso', i.deep(args[0]))


def epoch(i, args):
    return app('epoch', i.deep(args[0]), sort='I', rng=TYR['i64'])


def deg(i, args):
    return app('deg', i.deep(args[0]))


def attr_text(i, args):
    """contract of write_xml_attribute / write_xml_escaped (P06)"""
    from spec_p06 import ALL
    return models.emit(i, args[0], esc(i.deep(args[1]), ALL))


def esc_text(i, args):
    from spec_p06 import FIVE
    return models.emit(i, args[0], esc(i.deep(args[1]), FIVE))


CONTRACTS = {'write_xml_attribute': attr_text, 'write_xml_escaped': esc_text, 'epoch_to_iso': iso, 'iso_to_epoch': epoch, 'lat_lon_inner_to_degrees': deg}
RES = 'std::result::Result<(), OSMWriteError>'


class Writer:
    def __init__(self, v, mod, ty, kind=None, contracts=CONTRACTS, fault=False):
        self.v, self.mod, self.ty = v, mod, f'{mod}::{ty}'
        self.x = v.ex(contracts=contracts, extra=obj_models(kind), fault=fault)
        self.fault = fault
        self.st = State()
        self.w0 = mk('W', 0, sym('out'), FALSE) if fault else sym('out')
        self.obj = sym('obj')
        o = v.call(self.x, self.st, f'<{self.ty}<W> as OSMWriter<W>>::new', [self.w0], ['W'], f'{self.ty}<W>')
        self.init = o
        self.path = self.find(o)
        if self.path is None:
            raise Unsupported('the output of ' + self.ty)

    def find(self, t):
        if t is self.w0:
            return ()
        if t.op == 'mk':
            for i, c in enumerate(t.args[2:]):
                p = self.find(c)
                if p is not None:
                    return ((t.args[1], i),) + p
        return None

    def out(self, t):
        for v_, i in self.path:
            t = fld(t, v_, i)
        return t

    def with_out(self, t, w, path=None):
        path = self.path if path is None else path
        if not path:
            return w
        if t.op != 'mk':
            raise Unsupported('writer state ' + show(t)[:100])
        v_, i = path[0]
        a = list(t.args)
        a[2 + i] = self.with_out(a[2 + i], w, path[1:])
        return mk(a[0], a[1], *a[2:])

    def op(self, state, meth, args=(), tys=(), ret=RES, by='&mut '):
        """run an operation on a state -> (result, state)"""
        st = State()
        p = self.v.cell(self.x, st, state, self.ty + '<W>')
        tr = {'drop': 'Drop'}.get(meth, 'OSMWriter<W>')
        r = self.v.call(self.x, st, f'<{self.ty}<W> as {tr}>::{meth}', [p] + list(args), [f'{by}{self.ty}<W>'] + list(tys), ret)
        return r, self.x.read(st, ('loc', p.args[0], ()))

    def write_obj(self, state):
        return self.op(state, 'write_obj', [self.obj], ['&impl OSMObj'])
