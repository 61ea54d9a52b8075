"""The wire format of the PBF messages, from the format description (osmformat.proto, fileformat.proto): what the generated
parsers (merge_from) do with each record, which messages are complete (is_initialized), and the numbers of the member types.

A message is read as a sequence of records.  The contract of merge_from is an invariant of its loop, stated per field: for an
arbitrary message so far and an arbitrary record, the field afterwards is what the schema says (set, appended to, or unchanged);
reading goes on after each record that can be
read, and succeeds at the end of the message.  Nothing is said of malformed messages.  The primitives of the
protobuf crate (reading a tag, a varint, a packed array, a nested message, skipping an unknown field) are functions of the position.
"""
from verify import *
import re
import exe
import models
import term as tm

POS = (0, 2**62)
ASSUMPTIONS = ['the protobuf crate parses a message by merge_from on the empty message, then is_initialized; its primitives (tags, varints, zigzag, '
               'packed arrays, length-delimited records, skipping unknown fields) follow the wire format']
# message -> (file, {field: (number, type, 'one' | 'req' | 'many')}); a capitalised type is a message
SCHEMA = {
    'PrimitiveBlock': ('osmformat', {'stringtable': (1, 'StringTable', 'req'), 'primitivegroup': (2, 'PrimitiveGroup', 'many'),
                                     'granularity': (17, 'int32', 'one'), 'date_granularity': (18, 'int32', 'one'),
                                     'lat_offset': (19, 'int64', 'one'), 'lon_offset': (20, 'int64', 'one')}),
    'StringTable': ('osmformat', {'s': (1, 'bytes', 'many')}),
    'PrimitiveGroup': ('osmformat', {'nodes': (1, 'Node', 'many'), 'dense': (2, 'DenseNodes', 'one'), 'ways': (3, 'Way', 'many'),
                                     'relations': (4, 'Relation', 'many'), 'changesets': (5, 'ChangeSet', 'many')}),
    'Info': ('osmformat', {'version': (1, 'int32', 'one'), 'timestamp': (2, 'int64', 'one'), 'changeset': (3, 'int64', 'one'),
                           'uid': (4, 'int32', 'one'), 'user_sid': (5, 'uint32', 'one'), 'visible': (6, 'bool', 'one')}),
    'DenseInfo': ('osmformat', {'version': (1, 'int32', 'many'), 'timestamp': (2, 'sint64', 'many'), 'changeset': (3, 'sint64', 'many'),
                                'uid': (4, 'sint32', 'many'), 'user_sid': (5, 'sint32', 'many'), 'visible': (6, 'bool', 'many')}),
    'DenseNodes': ('osmformat', {'id': (1, 'sint64', 'many'), 'denseinfo': (5, 'DenseInfo', 'one'), 'lat': (8, 'sint64', 'many'),
                                 'lon': (9, 'sint64', 'many'), 'keys_vals': (10, 'int32', 'many')}),
    'Way': ('osmformat', {'id': (1, 'int64', 'req'), 'keys': (2, 'uint32', 'many'), 'vals': (3, 'uint32', 'many'), 'info': (4, 'Info', 'one'),
                          'refs': (8, 'sint64', 'many')}),
    'Relation': ('osmformat', {'id': (1, 'int64', 'req'), 'keys': (2, 'uint32', 'many'), 'vals': (3, 'uint32', 'many'), 'info': (4, 'Info', 'one'),
                               'roles_sid': (8, 'int32', 'many'), 'memids': (9, 'sint64', 'many'), 'types': (10, 'enum', 'many')}),
    'BlobHeader': ('fileformat', {'type_': (1, 'string', 'req'), 'indexdata': (2, 'bytes', 'one'), 'datasize': (3, 'int32', 'req')}),
    'Blob': ('fileformat', {'raw': (1, 'bytes', 'one'), 'raw_size': (2, 'int32', 'one'), 'zlib_data': (3, 'bytes', 'one'),
                            'lzma_data': (4, 'bytes', 'one'), 'OBSOLETE_bzip2_data': (5, 'bytes', 'one')}),
}
LEN = ('string', 'bytes')           # length-delimited scalars (never packed)
COMMON = ['StringTable', 'PrimitiveBlock', 'PrimitiveGroup']
USES = {'P01': COMMON + ['DenseNodes', 'DenseInfo'], 'P02': COMMON + ['Way', 'Info'], 'P03': COMMON + ['Relation', 'Info'],
        'P04': ['BlobHeader', 'Blob', 'PrimitiveGroup', 'PrimitiveBlock']}


def ismsg(t): return t[0].isupper()


class Wire:
    """primitives of the protobuf crate over an abstract sequence of records"""

    def res(self, name, *a):
        r = app(name, *a)
        tm.NV[r] = 2
        return r

    def extra(self):
        def at_(i, p):
            s = i.deep(p)
            if not (s.op == 'mk' and s.args[0] == 'Records'):
                raise Unsupported('record stream ' + show(s)[:60])
            return s.args[2]

        def adv(i, p):
            pos = at_(i, p)
            i.set(p, mk('Records', 0, add(pos, I(1))))
            return pos

        def tag(i, p):
            return self.tag(adv(i, p))

        def one(t):
            def f(i, p):
                return self.res('pb_read:' + t, adv(i, p))
            return f

        def message(i, p):
            t = i.gs[0] if i.gs else generics(i.dty)[0] if generics(i.dty) else '?'
            return self.res('pb_read:' + exe.base(t).split('::')[-1], adv(i, p))

        def packed(t):
            def f(i, p, v):
                r = self.res('pb_packed:' + t, adv(i, p))
                i.set(v, cat(i.deep(v), ite(eq(discr(r), I(0)), fld(r, 0, 0), app('partial', r))))
                return ite(eq(discr(r), I(0)), mk('Result', 0, UNIT), mk('Result', 1, fld(r, 1, 0)))
            return f

        def enums(i, p, v): return packed('enum')(i, p, v)

        def single(i, p, f):
            pos = adv(i, p)
            r = self.res('pb_merge', pos)
            i.set(f, app('pb_merged', i.deep(f), pos))
            return r

        def skip(i, t, p, u):
            return self.res('pb_skip', adv(i, p), t)
        m = {'CodedInputStream::read_raw_tag_or_eof': tag, 'CodedInputStream::read_enum_or_unknown': one('enum'), 'CodedInputStream::read_message': message,
             'rt::read_singular_message_into_field': single, 'rt::read_unknown_or_skip_group': skip, 'rt::read_repeated_packed_enum_or_unknown_into': enums,
             'SpecialFields::mut_unknown_fields': lambda i, p: sym('unknown_fields')}
        for t in [t for t in m if t.startswith('rt::')]:
            m[t[2:]] = m[t]
        for t in ('int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'float', 'double'):
            m['CodedInputStream::read_' + t] = one(t)
            m[f'CodedInputStream::read_repeated_packed_{t}_into'] = packed(t)
        for t in LEN:
            m['CodedInputStream::read_' + t] = one(t)
        return m

    def tag(self, pos):
        r = self.res('pb_tag', pos)
        tm.NV[fld(r, 0, 0)] = 2
        return r

    def more(self, pos):
        r = self.tag(pos)
        return and_(eq(discr(r), I(0)), eq(discr(fld(r, 0, 0)), I(1)))

    def number(self, pos):
        return fld(fld(self.tag(pos), 0, 0), 1, 0, 'I')


SORT = {'bool': 'B', 'int32': 'I', 'int64': 'I', 'uint32': 'I', 'sint32': 'I', 'sint64': 'I'}


def expected(W, P, old, num, t, card):
    """the field after the record at P, from its value before"""
    tag = W.number(P)
    v = fld(W.res('pb_read:' + t, add(P, I(1))), 0, 0, SORT.get(t, 'U'))
    if ismsg(t) and card != 'many':
        return ite(eq(tag, I(num << 3 | 2)), app('pb_merged', old, add(P, I(1))), old), [num << 3 | 2]
    if card != 'many':
        w = 2 if t in LEN else 0
        return ite(eq(tag, I(num << 3 | w)), some(v), old), [num << 3 | w]
    if ismsg(t) or t in LEN:
        return ite(eq(tag, I(num << 3 | 2)), cat(old, unit(v)), old), [num << 3 | 2]
    r = fld(W.res('pb_packed:' + t, add(P, I(1))), 0, 0)
    return ite(eq(tag, I(num << 3 | 2)), cat(old, r), ite(eq(tag, I(num << 3)), cat(old, unit(v)), old)), [num << 3 | 2, num << 3]


def message(v, mod, msg):
    file, fields = SCHEMA[msg]
    T_ = f'{mod}::{file}::{msg}'
    W = Wire()
    cache = {}

    def run():
        if 'r' in cache:
            if isinstance(cache['r'], Exception):
                raise cache['r']
            return cache['r']
        try:
            names = exe.STRUCTS.get(T_)
            if not names:
                raise Unsupported('no message ' + T_)
            x = v.ex(extra=W.extra())
            st = State()
            m = sym('m')
            p = v.cell(x, st, m, T_)
            s = v.cell(x, st, mk('Records', 0, sym('at', 'I', POS)), 'CodedInputStream')
            seen = []

            def inv(x_, S, k):
                P = x_.read(S, ('loc', s.args[0], s.args[1])).args[2]
                seen.append(P)

                def goals(st_, k_, S0):
                    if st_ is S0:
                        return []
                    a = x_.read(S0, ('loc', p.args[0], p.args[1]))
                    b = x_.read(st_, ('loc', p.args[0], p.args[1]))
                    out = []
                    for f, (num, t, card) in fields.items():
                        j = names.index(f)
                        so = 'U'
                        want, _ = expected(W, P, fld(a, 0, j, so), num, t, card)
                        out.append((f, fld(b, 0, j, so), want))
                    out.append(('goes on after a record', x_.read(st_, ('loc', s.args[0], s.args[1])).args[2], add(P, I(2))))
                    return out
                return {'goals': goals}
            x.invs['*'] = inv
            r = v.call(x, st, f'<{T_} as protobuf::Message>::merge_from', [p, s], ['&mut ' + T_, '&mut CodedInputStream<\'_>'], 'std::result::Result<(), protobuf::Error>')
            if len(seen) < 1:
                raise Unsupported('no loop over the records')
            cache['r'] = x, st, r, seen[-1]
        except (Unsupported, Diverge) as e:
            cache['r'] = e
            raise
        return cache['r']
    for f in fields:
        def field(f=f):
            x, st, r, P = run()
            obs = [o for o in x.invobs if o[0].endswith('is kept: ' + f)]
            if len(obs) != 1:
                raise Unsupported('the loop over the records')
            _, a, b, pc = obs[0]
            F = Facts(x.facts + pc + ok_read(W, P, fields))
            fail = prove_eq(a, b, F)
            return fail if fail is None else v.tryrefute(fail, a, b, F)
        v.ob(f'{mod}::{msg}::merge_from: {f} after any record', field)

    def done():
        x, st, r, P = run()
        for o in x.invobs:
            if o[0].endswith('goes on after a record'):
                q = prove(eq(o[1], o[2]), Facts(x.facts + list(o[3]) + ok_read(W, P, fields)))
                if q is not None:
                    return q
        F = x.facts + x.exits
        q = prove(not_(and_(W.more(P), *ok_read(W, P, fields))), Facts(F))
        if q is not None:
            return q
        return prove(eq(discr(r), I(0)), Facts(F + [eq(discr(W.tag(P)), I(0)), eq(discr(fld(W.tag(P), 0, 0)), I(0))]))
    v.ob(f'{mod}::{msg}::merge_from: goes on after each record that can be read, succeeds at the end', done)

    def init():
        x = v.ex(extra={'IntoIterator::into_iter': into})
        st = State()
        m = sym('m')
        p = v.cell(x, st, m, T_)
        r = v.call(x, st, f'<{T_} as protobuf::Message>::is_initialized', [p], ['&' + T_], 'bool')
        return prove(r, Facts([complete(mod, msg, m)]))
    v.ob(f'{mod}::{msg}::is_initialized: a message with all required fields is complete', init)

    def empty(r):
        """nothing is set"""
        names = exe.STRUCTS.get(T_)
        for f, (num, t, card) in fields.items():
            a = fld(r, 0, names.index(f))
            g = not_(app('msg_some', a, sort='B')) if ismsg(t) and card != 'many' else eq(len_(a), I(0)) if card == 'many' else eq(discr(a), I(0))
            q = prove(g, Facts([]))
            if q is not None:
                return q

    def new():
        x = v.ex()
        return empty(v.call(x, State(), f'<{T_} as protobuf::Message>::new', [], [], T_))

    def dflt():
        x = v.ex()
        l = [l for l in v.prog.fns if l.kind == 'const' and l.name.endswith('default_instance::instance') and strip_ref(l.ret or '') == T_]
        if len(l) != 1:
            raise Unsupported('the default instance')
        return empty(x.call_fn(State(), l[0], [], [], {}, ()))
    v.ob(f'{mod}::{msg}::new: nothing is set', new)
    v.ob(f'{mod}::{msg}::default_instance: nothing is set', dflt)


def into(i, f):
    if exe.base(strip_ref(i.tys[0])) == 'MessageField' or exe.base(strip_ref(i.selfty)) == 'MessageField':
        f = i.deep(f)
        return models.it_mk(ite(app('msg_some', f, sort='B'), unit(app('msg', f)), EMPTY), I(0), 'U')
    return models.REG['IntoIterator::into_iter'](i, f)


def strip_ref(t): return re.sub(r"^&('\w+ )?(mut )?", '', t)


REQUIRED = {'Node': ['id', 'lat', 'lon'], 'ChangeSet': ['id']}      # of the messages not read by osmio


def complete(mod, msg, m):
    """the required fields of a message, and of the messages in it, are present"""
    if msg in REQUIRED:
        fields = {f: (0, 'int64', 'req') for f in REQUIRED[msg]}
        names = exe.STRUCTS.get(f'{mod}::osmformat::{msg}')
    else:
        names = exe.STRUCTS.get(f'{mod}::{SCHEMA[msg][0]}::{msg}')
        fields = SCHEMA[msg][1]
    c = []
    for f, (num, t, card) in fields.items():
        a = fld(m, 0, names.index(f))
        if ismsg(t) and card != 'many':
            if card == 'req':
                c.append(app('msg_some', a, sort='B'))
            c.append(or_(not_(app('msg_some', a, sort='B')), complete(mod, t, app('msg', a))))
        elif ismsg(t):
            k = fresh('k', 'I', POS)
            q = complete(mod, t, at(a, k))
            if q is not TRUE:
                c.append(le(len_(a), first(len_(a), k, not_(q))))
        elif card == 'req':
            c.append(eq(discr(a), I(1)))
    return and_(*c)


def ok_read(W, P, fields):
    """the record at P could be read"""
    tag, Q = W.number(P), add(P, I(1))
    out, mine = [], []
    for num, t, card in fields.values():
        if ismsg(t) and card != 'many':
            rs = [(2, 'pb_merge')]
        elif ismsg(t) or t in LEN:
            rs = [(2, 'pb_read:' + t)]
        elif card != 'many':
            rs = [(0, 'pb_read:' + t)]
        else:
            rs = [(0, 'pb_read:' + t), (2, 'pb_packed:' + t)]
        for w, n in rs:
            c = eq(tag, I(num << 3 | w))
            mine.append(c)
            out.append(or_(not_(c), eq(discr(W.res(n, Q)), I(0))))
    out.append(or_(*mine, eq(discr(W.res('pb_skip', Q, tag)), I(0))))
    return out


def members(v, mod):
    """the numbers of the member types"""
    def f():
        x = v.ex()
        st = State()
        n = sym('n', 'I', TYR['i32'])
        t = f'{mod}::osmformat::relation::MemberType'
        r = v.call(x, st, f'<{t} as protobuf::Enum>::from_i32', [n], ['i32'], f'std::option::Option<{t}>')
        vs = exe.ENUMS['MemberType']
        e = lambda w: some(mk('MemberType', vs.index(w)))
        return r, ite(eq(n, I(0)), e('NODE'), ite(eq(n, I(1)), e('WAY'), ite(eq(n, I(2)), e('RELATION'), NONE)))
    v.eq(f'{mod}::MemberType::from_i32: 0, 1, 2 are node, way, relation', f)


def run(v, pid):
    for mod in ('stringpbf', 'arcpbf'):
        for m in USES[pid]:
            message(v, mod, m)
        if pid == 'P03':
            members(v, mod)
