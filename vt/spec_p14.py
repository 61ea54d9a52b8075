"""P14: every setter sets its own field and nothing else.

For every object type and setter: from an arbitrary object, after the setter the matching getter returns the value
given and every other getter returns what it returned before."""
from verify import *
import term as tm

SETTERS = [('set_id', 'id', 'I', 'i64'), ('set_version', 'version', 'U', 'std::option::Option<u32>'), ('set_deleted', 'deleted', 'B', 'bool'),
           ('set_changeset_id', 'changeset_id', 'U', 'std::option::Option<u32>'), ('set_timestamp', 'timestamp', 'U', 'std::option::Option<TimestampFormat>'),
           ('set_uid', 'uid', 'U', 'std::option::Option<u32>'), ('set_user', 'user', 'U', 'std::option::Option<&str>')]


def frame(v, name, t, kind, setter, argty, arg, changed, extra_spec=None, trait='OSMObjBase'):
    """obligations of one mutator: changed = {getter: expected value}"""
    gs = all_getters(kind)
    cache = {}

    def setup():
        if 'x' not in cache:
            x = v.ex()
            st = State()
            o, p = v.obj(x, st, t)
            s1 = st.copy()
            args = [p] + ([arg] if arg is not None else [])
            try:
                v.call(x, s1, f'<{t} as {trait}>::{setter}', args, ['&mut ' + t] + ([argty] if arg is not None else []), '()')
                cache['x'] = (x, st, s1, p)
            except (Unsupported, Diverge) as e:
                cache['x'] = e
        if isinstance(cache['x'], Exception):
            raise cache['x']
        return cache['x']

    def one(g):
        x, s0, s1, p = setup()
        after = getter(v, x, s1, t, g, p)
        want = changed[g] if g in changed else getter(v, x, s0, t, g, p)
        return after, want
    for g in gs:
        v.eq(f'{name}: {g} {"is the value set" if g in changed else "is unchanged"}', lambda g=g: one(g))

    def nopanic():
        x = setup()[0]
        return v.panics(x)
    v.ob(f'{name}: does not panic', nopanic)


def set_lat_lon(v, name, t):
    """Node::set_lat_lon of anything that converts: the pair of converted values, none for none, and no change when a conversion fails"""
    cache = {}

    def setup():
        if 'x' not in cache:
            try:
                conv = []

                def try_into(i, a):
                    to = [w for w in ('Lat', 'Lon') if "TryInto<" + w + ">" in i.fname]
                    if len(to) != 1:
                        raise Unsupported('a conversion to ' + i.fname)
                    r = app('to:' + to[0], i.deep(a))
                    tm.NV[r] = 2
                    conv.append(to[0])
                    return r
                x = v.ex(extra={'TryInto::try_into': try_into})
                st = State()
                o, p = v.obj(x, st, t)
                s1 = st.copy()
                loc = sym('loc', 'U')
                tm.NV[loc] = 2
                r = v.call(x, s1, f'<{t} as Node>::set_lat_lon', [p, loc], ['&mut ' + t, 'std::option::Option<(L1, L2)>'], 'std::result::Result<(), ParseLatLonError>')
                la, lo = (app('to:' + w, fld(fld(loc, 1, 0), 0, k)) for k, w in enumerate(('Lat', 'Lon')))
                ok = lambda c: eq(discr(c), I(0))
                good = and_(ok(la), ok(lo))
                cache['x'] = (x, st, s1, p, r, loc, good, tup(fld(la, 0, 0), fld(lo, 0, 0)))
            except (Unsupported, Diverge) as e:
                cache['x'] = e
        if isinstance(cache['x'], Exception):
            raise cache['x']
        return cache['x']

    def one(g):
        x, s0, s1, p, r, loc, good, pair = setup()
        after, before = getter(v, x, s1, t, g, p), getter(v, x, s0, t, g, p)
        if g in ('lat_lon', 'has_lat_lon'):
            n = some(pair) if g == 'lat_lon' else B(True)
            z = NONE if g == 'lat_lon' else FALSE
            return after, ite(eq(discr(loc), I(0)), z, ite(good, n, before))
        return after, before
    for g in all_getters('Node'):
        v.eq(f'{name}: {g} {"is the converted value, as before when a conversion fails" if g == "lat_lon" else "is unchanged"}', lambda g=g: one(g))

    def result():
        x, s0, s1, p, r, loc, good, pair = setup()
        return eq(discr(r), I(0)), or_(eq(discr(loc), I(0)), good)
    v.eq(f'{name}: succeeds exactly when both conversions do', result)
    v.ob(f'{name}: does not panic', lambda: v.panics(setup()[0]))


SMALL = 'SmallVec<[(SmolStr, SmolStr); 1]>'
BUILD = [('version', 'u32', 'I'), ('deleted', 'bool', 'B'), ('changeset_id', 'u32', 'I'), ('timestamp', 'TimestampFormat', 'U'), ('uid', 'u32', 'I'), ('user', 'SmolStr', 'U'), ('tags', SMALL, 'U')]
OWN = {'Node': ('lat_lon', '(Lat, Lon)', 'U'), 'Way': ('nodes', 'SmallVec<[i64; 6]>', 'U'), 'Relation': ('members', 'std::vec::Vec<(OSMObjectType, i64, SmolStr)>', 'U')}
DEFAULT = {'deleted': FALSE, 'tags': EMPTY, 'nodes': EMPTY, 'members': EMPTY}


def builder(v, kind):
    """the builders of the string-based types: every field is the value given, its neutral value when none was given"""
    t = ty('string', kind)
    B_ = f'String{kind}Builder'
    bt = 'string_types::' + B_
    gs = all_getters(kind)
    cache = {}

    def built(x, st, pb):
        """-> (succeeded, getter -> value)"""
        s = st.copy()
        r = v.call(x, s, f'{bt}::build', [pb], ['&' + bt], f'std::result::Result<{t}, {B_}Error>')
        c = v.cell(x, s, fld(r, 0, 0), t)
        return eq(discr(r), I(0)), lambda g: getter(v, x, s, t, g, c)

    def setup(f, fty, so, dflt):
        k = (f, dflt)
        if k not in cache:
            try:
                x = v.ex()
                st = State()
                if dflt:
                    pb = v.cell(x, st, v.call(x, st, f'<{bt} as Default>::default', [], [], bt), bt)
                    before = None
                else:
                    b, pb = v.obj(x, st, bt, 'builder')
                    before = built(x, st, pb)
                a = sym('val', so)
                v.call(x, st, f'{bt}::_{f}', [pb, a], ['&mut ' + bt, fty], '&mut ' + bt)
                cache[k] = x, a, before, built(x, st, pb)
            except (Unsupported, Diverge) as e:
                cache[k] = e
        if isinstance(cache[k], Exception):
            raise cache[k]
        return cache[k]

    def fresh_one(g):
        x, a, _, (ok, get) = setup('id', 'i64', 'I', True)
        return get(g), a if g == 'id' else DEFAULT.get(g, NONE)
    for g in gs:
        v.eq(f'{B_}: with only an id, {g} is {"the id" if g == "id" else "unset"}', lambda g=g: fresh_one(g))
    v.eq(f'{B_}: an id is enough', lambda: (setup('id', 'i64', 'I', True)[3][0], B(True)))
    for f, fty, so in [('id', 'i64', 'I')] + BUILD + [OWN[kind]]:
        def one(g, f=f, fty=fty, so=so):
            x, a, (ok0, get0), (ok, get) = setup(f, fty, so, False)
            if g == f:
                want = a if f in ('id',) or f in DEFAULT else some(a)
            else:
                want = get0(g)
            return get(g), want, [ok0]
        for g in gs:
            v.eq(f'{B_}::_{f}: {g} {"is the value set" if g == f else "is unchanged"}', lambda g=g, one=one: one(g))

        def still(f=f, fty=fty, so=so):
            x, a, (ok0, get0), (ok, get) = setup(f, fty, so, False)
            return ok, B(True), [ok0]
        v.eq(f'{B_}::_{f}: building still succeeds', still)
        v.ob(f'{B_}::_{f}: does not panic', lambda f=f, fty=fty, so=so: v.panics(setup(f, fty, so, False)[0]))


def views(v, name, t):
    """has_lat_lon and lat_lon_f64 are functions of lat_lon"""
    c = {}

    def setup():
        if not c:
            x = v.ex()
            st = State()
            o, p = v.obj(x, st, t)
            call = lambda m, r: v.call(x, st, f'<{t} as Node>::{m}', [p], ['&' + t], r)
            ll = call('lat_lon', 'std::option::Option<(Lat, Lon)>')
            deg = lambda k: v.call(x, st, ('Lat', 'Lon')[k] + '::degrees', [v.cell(x, st, fld(fld(ll, 1, 0), 0, k), ('Lat', 'Lon')[k])], ['&' + ('Lat', 'Lon')[k]], 'f64')
            c['r'] = x, ll, call('has_lat_lon', 'bool'), call('lat_lon_f64', 'std::option::Option<(f64, f64)>'), tup(deg(0), deg(1))
        return c['r']

    def f64():
        x, ll, has, f, d = setup()
        return f, ite(eq(discr(ll), I(0)), NONE, some(d))

    def has():
        x, ll, has, f, d = setup()
        return has, is_some(ll)
    v.eq(f'{name}::has_lat_lon: whether there is a location', has)
    v.eq(f'{name}::lat_lon_f64: the degrees of the location', f64)
    v.ob(f'{name}::has_lat_lon, lat_lon_f64: no panic', lambda: v.panics(setup()[0]))


def run(v):
    for kind in KINDS:
        builder(v, kind)
    for fam in FAM:
        for kind in KINDS + ['OSMObj']:
            t = ty(fam, kind)
            b = t.split('::')[1]
            for s, g, so, aty in SETTERS:
                a = sym('val', so)
                frame(v, f'{b}::{s}', t, kind, s, aty, a, {g: a})
            frame(v, f'{b}::strip_metadata', t, kind, 'strip_metadata', '', None, {'uid': NONE, 'user': NONE, 'changeset_id': NONE})
            if kind == 'Node':
                a = sym('loc', 'U')
                frame(v, f'{b}::set_lat_lon_direct', t, kind, 'set_lat_lon_direct', 'std::option::Option<(Lat, Lon)>', a, {'lat_lon': a}, trait='Node')
                views(v, b, t)
                set_lat_lon(v, f'{b}::set_lat_lon', t)
                frame(v, f'{b}::unset_lat_lon', t, kind, 'unset_lat_lon', '', None, {'lat_lon': NONE}, trait='Node')
            if kind == 'Way':
                a = sym('ids', 'U')
                frame(v, f'{b}::set_nodes', t, kind, 'set_nodes', 'std::vec::Vec<i64>', a, {'nodes': a}, trait='Way')
            if kind == 'Relation':
                a = sym('members', 'U')
                frame(v, f'{b}::set_members', t, kind, 'set_members', 'std::vec::Vec<(OSMObjectType, i64, std::string::String)>', a, {'members': a}, trait='Relation')
