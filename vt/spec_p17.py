"""P17: object kinds and their names, for every character and every string."""
from verify import *

T_ = 'OSMObjectType'
SHORT = 'nwr'
LONG = ['node', 'way', 'relation']
ACCEPT = {'n': 0, 'node': 0, 'w': 1, 'way': 1, 'r': 2, 'relation': 2, 'rel': 2}


def run(v):
    def q(fname, args, tys, dty):
        x = v.ex()
        st = State()
        r = v.call(x, st, fname, args, tys, dty)
        e = v.panics(x)
        if e is not None:
            raise Unsupported(str(e)[:300])
        return r
    for i in range(3):
        k = KINDS[i]
        o = mk(T_, i)
        v.eq(f'{k}: name_short', lambda o=o, i=i: (q(f'{T_}::name_short', [o], ['&' + T_], 'char'), I(ord(SHORT[i]))))
        v.eq(f'{k}: name_long', lambda o=o, i=i: (q(f'{T_}::name_long', [o], ['&' + T_], '&str'), lit(LONG[i])))
        v.eq(f'{k}: Display gives the long name', lambda o=o, i=i: (disp(v, o), lit(LONG[i])))
        for j in range(3):
            p = mk(T_, j)
            w = -1 if i < j else 1 if i > j else 0
            v.eq(f'{k} against {KINDS[j]}: cmp', lambda o=o, p=p, w=w: (q(f'<{T_} as Ord>::cmp', [o, p], ['&' + T_, '&' + T_], 'std::cmp::Ordering'), mk('Ordering', w + 1)))
            v.eq(f'{k} against {KINDS[j]}: partial_cmp', lambda o=o, p=p, w=w: (q(f'<{T_} as PartialOrd>::partial_cmp', [o, p], ['&' + T_, '&' + T_], 'std::option::Option<std::cmp::Ordering>'), some(mk('Ordering', w + 1))))
            v.eq(f'{k} against {KINDS[j]}: eq', lambda o=o, p=p, w=w: (q(f'<{T_} as PartialEq>::eq', [o, p], ['&' + T_, '&' + T_], 'bool'), B(w == 0)))
    c = sym('c', 'I', (0, 0x10ffff))
    s = sym('s')

    def which(cond):
        r = I(3)
        for n, i in reversed(cond):
            r = ite(n, I(i), r)
        return r
    def outcome(r):
        ok_ = isv(r, 0)
        return ite(ok_, discr(fld(r, 0, 0)), I(3))
    v.eq('TryFrom<char>: exactly n, w and r are accepted', lambda: (
        outcome(q(f'<{T_} as TryFrom<char>>::try_from', [c], ['char'], f'std::result::Result<{T_}, std::string::String>')),
        which([(eq(c, I(ord(SHORT[i]))), i) for i in range(3)])))
    v.eq('FromStr: exactly the names and rel are accepted', lambda: (
        outcome(q(f'<{T_} as FromStr>::from_str', [s], ['&str'], f'std::result::Result<{T_}, std::string::String>')),
        which([(eq(s, lit(n)), i) for n, i in ACCEPT.items()])))


def disp(v, o):
    x = v.ex()
    st = State()
    p = x.heap(st, EMPTY)
    v.call(x, st, f'<{T_} as std::fmt::Display>::fmt', [o, p], ['&' + T_, '&mut std::fmt::Formatter<\'_>'], 'std::result::Result<(), std::fmt::Error>')
    return x.read(st, ('loc', p.args[0], ()))
