"""P18: the structure views of ways and relations are the stored lists."""
from verify import *
import models


def run(v):
    ids = sym('ids')
    for fam in FAM:
        t = ty(fam, 'Way')
        b = t.split('::')[1]

        def start(t=t, name='self'):
            x = v.ex()
            st = State()
            o, p = v.obj(x, st, t, name)
            return x, st, o, p

        def ask(x, st, t, m_, p, args=(), tys=(), dty=None):
            return v.call(x, st, f'<{t} as Way>::{m_}', [p] + list(args), ['&' + t] + list(tys), dty or RET.get(m_, '?'))
        # set_nodes from a list, and from any iterator of ids
        for src, aty, arg in (('Vec', 'std::vec::Vec<i64>', ids), ('iterator', 'std::iter::Copied<std::slice::Iter<\'_, i64>>', models.it_mk(ids, I(0), 'I'))):
            def after(t=t, aty=aty, arg=arg):
                x, st, o, p = start(t)
                v.call(x, st, f'<{t} as Way>::set_nodes', [p, arg], ['&mut ' + t, aty], '()')
                return x, st, p
            i = sym('i', 'I', TYR['usize'])
            n = f'{b} after set_nodes({src})'
            v.eq(f'{n}: nodes', lambda after=after, t=t: (lambda s: (ask(s[0], s[1], t, 'nodes', s[2]), ids))(after()))
            v.eq(f'{n}: nids', lambda after=after, t=t: (lambda s: (ask(s[0], s[1], t, 'nids', s[2], dty='&[i64]'), ids))(after()))
            v.eq(f'{n}: num_nodes', lambda after=after, t=t: (lambda s: (ask(s[0], s[1], t, 'num_nodes', s[2]), len_(ids)))(after()))
            v.eq(f'{n}: node(i)', lambda after=after, t=t, i=i: (lambda s: (ask(s[0], s[1], t, 'node', s[2], [i], ['usize'], 'std::option::Option<i64>'), ite(lt(i, len_(ids)), some(at(ids, i, 'I')), NONE)))(after()))
            v.ob(f'{n}: no panic', lambda after=after, t=t, i=i: (lambda s: (ask(s[0], s[1], t, 'node', s[2], [i], ['usize'], 'std::option::Option<i64>'), v.panics(s[0]))[1])(after()))

        # closed / area of an arbitrary way in terms of nodes() and tag("area")
        def closed(x, st, p, t):
            N = ask(x, st, t, 'nodes', p)
            n = len_(N)
            return and_(lt(I(0), n), eq(at(N, I(0), 'I'), at(N, sub(n, I(1)), 'I')))

        def f_closed(t=t):
            x, st, o, p = start(t)
            r = ask(x, st, t, 'is_closed', p, dty='bool')
            e = v.panics(x)
            if e is not None:
                raise Unsupported(str(e)[:200])
            return r, closed(x, st, p, t)
        v.eq(f'{b}: is_closed', f_closed)

        def f_area(t=t):
            x, st, o, p = start(t)
            r = ask(x, st, t, 'is_area', p, dty='bool')
            e = v.panics(x)
            if e is not None:
                raise Unsupported(str(e)[:200])
            tag = v.call(x, st, f'<{t} as OSMObjBase>::tag', [p, lit('area')], ['&' + t, '&str'], 'Option<&str>')
            return r, and_(closed(x, st, p, t), not_(and_(is_some(tag), eq(fld(tag, 1, 0), lit('no')))))
        v.eq(f'{b}: is_area', f_area)

        def f_num(t=t):
            x, st, o, p = start(t)
            return ask(x, st, t, 'num_nodes', p), len_(ask(x, st, t, 'nodes', p))
        v.eq(f'{b}: num_nodes counts nodes', f_num)

        def f_node(t=t):
            x, st, o, p = start(t)
            i = sym('i', 'I', TYR['usize'])
            N = ask(x, st, t, 'nodes', p)
            return ask(x, st, t, 'node', p, [i], ['usize'], 'std::option::Option<i64>'), ite(lt(i, len_(N)), some(at(N, i, 'I')), NONE)
        v.eq(f'{b}: node(i) indexes nodes', f_node)

        # relations
        t = ty(fam, 'Relation')
        b = t.split('::')[1]
        ms = sym('members')
        for src, aty, arg in (('Vec', 'std::vec::Vec<(OSMObjectType, i64, std::string::String)>', ms), ('iterator', "std::vec::IntoIter<(OSMObjectType, i64, std::string::String)>", models.it_mk(ms, I(0), 'U'))):
            def f_mem(t=t, aty=aty, arg=arg):
                x, st, o, p = start(t)
                v.call(x, st, f'<{t} as Relation>::set_members', [p, arg], ['&mut ' + t, aty], '()')
                e = v.panics(x)
                if e is not None:
                    raise Unsupported(str(e)[:200])
                return getter(v, x, st, t, 'members', p), ms
            v.eq(f'{b} after set_members({src}): members', f_mem)
