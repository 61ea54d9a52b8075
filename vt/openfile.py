"""Opening a named or compressed input: the reader that is returned is the one made of the decompressed bytes of that file
(all its streams, for bzip2), and a file that cannot be opened is an error."""
from verify import *
import term as tm

ASSUMPTIONS = ['File::open gives the file of that name or an error; bzip2::read::MultiBzDecoder gives the concatenated decompressed streams']


def opened(v, what, fn, new, argty, ret, bz=False, result=True, file=True, extra=None):
    """fn(name or reader) = Ok(new(decompressed(open(name)))), result: it may fail"""
    cache = []

    def setup():
        if not cache:
            def op(i, name):
                r = app('open_file', i.deep(name))
                tm.NV[r] = 2
                return r
            x = v.ex(extra=dict({'File::open': op, 'MultiBzDecoder::new': lambda i, r: app('bunzip_all', i.deep(r)),
                                 'BzDecoder::new': lambda i, r: app('bunzip_first', i.deep(r)),
                                 'Path::new': lambda i, p: i.deep(p)}, **(extra or {})))
            st = State()
            name = sym('source')
            r = v.call(x, st, fn, [name], [argty], ret)
            src = fld(app('open_file', name), 0, 0) if file else name
            want = v.call(x, st, new[0], [app('bunzip_all', src) if bz else src], ['R'], new[1])
            cache.append((x, r, name, want))
        return cache[0]

    def good():
        x, r, name, want = setup()
        o = app('open_file', name)
        if not result:
            return prove_eq(r, want, Facts()) or v.panics(x)
        F = Facts([eq(discr(o), I(0))] if file else [])
        return prove(eq(discr(r), I(0)), F) or prove_eq(fld(r, 0, 0), want, F) or v.panics(x)

    def bad():
        x, r, name, want = setup()
        o = app('open_file', name)
        return prove(eq(discr(r), I(1)), Facts([eq(discr(o), I(1))]))
    v.ob(f'{what}: reads the {"decompressed " if bz else ""}bytes of {"the file" if file else "its input"}', good)
    if file:
        v.ob(f'{what}: a file that cannot be opened is an error', bad)
