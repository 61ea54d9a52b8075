"""Decoder obligations shared by P01-P03."""
from verify import *
from pbfspec import *


def run(v, kinds):
    for fam, mod in (('string', 'stringpbf'), ('arc', 'arcpbf')):
        P = Pbf(mod)
        cache = {}

        def dec(fam=fam, cache=cache):
            if 'r' not in cache:
                try:
                    cache['r'] = decoded(v, fam)
                except (Unsupported, Diverge) as e:
                    cache['r'] = e
            if isinstance(cache['r'], Exception):
                raise cache['r']
            return cache['r']

        def objs(fam=fam, P=P, dec=dec):
            x, st, r, blk = dec()
            f, q = wf(P, blk, kinds)
            k, i = fresh('k', 'I', POS), fresh('k', 'I', POS)
            g = at(P.groups(blk), k)
            for kind in kinds:
                # the assumptions allow objects of each kind: the obligation is not vacuous
                n = len_(P.f(P.dense(g), 'DenseNodes', 'id') if kind == 'Node' else P.ways(g) if kind == 'Way' else P.relations(g))
                if prove(FALSE, Facts(f + [rng2(k, len_(P.groups(blk))), rng2(i, n)] + ([P.has_dense(g)] if kind == 'Node' else []), q=q)) is None:
                    raise Unsupported('contradictory well-formedness')
            return mapseq(r, lambda o: view(v, fam, o)), block_objects(P, blk, kinds), Facts(f, q=q)

        def nopanic(fam=fam, P=P, dec=dec):
            x, st, r, blk = dec()
            f, q = wf(P, blk, kinds)
            return v.panics(x, Facts(f, q=q + in_memory(r)))
        n = ' and '.join(kinds)
        v.eq(f'{mod}::decode_block_to_objs: objects of a block of {n} groups', objs)
        v.ob(f'{mod}::decode_block_to_objs: no panic on a block of {n} groups', nopanic)
