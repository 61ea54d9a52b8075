"""P03: PBF relations decode to exactly the relations the block encodes."""
import pbfcheck
import pbwire

ASSUMPTIONS = list(pbwire.ASSUMPTIONS)


def run(v):
    pbfcheck.run(v, ['Relation'])
    pbwire.run(v, 'P03')
