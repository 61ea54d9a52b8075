"""P01: PBF dense nodes decode to exactly the nodes the block encodes."""
import pbfcheck
import pbwire

ASSUMPTIONS = list(pbwire.ASSUMPTIONS)


def run(v):
    pbfcheck.run(v, ['Node'])
    pbwire.run(v, 'P01')
