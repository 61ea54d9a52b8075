"""P02: PBF ways decode to exactly the ways the block encodes."""
import pbfcheck
import pbwire

ASSUMPTIONS = list(pbwire.ASSUMPTIONS)


def run(v):
    pbfcheck.run(v, ['Way'])
    pbwire.run(v, 'P02')
