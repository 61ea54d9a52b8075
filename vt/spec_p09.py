"""P09: writing objects as OsmChange and reading them gives equal objects.

As P07, with the OSC writer and reader; the objects stand in one section of one osmChange document."""
import spec_p07
import spec_p08

ASSUMPTIONS = spec_p07.ASSUMPTIONS


def run(v):
    spec_p07.document(v, 'osc', 'OSCWriter', 'osc::OSCReader<R>', ('osmChange', 'modify'))
