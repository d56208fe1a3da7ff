"""Shared by C01-C03: configurations of spec/Patch*.tla and random scenarios."""

DESIGN = '''SPECIFICATION DSpec
CONSTANTS
 MaxQueue = %(q)d
 Part = "%(part)s"
 Values = {1, 2}
 MaxMsg = %(m)d
INVARIANTS GraphInv PullIsPush FIFO OnceEach Bounded
PROPERTY OneEdge
'''

GEN = '''SPECIFICATION GSpec
CONSTANTS
 MaxQueue = %(q)d
 Part = "%(part)s"
 Values = %(v)s
 MaxMsg = %(m)d
VIEW GView
ACTION_CONSTRAINT Emit
'''

TRACE = 'CONSTANTS MaxQueue = 50\n'


def ends(spec):
    """'vo vr vi mo mr mi bo br bi' -> endpoints."""
    fam = {'v': 'value', 'm': 'msg', 'b': 'base'}
    role = {'o': 'out', 'r': 'relay', 'i': 'in'}
    return [{'role': role[s[1]], 'fam': fam[s[0]]} for s in spec.split()]
