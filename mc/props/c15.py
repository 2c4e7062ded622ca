"""C15: the generalised left-corner transformation preserves the original items."""
from mc.xform import *
from mc.props.c14 import groups, RULE, ASSUMPTIONS, positions as pos14
from mc.props import c14

LEVEL = 'model_checking'
CASE_LIMIT = 300

def transform(p, x, pos): return p.lct(positions=pos, x=to_dyna(x, {}))

def check(group, case, st): c14.check(group, case, st, transform=transform, name='lct')
