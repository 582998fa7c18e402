from pyref import *


def rewrite(t):
    # representation invariant (established by the constructor): one row per first name, one column per second name
    if t[:2] == ('app', 'size') and len(t) == 3:
        o = t[2]
        if o[0] == 'fld' and o[2] == '__GFlist':
            return ('app', 'size', ('fld', o[1], '__indices1'))
        if o[0] in ('elem', 'idx') and o[1][0] == 'fld' and o[1][2] == '__GFlist':
            return ('app', 'size', ('fld', o[1][1], '__indices2'))
    return None


def hook(I, s, b, i):
    # the names are distinct: the place of the i-th name is i
    if i[0] == 'app' and i[1] == 'index' and len(i) == 4 and i[3][0] in ('elem', 'idx') and i[3][1] == i[2] and i[3][2][0] == 'iv' and i[2][0] == 'fld' and i[2][2] in ('__indices1', '__indices2'):
        return I.load(s, ('elem', b, i[3][2]))
    return None


def check(ctx):
    compare.REWRITE[:] = [rewrite]
    ctx.rule('every trace of each two-index block operation agrees with the reference trace: same blocks touched, paired by the pair of names, operands untouched unless in place')
    refine_module(ctx, 'python/triqs/gf/block2_gf.py', opts={'getitem_hook': hook})
