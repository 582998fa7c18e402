from pyref import *


def hook(I, s, b, i):
    # representation invariant (established by the constructor): the dictionary maps the i-th name to the i-th block
    if b[0] == 'fld' and b[2] == '__me_as_dict' and i[0] in ('elem', 'idx') and i[1] == ('fld', b[1], '__indices'):
        return ('elem', ('fld', b[1], '__GFlist'), i[2])
    return None


def eqh(a, b):
    # a block name is never a slice
    for x, y in ((a, b), (b, a)):
        if (x[0] == 'slice' or x[0] == 'app' and x[1] == 'slice') and y[0] in ('elem', 'idx') and y[1][0] == 'fld' and y[1][2] == '__indices':
            return False
    return None


def inh(a, b):
    # every block name is a key of the dictionary of blocks
    return b[0] == 'fld' and b[2] == '__me_as_dict' and a[0] in ('elem', 'idx') and a[1] == ('fld', b[1], '__indices') and a[2][0] == 'iv'


def rewrite(t):
    # one name per block
    if t[:2] == ('app', 'size') and t[2][0] == 'fld' and t[2][2] in ('__indices',):
        return ('app', 'size', ('fld', t[2][1], '__GFlist'))
    return None


def check(ctx):
    ctx.rule('every trace of each block Green\'s function operation agrees with the reference trace: same blocks touched, paired by name, operands untouched unless in place')
    compare.REWRITE[:] = [rewrite]
    refine_module(ctx, 'python/triqs/gf/block_gf.py', opts={'getitem_hook': hook, 'eq_hook': eqh, 'in_hook': inh})
