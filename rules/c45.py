from pyref import *


OPS = {'c', 'c_dag', 'n', 'Operator'}


def check(ctx):
    ctx.rule('every observable is the reference sum of operators on every trace')
    refine_module(ctx, 'python/triqs/operators/util/observables.py', opts={'commutative': OPS})
