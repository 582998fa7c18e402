from pyref import *


def check(ctx):
    ctx.rule('every term added to the operator has the reference coefficient, operators and index conditions')
    refine_module(ctx, 'python/triqs/operators/util/hamiltonians.py', opts={'commutative': {'c', 'c_dag', 'n', 'Operator'}})
    refine_module(ctx, 'python/triqs/operators/util/op_struct.py')
