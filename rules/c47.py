from pyref import *


def check(ctx):
    ctx.rule('tasks, results and messages between master and nodes follow the reference protocol on every trace')
    refine_module(ctx, 'python/triqs/utility/dist_on_nodes.py')
    refine_module(ctx, 'python/triqs/utility/mpi.py.in', spec='mpi.py')
