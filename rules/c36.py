from pyref import *


def check(ctx):
    ctx.rule('the serial module offers the functions of the parallel one, and each passes exactly its arguments to the communicator, trace by trace as the reference')
    refine_module(ctx, 'python/triqs/utility/mpi_nompi.py')
    refine_module(ctx, 'python/triqs/utility/mpi_mpi4py.py', opts={'pure': {'gethostname'}})
