from cppref import *


def check(ctx):
    # handlers of different signals are installed in any order
    refine_cpp(ctx, ['triqs/utility/signal_handler.hpp'], sources=['triqs/utility/signal_handler.cpp'], cmp=Cmp(commuting=('sigaction',)))
