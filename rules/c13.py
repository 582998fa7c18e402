from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mc_tools/mc_generic.hpp'],
               per={'warmup': {'opaque': {'run', 'warmup'}},
                    'accumulate': {'opaque': {'run'}},
                    'warmup_and_accumulate': {'opaque': {'warmup', 'accumulate', 'warmup_and_accumulate'}}})
