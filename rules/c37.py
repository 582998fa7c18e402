from pyref import *


def check(ctx):
    ctx.rule('every trace of the redirections keeps and restores the same file descriptors and objects as the reference, also on the way out of an exception')
    refine_module(ctx, 'python/triqs/utility/capture_stdout.py')
    refine_module(ctx, 'python/triqs/utility/redirect.py')
