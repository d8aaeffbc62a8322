"""No double free, no use after free over any history."""
import apirules
LEVEL = 'proof'
EXPLANATION = ('Explicit-state exploration of every sequence of API calls with failing allocations, tracking which heap objects are live '
               'and which pointer fields refer to them: every access and every free acts on a live object.')


def parts(ctx):
    ctx.rule('uaf', 'every access through a tracked pointer is to an object which has not been freed')
    ctx.rule('free', 'free gets NULL or the start of an allocated object')
    ctx.rule('dfree', 'no object is freed twice')
    return dict(groups=apirules.SPEED, rules={'uaf': 'uaf', 'free': 'free', 'dfree': 'dfree'}, full=('cstream1',))


def check(ctx):
    apirules.run(ctx, **parts(ctx))
    ctx.floor('uaf', 600)
    ctx.floor('dfree', 10)
