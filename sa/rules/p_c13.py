"""No memory leaks over any history."""
import apirules
LEVEL = 'proof'
EXPLANATION = ('Explicit-state exploration of every sequence of API calls with failing allocations: when a context is freed, '
               'a constructor fails or a one-shot function returns, no object allocated by the library is left.')


def parts(ctx):
    ctx.rule('leak', 'nothing the library allocated is live after the context is freed, after a constructor returns NULL and after a one-shot function')
    return dict(groups=apirules.SPEED, rules={}, hooks=[apirules.leak_hook('leak')], full=('cstream1',))


def check(ctx):
    apirules.run(ctx, **parts(ctx))
    ctx.floor('leak', 200)
