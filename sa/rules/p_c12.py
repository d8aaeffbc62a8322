"""Allocation failure: never dereferenced, always reported."""
import apirules
LEVEL = 'proof'
EXPLANATION = ('Explicit-state exploration, over the compiler IR, of every sequence of API calls on a context with every allocation '
               '(malloc, calloc, thread pool creation) failing or not in every call: no access through a pointer which may be null, and the call reports the failure.')


def parts(ctx):
    ctx.rule('null', 'no read, write or call uses a pointer which is null on some history of calls with failing allocations')
    ctx.rule('reported', 'a call in which an allocation fails returns an error code or NULL (a multi-threaded decoder may switch to one thread instead)')
    ctx.rule('jobfail', 'a background job in which an allocation fails leaves an error for the next call')
    return dict(groups=apirules.SPEED, rules={'null': 'null'}, hooks=[apirules.result_hook('reported', 'failed', 'an allocation has failed')],
                full=('cstream1',), jobs=[('jobfail', 'failed')])


def check(ctx):
    apirules.run(ctx, **parts(ctx))
    ctx.floor('null', 600)
    ctx.floor('reported', 30)
