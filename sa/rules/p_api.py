"""Development aid: the rules of all checks over the API histories in one exploration."""
import importlib
import apirules
LEVEL = 'proof'
EXPLANATION = 'all rules over API histories'


def check(ctx):
    kw = dict(groups=apirules.SPEED, rules={}, hooks=[], full=('cstream1',), jobs=[])
    for p in ('c08', 'c12', 'c13', 'c14', 'c15', 'c25'):
        x = importlib.import_module('p_' + p).parts(ctx)
        kw['rules'].update(x['rules'])
        kw['hooks'] += x.get('hooks', [])
        kw['jobs'] += x.get('jobs', [])
        kw['setup'] = x.get('setup') or kw.get('setup')
    apirules.run(ctx, **kw)
