"""Static information about the tests of a property, as read from the check module (imported in the coordinator)."""
import importlib

# The budgets of the quick tier are multiplied by these numbers, so that every check takes about half a minute on eight cores.
QUICK = {'C01': 2.2, 'C02': 2.5, 'C03': 1.5, 'C04': 2.5, 'C05': 3., 'C06': 3., 'C07': 2.5, 'C09': 1.5, 'C12': 1.8, 'C13': 3.,
         'C15': 2., 'C16': 3., 'C17': 1.8, 'C18': 2.2, 'C19': 3., 'C20': 3., 'C21': 1.3}


def tests(pid):
    mod = importlib.import_module('vf.checks.' + pid.lower())
    f = QUICK.get(pid, 1.)
    return [dict(name=t.name, quick=int(round(t.quick * f)), thorough=max(t.thorough, int(round(2 * t.quick * f))), rule=t.rule,
                 cost=getattr(t, 'cost', 1.)) for t in mod.TESTS]
