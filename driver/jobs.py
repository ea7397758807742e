"""The jobs of each property: which harness entry, with which parameters, on which build of the code."""
MEM = 7            # GB of address space per engine process
QUICK_S = 240      # whole quick check
THOROUGH_S = 3600
THOROUGH_FACTOR = 10

class Job:
    def __init__(s, entry, params, what='', ir='rel', tier='quick', time=60, cost=None, par=1, covers=(), extra=(), crashes=False):
        s.entry, s.params, s.what, s.ir, s.tier, s.time = entry, list(params), what, ir, tier, time
        s.cost = cost if cost is not None else time
        s.par, s.covers, s.extra = par, list(covers), list(extra)
        s.crashes = crashes      # only panics, memory errors and hangs count, not the assertions of the harness
    def name(s):
        return '%s(%s)' % (s.entry, ','.join(map(str, s.params))) + ('' if s.ir == 'rel' else '/' + s.ir)

class Prop:
    def __init__(s, id, jobs, bounds, outside, assume=(), level='model_checking'):
        s.id, s.jobs, s.bounds, s.outside, s.assume, s.level = id, jobs, list(bounds), list(outside), list(assume), level

TRUST = [
    'rustc/LLVM at opt-level 1 compile the crate faithfully; the engine executes that LLVM IR (harness, jpeg-decoder and the std code they use)',
    'the symbolic engine in /verif/engine, its term rewriting and its calls to z3; witnesses of finished paths are re-run natively as a check on it',
    'the oracle in /verif/harness/src, written from ITU T.81 / JFIF and the crate documentation, not from the code',
]
PROPS = {}
def prop(id, *a, **k):
    PROPS[id] = Prop(id, *a, **k)

from jobs_list import *  # noqa
