"""Registry of verification units.  A unit proves the contract of one function (or one case of it)."""
import os
import time
import traceback
from . import val, build, par
from .exec import Exec, Obj, Undecided
from .ir import Unsupported

UNITS = []


class Unit:
    def __init__(self, name, fn, props, cfg, cxx, kw, cost):
        self.name, self.fn, self.props, self.cfg, self.cxx, self.kw, self.cost = name, fn, tuple(props), cfg, cxx, kw, cost


def unit(name, props, cfgs=('default',), cases=None, cxx=False, cost=1, thorough=(), quick=None):
    def deco(fn):
        for c in tuple(cfgs) + tuple(thorough):
            for case in (cases or [{}]):
                nm = name.format(**case) + ('' if c == 'default' else '@' + c)
                u = Unit(nm, fn, props, c, cxx, case, cost)
                u.thorough = c in thorough
                # quick(property, configuration, case): is the unit part of the quick tier?
                u.quick = quick
                UNITS.append(u)
        return fn
    return deco


class Ctx:
    def __init__(self, u):
        self.u = u
        self.m = build.module(u.cfg, u.cxx)
        self.execs = []
        self.under = set()
        self.assumed = set()
        self.skipped = False

    def want(self, *props):
        """is a part of the unit that concerns only these properties needed in this run?"""
        from .exec import ACTIVE
        return ACTIVE[0] is None or ACTIVE[0] in props or os.environ.get('VERIF_TIER') == 'thorough'

    def skip(self):
        self.skipped = True

    def ex(self, contracts, timeout=20000):
        ex = Exec(self.m, timeout)
        ex.contracts.update(contracts)
        ex.unit = self.u.name
        ex.default_tags = self.u.props
        ex.faults_tags = self.u.props
        ex.mem_tags = self.u.props
        ex.world = None
        ex.ctx = self
        ex.deadline = self.deadline
        self.execs.append(ex)
        return ex


def run_unit(u, deadline=None):
    val.reset()
    val.set_mode(True)
    t0 = time.time()
    r = {'unit': u.name, 'cfg': u.cfg, 'props': u.props, 'obs': [], 'error': None}
    ctx = None
    if par.TOKENS[0] is not None:
        par.TOKENS[0].acquire()
    try:
        ctx = Ctx(u)
        ctx.deadline = deadline or (time.time() + (600 if os.environ.get('VERIF_TIER') != 'thorough' else 7200))
        u.fn(ctx, **u.kw)
        par.reap(True)
        for ex in ctx.execs:
            for o in ex.ob_results:
                r['obs'].append((o.name, o.tags, o.ok, None if o.ok else par.plain(o).info))
        if not r['obs'] and not ctx.skipped and not any(e.paths for e in ctx.execs):
            raise Unsupported('vacuous: no obligation was generated')
        for ex in ctx.execs:
            if ex.paths and not ex.normal_paths and not getattr(ex, 'only_fatal', False):
                raise Unsupported('vacuous: no path returns normally')
    except (Unsupported, Undecided, build.BuildError) as e:
        r['error'] = '%s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc()
    except Exception as e:
        r['error'] = 'internal %s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc()
    if r['error'] and ctx:
        try:
            while par.KIDS:
                par.reap(True)
        except Exception:
            pass
        if par.KIDS:
            par.drop()
        # violations found before the error still count
        for ex in ctx.execs:
            for o in ex.ob_results:
                if not o.ok and not any(x[0] == o.name for x in r['obs']):
                    r['obs'].append((o.name, o.tags, o.ok, par.plain(o).info))
    if par.TOKENS[0] is not None:
        par.TOKENS[0].release()
    r['time'] = time.time() - t0
    r['solver'] = sum(e.solver_time for e in ctx.execs) if ctx else 0
    r['queries'] = sum(e.n_query for e in ctx.execs) if ctx else 0
    r['paths'] = sum(e.paths for e in ctx.execs) if ctx else 0
    r['inlined'] = sorted(set().union(*[e.inlined for e in ctx.execs])) if ctx and ctx.execs else []
    r['contracts'] = sorted(set().union(*[e.used_contracts for e in ctx.execs])) if ctx and ctx.execs else []
    r['under'] = sorted(ctx.under) if ctx else []
    return r

