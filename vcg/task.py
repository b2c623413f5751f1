"""Proof tasks: registration, execution, result summary."""
import os
import sys
import time
import traceback
import z3
import engine as en
from terms import *

TASKS = []


class TaskDef:
    def __init__(self, fn, props, sources, flags, budget, timeout, unroll, covers):
        self.fn, self.props, self.sources, self.flags = fn, props, tuple(sources), tuple(flags)
        self.budget, self.timeout, self.unroll = budget, timeout, unroll
        self.name = fn.__module__ + '.' + fn.__name__
        self.covers = covers
        self.doc = (fn.__doc__ or '').strip()


def task(props, sources, flags=(), budget=200, timeout=15000, unroll=None, covers=True):
    if isinstance(props, str):
        props = props.split()

    def dec(f):
        TASKS.append(TaskDef(f, props, sources, flags, budget, timeout, unroll or {}, covers))
        return f
    return dec


class Outcome:
    def __init__(self, kind, s, v):
        self.kind, self.s, self.v = kind, s, v

    @property
    def ret(self):
        return self.kind == 'ret'


class T:
    """context given to a task"""

    def __init__(self, E, M):
        self.E, self.M = E, M
        self.ncover = 0
        self.under = []      # functions under contract proved by this task
        self.npre = 0

    def state(self):
        return en.State(self.E)

    def var(self, name, w=64):
        v = z3.BitVec(fresh_name(name), w)
        self.E.inputs[name] = v
        return v

    def call(self, s, regex, args, cover=True):
        """verify a function: run its body on a symbolic state"""
        fn = regex if regex in self.M.functions else self.M.fn(regex)
        dem = self.M.functions[fn]['dem']
        if dem not in self.under:
            self.under.append(dem)
        r, m = self.E.solve(s, [])
        if r is False:
            self.E.obls.append(en.Obl('vacuity', 'precondition of %s is satisfiable' % dem, dem, 0, 'failed', None, False))
        self.npre += 1
        outs = [Outcome(k, st, v) for k, st, v in self.E.call(s, fn, list(args))]
        if cover:
            ok = False
            for o in outs:
                if o.ret:
                    r, m = self.E.solve(o.s, [])
                    if r:
                        ok = True
                        break
            if not ok:
                self.E.obls.append(en.Obl('vacuity', 'a normal return of %s is reachable' % dem, dem, 0, 'failed', None, False))
            else:
                self.ncover += 1
        return outs

    def prove(self, s, cond, msg, kind='post'):
        return self.E.prove(s, cond, kind, msg, assume=False)

    def forall(self, s, fn, msg, kind='post'):
        return self.E.forall(s, fn, kind, msg)


def run_task(td, js, bounded=False, budget=None, max_unroll=5):
    t0 = time.time()
    M = en.Module(js)
    E = en.Engine(M, timeout_ms=td.timeout, budget_s=budget or td.budget)
    E.unroll = dict(td.unroll)
    if bounded:
        E.bounded = True
        E.unroll_limit = max_unroll
        E.unroll = {k: max(v, max_unroll) if v else max_unroll for k, v in E.unroll.items()}
    res = {'task': td.name, 'props': td.props, 'doc': td.doc, 'error': None, 'unsupported': None}
    ctx = T(E, M)
    try:
        td.fn(ctx)
    except en.Unsupported as e:
        res['unsupported'] = str(e)
    except en.Budget:
        res['unsupported'] = 'time budget exhausted'
    except en.PathEnd:
        res['unsupported'] = 'path ended in specification'
    except Exception as e:
        res['error'] = traceback.format_exc()[-3000:]
        res['unsupported'] = 'engine error: %r' % (e,)
    ob = E.obls
    res['obligations'] = len(ob)
    res['discharged'] = sum(1 for o in ob if o.status == 'proved')
    res['failed'] = [dict(kind=o.kind, msg=o.msg, fn=o.fn, line=o.line, status=o.status, model=o.model, real=o.real)
                     for o in ob if o.status != 'proved'][:20]
    if not ob and not res['unsupported']:
        res['unsupported'] = 'no obligations generated'
    res['complete'] = not res['unsupported'] and not res['failed']
    res['under'] = ctx.under
    res['inlined'] = sorted(E.inlined)
    res['contracts'] = sorted(E.used_contracts)
    res['models'] = sorted(E.used_models)
    res['iface'] = sorted(E.used_iface)
    res['covers'] = ctx.ncover
    res['invariants'] = [list(x) for x in E.inv_log][:60]
    res['queries'] = E.queries
    res['solver_s'] = round(E.solver_time, 2)
    res['wall_s'] = round(time.time() - t0, 2)
    res['slow'] = E.slow[:10]
    return res
