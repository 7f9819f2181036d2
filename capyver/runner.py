"""Task scheduler: every proof task (one function of /repo under its contract) runs in a forked child with its own
memory and time limit; the child sends back the obligations it generated and how each was decided."""
import os, sys, time, json, pickle, resource, signal, select, traceback
from .engine import Unsupported, State, Frame, Obl
from .execu import Exec
from . import models  # noqa

MEM = int(os.environ.get('CAPYVER_MEM', str(3600 << 20)))


class Task:
    """name: printed; run(prog, T): generates obligations through a fresh engine per call of T.engine()"""

    def __init__(self, name, run, limit=200, expect=1, out_of_reach=None):
        self.name = name
        self.run = run
        self.limit = limit
        self.expect = expect          # least number of obligations (vacuity guard)
        self.out_of_reach = out_of_reach   # reason: not under contract on the pinned tree; a bounded stand-in covers it


class TaskCtx:
    def __init__(self, prog, task):
        self.prog = prog
        self.task = task
        self.engines = []
        self.deadline = time.time() + task.limit

    def engine(self, cls=Exec, **opts):
        o = {'deadline': self.deadline}
        o.update(opts)
        E = cls(self.prog, o)
        self.engines.append(E)
        return E


def child(task, prog, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    tc = TaskCtx(prog, task)
    res = {'task': task.name, 'status': 'ok', 'why': ''}
    t0 = time.time()
    try:
        task.run(prog, tc)
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = str(e)[:300]
    except MemoryError:
        res['status'] = 'unsupported'
        res['why'] = 'memory limit'
    except RecursionError:
        res['status'] = 'unsupported'
        res['why'] = 'recursion limit'
    except Exception as e:
        res['status'] = 'unsupported'
        if 'out of memory' in repr(e).lower():
            res['why'] = 'memory limit (solver)'
        else:
            res['why'] = 'internal: %s' % repr(e)[:200]
            res['trace'] = traceback.format_exc()[-2500:]
    res['wall'] = time.time() - t0
    obls = []
    agg = {'external': {}, 'inlined': set(), 'contracts': set(), 'assumptions': set(), 'solver': 0.0, 'checks': 0, 'loops': 0}
    for E in tc.engines:
        for o in E.obls:
            obls.append({'name': o.name, 'fn': o.fn, 'line': o.line, 'status': o.status, 'kind': o.kind,
                         'model': {k: v for k, v in list((o.model or {}).items())[:60]} if o.model else None, 'detail': str(o.detail)[:600] if o.detail else None,
                         'taint': sorted(str(x) for x in (o.taint or ())), 'backend': o.backend, 'time': round(o.time, 3)})
        for k, v in E.external.items():
            agg['external'][k] = agg['external'].get(k, 0) + v
        agg['inlined'] |= set(E.inlined)
        agg['contracts'] |= set(E.contract_used)
        agg['assumptions'] |= set(E.assumptions)
        agg['solver'] += E.solver_time
        agg['checks'] += E.nchecks
        agg['loops'] += len(E.loop_invs)
    res['obls'] = obls
    res['agg'] = agg
    data = pickle.dumps(res)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_tasks(prog, tasks, jobs=8, verbose=False, total=760):
    """-> list of results in task order"""
    t_end = time.time() + total
    pend = list(enumerate(tasks))
    # longest first
    pend.sort(key=lambda x: -x[1].limit)
    live = {}
    results = [None] * len(tasks)
    while pend or live:
        while pend and len(live) < jobs:
            i, t = pend.pop(0)
            if time.time() > t_end - 5:
                results[i] = {'task': t.name, 'status': 'unsupported', 'why': 'total time budget', 'obls': [], 'agg': None, 'wall': 0}
                continue
            t.limit = min(t.limit, max(5, t_end - time.time() - 10))
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    child(t, prog, w)
                finally:
                    os._exit(1)
            os.close(w)
            live[r] = [i, t, pid, time.time(), b'']
        if not live:
            continue
        rr, _, _ = select.select(list(live), [], [], 1.0)
        for r in rr:
            d = os.read(r, 1 << 20)
            if d:
                live[r][4] += d
                continue
            i, t, pid, t0, buf = live.pop(r)
            os.close(r)
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            try:
                results[i] = pickle.loads(buf)
            except Exception:
                results[i] = {'task': t.name, 'status': 'unsupported', 'why': 'verifier process ended (memory limit)', 'obls': [], 'agg': None,
                              'wall': time.time() - t0}
            if verbose:
                res = results[i]
                bad = [o for o in res['obls'] if o['status'] != 'discharged']
                print('%-14s %-60s obl=%d bad=%d %.1fs %s' % (res['status'], t.name[-60:], len(res['obls']), len(bad), res['wall'], res['why'][:200]))
                if res.get('trace') and verbose > 1:
                    print(res['trace'])
                seen = set()
                for o in bad:
                    k = (o['name'], o['fn'], o['line'], o['status'])
                    if k in seen:
                        continue
                    seen.add(k)
                    print('    %s: %s  [%s:%s] taint=%s %s' % (o['status'], o['name'], o['fn'], o['line'], o['taint'], (o['detail'] or '')[:300]))
                sys.stdout.flush()
        for r in list(live):
            i, t, pid, t0, buf = live[r]
            if time.time() - t0 > t.limit + 40:
                os.kill(pid, signal.SIGKILL)
                t.limit += 1e9
    return results
