"""Discharging the obligations of finished paths in forked processes while processor slots are free."""
import ctypes
import os
import pickle
import signal
import traceback

TOKENS = [None]        # multiprocessing.Semaphore shared by all processes of a check, or None
KIDS = []              # (pid, memfd, executor)
MAXKIDS = 16


def fmt_model(m):
    out = {}
    for d in m.decls():
        v = m[d]
        try:
            out[d.name()] = hex(v.as_long()) if hasattr(v, 'as_long') else str(v)[:200]
        except Exception:
            out[d.name()] = '?'
    return out


def plain(o):
    """a failed obligation without solver objects"""
    if o.info is not None:
        o.info.pop('state', None)
        m = o.info.get('model')
        if m is not None and not isinstance(m, dict):
            o.info['model'] = fmt_model(m)
    return o


def spawn(ex, work, here=True):
    """run work in another process if a slot is free, else here (or return False)"""
    if len(KIDS) >= MAXKIDS:
        reap(False)
    if TOKENS[0] is None or len(KIDS) >= MAXKIDS or not TOKENS[0].acquire(False):
        if here:
            work()
        return False
    fd = os.memfd_create('hmv')
    pid = os.fork()
    if pid:
        KIDS.append((pid, fd, ex))
        return True
    code = 1
    try:
        try:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        except Exception:
            pass
        KIDS.clear()
        ex.ob_results = []
        q, t = ex.n_query, ex.solver_time
        n0 = (ex.paths, ex.normal_paths)
        err = None
        try:
            work()
            reap(True)
        except Exception as e:
            err = ('%s' % type(e).__name__, str(e) if type(e).__name__ in ('Unsupported', 'Undecided') else traceback.format_exc())
        data = pickle.dumps((err, [(o.name, o.tags, o.ok, plain(o).info, o.unit) for o in ex.ob_results], ex.n_query - q, ex.solver_time - t,
                             (ex.paths - n0[0], ex.normal_paths - n0[1]), ex.inlined, ex.used_contracts))
        with os.fdopen(os.dup(fd), 'wb') as f:
            f.write(data)
        code = 0
    finally:
        TOKENS[0].release()
        os._exit(code)


def reap(wait):
    """collect finished children (all of them if wait)"""
    from .exec import Ob, Undecided
    from .ir import Unsupported
    for k in list(KIDS):
        pid, fd, ex = k
        p, status = os.waitpid(pid, 0 if wait else os.WNOHANG)
        if not p:
            continue
        KIDS.remove(k)
        try:
            if status:
                raise Undecided('a solver process ended with status %#x' % status)
            os.lseek(fd, 0, 0)
            with os.fdopen(os.dup(fd), 'rb') as f:
                err, obs, q, t, np, inl, used = pickle.load(f)
        finally:
            os.close(fd)
        for o in obs:
            ex.ob_results.append(Ob(*o))
        ex.n_query += q
        ex.solver_time += t
        ex.paths += np[0]
        ex.normal_paths += np[1]
        ex.inlined |= inl
        ex.used_contracts |= used
        if err:
            raise (Unsupported if err[0] == 'Unsupported' else Undecided)('%s: %s' % err)


def drop():
    for pid, fd, ex in KIDS:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
        os.close(fd)
        TOKENS[0].release()
    KIDS.clear()
