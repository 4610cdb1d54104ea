"""Exhaustive enumeration of cases that run whole commands."""
import concurrent.futures as cf, itertools, os, shutil, threading, time, traceback
import driver
from driver import Result


class Violation(Exception):
    pass


# Judging reads what the program under test wrote.
UNREADABLE = (ValueError, KeyError, IndexError, TypeError, AttributeError, UnicodeError)


class Seen:
    def __init__(self, outcome, steps=1, execs=1, nontrivial=True, states=0):
        self.outcome, self.steps, self.execs, self.nontrivial, self.states = outcome, steps, execs, nontrivial, states


def check(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def explore(res, name, cases, judge, workers=None, cap=3):
    """Judges every case (in parallel); `judge(case, dir)` returns Seen or
    raises Violation."""
    if len(res.violations) >= cap:
        return
    t0 = time.time()
    cases = list(cases)
    done = 0
    stop = threading.Event()
    with driver.Scratch() as base:
        def one(ic):
            i, c = ic
            if stop.is_set() or driver.late():
                return None
            d = os.path.join(base, str(i))
            os.mkdir(d)
            try:
                return judge(c, d)
            except Violation as v:
                return v
            except UNREADABLE as e:
                return Violation("what the command wrote can't be interpreted: %s: %s at %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1]))
            finally:
                shutil.rmtree(d, ignore_errors=True)

        with cf.ThreadPoolExecutor(workers or driver.NPROC) as ex:
            for i, (c, r) in enumerate(zip(cases, ex.map(one, enumerate(cases)))):
                if r is None:
                    continue
                done += 1
                if isinstance(r, Violation):
                    res.violation(name, c, r)
                    if len(res.violations) >= cap:
                        stop.set()
                else:
                    res.saw(r.outcome, r.steps, r.execs, r.nontrivial, r.states)
                    if i == len(cases) // 3 or i == len(cases) - 1:
                        res.sample(name, c)
    res.family(name, len(cases), done, t0)


def replay(judge, case):
    with driver.Scratch() as d:
        try:
            judge(case, d)
            return None
        except (Violation,) + UNREADABLE as v:
            return str(v)
