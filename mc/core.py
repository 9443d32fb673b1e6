"""Explorer core: exhaustive enumeration of executions of the real code, with replay artefacts and evidence.

A property module (mc/props/<id>.py) exposes HARNESSES, a list of Harness objects. A harness defines the finite space
(cases(tier): every execution of the space, as a JSON-able choice record) and the execution itself (run(case, rec)):
it drives the real code through the choices, calls rec.step() once per transition taken and rec.state(x) with a
canonical form of every state reached, and raises Violation where the reference model disagrees.
"""
import collections
import concurrent.futures
import concurrent.futures.process
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.key = key


def require(condition, message, key=None):
    if not condition:
        raise Violation(message if isinstance(message, str) else message(), key)


class CaseTimeout(BaseException):
    pass


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Recorder(object):
    """Counts what one execution visits."""
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0

    def state(self, obj):
        self.states.add(digest(obj))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))


class Harness(object):
    name = None
    timeout = 240
    chunk = 16
    parallel = True

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, rec):
        raise NotImplementedError

    def setup(self):
        """Run once in every worker before its first case."""

    def bounds(self, tier):
        return ''


def run_case(harness, case, rec):
    """Run one execution; returns None or (message, key)."""
    def on_alarm(signum, frame):
        raise CaseTimeout()
    previous = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(harness.timeout)
    try:
        rec.executions += 1
        harness.run(case, rec)
        return None
    except Violation as v:
        return (str(v), v.key)
    except CaseTimeout:
        return ('execution did not finish within %d s' % harness.timeout, 'timeout')
    except Exception as error:
        return ('unexpected %s: %s\n%s' % (type(error).__name__, error, traceback.format_exc(limit=12)), 'exception')
    except SystemExit as error:
        return ('unexpected exit %r\n%s' % (error.code, traceback.format_exc(limit=12)), 'exception')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, previous)


_current = {}


def _init_worker():
    _current['ready'] = set()
    # each worker has a scratch directory of its own; harnesses create everything inside it
    import tempfile
    tempfile.tempdir = tempfile.mkdtemp(prefix='w%d-' % os.getpid(), dir=_current['scratch'])
    os.chdir(tempfile.tempdir)


def _work(args):
    index, cases = args
    harness = _current['harnesses'][index]
    rec = Recorder()
    bad = []
    if index not in _current['ready']:
        try:
            harness.setup()
        except Exception as error:
            return (index, rec.executions, 0, set(), set(), [(cases[0], 'setup: %s\n%s' % (error, traceback.format_exc(limit=12)), 'exception')])
        _current['ready'].add(index)
    for case in cases:
        rec.state(('case', index, case))
        result = run_case(harness, case, rec)
        if result is not None:
            bad.append((case, result[0], result[1]))
            if len(bad) >= 50:
                break
    return (index, rec.executions, rec.transitions, rec.states, rec.outcomes, bad)


def _alone(index, case):
    _init_worker()
    _work((index, [case]))


def _chunks(harnesses, tier):
    for index, harness in enumerate(harnesses):
        iterator = iter(harness.cases(tier))
        while True:
            chunk = list(itertools.islice(iterator, harness.chunk))
            if not chunk:
                break
            yield (index, chunk)


def explore(harnesses, tier, jobs, scratch):
    _current['harnesses'] = harnesses
    _current['scratch'] = scratch
    totals = [dict(executions=0, transitions=0, states=set(), outcomes=set(), bad=[], samples=[]) for h in harnesses]

    def tee():
        for index, chunk in _chunks(harnesses, tier):
            t = totals[index]
            if len(t['samples']) < 2:
                t['samples'].append(chunk[-1])
            yield (index, chunk)

    def take(result):
        index, executions, transitions, states, outcomes, bad = result
        t = totals[index]
        t['executions'] += executions
        t['transitions'] += transitions
        t['states'] |= states
        t['outcomes'] |= outcomes
        t['bad'] += bad

    if jobs == 1:
        _init_worker()
        for work in tee():
            take(_work(work))
            if os.environ.get('VERIF_FAILFAST') and any(t['bad'] for t in totals):
                break
    else:
        # a window of chunks in flight; a worker that dies (crash of compiled code) breaks the pool and is reported
        context = multiprocessing.get_context('fork')
        work = tee()
        pool = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=context, initializer=_init_worker)
        pending = {}
        try:
            for item in itertools.islice(work, 4 * jobs):
                pending[pool.submit(_work, item)] = item
            while pending:
                done, _ = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
                for future in done:
                    take(future.result())
                    pending.pop(future)
                    for item in itertools.islice(work, 1):
                        pending[pool.submit(_work, item)] = item
                if sum(len(t['bad']) for t in totals) > 2000:
                    break
        except concurrent.futures.process.BrokenProcessPool:
            # find the execution that kills its process by running the chunks in flight one by one
            for index, chunk in list(pending.values()):
                for case in chunk:
                    alone = context.Process(target=_alone, args=(index, case))
                    alone.start()
                    alone.join(harnesses[index].timeout + 30)
                    if alone.is_alive():
                        alone.kill()
                        alone.join()
                    if alone.exitcode != 0:
                        totals[index]['bad'].append((case, 'the process running this execution died (exit code %s)' % alone.exitcode, 'crash'))
                        break
            if not any(t['bad'] for t in totals):
                raise
        finally:
            pool.shutdown(wait=False, cancel_futures=True)
            for process in list((getattr(pool, '_processes', None) or {}).values()):
                process.kill()
    return totals
