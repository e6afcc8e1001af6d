"""Several threads, one running at a time, changed over by a generated schedule.

A trace function counts the lines run in the code under test and hands over to
the next thread when the count the schedule gives is used up, so a run depends
on the schedule alone and shrinks and replays like any other case.
"""
import sys
import threading

from . import env

ROOT = env.REPO.rstrip("/") + "/"
MAX_SWITCHES = 400


def schedule(d, n):
    """[(thread, lines it runs)]"""
    return [(d.draw(n - 1), d.choice([1, 2, 3, 5, 8, 13, 30, 80, 200, 600])) for _ in range(3 + d.draw(12))]


def interleave(plans, turns):
    """Runs plans[i] (a list of functions) on thread i. Returns the lists of results: (value, exception).

    Also how often one thread took over from another.
    """
    n = len(plans)
    locks = [threading.Semaphore(0) for _ in range(n)]
    alive, done, switches = set(range(n)), threading.Event(), [0]
    results = [[] for _ in range(n)]
    state = {"at": 0, "left": 1}

    def take():
        t, left = turns[state["at"] % len(turns)]
        state["at"] += 1
        state["left"] = left
        return t

    def hand_over(me):
        t = take()
        if t == me or t not in alive or switches[0] >= MAX_SWITCHES:
            return
        switches[0] += 1
        locks[t].release()
        locks[me].acquire()

    def run(me):
        def line(frame, event, arg):
            if event == "line":
                state["left"] -= 1
                if state["left"] <= 0:
                    hand_over(me)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(ROOT) else None
        locks[me].acquire()
        for f in plans[me]:
            sys.settrace(call)
            try:
                r = (f(), None)
            except Exception as e:
                r = (None, e)
            finally:
                sys.settrace(None)
            results[me].append(r)
        alive.discard(me)
        if alive:
            locks[min(alive)].release()
        else:
            done.set()
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    locks[0].release()
    if not done.wait(120):
        raise RuntimeError("harness: the threads did not finish")
    for t in ts:
        t.join()
    return results, switches[0]


def check(d, plans, alone, fail, turns=None):
    """Runs the plans interleaved; every outcome must be what alone[i][j] is.

    An exception's type and text are compared.
    """
    turns = turns or schedule(d, len(plans))
    got, switches = interleave(plans, turns)
    d.label("changes of thread: %d" % min(switches, 5))
    d.nontrivial(switches > 1)
    for i, (g, a) in enumerate(zip(got, alone)):
        for j, ((v, e), (w, f)) in enumerate(zip(g, a)):
            if (type(e), str(e)) != (type(f), str(f)) or v != w:
                fail("thread {}, call {}: {!r} {!r}, alone {!r} {!r}", i, j, v, e, w, f)


def outcome(f):
    try:
        return f(), None
    except Exception as e:
        return None, e
