"""A controlled scheduler for real threads: exactly one thread runs at a time, and control changes hands only at
the scheduling points the explorer chooses.  Scheduling points are the line (or bytecode) boundaries inside the
code under test; everything between two points is one atomic step."""
import sys
import threading

from mc import env


class Step(object):
    __slots__ = ("fn", "out", "err", "count", "sem", "thread", "done", "budget")


class Stuck(Exception):
    pass


BLOCKED_S = 0.15       # a step that takes this long is taken to wait for the other thread (a lock); being wrong
                       # about it only means that the threads run freely from there, which must be right as well
blocked = [0]          # schedules in which that happened


def execute(bodies, plan, opcodes=False, timeout=60):
    """Run the bodies in threads under `plan`: a list of (thread index, number of points, None = to its end).
    After the plan, unfinished threads run to their end in order.  A thread that waits for another one (a lock
    held by a preempted thread) is left waiting and the others run on.  Returns ([(ok, value)], points per thread)."""
    n = len(bodies)
    th = []
    main = threading.Semaphore(0)
    prefix = env.REPO + "/tftb/"

    def runner(me):
        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                me.count += 1
                if me.budget is not None:
                    me.budget -= 1
                    if me.budget <= 0:
                        main.release()          # hand control back to the explorer
                        me.sem.acquire()
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        me.sem.acquire()
        sys.settrace(tracer)
        try:
            me.out = me.fn()
        except BaseException as e:
            me.err = e
        finally:
            sys.settrace(None)
            me.done = True
            main.release()

    for b in bodies:
        me = Step()
        me.fn, me.out, me.err, me.count, me.sem, me.done, me.budget = b, None, None, 0, threading.Semaphore(0), False, None
        me.thread = threading.Thread(target=runner, args=(me,), daemon=True)
        th.append(me)
    for me in th:
        me.thread.start()
    for i, k in list(plan) + [(i, None) for i in range(n)]:
        if th[i].done or k == 0:
            continue
        th[i].budget = k
        th[i].sem.release()
        if not main.acquire(timeout=BLOCKED_S if blocked[0] < 50 else 0.02):
            blocked[0] += 1
            break
    else:
        for me in th:
            me.thread.join(timeout)
    if not all(me.done for me in th):
        # the thread resumed last waits: let every thread run freely to its end
        for me in th:
            me.budget = None
            for _ in range(4):
                me.sem.release()
        for me in th:
            me.thread.join(timeout)
            if not me.done:
                raise Stuck("deadlock: a thread does not come back")
    return [(m.err is None, m.out if m.err is None else m.err) for m in th], [m.count for m in th]
