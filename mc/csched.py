"""Stateless exhaustive exploration of coroutine interleavings.

Tasks are coroutines of the real code which suspend only at Point (awaited by the stand-ins for the
environment).  explore() re-executes from scratch for every schedule (depth-first over the choices)."""
import types


@types.coroutine
def point(label=None):
    r = yield label
    return r


class Task:
    def __init__(self, name, coro):
        self.name, self.coro = name, coro
        self.done, self.result, self.exc = False, None, None
        self.label = "start"

    def step(self, val=None):
        try:
            self.label = self.coro.send(val)
        except StopIteration as e:
            self.done, self.result = True, e.value
        except BaseException as e:
            from mc import check
            if isinstance(e, (check.CaseTimeout, KeyboardInterrupt)):
                raise
            self.done, self.exc = True, e


def run_schedule(make, prefix, preempt=None):
    """make() -> (ctx, [Task]). Runs with the given choice prefix, first-enabled afterwards.
    Returns (ctx, tasks, points) with points = [(enabled, chosen, preemptions_before)]."""
    ctx, tasks = make()
    cur, pre, points = None, 0, []
    while True:
        en = [t for t in tasks if not t.done and ctx_enabled(ctx, t)]
        if not en:
            break
        if cur in en:
            en.remove(cur)
            en.insert(0, cur)
        i = len(points)
        c = prefix[i] if i < len(prefix) else 0
        if c >= len(en):
            raise RuntimeError("nondeterministic schedule")
        points.append((len(en), c, pre, cur in en))
        t = en[c]
        if cur is not None and cur in en and t is not cur:
            pre += 1
        cur = t
        t.step()
    return ctx, tasks, points


def ctx_enabled(ctx, t):
    f = getattr(ctx, "enabled", None)
    return f(t) if f else True


def explore(make, check, preempt=None):
    """All schedules (with at most `preempt` preemptions). Returns number of schedules, points."""
    stack = [[]]
    n = steps = 0
    while stack:
        prefix = stack.pop()
        ctx, tasks, points = run_schedule(make, prefix, preempt)
        check(ctx, tasks, [p[1] for p in points])
        n += 1
        steps += len(points)
        for i in range(len(prefix), len(points)):
            en, c, pre, running = points[i]
            for alt in range(1, en):
                cost = pre + (1 if running else 0)
                if preempt is not None and cost > preempt:
                    continue
                stack.append([p[1] for p in points[:i]] + [alt])
    return n, steps
