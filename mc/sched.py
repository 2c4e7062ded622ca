"""
Control of the evaluation agenda: the solvers accept any priority-queue type, so
the explorer supplies one whose `popitem` asks it which pending item goes next.

explore(run, bound): stateless enumeration of all schedules with at most `bound`
departures from the default (first-pushed-first-popped) choice.
"""
class ControlledAgenda:
    """dict-like agenda; insertion order is the default order (re-pushing an item keeps its place)."""
    def __init__(self): self.d = {}
    def __setitem__(self, k, p): self.d[k] = p
    def __getitem__(self, k): return self.d[k]
    def __delitem__(self, k): del self.d[k]
    def __contains__(self, k): return k in self.d
    def __len__(self): return len(self.d)
    def __bool__(self): return bool(self.d)
    def __iter__(self): return iter(list(self.d))
    def pop(self):
        return self.popitem()[0]
    def popitem(self):
        ks = list(self.d)
        i = CTL.choose(len(ks))
        k = ks[i]
        return (k, self.d.pop(k))
    def peek(self): k = next(iter(self.d)); return (k, self.d[k])


class Control:
    def __init__(self): self.start([])
    def start(self, prefix, default='fifo'):
        self.prefix = prefix; self.points = []; self.choices = []; self.default = default
    def choose(self, n):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            assert c < n, 'schedule does not replay (uncontrolled nondeterminism)'
        else:
            c = 0 if self.default == 'fifo' else n - 1
        self.points.append(n); self.choices.append(c)
        return c
CTL = Control()


def explore(run, bound, cap=None):
    """Calls run() once per schedule; yields (choices, result).  `bound` counts
    choices different from 0.  Returns via generator; stops after `cap` schedules."""
    stack = [([], 0)]
    n = 0
    while stack:
        prefix, dev = stack.pop()
        CTL.start(prefix)
        res = run()
        n += 1
        points, choices = CTL.points, CTL.choices
        yield list(choices), res
        if cap is not None and n >= cap: return
        if dev >= bound: continue
        for i in range(len(points) - 1, len(prefix) - 1, -1):
            for alt in range(1, points[i]):
                stack.append((choices[:i] + [alt], dev + 1))
