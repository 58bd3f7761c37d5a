"""Explicit-state breadth-first search over operation histories of a real simulation."""
import copy
from mc.chance import Explorer


class Node:
    __slots__ = ("sim", "ref", "hist")

    def __init__(self, sim, ref, hist):
        self.sim, self.ref, self.hist = sim, ref, hist


def search(ctx, init, ops, depth, check, key, apply_ref=None, max_states=400000, tag="", enabled=None):
    """init: (sim, ref). ops: list of (name, fn(sim)->result[, reffn(ref, sim_after)]).
    Every random outcome of fn becomes a successor. check(sim, ref, hist) after each operation.
    key(sim, ref) identifies states."""
    sim, ref = init
    check(sim, ref, ())
    ctx.state((tag, key(sim, ref)))
    seen = {key(sim, ref)}
    frontier = [Node(sim, ref, ())]
    for d in range(depth):
        nxt = []
        for n in frontier:
            for op in ops:
                name, fn = op[0], op[1]
                if enabled is not None and not enabled(name, n.sim, n.ref):
                    continue
                ex = Explorer()

                def run():
                    s = copy.deepcopy((n.sim, n.ref))
                    r = fn(s[0])
                    if len(op) > 2 and op[2] is not None:
                        op[2](s[1], s[0])
                    return s, r
                for prob, (s, r), trace in ex.explore(run):
                    ctx.transitions += 1
                    h = n.hist + ((name, tuple(trace)),)
                    check(s[0], s[1], h)
                    k = key(s[0], s[1])
                    if k in seen:
                        continue
                    seen.add(k)
                    ctx.state((tag, k))
                    if len(seen) > max_states:
                        raise RuntimeError("state bound exceeded")
                    if d + 1 < depth:
                        nxt.append(Node(s[0], s[1], h))
        frontier = nxt
    ctx.traces += len(seen)
    return len(seen)
