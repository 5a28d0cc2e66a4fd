"""C40: the utility containers do what they say: a priority queue with updates, a stopwatch and array comparisons."""
from pbt import *
import time
from rainbow.util.heap import Heap
from rainbow.util.timer import Timer
import rainbow.util.test_tools as TT


@sub(quick=400, thorough=8000)
def priority_queue(d):
    """histories of push, update and pop against a dictionary model: pop returns the entry with the smallest current value; non-trivial if an entry was updated and two were popped"""
    h = Heap()
    model = {}
    updates = pops = 0
    pool = [float(x) for x in np.random.RandomState(d.int(0, 9999)).randint(-4, 5, 6)] + [0.5, 1e9, -1e9, float("inf")]
    kind = d.pick(["int", "str"])
    keys = list(range(6)) if kind == "int" else list("abcdef")
    for _ in range(d.size(3, 60, 400, 10)):
        op = d.pick(["push", "update", "pop", "push", "str"])
        if op in ("push", "update"):
            k = d.pick(keys)
            v = d.pick(pool) if d.bool() else float(d.pick(pool) + 0)          # equal values, the same object or not
            updates += k in model
            (h.push if op == "push" else h.update)(k, v)
            model[k] = v
        elif op == "pop":
            got = h.pop()
            if not model:
                ensure(got is None, "pop of an empty queue", got=got)
            else:
                ensure(got in model, "popped something that is not queued", got=got, queue=model)
                ensure(model[got] == min(model.values()), "popped entry is not the smallest", got=got, queue=model)
                if sum(v == model[got] for v in model.values()) > 1:
                    d.label("tie")
                del model[got]
                pops += 1
        else:
            s = str(h)
            ensure(all(repr(k) in s for k in model), "text form misses entries", text=s, queue=model)
        ensure(bool(h) == bool(model), "truth value", queue=model)
    rest = []
    while h:
        rest.append(h.pop())
        ensure(len(rest) <= len(model), "queue returns more than it holds", rest=rest, queue=model)
    ensure(sorted(rest) == sorted(model), "entries left in the queue", rest=rest, queue=model)
    vals = [model[k] for k in rest]
    ensure(vals == sorted(vals), "entries come out of order", values=vals)
    ensure(h.pop() is None and not h, "emptied queue")
    d.nontrivial(updates > 0 and pops > 1)


@sub(quick=40, thorough=400)
def heaps_are_independent(d):
    """two queues never share entries"""
    a, b = Heap(), Heap()
    for k in range(d.int(1, 5)):
        a.push(k, float(k))
    ensure(not b and b.pop() is None and bool(a), "queues share entries")
    ensure(not Heap(), "a new queue has entries")


@sub(quick=25, thorough=200)
def stopwatch(d):
    """elapsed is the last interval between start and end, total the sum of all, within the bounds of an outer clock; end without start is refused; restart begins anew; non-trivial with two or more intervals"""
    t = Timer("n", 6)
    lo = hi = 0.0
    n = 0
    for _ in range(d.int(1, 6)):
        op = d.pick(["run", "run", "restart", "refused"])
        d.label(op)
        if op == "refused":
            try:
                t.end()
                fail("end without start was accepted")
            except RuntimeError:
                pass
        else:
            if op == "restart":
                t.start()
                time.sleep(0.004)
            o0 = time.perf_counter()
            t.start()
            i0 = time.perf_counter()
            time.sleep(d.pick([0, 0.001, 0.003]))
            i1 = time.perf_counter()
            t.end()
            o1 = time.perf_counter()
            n += 1
            ensure(i1 - i0 <= t.elapsed <= o1 - o0, "elapsed time", got=t.elapsed, between=(i1 - i0, o1 - o0))
            lo, hi = lo + (i1 - i0), hi + (o1 - o0)
        ensure(lo - 1e-9 <= t.total <= hi + 1e-9, "total time", got=t.total, between=(lo, hi))
    s = str(t)
    ensure(s.startswith("n:"), "name in the text", text=s)
    nums = [float(x) for x in s.replace("secs.", " ").replace(",", " ").split() if x.replace(".", "", 1).isdigit()]
    ensure(len(nums) == 2, "text form holds two numbers", text=s)
    close(nums, [t.elapsed, t.total], atol=1e-6, msg="numbers in the text")
    d.nontrivial(n > 1)


def agree(a, b, dec):
    return bool(np.all(np.abs(a - b) <= 10.0 ** -dec * (1 + np.abs(b))))


@sub(quick=150, thorough=2000)
def array_comparison(d):
    """is_array_equal accepts exactly arrays that agree to the given decimals (relative and absolute) and is_array_not_equal detects any difference; non-trivial if the arrays differ"""
    rng = np.random.RandomState(d.int(0, 9999))
    a = rng.uniform(-10, 10, d.pick([(3,), (2, 3), (1, 1), (4, 2, 2)]))
    b = a.copy()
    dec = d.int(2, 10)
    mode = d.pick(["same", "one", "all", "tiny"])
    if mode != "same":
        e = 10.0 ** -dec * (1 + np.abs(a).max()) * (3.0 if mode in ("one", "all") else 0.02)
        if mode == "one":
            b[tuple(rng.randint(s) for s in a.shape)] += e
        else:
            b = b + e
    d.label(mode)
    try:
        got = TT.is_array_equal(a, b, dec)
    except AssertionError:
        got = False
    ensure(bool(got) == agree(a, b, dec), "is_array_equal", mode=mode, dec=dec, got=got)
    ensure(bool(TT.is_array_not_equal(a, b)) == (mode != "same"), "is_array_not_equal", mode=mode)
    d.nontrivial(mode != "same")


if __name__ == "__main__":
    sys.exit(main("C40", ["Queue keys are of one comparable type; values are not NaN."]))
