from pbt import *
import lazyphi
import rainbow.geometry.spatial_hashing as SH
from rainbow.geometry.aabb import AABB


def ident(objs):
    return [(int(o[0]), int(o[1])) for o in objs]


@sub(quick=400)
def insert_history(d):
    """histories of inserts over time stamps: every object put earlier in the same cell and step is returned, none of older steps"""
    lazyphi.SEED[0] = d.int(0, 5)
    g = SH.HashGird()
    if d.bool():
        g.set_hash_table_size(d.int(1, 2000))
        d.label("own-size")
    if d.bool():
        g.increment_hash_table_size(d.int(1, 500))
    cells = [tuple(d.int(-30, 30) for _ in range(3)) for _ in range(d.int(1, 4))]
    t = d.int(0, 3)
    model = {}
    n = 0
    returned = []
    for _ in range(d.size(3, 25, 250, 10)):
        if d.int(0, 4) == 0:
            t += d.int(1, 3)
            model = {}
            d.label("step")
        c = cells[d.int(0, len(cells) - 1)]
        obj = (n, d.int(0, 3))
        box = AABB(np.zeros(3), np.ones(3))
        got = g.insert(c[0], c[1], c[2], obj[0], obj[1], box, t)
        returned.append((got, list(got)))
        ids = ident(got)
        here = model.setdefault(c, [])
        for o in here:
            ensure(o in ids, "an object inserted earlier into this cell in this step is not returned", cell=c, t=t, got=ids)
        now = {o for v in model.values() for o in v}
        for o in ids:
            ensure(o in now, "an object is returned that is not in the grid in this step", obj=o, t=t, cell=c)
        ensure(len(ids) == len(set(ids)), "an object is returned twice")
        for o in got:
            ensure(isinstance(o[2], AABB), "the bounding box of an object is lost")
        here.append(obj)
        n += 1
    for live, copy in returned:
        ensure(ident(live) == ident(copy), "a returned list changed afterwards")


@sub(quick=15)
def crowded_cell(d):
    """100 to 600 objects inserted into one or two cells within one step, and then fewer in the next: everything put earlier in the same cell and step is returned"""
    lazyphi.SEED[0] = d.int(0, 5)
    g = SH.HashGird()
    cells = [(1, 2, 3), (-4, 0, 9)][:d.int(1, 2)]
    box = AABB(np.zeros(3), np.ones(3))
    for t, n in ((3, 600 - d.int(0, 500)), (4, d.int(1, 100))):
        model = {c: set() for c in cells}
        for i in range(n):
            c = cells[i % len(cells)]
            ids = ident(g.insert(*c, i, i % 7, box, t))
            ensure(len(ids) == len(set(ids)), "an object is returned twice")
            ensure(model[c] <= set(ids), "an object inserted earlier into this crowded cell in this step is not returned", objects=i, missing=len(model[c] - set(ids)))
            ensure(set(ids) <= set().union(*model.values()), "an object is returned that is not in the grid in this step", objects=i)
            model[c].add((i, i % 7))


@sub(quick=300)
def hash_value(d):
    """cell indices (negative, large): the value is deterministic, an int and independent of other inserts"""
    lazyphi.SEED[0] = d.int(0, 5)
    g = SH.HashGird()
    c = [d.int(-2000, 5000) for _ in range(3)]
    h = g.get_prefect_hash_value(*c)
    ensure(isinstance(h, int), "hash value is not an int")
    g.insert(c[0] + 1, c[1], c[2], 0, 0, AABB(np.zeros(3), np.ones(3)), 1)
    ensure(g.get_prefect_hash_value(*c) == h, "hash value of a cell changed")
    ensure(g.get_prefect_hash_value(*[np.int64(x) for x in c]) == h, "hash value depends on the integer type")


@sub(quick=400)
def cell(d):
    """histories of HashCell.add: objects of the newest time stamp, in order; older content is dropped lazily"""
    c = SH.HashCell()
    t, model = 0, []
    for n in range(d.size(1, 15, 150, 10)):
        if d.int(0, 3) == 0:
            t += d.int(1, 4)
            model = []
        c.add((n, 0, None), t)
        model.append(n)
        ensure([o[0] for o in c.object_list] == model, "cell content", got=[o[0] for o in c.object_list], want=model)
        ensure(c.size == len(model), "cell size", size=c.size, want=len(model))
        ensure(c.time_stamp == t, "cell time stamp")


@sub(quick=300)
def cell_size(d):
    """triangle meshes: cell size is 2.2 times the mean edge length over all triangle sides, and scales with the mesh"""
    n = d.int(3, 8)
    V = np.array([d(vec(3, -3, 3)) for _ in range(n)])
    T = np.array([[d.int(0, n - 1) for _ in range(3)] for _ in range(d.int(1, 8))])
    want = 2.2 * np.mean([np.linalg.norm(V[t[i]] - V[t[(i + 1) % 3]]) for t in T for i in range(3)])
    close(SH.HashGird.compute_optial_cell_size(V, T), want, msg="cell size")
    s = d(pos(0.1, 5))
    g = SH.HashGird()
    g.set_cell_size(s)
    ensure(g.cell_size == s, "cell size is not the one that was set", got=g.cell_size, want=s)
    close(SH.HashGird.compute_optial_cell_size(V * s + d(vec(3)), T), want * s, msg="cell size of the scaled mesh")


if __name__ == "__main__":
    sys.exit(main("C16", ["the 8 GB random offset table is replaced by a small random one (the grid may not rely on its values)",
                          "objects of other cells with the same hash may be returned"]))
