"""C41: recorded USD scenes read back exactly what was recorded: topology, positions over time, rigid motions and timing."""
from pbt import *
import contextlib, io, os
from rainbow.util.USD import USD
from pxr import Usd, UsdGeom, Gf

COUNT = __import__("itertools").count()
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
NAMES = ["a", "B2", "cloth_1", "zz"]


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def some_mesh(rng, triangles=True):
    n = rng.randint(3, 9)
    V = rng.uniform(-5, 5, (n, 3))
    T = [[int(x) for x in rng.permutation(n)[:3]] for _ in range(rng.randint(1, 8))]
    if not triangles and n > 4:
        T += [[int(x) for x in rng.permutation(n)[:4]] for _ in range(rng.randint(1, 3))]
    return V, T


def f32(a):
    return np.asarray(a, dtype=np.float32).astype(float)


def prim(stage, name):
    found = [p for p in stage.Traverse() if p.GetName() == name]
    ensure(len(found) == 1 and found[0].IsA(UsdGeom.Mesh), "one mesh prim per recorded name", name=name, found=found)
    return found[0]


def world(p, V, time):
    M = np.array(UsdGeom.Xformable(p).ComputeLocalToWorldTransform(time))
    return (np.hstack([V, np.ones((len(V), 1))]) @ M)[:, :3]


@sub(quick=250, thorough=4000)
def record_and_reopen(d):
    """histories of adding and moving meshes and rigid bodies, saved in any USD format and reopened: every keyframe is found again; non-trivial with a moved mesh and a moved body or three keyframes of one"""
    rng = np.random.RandomState(d.int(0, 99999))
    path = os.path.join(SCRATCH, f"c41-{os.getpid()}-{next(COUNT)}." + d.pick(["usda", "usdc", "usd"]))
    u = USD(path)
    meshes, rigid = {}, {}
    keys = 0
    fps, end = None, None
    for step in range(d.size(6, 30, 150, 10)):
        op = d.pick(["mesh", "rigid", "move", "move", "move", "turn", "turn", "turn", "time", "fps", "bad"])
        free = [n for n in NAMES if n not in meshes and n not in rigid]
        if op == "mesh" and free:
            n = d.pick(free)
            V, T = some_mesh(rng, d.bool())
            quiet(u.add_mesh, n, V if d.bool() else V.tolist(), T)
            meshes[n] = (V.copy(), T, {})
            V += 1.0
        elif op == "rigid" and free:
            n = d.pick(free)
            V, T = some_mesh(rng)
            Ta = np.array(T, dtype=d.pick([np.int32, np.int64]))
            quiet(u.add_rigid_body, n, V, Ta)
            rigid[n] = (V.copy(), T, {})
            V += 1.0
            Ta += 1
        elif op == "move" and meshes:
            n = d.pick(sorted(meshes))
            t = float(d.pick([0, 1, 2, 2.5, 7, 100]))
            P = rng.uniform(-9, 9, meshes[n][0].shape)
            u.set_mesh_positions(n, P, t)
            meshes[n][2][t] = P.copy()
            keys += 1
            P += 1.0
        elif op == "turn" and rigid:
            n = d.pick(sorted(rigid))
            t = float(d.pick([0, 1, 2, 2.5, 7, 100]))
            q = rng.normal(size=4)
            q /= np.linalg.norm(q)
            r = rng.uniform(-9, 9, 3)
            u.update_rigid_body(n, r, q, t)
            rigid[n][2][t] = (r.copy(), q.copy())
            keys += 1
            r += 1.0
            q += 1.0
        elif op == "time":
            end = float(d.int(1, 300))
            quiet(u.set_animation_time, end)
        elif op == "fps":
            fps = float(d.pick([24, 30, 60, 12.5]))
            u.set_frames_per_second(fps)
        elif op == "bad":
            kind = d.pick(["unknown", "twice", "type", "short"])
            d.label("bad-" + kind)
            try:
                if kind == "unknown":
                    want = ValueError
                    f = d.pick([0, 1, 2])
                    if f == 0:
                        u.update_rigid_body("nobody", np.zeros(3), np.array([1.0, 0, 0, 0]), 0.0)
                    elif f == 1:
                        u.set_mesh_positions("nobody", np.zeros((3, 3)), 0.0)
                    else:
                        u.get_mesh_positions("nobody", 0.0)
                elif kind == "twice" and rigid:
                    want = ValueError
                    u.add_rigid_body(sorted(rigid)[0], np.zeros((3, 3)), np.array([[0, 1, 2]]))
                elif kind == "type" and meshes:
                    want = TypeError
                    u.update_rigid_body(sorted(meshes)[0], np.zeros(3), np.array([1.0, 0, 0, 0]), 0.0)
                elif kind == "short" and rigid:
                    want = ValueError
                    u.update_rigid_body(sorted(rigid)[0], np.zeros(2), np.array([1.0, 0, 0, 0]), 0.0)
                else:
                    continue
                raised = None
            except Exception as ex:
                raised = ex
            ensure(isinstance(raised, want), f"{kind} must be refused with {want.__name__}", got=raised)
        for n, (V, T, K) in meshes.items():
            for t, P in K.items():
                close(u.get_mesh_positions(n, t), f32(P), atol=1e-6, rtol=1e-6, msg="recorded positions")
            if not K:
                close(u.get_mesh_positions(n, 3.0), f32(V), atol=1e-6, rtol=1e-6, msg="initial positions")
    try:
        u.save()
        stage = Usd.Stage.Open(path)
        inside = {p.GetName() for p in stage.Traverse() if p.IsA(UsdGeom.Mesh)}
        ensure(inside == set(meshes) | set(rigid), "meshes in the file", have=inside)
        for n, (V, T, K) in list(meshes.items()) + list(rigid.items()):
            p = prim(stage, n)
            m = UsdGeom.Mesh(p)
            ensure(list(m.GetFaceVertexCountsAttr().Get()) == [len(f) for f in T], "face sizes in the file", name=n)
            ensure(list(m.GetFaceVertexIndicesAttr().Get()) == [i for f in T for i in f], "faces in the file", name=n)
            if n in meshes:
                ensure(sorted(m.GetPointsAttr().GetTimeSamples()) == sorted(K), "keyframes in the file", name=n)
                for t, P in K.items():
                    close(np.array(m.GetPointsAttr().Get(t), float), f32(P), atol=1e-6, rtol=1e-6, msg="positions in the file")
                close(world(p, V, 0.0), V, atol=1e-9, msg="meshes are recorded in world coordinates")
                if not K:
                    close(np.array(m.GetPointsAttr().Get(0.0), float), f32(V), atol=1e-6, rtol=1e-6, msg="initial positions in the file")
            else:
                close(np.array(m.GetPointsAttr().Get(0.0), float), f32(V), atol=1e-6, rtol=1e-6, msg="body points in the file")
                for t, (r, q) in K.items():
                    close(world(p, V, t), V @ ref_matrix(q).T + r, atol=1e-9, rtol=1e-9, msg="placement of the body in the file")
        if end is not None:
            ensure((stage.GetStartTimeCode(), stage.GetEndTimeCode()) == (0.0, end), "animation range", have=(stage.GetStartTimeCode(), stage.GetEndTimeCode()))
        if fps is not None:
            ensure(stage.GetFramesPerSecond() == fps, "frames per second")
        stage = None
    finally:
        if os.path.exists(path):
            os.unlink(path)
    d.nontrivial(keys >= 3)


@sub(quick=40, thorough=400)
def recordings_are_independent(d):
    """two recorders never share meshes, and saving does not end the recording; non-trivial always"""
    rng = np.random.RandomState(d.int(0, 9999))
    num_ = next(COUNT)
    pa, pb = (os.path.join(SCRATCH, f"c41-{os.getpid()}-{num_}{k}.usda") for k in "ab")
    a, b = USD(pa), USD(pb)
    try:
        V, T = some_mesh(rng)
        a.add_mesh("m", V, T)
        a.add_rigid_body("r", V, np.array(T))
        ensure(not b.meshes, "recorders share meshes")
        b.add_rigid_body("m", V, np.array(T))
        b.save()
        st_ = Usd.Stage.Open(pb)
        ensure({p.GetName() for p in st_.Traverse() if p.IsA(UsdGeom.Mesh)} == {"m"}, "meshes of the other recorder")
        a.save()
        P = rng.uniform(-1, 1, V.shape)
        a.set_mesh_positions("m", P, 4.0)
        a.save()
        st_ = Usd.Stage.Open(pa)
        st_.Reload()
        close(np.array(UsdGeom.Mesh(prim(st_, "m")).GetPointsAttr().Get(4.0), float), f32(P), atol=1e-6, rtol=1e-6, msg="positions recorded after a save")
        st_ = None
    finally:
        for p in (pa, pb):
            if os.path.exists(p):
                os.unlink(p)


if __name__ == "__main__":
    sys.exit(main("C41", ["Positions are compared in single precision, as stored by USD."]))
