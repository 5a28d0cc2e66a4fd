"""C39: skeletons are trees built bone by bone; chains are exactly the root-to-leaf paths and angles are addressed per bone."""
from pbt import *
import ast
import ikgen
from ikgen import IK, CODES

BAD_CODES = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if a == b or b == c] + ["xyz", "zyz", "XY", "XYZX", "", "ABC", "Xyz", "xYz"]


@sub(quick=250, thorough=4000)
def building(d):
    """sequences of create_root and add_bone against a tree model, including refused calls which change nothing; non-trivial with three or more bones and a refusal"""
    S = IK.create_skeleton()
    model = []                                   # (parent, t, angles, code)
    refused = 0
    for _ in range(d.size(2, 14, 60)):
        op = d.pick(["add"] * 5 + ["root"] if model else ["root", "root", "add"])
        n = len(model)
        code = d.pick(CODES + ["default"] * 6 + BAD_CODES)
        ang, t = d(vec(3, -7, 7)), d(vec(3, -2, 2))
        kw = {} if code == "default" else dict(euler_code=code)
        valid = code == "default" or code in CODES
        before = str(S), [list(b.children) for b in S.bones]
        if op == "root":
            ok = n == 0 and valid
            call = lambda: IK.create_root(S, *ang, *t, **kw)
            parent = -1
        else:
            parent = d.pick(list(range(n)) * 3 + [-1, n, n + 3])
            ok = 0 <= parent < n and valid
            call = lambda: IK.add_bone(S, parent, *ang, *t, **kw)
        d.label(op + ("+" if ok else "-"))
        try:
            bone, raised = call(), None
        except Exception as ex:
            raised = ex
        if ok:
            ensure(raised is None, f"{op} refused although it is valid: {raised!r}")
            ensure(bone is S.bones[n] and bone.idx == n, "the new bone is returned and indexed by its position")
            model.append((parent, t, ang, "ZYZ" if code == "default" else code))
        else:
            refused += 1
            ensure(isinstance(raised, RuntimeError), f"{op} must be refused", got=raised, code=code, parent=parent)
            ensure((str(S), [list(b.children) for b in S.bones]) == before, "refused call changed the skeleton")
        ensure(len(S.bones) == len(model), "number of bones")
        ensure(S.has_root() == bool(model), "has_root")
        for i in (-1, 0, len(model) - 1, len(model), 99):
            ensure(bool(S.has_bone(i)) == (0 <= i < len(model)), "has_bone", index=i)
        for i, (p, tt, aa, cc) in enumerate(model):
            b = S.bones[i]
            close(b.t, tt, atol=0, msg="bone vector")
            ensure((b.alpha, b.beta, b.gamma) == tuple(aa), "angles")
            ensure(b.euler_code == cc, "euler code")
            kids = [j for j, m in enumerate(model) if m[0] == i]
            ensure(list(b.children) == kids and b.parent == p, "tree links", bone=i, children=b.children, want=kids, parent=b.parent)
            ensure(b.is_root() == (p == -1) and b.has_parent() == (p != -1) and b.is_end_effector() == (not kids), "predicates of bone")
    d.nontrivial(len(model) >= 3 and refused > 0)


@sub(quick=200, thorough=3000)
def chains_are_root_to_leaf_paths(d):
    """one chain per end-effector, listing the bones from root to leaf; chains do not share goals or tools; non-trivial if a bone branches"""
    s = ikgen.spec(d, 9, big=40)
    S = s.build()
    chains = IK.make_chains(S)
    ensure([list(c.bones) for c in chains] == [s.path(i) for i in s.leaves()], "chains", have=[c.bones for c in chains], want=[s.path(i) for i in s.leaves()])
    for c in chains:
        ensure(c.skeleton is S, "chain refers to its skeleton")
        close(c.tool, [0, 0, 0], atol=0, msg="default tool")
        close(c.goal, [10, 0, 0], atol=0, msg="default goal")
    for k, c in enumerate(chains):
        c.goal += k + 1.0
        c.tool += k + 1.0
        c.bones.append(-7)
    for k, c in enumerate(chains):
        close(c.goal, np.array([10, 0, 0]) + k + 1.0, atol=0, msg="goals are shared")
        close(c.tool, np.zeros(3) + k + 1.0, atol=0, msg="tools are shared")
        ensure(c.bones.count(-7) == 1, "bone lists are shared")
    again = IK.make_chains(S)
    ensure([list(c.bones) for c in again] == [s.path(i) for i in s.leaves()], "chains made again")
    close(again[0].goal, [10, 0, 0], atol=0, msg="default goal of chains made again")
    d.nontrivial(len(chains) > 1)


@sub(quick=150, thorough=2000)
def joint_angles(d):
    """angles are three consecutive entries per bone, whole-vector and single access agree, results are copies; bones not addressed keep theirs"""
    s = ikgen.spec(d, 7, big=20)
    S = s.build()
    n = len(s.angles)
    a = IK.get_joint_angles(S)
    close(a, s.angles, atol=0, msg="angles of the set-up")
    a += 5.0
    close(IK.get_joint_angles(S), s.angles, atol=0, msg="result is not a copy")
    want = s.angles.copy()
    for _ in range(d.int(1, 10)):
        if d.bool():
            i, v = d.int(0, n - 1), d(num(-9, 9))
            IK.set_angle(i, v, S)
            want[i] = v
        else:
            rng = np.random.RandomState(d.int(0, 9999))
            new = rng.uniform(-9, 9, n)
            if d.bool():                          # only some of the angles change
                new = np.where(rng.rand(n) < d.pick([0.1, 0.5]), new, want)
            IK.set_joint_angles(S, new)
            want = new.copy()
            new += 1.0
        close(IK.get_joint_angles(S), want, atol=0, msg="whole vector")
        for i in range(n):
            ensure(IK.get_angle(i, S) == want[i], "single angle", index=i)
            b = S.bones[i // 3]
            ensure((b.alpha, b.beta, b.gamma)[i % 3] == want[i], "angle of the bone", index=i)
    d.nontrivial(n > 3)


@sub(quick=120, thorough=1000)
def skeletons_are_independent(d):
    """skeletons never share bones, vectors or children; updating one does not move another, updating twice changes nothing"""
    s1, s2 = ikgen.spec(d, 5), ikgen.spec(d, 5)
    A, B = s1.build(), s2.build()
    IK.update_skeleton(A)
    IK.update_skeleton(B)
    pose = lambda S: [np.concatenate([b.t_wcs, b.q_wcs, b.t]) for b in S.bones]
    pa = pose(A)
    for b in B.bones:
        b.t += 3.0
        b.t_wcs += 3.0
        b.q_wcs += 3.0
        b.children.append(0)
    for x, y in zip(pa, pose(A)):
        ensure((x == y).all(), "another skeleton changed")
    fresh = ikgen.Spec([-1], [np.zeros(3)], ["ZYZ"], np.zeros(3)).build()
    ensure(not fresh.bones[0].children, "a new bone has children")
    close(fresh.bones[0].t_wcs, np.zeros(3), atol=0, msg="new bone origin")
    close(fresh.bones[0].q_wcs, [1, 0, 0, 0], atol=0, msg="new bone orientation")
    IK.update_skeleton(A)
    for x, y in zip(pa, pose(A)):
        ensure((x == y).all(), "updating again moved a bone")
    d.nontrivial(len(s1.parents) > 1)


@sub(quick=120, thorough=1000)
def text_form(d):
    """the text form of a skeleton lists every bone with its index, parent, convention, angles, origin and children; non-trivial if two or more bones"""
    s = ikgen.spec(d, 6, big=15)
    S = s.build()
    data = ast.literal_eval(str(S))
    ensure(len(data) == len(s.parents), "number of bones in the text")
    for i, p in enumerate(s.parents):
        b = data[f"bone{i}"]
        ensure(b["idx"] == i and b["parent"] == p and b["euler"] == s.codes[i], "identity of the bone", text=b)
        close([b["angles"][k] for k in ("alpha", "beta", "gamma")], s.angles[3 * i:3 * i + 3], atol=1e-6, msg="angles in the text")
        close(b["origin"], s.offsets[i], atol=1e-6, rtol=1e-6, msg="origin in the text")
        ensure(b["children"] == [j for j, q in enumerate(s.parents) if q == i], "children in the text")
    for c in IK.make_chains(S):
        c.goal = d(vec(3, -5, 5))
        t = ast.literal_eval(str(c))
        close(t["goal"], c.goal, atol=1e-6, rtol=1e-6, msg="goal in the text")
        close(t["tool"], c.tool, atol=1e-6, msg="tool in the text")
        ensure(t["bones"] == c.bones, "bones in the text")
    d.nontrivial(len(s.parents) > 1)


if __name__ == "__main__":
    sys.exit(main("C39", ["Skeletons of up to 14 bones."]))
