"""Random skeletons and an independent reference for forward kinematics (complex-step friendly)."""
from pbt import np, num, pos, vec
import rainbow.simulators.inverse_kinematics.api as IK

CODES = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if a != b and b != c]


def axis_rotation(axis, t):
    c, s = np.cos(t), np.sin(t)
    i = "XYZ".index(axis)
    j, k = (i + 1) % 3, (i + 2) % 3
    R = np.zeros((3, 3), dtype=np.asarray(t).dtype if np.iscomplexobj(t) else float)
    R[i, i] = 1
    R[j, j] = R[k, k] = c
    R[j, k] = -s
    R[k, j] = s
    return R


class Spec:
    """a tree of bones: parent index, offset in the parent frame, euler code, angles"""

    def __init__(self, parents, offsets, codes, angles):
        self.parents, self.offsets, self.codes, self.angles = parents, offsets, codes, angles

    def frames(self, angles=None):
        th = self.angles if angles is None else angles
        R, t = [], []
        for i, p in enumerate(self.parents):
            Rp, tp = (np.eye(3), np.zeros(3)) if p < 0 else (R[p], t[p])
            Rb = np.eye(3)
            for k in range(3):
                Rb = Rb @ axis_rotation(self.codes[i][k], th[3 * i + k])
            R.append(Rp @ Rb)
            t.append(tp + Rp @ self.offsets[i])
        return R, t

    def leaves(self):
        return [i for i in range(len(self.parents)) if i not in self.parents]

    def path(self, i):
        p = []
        while i >= 0:
            p.append(i)
            i = self.parents[i]
        return p[::-1]

    def build(self):
        S = IK.create_skeleton()
        for i, p in enumerate(self.parents):
            a = self.angles[3 * i:3 * i + 3]
            if p < 0:
                IK.create_root(S, *a, *self.offsets[i], euler_code=self.codes[i])
            else:
                IK.add_bone(S, p, *a, *self.offsets[i], euler_code=self.codes[i])
        return S


def spec(d, max_bones=7, angle=3.2, big=0):
    """a skeleton of up to max_bones bones; one in five has up to big bones"""
    n = d.int(1, max_bones)
    shape = d.pick(["chain", "tree", "tree", "star"])
    rng = np.random.RandomState(d.int(0, 9999))
    if big and d.int(0, 4) == 4:
        n = d.int(max_bones, big)
        parents = [-1] + [i - 1 if shape == "chain" else (0 if shape == "star" else int(rng.randint(i))) for i in range(1, n)]
    else:
        parents = [-1] + [i - 1 if shape == "chain" else (0 if shape == "star" else d.int(0, i - 1)) for i in range(1, n)]
    offsets = rng.uniform(-2, 2, (n, 3)) * rng.choice([0.0, 1.0, 1.0, 1.0, 1.0], (n, 1))
    mode = d.pick(["random", "random", "zero", "quarter"])
    th = dict(random=rng.uniform(-angle, angle, 3 * n), zero=np.zeros(3 * n), quarter=rng.randint(-2, 3, 3 * n) * np.pi / 2)[mode]
    codes = [CODES[rng.randint(len(CODES))] for _ in range(n)] if d.bool() else ["ZYZ"] * n
    d.label(f"{shape}/{mode}")
    return Spec(parents, offsets, codes, th)


def setup(d, max_bones=7, angle=3.2, big=0):
    """skeleton (updated), chains with random goals and tools, and the spec"""
    s = spec(d, max_bones, angle, big)
    S = s.build()
    IK.update_skeleton(S)
    chains = IK.make_chains(S)
    if len(chains) > 9:
        rng = np.random.RandomState(len(chains))
        for c in chains:
            c.goal, c.tool = rng.uniform(-5, 5, 3), rng.uniform(-1, 1, 3)
        return s, S, chains
    for c in chains:
        c.goal = d(vec(3, -5, 5))
        c.tool = d(vec(3, -1, 1)) * d.pick([0, 1, 1])
    return s, S, chains
