"""C31: contact graphs connect exactly the contacts that share a body (or node), and colourings of them are proper partitions."""
from pbt import *
import types
import networkx as nx
import rainbow.simulators.proximal_contact.blocking as BL


def graph(d):
    """random graphs from sparse to complete, with isolated nodes, stars, cliques; node order shuffled"""
    n = d.size(1, 14, 80)
    kind = d.pick(["random", "complete", "star", "path", "cliques", "empty"])
    rng = np.random.RandomState(d.int(0, 9999))
    d.label(kind)
    p = {"random": d(num(0, 1))}.get(kind, 0)
    G = nx.Graph()
    G.add_nodes_from(np.arange(n) if d.bool() else rng.permutation(n))
    for i in range(n):
        for j in range(i + 1, n):
            if (kind == "random" and rng.rand() < p) or kind == "complete" or (kind == "star" and i == 0) or (kind == "path" and j == i + 1) or (kind == "cliques" and i // 4 == j // 4):
                G.add_edge(i, j)
    return G, rng


def check_partition(G, groups, what):
    seen = {}
    for col, nodes in groups.items():
        ensure(len(nodes) > 0, what + ": empty colour", colour=col)
        for k in nodes:
            ensure(k not in seen, what + ": contact in two colours", contact=k)
            seen[k] = col
    ensure(set(seen) == set(G.nodes()), what + ": colours do not cover all contacts", missing=set(G.nodes()) - set(seen))
    for i, j in G.edges():
        ensure(seen[i] != seen[j], what + ": coupled contacts share a colour", contacts=(i, j))


@sub(quick=500)
def colourings(d):
    """greedy and random colouring of random graphs are proper partitions, with the block ranges of the contacts; non-trivial with an edge"""
    G, rng = graph(d)
    d.nontrivial(G.number_of_edges() > 0)
    groups = BL.greedy_graph_coloring(G)
    for blocks in groups.values():
        for a, b in blocks:
            ensure(a % 4 == 0 and b == a + 4, "block range of a contact", block=(a, b))
    check_partition(G, {c: [a // 4 for a, _ in bl] for c, bl in groups.items()}, "greedy")
    deg = max(dict(G.degree()).values())
    ensure(len(groups) <= deg + 1, "greedy colouring uses more colours than the largest degree plus one", colours=len(groups))
    np.random.seed(d.int(0, 9999))
    e0 = set(G.edges())
    check_partition(G, BL.random_graph_coloring(G, d.pick([0, 1, 2, 5, 200])), "random")
    check_partition(G, BL.random_graph_coloring(G), "random")
    ensure(set(G.edges()) == e0, "colouring changed the graph")


@sub(quick=200)
def rigid_graph(d):
    """graphs of contacts between random bodies: an edge iff two contacts share a body; non-trivial with both coupled and uncoupled contacts"""
    n, K = d.size(2, 8, 40), d.size(0, 10, 80)
    bodies = [types.SimpleNamespace(idx=i) for i in range(n)]
    cps = []
    for _ in range(K):
        i = d.int(0, n - 1)
        j = (i + d.int(1, n - 1)) % n
        cps.append(types.SimpleNamespace(bodyA=bodies[i], bodyB=bodies[j]))
    G = BL.build_contact_graph(cps, "rigid_body") if d.bool() else BL.build_contact_graph(cps)
    want = {(i, j) for i in range(K) for j in range(i + 1, K)
            if {cps[i].bodyA.idx, cps[i].bodyB.idx} & {cps[j].bodyA.idx, cps[j].bodyB.idx}}
    d.nontrivial(0 < len(want) < K * (K - 1) / 2)
    compare(G, K, want)


def compare(G, K, want):
    ensure(set(G.nodes()) == set(range(K)), "nodes are not the contacts", nodes=set(G.nodes()))
    got = {tuple(sorted(map(int, e))) for e in G.edges()}
    ensure(got == want, "coupling of contacts", missing=want - got, extra=got - want)


@sub(quick=200)
def soft_graph(d):
    """graphs of contacts between tetrahedra of soft bodies: an edge iff the contacts share a global node; non-trivial with both coupled and uncoupled contacts"""
    rng = np.random.RandomState(d.int(0, 9999))
    bodies, off = [], 0
    for i in range(d.int(1, 4)):
        n = rng.randint(4, 12)
        bodies.append(types.SimpleNamespace(idx=i, offset=off, T=np.array([rng.choice(n, 4, replace=False) for _ in range(rng.randint(1, 6))])))
        off += n
    K = d.size(0, 10, 60)
    cps = []
    for _ in range(K):
        A, B = bodies[rng.randint(len(bodies))], bodies[rng.randint(len(bodies))]
        cps.append(types.SimpleNamespace(bodyA=A, bodyB=B, idx_tetA=rng.randint(len(A.T)), idx_tetB=rng.randint(len(B.T))))
    nodes = [set(c.bodyA.T[c.idx_tetA] + c.bodyA.offset) | set(c.bodyB.T[c.idx_tetB] + c.bodyB.offset) for c in cps]
    want = {(i, j) for i in range(K) for j in range(i + 1, K) if nodes[i] & nodes[j]}
    d.nontrivial(0 < len(want) < K * (K - 1) / 2)
    compare(BL.build_contact_graph(cps, "soft_body"), K, want)
    if K:
        try:
            BL.build_contact_graph(cps, d.pick(["", "rigid", "soft", "RIGID_BODY"]))
        except ValueError:
            return
        fail("an unknown simulator type is accepted")


if __name__ == "__main__":
    sys.exit(main("C31", []))
