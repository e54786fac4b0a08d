import types
from pyvc.vc import contract
from contracts.lib import *
OT = "yapcad.octtree"
def box(vc, n, flat=None):
    lo = vc.vec3(n + "lo"); hi = [a + vc.real("%ssize.%s" % (n, c), 0, 8, nonneg=True) for a, c in zip(lo, "xyz")]
    return [lo + [1.0], hi + [1.0]]
def within(vc, p, b, d=3):
    return vc.and_(*[vc.and_(vc.le(b[0][k], p[k], tol=1e-9, scale=0), vc.le(p[k], b[1][k], tol=1e-9, scale=0)) for k in range(d)])
def meets(vc, a, b, d=3):
    """two boxes share a point exactly when their extents overlap on every axis"""
    return vc.and_(*[vc.and_(vc.le(a[0][k], b[1][k], tol=1e-9, scale=0), vc.le(b[0][k], a[1][k], tol=1e-9, scale=0)) for k in range(d)])
def node(vc, n):
    """a box and a split point inside it"""
    b = box(vc, n); c = [b[0][k] + vc.real("%sc%d" % (n, k), 0, 1, nonneg=True) * 0 for k in range(3)]
    c = vc.vec3(n + "c")
    if not vc.symbolic: c = [b[0][k] + abs(c[k]) / 10.0 * (b[1][k] - b[0][k]) for k in range(3)]
    else: vc.assume(within(vc, c, b))
    return b, c + [1.0]

# ---------------------------------------------------------------- box against box
@contract("C06.shared_point", [])
def shared_point(vc):
    """lemma: boxes whose extents overlap on every axis share a point, and boxes sharing a point have overlapping extents"""
    a, b = box(vc, "a"), box(vc, "b"); p = [vc.max(a[0][k], b[0][k]) for k in range(3)]
    vc.check("a witness", vc.implies(meets(vc, a, b), vc.and_(within(vc, p, a), within(vc, p, b))))
    q = vc.vec3("q"); vc.check("conversely", vc.implies(vc.and_(within(vc, q, a), within(vc, q, b)), meets(vc, a, b)))

@contract("C06.overlap2d", [OT + ":boxoverlap2", OT + ":boxoverlap"], max_paths=20000)
def overlap2d(vc):
    """as planar boxes: True exactly when they share a point, in either order; the inputs are spared"""
    m = vc.mod(OT); a, b = box(vc, "a"), box(vc, "b"); a0, b0 = vc.snapshot(a), vc.snapshot(b)
    f = vc.choice("function", [m.boxoverlap2, m.boxoverlap])
    vc.check("exact", vc.iff(bool(f(a, b, dim3=False)), meets(vc, a, b, 2)))
    vc.check("spared", vc.same([a, b], [a0, b0]))

@contract("C06.overlap3d", [OT + ":boxoverlap2"], max_paths=20000, time_s=300)
def overlap3d(vc):
    """True exactly when the boxes share a point (the specification is symmetric, so the argument order cannot matter)"""
    m = vc.mod(OT); a, b = box(vc, "a"), box(vc, "b")
    vc.check("exact", vc.iff(bool(m.boxoverlap2(a, b)), meets(vc, a, b, 3)))

@contract("C06.overlap_plain", [OT + ":boxoverlap"], max_paths=20000, time_s=300)
def overlap_plain(vc):
    """boxoverlap, the plain form, gives the same answer"""
    m = vc.mod(OT); a, b = box(vc, "a"), box(vc, "b")
    vc.check("exact", vc.iff(bool(m.boxoverlap(a, b)), meets(vc, a, b, 3)))

@contract("C06.aabb", ["yapcad.collision.detector:CollisionDetector._aabb_intersects", "yapcad.assembly.kinematic_integration:_aabb_intersects"])
def aabb(vc):
    """the mesh bounds tests of the collision detector and of the assembly validator: True exactly when the boxes share a point"""
    D = vc.mod("yapcad.collision.detector"); K = vc.mod("yapcad.assembly.kinematic_integration"); a, b = box(vc, "a"), box(vc, "b")
    A, B = [vc.array([x[0][:3], x[1][:3]]) for x in (a, b)]
    f = vc.choice("function", [D.CollisionDetector(None)._aabb_intersects, K._aabb_intersects])
    vc.check("exact", vc.iff(bool(f(A, B)), meets(vc, a, b)))

# ---------------------------------------------------------------- splitting a box
SIDE = {0: (1, 1), 1: (0, 1), 2: (0, 0), 3: (1, 0)}
def wanted(vc, b, c, j):
    s = SIDE[j % 4] + ((1 if j > 3 else 0),)
    return s
@contract("C06.quad", [OT + ":bbox2quad"])
def quad(vc):
    """a box is assigned to each quadrant it reaches (low side: its minimum is below the centre; high side: its maximum is not below it), once each; to none if it does not meet the reference box"""
    m = vc.mod(OT); b, r = box(vc, "b"), box(vc, "r"); c = vc.point("c")
    vc.stub(OT, "boxoverlap2", lambda x, y, dim3=True: meets(vc, x, y, 3 if dim3 else 2))
    got = list(m.bbox2quad(b, r, c))
    vc.check("no repetition, known numbers", len(set(got)) == len(got) and all(j in (0, 1, 2, 3) for j in got))
    ok = meets(vc, b, r, 2)
    for j, s in SIDE.items():
        want = vc.and_(ok, *[vc.ge(b[1][k], c[k], tol=1e-9, scale=0) if s[k] else vc.lt(b[0][k], c[k], tol=1e-9, scale=0) for k in range(2)])
        vc.check("quadrant %d" % j, vc.iff(j in got, want))

@contract("C06.oct", [OT + ":bbox2oct", OT + ":bbox2quad"])
def oct(vc):
    """the same in three dimensions: exactly the octants the box reaches, once each"""
    m = vc.mod(OT); b, r = box(vc, "b"), box(vc, "r"); c = vc.point("c")
    vc.stub(OT, "boxoverlap2", lambda x, y, dim3=True: meets(vc, x, y, 3 if dim3 else 2))
    got = list(m.bbox2oct(b, r, c))
    vc.check("no repetition, known numbers", len(set(got)) == len(got) and all(0 <= j < 8 for j in got))
    ok = meets(vc, b, r, 3)
    for j in range(8):
        s = SIDE[j % 4] + (j // 4,)
        want = vc.and_(ok, *[vc.ge(b[1][k], c[k], tol=1e-9, scale=0) if s[k] else vc.lt(b[0][k], c[k], tol=1e-9, scale=0) for k in range(3)])
        vc.check("octant %d" % j, vc.iff(j in got, want))

@contract("C06.split", [OT + ":box2boxes"])
def split(vc):
    """the parts of a split box: number j spans from the centre to the corner on its side; every point of the box on the side of part j lies in part j; each part's own centre lies in it"""
    m = vc.mod(OT); b, c = node(vc, "b"); n = vc.choice("n", [4, 8]); d = 3 if n == 8 else 2
    e, parts = vc.raises(m.box2boxes, b, c, n)
    small = vc.or_(*[vc.lt(b[1][k] - b[0][k], 5e-6, tol=1e-12, scale=0) for k in range(d)])
    if e is not None:
        vc.check("only flat boxes are refused", vc.and_(isinstance(e, ValueError), small)); return
    vc.check("number", len(parts) == n); p = vc.vec3("p")
    if not vc.symbolic: p = [b[0][k] + abs(p[k]) / 10.0 * (b[1][k] - b[0][k]) for k in range(3)]
    for j, (q, mid) in enumerate(parts):
        s = SIDE[j % 4] + (j // 4,)
        for k in range(d):
            vc.check("part %d axis %d" % (j, k), vc.and_(vc.eq(q[0][k], c[k] if s[k] else b[0][k]), vc.eq(q[1][k], b[1][k] if s[k] else c[k])))
            vc.check("centre inside", vc.eq(mid[k] + mid[k], q[0][k] + q[1][k]))
        side = vc.and_(within(vc, p, b, d), *[vc.ge(p[k], c[k], tol=1e-9, scale=0) if s[k] else vc.lt(p[k], c[k], tol=1e-9, scale=0) for k in range(d)])
        vc.check("covers its side", vc.implies(side, within(vc, p, q, d)))

# ---------------------------------------------------------------- the index: induction over the tree
@contract("C06.build_step", [OT + ":NTree.updateTree"], samples=300, time_s=300, max_paths=6000)
def build_step(vc):
    """one level of the recursive build. Leaf: records exactly the given elements. Branch: an element covering a point of the node is handed to a child whose box contains that point (so, by induction, to a leaf containing it), and no child gets an element that is not the node's"""
    n = vc.choice("n", [4, 8]); d = 3 if n == 8 else 2; k = vc.choice("elements", [0, n, n + 1])
    b, c = node(vc, "b"); p = vc.vec3("p"); mind = vc.real("mindim", 1e-5, 2, pos=True, strict=True)
    if not vc.symbolic: p = [b[0][i] + abs(p[i]) / 10.0 * (b[1][i] - b[0][i]) for i in range(3)]
    vc.assume(within(vc, p, b, d))
    e = [[p[i] - vc.real("below%d" % i, 0, 3, nonneg=True) for i in range(3)] + [1.0], [p[i] + vc.real("above%d" % i, 0, 3, nonneg=True) for i in range(3)] + [1.0]]
    elems = [[7, e]] + [[100 + i, [[0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0]]] for i in range(k - 1)] if k else []
    depth = vc.choice("depth", [0, 8]); calls = []
    self = types.SimpleNamespace(_NTree__n=n, _NTree__depth=0, _NTree__maxdepth=7, _NTree__mindim=mind)
    def rec(bx, ctr, els, dep=0): calls.append((bx, ctr, list(els), dep)); return ("sub", len(calls) - 1)
    vc.stub(OT, "boxoverlap2", lambda x, y, dim3=True: meets(vc, x, y, 3 if dim3 else 2))
    f = vc.inner(OT + ":NTree.updateTree", "recurse", dict(self=self, recurse=rec))
    r = f(b, c, [list(x) for x in elems], depth)
    if not elems: vc.check("nothing", r == []); return
    if not calls:
        vc.check("leaf of all its elements", r[0] == "e" and r[1] is b and sorted(r[3:]) == sorted(x[0] for x in elems)); return
    vc.check("branch of all children", r[0] == "b" and list(r[1:]) == [("sub", i) for i in range(n)]); vc.check("few enough", k > n)
    hit = []
    for bx, ctr, els, dep in calls:
        ids = [x[0] for x in els]
        vc.check("only its own elements, once", len(set(ids)) == len(ids) and all(any(x[0] == y[0] and x[1] is y[1] for y in elems) for x in els)) if not vc.symbolic else vc.check("only its own elements, once", len(set(ids)) == len(ids) and set(ids) <= {x[0] for x in elems})
        vc.check("boxes unchanged", vc.and_(*[vc.same(x[1], e) for x in els if x[0] == 7])); vc.check("one deeper", dep == depth + 1)
        if 7 in ids: hit.append(within(vc, p, bx, d))
    vc.check("a child containing the point has the element", vc.or_(*hit) if hit else False)

def stub_bbox(vc, G=()):
    """the contract of geom.bbox for two-point figures and lists of figures (C04): the coordinate-wise extent"""
    def bb(x):
        if not isinstance(x[0][0], (list, tuple)) and any(x is g for g in G): return x
        ps = [p for f in x for p in f] if isinstance(x[0][0], (list, tuple)) else x
        return [[vc.min(*[p[k] for p in ps]) for k in range(3)] + [1.0], [vc.max(*[p[k] for p in ps]) for k in range(3)] + [1.0]]
    vc.stub(OT, "bbox", bb)

@contract("C06.build_root", [OT + ":NTree.updateTree", OT + ":NTree.updateCenter", OT + ":NTree.addElement"], samples=60)
def build_root(vc):
    """the tree is built anew after every addition, from a box containing all elements, over all elements with their own boxes"""
    m = vc.mod(OT); n = vc.choice("n", [4, 8]); t = m.NTree(n=n); k = vc.choice("k", [1, 2]); k2 = vc.choice("k2", [0, 1])
    G = [box(vc, "g%d" % i) for i in range(k + k2)]
    for g in G: vc.assume(vc.gt(g[1][0] - g[0][0], 0.01))
    for i, g in enumerate(G[:k]): t.addElement(g, tag="x") if i else t.addElement(g)
    stub_bbox(vc, G)
    if k2:
        if vc.choice("between", ["build", "query", "no"]) != "no": t.updateTree()
        for g in G[k:]: t.addElement(g)
    t.updateTree(); tr = t._NTree__tree; bb = t._NTree__bbox
    vc.check("one leaf with everything", tr[0] == "e" and sorted(tr[3:]) == list(range(k + k2)))
    for g in G: vc.check("inside the root box", vc.and_(within(vc, g[0], tr[1]), within(vc, g[1], tr[1])))
    vc.check("centre inside", within(vc, tr[2], tr[1]))
    for i, (j, bx) in enumerate(t._NTree__elem_idx_bbox):
        vc.check("box of each element", vc.and_(j == i, *[vc.and_(vc.eq(bx[0][c], G[i][0][c]), vc.eq(bx[1][c], G[i][1][c])) for c in range(3)]))

@contract("C06.query_step", [OT + ":NTree.getElements"], samples=300)
def query_step(vc):
    """one level of the query. Leaf: exactly its elements whose boxes meet the query box, if the leaf box does. Branch: exactly what its children give, each asked once"""
    n = vc.choice("n", [4, 8]); d = 3 if n == 8 else 2; q = box(vc, "q"); kind = vc.choice("node", ["empty", "leaf", "branch"])
    self = types.SimpleNamespace(_NTree__n=n, mxd=0); B = [[i, box(vc, "e%d" % i)] for i in range(2)]; calls = []
    def rec(t, depth=0): calls.append(t); return [100 + len(calls)]
    vc.stub(OT, "boxoverlap2", lambda x, y, dim3=True: meets(vc, x, y, 3 if dim3 else 2))
    f = vc.inner(OT + ":NTree.getElements", "recurse", dict(self=self, recurse=rec, bbox=q, bxidxlist=B))
    if kind == "empty": vc.check("nothing", list(f([])) == []); return
    if kind == "branch":
        kids = [["e", 0, 0, i] for i in range(n)]; kids[1] = []
        r = f(["b"] + kids); vc.check("every child once", [x for x in calls if x] == [x for x in kids if x])
        vc.check("their answers", list(r) == [100 + i for i in range(1, len(calls) + 1)]); return
    b = box(vc, "leaf"); r = f(["e", b, [0.0] * 4, 0, 1])
    for i in (0, 1): vc.check("element %d" % i, vc.iff(i in list(r), vc.and_(meets(vc, b, q, d), meets(vc, q, B[i][1], d))))
    vc.check("once", len(set(r)) == len(list(r)))

@contract("C06.query_root", [OT + ":NTree.getElements", OT + ":NTree.__init__"])
def query_root(vc):
    """the answer is the stored items for the indices found, each once even if found in several leaves; an empty index answers with nothing; the list given to the constructor is not changed; items keep their tags, whatever these are"""
    m = vc.mod(OT); t = m.NTree(); q = box(vc, "q"); stub_bbox(vc)
    vc.check("empty", list(t.getElements(q)) == [])
    G = [[vc.point("p%d" % i), vc.point("q%d" % i)] for i in range(3)]
    for g in G: vc.assume(vc.gt(vc.norm2(vc.vsub(g[0][:3], g[1][:3])), 1e-3))
    given = [G[0], (G[1], "tag")]; t = m.NTree(geom=given); tag = vc.choice("tag", ["other", 0, ""]); t.addElement(G[2], tag); t.updateTree()
    vc.check("given list spared", len(given) == 2)
    b = t._NTree__bbox; L = lambda *i: ["e", b, [0.0] * 4] + list(i); t._NTree__tree = ["b", L(0, 1), L(1), [], L(2, 0), L(0, 1, 2)]
    vc.stub(OT, "boxoverlap2", lambda x, y, dim3=True: True)
    if not vc.symbolic: q = b
    r = t.getElements(q); want = [G[0], (G[1], "tag"), (G[2], tag)]
    vc.check("all, once each", len(r) == 3 and all(sum(1 for x in r if x is y or (isinstance(x, tuple) and isinstance(y, tuple) and x[0] is y[0] and x[1] == y[1])) == 1 for y in want))

@contract("C06.index", [OT + ":NTree"], mode="bounded", why="up to 60 segments or triangles, whole index end to end", samples=150, sample_s=40)
def index(vc):
    """whole-index check: after any mix of additions and queries, a query returns exactly the items whose boxes meet the query box"""
    m = vc.mod(OT); g = vc.mod("yapcad.geom"); R = vc.rng; seed = vc.int("seed", 0, 10**9); import random; R = random.Random(seed)
    n = R.choice([4, 8]); t = m.NTree(n=n, mindim=R.choice([0.05, 0.5, 2.0]), maxdepth=R.choice([None, 1, 3])); items = []
    grid = R.random() < 0.4; co = (lambda: float(R.randint(-4, 4))) if grid else (lambda: R.uniform(-10, 10))
    d = 3 if n == 8 else 2
    P = lambda: [co(), co(), co() if n == 8 else 0.0, 1.0]
    for round_ in range(R.randint(1, 4)):
        for _ in range(R.randint(1, 15)):
            a = P(); s = R.choice([0.1, 1.0, 20.0])
            it = [a, [a[k] + R.choice([0.0, 1.0, -1.0, R.uniform(-1, 1)]) * s for k in range(3)] + [1.0]]
            if n == 4: it[1][2] = 0.0
            if g.dist(*it) < 1e-3: continue
            if R.random() < 0.3: it = it + [P()]
            tag = R.choice([None, len(items)]); t.addElement(it, tag); items.append((it, tag))
        if not items: continue
        for _ in range(4):
            a, b = P(), P(); q = [[min(a[k], b[k]) for k in range(3)] + [1.0], [max(a[k], b[k]) for k in range(3)] + [1.0]]
            if R.random() < 0.3: q = [a, list(a)]
            got = [x[0] if isinstance(x, tuple) else x for x in t.getElements(q)]
            want = [it for it, _ in items if meets(vc, [[min(p[k] for p in it) for k in range(3)], [max(p[k] for p in it) for k in range(3)]], q, d) is True]
            maybe = [it for it, _ in items if meets(vc, [[min(p[k] for p in it) for k in range(3)], [max(p[k] for p in it) for k in range(3)]], q, d) is None]
            for it in want: vc.check("not missed, once", sum(1 for x in got if x is it) == 1)
            for x in got: vc.check("nothing else", any(x is it for it in want + maybe))
