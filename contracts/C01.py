from pyvc.vc import contract
G = "yapcad.geom"; X = "yapcad.xform"

@contract("C01.vec_algebra", ["yapcad.geom:add", "yapcad.geom:sub", "yapcad.geom:scale3", "yapcad.geom:scale4", "yapcad.geom:dot", "yapcad.geom:cross", "yapcad.geom:mag", "yapcad.geom:dist"])
def vec_algebra(vc):
    """component-wise sums/differences/scalings, textbook dot/cross/length, inputs untouched"""
    g = vc.mod(G)
    a = vc.point("a"); b = vc.point("b"); k = vc.real("k")
    a0, b0 = list(a), list(b)
    vc.check("add", vc.veq(g.add(a, b), vc.vadd(a[:3], b[:3]) + [1.0]))
    vc.check("sub", vc.veq(g.sub(a, b), vc.vsub(a[:3], b[:3]) + [1.0]))
    vc.check("scale3", vc.veq(g.scale3(a, k), vc.vscale(a[:3], k) + [1.0]))
    vc.check("scale4", vc.veq(g.scale4(a, k), vc.vscale(a, k)))
    vc.check("dot", vc.eq(g.dot(a, b), vc.vdot(a[:3], b[:3])))
    vc.check("cross", vc.veq(g.cross(a, b)[:3], vc.vcross(a, b)))
    m = g.mag(a)
    vc.check("mag", vc.and_(vc.ge(m, 0.0), vc.eq(m * m, vc.norm2(a[:3]))))
    d = g.dist(a, b)
    vc.check("dist", vc.and_(vc.ge(d, 0.0), vc.eq(d * d, vc.norm2(vc.vsub(a[:3], b[:3])))))
    vc.check("frame", vc.and_(vc.veq(a, a0), vc.veq(b, b0)))

@contract("C01.vec_algebra4", ["yapcad.geom:add4", "yapcad.geom:sub4", "yapcad.geom:mul", "yapcad.geom:mul4", "yapcad.geom:dot4", "yapcad.geom:mag4", "yapcad.geom:dist4", "yapcad.geom:homo", "yapcad.geom:orthoXY"])
def vec_algebra4(vc):
    """four-component forms; homogeneous normalisation divides by the weight; the XY perpendicular is perpendicular"""
    g = vc.mod(G)
    a = vc.vec3("a") + [vc.real("aw")]; b = vc.vec3("b") + [vc.real("bw")]
    vc.check("add4", vc.veq(g.add4(a, b), vc.vadd(a, b)))
    vc.check("sub4", vc.veq(g.sub4(a, b), vc.vsub(a, b)))
    vc.check("mul", vc.veq(g.mul(a, b), [a[i] * b[i] for i in range(3)] + [1.0]))
    vc.check("mul4", vc.veq(g.mul4(a, b), [a[i] * b[i] for i in range(4)]))
    vc.check("dot4", vc.eq(g.dot4(a, b), vc.vdot(a, b)))
    m = g.mag4(a); vc.check("mag4", vc.and_(vc.ge(m, 0.0), vc.eq(m * m, vc.norm2(a))))
    d = g.dist4(a, b); vc.check("dist4", vc.and_(vc.ge(d, 0.0), vc.eq(d * d, vc.norm2(vc.vsub(a, b)))))
    w = vc.real("w", 0.1, 5.0, pos=True); vc.assume(vc.ge(w, 0.05))
    h = g.homo(a[:3] + [w])
    vc.check("homo", vc.veq(vc.vscale(h, w), a[:3] + [w]))
    vc.check("orthoXY", vc.and_(vc.eq(g.orthoXY(a)[0] * a[0] + g.orthoXY(a)[1] * a[1], 0.0), vc.eq(g.orthoXY(a)[0] * g.orthoXY(a)[0] + g.orthoXY(a)[1] * g.orthoXY(a)[1], a[0] * a[0] + a[1] * a[1])))

def pure_rotation(vc, R, axis_unit, ang, name):
    """R (Matrix object) = right-handed rotation by ang degrees about the unit axis"""
    c, s = vc.cosd(ang), vc.sind(ang)
    p = vc.vec3(name + "p")
    q = R.mul(p + [1.0])
    # Rodrigues' formula is the specification
    k = axis_unit
    kxp = vc.vcross(k, p); kp = vc.vdot(k, p)
    spec = [p[i] * c + kxp[i] * s + k[i] * kp * (1.0 - c) for i in range(3)]
    vc.check(name + ".rodrigues", vc.veq(q, spec + [1.0]))
    vc.check(name + ".length", vc.eq(vc.norm2(q[:3]), vc.norm2(p)))
    vc.check(name + ".axis fixed", vc.veq(R.mul(list(k) + [1.0]), list(k) + [1.0]))
    d = R.mul(p + [0.0])
    vc.check(name + ".direction", vc.veq(d, spec + [0.0]))

@contract("C01.rotation_unit_axis", "yapcad.xform:Rotation")
def rotation_unit(vc):
    """rotation about any unit axis by any angle is Rodrigues' rotation; length preserving; fixes the axis"""
    x = vc.mod(X)
    k = vc.unit3("k"); ang = vc.angle("ang")
    k4 = k + [1.0]
    R = x.Rotation(k4, ang)
    pure_rotation(vc, R, k, ang, "fwd")
    vc.check("frame", vc.veq(k4, k + [1.0]))

@contract("C01.rotation_any_axis", "yapcad.xform:Rotation")
def rotation_any(vc):
    """the axis is normalised: a non-unit axis gives the same rotation as its unit vector"""
    x = vc.mod(X)
    k = vc.unit3("k"); L = vc.real("L", 0.01, 50.0, pos=True); ang = vc.angle("ang")
    vc.assume(vc.ge(L, 1e-3)); vc.assume(vc.or_(vc.ge(L, 1.001), vc.le(L, 0.999)))
    R = x.Rotation(vc.vscale(k, L) + [1.0], ang)
    pure_rotation(vc, R, k, ang, "fwd")

@contract("C01.rotation_inverse", "yapcad.xform:Rotation")
def rotation_inv(vc):
    """the inverse form undoes the forward form, from either side"""
    x = vc.mod(X)
    k = vc.unit3("k"); ang = vc.angle("ang"); p = vc.point("p")
    k4 = k + [1.0]
    R = x.Rotation(k4, ang); Ri = x.Rotation(k4, ang, inverse=True)
    vc.check("inverse after forward", vc.veq(Ri.mul(R.mul(p)), p))
    vc.check("forward after inverse", vc.veq(R.mul(Ri.mul(p)), p))
    R.trans = True
    vc.check("transpose is the inverse", vc.veq(R.mul(p), Ri.mul(p)))

@contract("C01.rotation_zero_axis", "yapcad.xform:Rotation")
def rotation_zero(vc):
    """a zero axis is rejected, a usable one is not"""
    x = vc.mod(X); g = vc.mod(G)
    a = vc.vec3("a", -1e-5, 1e-5); ang = vc.angle("ang")
    e, R = vc.raises(x.Rotation, a + [1.0], ang)
    n2 = vc.norm2(a)
    if e is not None: vc.check("only degenerate axes rejected", vc.and_(isinstance(e, ValueError), vc.lt(n2, 1e-8, tol=0.0)))
    vc.check("zero rejected", vc.implies(vc.eq(n2, 0.0, tol=0, scale=0), e is not None))

@contract("C01.translation", "yapcad.xform:Translation")
def translation(vc):
    """moves points by the offset, leaves directions alone, inverse undoes it"""
    x = vc.mod(X)
    d = vc.point("d"); p = vc.point("p"); d0 = list(d)
    M = x.Translation(d); Mi = x.Translation(d, inverse=True)
    vc.check("moves", vc.veq(M.mul(p), vc.vadd(p[:3], d[:3]) + [1.0]))
    vc.check("inverse moves back", vc.veq(Mi.mul(p), vc.vsub(p[:3], d[:3]) + [1.0]))
    vc.check("direction", vc.veq(M.mul(p[:3] + [0.0]), p[:3] + [0.0]))
    vc.check("frame", vc.veq(d, d0))

@contract("C01.scale", "yapcad.xform:Scale")
def scale(vc):
    """scales each coordinate by its factor in all calling forms; inverse undoes it for non-zero factors"""
    x = vc.mod(X)
    s = [vc.real(n) for n in ("sx", "sy", "sz")]; p = vc.point("p")
    vc.check("three factors", vc.veq(x.Scale(s[0], s[1], s[2]).mul(p), [p[i] * s[i] for i in range(3)] + [1.0]))
    vc.check("uniform", vc.veq(x.Scale(s[0]).mul(p), [p[i] * s[0] for i in range(3)] + [1.0]))
    vc.check("vector", vc.veq(x.Scale(s + [1.0]).mul(p), [p[i] * s[i] for i in range(3)] + [1.0]))
    for v in s: vc.assume(vc.ge(vc.abs(v), 1e-2))
    vc.check("inverse", vc.veq(x.Scale(s[0], s[1], s[2], inverse=True).mul(x.Scale(s[0], s[1], s[2]).mul(p)), p))
    vc.check("inverse uniform", vc.veq(x.Scale(s[0], inverse=True).mul(x.Scale(s[0]).mul(p)), p))
    vc.check("inverse vector", vc.veq(x.Scale(s + [1.0], inverse=True).mul(x.Scale(s + [1.0]).mul(p)), p))

def gen_matrix(vc, name):
    return [[vc.real("%s%d%d" % (name, i, j)) for j in range(4)] for i in range(4)]

@contract("C01.matrix_product", ["yapcad.xform:Matrix.mul", "yapcad.xform:Matrix.getrow", "yapcad.xform:Matrix.getcol"])
def matrix_product(vc):
    """(A B) p = A (B p), entry-wise product, for every pair of matrices and transpose flags; operands unchanged"""
    x = vc.mod(X)
    A = gen_matrix(vc, "a"); B = gen_matrix(vc, "b"); p = [vc.real("p%d" % i) for i in range(4)]
    ta = vc.choice("ta", [False, True]); tb = vc.choice("tb", [False, True])
    MA = x.Matrix(A, ta); MB = x.Matrix(B, tb)
    TA = vc.transpose(A) if ta else A; TB = vc.transpose(B) if tb else B
    C = MA.mul(MB)
    spec = vc.matmul(TA, TB)
    vc.check("entries", vc.meq([[C.get(i, j) for j in range(4)] for i in range(4)], spec))
    vc.check("vector", vc.veq(MA.mul(p), vc.matvec(TA, p)))
    vc.check("associative", vc.veq(C.mul(p), MA.mul(MB.mul(p))))
    vc.check("frame A", vc.meq([[MA.get(i, j) for j in range(4)] for i in range(4)], TA))
    vc.check("frame B", vc.meq([[MB.get(i, j) for j in range(4)] for i in range(4)], TB))

@contract("C01.matrix_access", ["yapcad.xform:Matrix.get", "yapcad.xform:Matrix.set", "yapcad.xform:Matrix.getrow", "yapcad.xform:Matrix.getcol", "yapcad.xform:Matrix.setrow", "yapcad.xform:Matrix.setcol"])
def matrix_access(vc):
    """element, row and column reads and writes agree with the (possibly transposed) matrix and touch nothing else"""
    x = vc.mod(X)
    A = gen_matrix(vc, "a"); t = vc.choice("t", [False, True])
    L = vc.transpose(A) if t else [list(r) for r in A]
    def full(m): return [[m.get(i, j) for j in range(4)] for i in range(4)]
    M = x.Matrix(A, t)
    vc.check("get", vc.meq(full(M), L))
    i = vc.choice("i", range(4)); j = vc.choice("j", range(4))
    vc.check("row", vc.veq(M.getrow(i), L[i]))
    vc.check("col", vc.veq(M.getcol(j), [L[r][j] for r in range(4)]))
    v = [vc.real("v%d" % r) for r in range(4)]; e = vc.real("e")
    op = vc.choice("op", ["set", "setrow", "setcol"])
    if op == "set":
        M.set(i, j, e); L[i][j] = e
    elif op == "setrow":
        M.setrow(i, list(v)); L[i] = list(v)
    else:
        M.setcol(j, list(v))
        for r in range(4): L[r][j] = v[r]
    vc.check("after " + op, vc.meq(full(M), L))

@contract("C01.matrix_init", ["yapcad.xform:Matrix.__init__", "yapcad.xform:Matrix.mul"])
def matrix_init(vc):
    """construction from 16 numbers, 4 rows or another matrix gives those entries; a copy is independent; scalar product scales"""
    x = vc.mod(X)
    A = gen_matrix(vc, "a"); k = vc.real("k"); t = vc.choice("t", [False, True])
    L = vc.transpose(A) if t else A
    def full(m): return [[m.get(i, j) for j in range(4)] for i in range(4)]
    M = x.Matrix(A, t)
    flat = x.Matrix([A[i][j] for i in range(4) for j in range(4)], t)
    vc.check("flat", vc.meq(full(flat), L))
    cp = x.Matrix(M)
    vc.check("copy", vc.meq(full(cp), L))
    cp.set(0, 1, k); cp.set(2, 2, k)
    vc.check("copy independent", vc.meq(full(M), L))
    vc.check("identity default", vc.meq(full(x.Matrix()), vc.ident(4)))
    vc.check("scalar product", vc.meq(full(M.mul(k)), [[L[i][j] * k for j in range(4)] for i in range(4)]))
    vc.check("scalar product frame", vc.meq(full(M), L))

@contract("C01.composed_chain", ["yapcad.xform:Matrix.mul", "yapcad.xform:Rotation", "yapcad.xform:Translation", "yapcad.xform:Scale"])
def composed(vc):
    """T.R.S applied as one product equals S, then R, then T; the product of inverses in reverse order is its inverse"""
    x = vc.mod(X)
    k = vc.unit3("k"); ang = vc.angle("ang"); d = vc.point("d"); s = vc.real("s", 0.1, 5.0, pos=True); p = vc.point("p")
    vc.assume(vc.ge(s, 0.05))
    R = x.Rotation(k + [1.0], ang); T = x.Translation(d); S = x.Scale(s)
    M = T.mul(R.mul(S))
    q = T.mul(R.mul(S.mul(p)))
    vc.check("product = successive application", vc.veq(M.mul(p), q))
    Mi = x.Scale(s, inverse=True).mul(x.Rotation(k + [1.0], ang, inverse=True).mul(x.Translation(d, inverse=True)))
    vc.check("inverse", vc.veq(Mi.mul(q), p))
