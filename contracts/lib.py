"""helpers shared by contracts (specification side only)"""
def away(vc, v, lim=1e-3):
    """precondition: the library treats lengths below its epsilon (5e-6) as zero; specify exactly outside that band"""
    vc.assume(vc.ge(vc.norm2(v[:3]), lim * lim))
    return v
def offset(vc, name):
    """an offset that is exactly zero or clearly not zero"""
    if vc.choice(name + ".zero", [False, True]): return [0.0, 0.0, 0.0, 1.0]
    return away(vc, vc.point(name))
def away_scalar(vc, x, frm, lim=1e-3):
    vc.assume(vc.ge(vc.abs(x - frm), lim)); return x
def pts(vc, name, n, planar=False):
    return [vc.pointxy("%s%d" % (name, i)) if planar else vc.point("%s%d" % (name, i)) for i in range(n)]
def nonempty_name(): pass
