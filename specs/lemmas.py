"""Lemmas about the specification functions: group laws, unit quaternions, derivatives."""
import z3
from ccv.lemma import lemma
from ccv.model import *
from ccv.spec import *
from ccv.lib import SQRT, SIN, COS, ATAN2, ASIN
from ccv import spec
from ccv.sym import *


def Qc(n):
    return z3.Const(n, S.Q)


def Vc(n):
    return z3.Const(n, S.V)


def Pc(n):
    return z3.Const(n, S.P)


def Rc(n):
    return z3.Real(n)


def udefs(*qs):
    return [unit_def(q) for q in qs]


def cdefs(*ps):
    return [S.COMP(x, y) == spec.d_comp(x, y) for x, y in ps]


# ------------------------------------------------------------------ rotations
@lemma
def qmul_assoc():
    a, b, c = Qc('a'), Qc('b'), Qc('c')
    return dict(vars=[a, b, c], concl=S.QMUL(S.QMUL(a, b), c) == S.QMUL(a, S.QMUL(b, c)), pats=[S.QMUL(S.QMUL(a, b), c)])


@lemma
def qmul_identity():
    a = Qc('a')
    return dict(vars=[a], concl=z3.And(S.QMUL(a, QID()) == a, S.QMUL(QID(), a) == a), pats=[S.QMUL(a, QID()), S.QMUL(QID(), a)])


@lemma
def unit_qmul():
    a, b = Qc('a'), Qc('b')
    return dict(vars=[a, b], hyp=z3.And(S.UNIT(a), S.UNIT(b)), concl=S.UNIT(S.QMUL(a, b)), pats=[S.QMUL(a, b)],
                facts=udefs(a, b, S.QMUL(a, b)), goals=[('', nrm2(S.QMUL(a, b)) == 1)])


@lemma
def unit_qinv():
    a = Qc('a')
    return dict(vars=[a], hyp=S.UNIT(a), concl=z3.And(S.QINV(a) == quat(*conj_(a)), S.UNIT(S.QINV(a))), pats=[S.QINV(a)],
                facts=udefs(a, quat(*conj_(a))), goals=[('the inverse is the conjugate', S.QINV(a) == quat(*conj_(a))), ('the inverse is a unit', nrm2(quat(*conj_(a))) == 1)])


def conj_(q):
    x, y, z, w = xyzw(q)
    return [-x, -y, -z, w]


@lemma
def qinv_inverse():
    a = Qc('a')
    return dict(vars=[a], hyp=S.UNIT(a), concl=z3.And(S.QMUL(a, S.QINV(a)) == QID(), S.QMUL(S.QINV(a), a) == QID()), pats=[S.QINV(a)], facts=udefs(a))


@lemma
def qinv_inverse_general():
    a = Qc('a')
    parts = [S.QMUL(a, S.QINV(a)) == QID(), S.QMUL(S.QINV(a), a) == QID()]
    return dict(vars=[a], hyp=nrm2(a) > 0, concl=z3.And(*parts), pats=[S.QINV(a)], goals=[('on the right', parts[0]), ('on the left', parts[1])])


@lemma
def rotv_identity():
    v = Vc('v')
    return dict(vars=[v], concl=S.ROTV(QID(), v) == v, pats=[S.ROTV(QID(), v)])


@lemma
def rotv_matrix():
    """Rotation by a unit quaternion is the usual matrix."""
    q, v = Qc('q'), Vc('v')
    return dict(vars=[q, v], hyp=S.UNIT(q), concl=S.ROTV(q, v) == d_matrix(q, v), pats=[S.ROTV(q, v)], facts=udefs(q))


def d_matrix(q, v):
    x, y, z, w = xyzw(q)
    a, b, c = xyz(v)
    return vec((w * w + x * x - y * y - z * z) * a + 2 * (x * y - w * z) * b + 2 * (x * z + w * y) * c,
            2 * (x * y + w * z) * a + (w * w - x * x + y * y - z * z) * b + 2 * (y * z - w * x) * c,
            2 * (x * z - w * y) * a + 2 * (y * z + w * x) * b + (w * w - x * x - y * y + z * z) * c)


@lemma
def rotv_compose():
    a, b, v = Qc('a'), Qc('b'), Vc('v')
    return dict(vars=[a, b, v], hyp=z3.And(S.UNIT(a), S.UNIT(b)), concl=S.ROTV(S.QMUL(a, b), v) == S.ROTV(a, S.ROTV(b, v)), pats=[S.ROTV(S.QMUL(a, b), v)], by=['unit_qmul'],
                via=[('rotv_matrix', (S.QMUL(a, b), v)), ('rotv_matrix', (b, v)), ('rotv_matrix', (a, d_matrix(b, v)))])


@lemma
def rotv_linear():
    a, u, v = Qc('a'), Vc('u'), Vc('v')
    return dict(vars=[a, u, v], hyp=S.UNIT(a), concl=S.ROTV(a, vadd(u, v)) == vadd(S.ROTV(a, u), S.ROTV(a, v)), pats=[(S.ROTV(a, u), S.ROTV(a, v))], facts=udefs(a))


@lemma
def rotv_norm():
    a, v = Qc('a'), Vc('v')
    n = lambda t: sum(c * c for c in xyz(t))
    return dict(vars=[a, v], hyp=S.UNIT(a), concl=n(S.ROTV(a, v)) == n(v), pats=[S.ROTV(a, v)], facts=udefs(a))


@lemma
def rotv_cross():
    a, u, v = Qc('a'), Vc('u'), Vc('v')
    return dict(vars=[a, u, v], hyp=S.UNIT(a), concl=S.ROTV(a, S.CROSS(u, v)) == S.CROSS(S.ROTV(a, u), S.ROTV(a, v)), pats=[S.ROTV(a, S.CROSS(u, v))], facts=udefs(a))


@lemma
def unit_fromrpy():
    r, p, y = Rc('r'), Rc('p'), Rc('y')
    return dict(vars=[r, p, y], concl=S.UNIT(S.FROMRPY(r, p, y)), pats=[S.FROMRPY(r, p, y)], goals=[('', nrm2(S.FROMRPY(r, p, y)) == 1)],
                facts=udefs(S.FROMRPY(r, p, y)))


@lemma
def unit_jm():
    t, ax, th = z3.Int('t'), Vc('ax'), Rc('th')
    return dict(vars=[t, ax, th], hyp=nrmv(ax), concl=S.UNIT(rot(S.JM(t, ax, th))), pats=[S.JM(t, ax, th)],
                goals=[('', nrm2(rot(S.JM(t, ax, th))) == 1)], facts=udefs(quat(*(xyz(ax) + [real(0)])), rot(S.JM(t, ax, th))))


@lemma
def unit_normq():
    a = Qc('a')
    return dict(vars=[a], concl=S.UNIT(S.NORMQ(a)), pats=[S.NORMQ(a)], facts=[SQRT(nrm2(a)) * SQRT(nrm2(a)) == nrm2(a), S.NORMQ(a) == spec.d_normq(a)] + udefs(S.NORMQ(a)),
                goals=[('zero', implies(SQRT(nrm2(a)) == 0, nrm2(S.NORMQ(a)) == 1)),
                       ('scaled', implies(SQRT(nrm2(a)) != 0, nrm2(quat(*[c / SQRT(nrm2(a)) for c in xyzw(a)])) == 1))])


# ------------------------------------------------------------------ poses
@lemma
def comp_assoc():
    a, b, c = Pc('a'), Pc('b'), Pc('c')
    return dict(vars=[a, b, c], hyp=z3.And(S.UNIT(rot(a)), S.UNIT(rot(b))), concl=S.COMP(S.COMP(a, b), c) == S.COMP(a, S.COMP(b, c)), pats=[S.COMP(S.COMP(a, b), c)],
                expand=False, reveal=False,
                inst=[('qmul_assoc', (rot(a), rot(b), rot(c))), ('rotv_compose', (rot(a), rot(b), pos(c))), ('rotv_linear', (rot(a), S.ROTV(rot(b), pos(c)), pos(b)))],
                facts=cdefs((S.COMP(a, b), c), (a, b), (a, S.COMP(b, c)), (b, c)))


@lemma
def comp_identity():
    a = Pc('a')
    return dict(vars=[a], hyp=S.UNIT(rot(a)), concl=z3.And(S.COMP(a, PID()) == a, S.COMP(PID(), a) == a), pats=[S.COMP(a, PID()), S.COMP(PID(), a)], facts=udefs(rot(a)))


@lemma
def comp_inverse():
    a = Pc('a')
    return dict(vars=[a], hyp=S.UNIT(rot(a)), concl=z3.And(S.COMP(a, S.PINV(a)) == PID(), S.COMP(S.PINV(a), a) == PID()), pats=[S.PINV(a)], facts=udefs(rot(a)))


@lemma
def unit_comp():
    a, b = Pc('a'), Pc('b')
    return dict(vars=[a, b], hyp=z3.And(S.UNIT(rot(a)), S.UNIT(rot(b))), concl=S.UNIT(rot(S.COMP(a, b))), pats=[S.COMP(a, b)],
                goals=[('', nrm2(rot(S.COMP(a, b))) == 1)], facts=udefs(rot(a), rot(b), rot(S.COMP(a, b))))


@lemma
def unit_pinv():
    a = Pc('a')
    return dict(vars=[a], hyp=S.UNIT(rot(a)), concl=S.UNIT(rot(S.PINV(a))), pats=[S.PINV(a)],
                goals=[('', nrm2(rot(S.PINV(a))) == 1)], facts=udefs(rot(a), rot(S.PINV(a))))


@lemma
def comp_pos_affine():
    """Position of a composition."""
    a, b = Pc('a'), Pc('b')
    return dict(vars=[a, b], concl=pos(S.COMP(a, b)) == vadd(S.ROTV(rot(a), pos(b)), pos(a)), pats=[S.COMP(a, b)])


# ------------------------------------------------------------------ roll, pitch, yaw
@lemma
def rpy_is_rz_ry_rx():
    """setFromRPY composes the rotations about z, y and x by the full angles (matrix entries from double angles)."""
    r, p, y = Rc('r'), Rc('p'), Rc('y')
    v = Vc('v')
    h = real('1/2')
    cr, sr, cp, sp, cy, sy = [f(x) for x in (r, p, y) for f in (COS, SIN)]
    a, b, c = xyz(v)
    m = vec(cy * cp * a + (cy * sp * sr - sy * cr) * b + (cy * sp * cr + sy * sr) * c,
            sy * cp * a + (sy * sp * sr + cy * cr) * b + (sy * sp * cr - cy * sr) * c,
            -sp * a + cp * sr * b + cp * cr * c)
    dbl = []
    for t in (r, p, y):
        dbl += [COS(t) == COS(t * h) * COS(t * h) - SIN(t * h) * SIN(t * h), SIN(t) == 2 * SIN(t * h) * COS(t * h)]
    return dict(vars=[r, p, y, v], concl=S.ROTV(S.FROMRPY(r, p, y), v) == m, pats=[S.ROTV(S.FROMRPY(r, p, y), v)], facts=dbl)


# ------------------------------------------------------------------ derivatives (exact finite displacements)
def vdot(a, b):
    return sum((p * q for p, q in zip(xyz(a)[1:], xyz(b)[1:])), xyz(a)[0] * xyz(b)[0])


def movable(t):
    return z3.Or(*[t == k for k in (REVOLUTE, CONTINUOUS, PRISMATIC)])


@lemma
def jm_add():
    """Moving a joint by a further amount composes with the motion by that amount."""
    t, ax, a, b = z3.Int('t'), Vc('ax'), Rc('a'), Rc('b')
    h = real('1/2')
    S1, C1, S2, C2 = SIN(a * h), COS(a * h), SIN(b * h), COS(b * h)
    unit = sum(c * c for c in xyz(ax)) == 1
    js = lambda s, c: quat(*([x * s for x in xyz(ax)] + [c]))
    return dict(vars=[t, ax, a, b], hyp=z3.And(nrmv(ax), movable(t)), concl=S.JM(t, ax, a + b) == S.COMP(S.JM(t, ax, a), S.JM(t, ax, b)),
                pats=[S.JM(t, ax, a + b)],
                facts=udefs(quat(*(xyz(ax) + [real(0)]))) + [SIN((a + b) * h) == S1 * C2 + C1 * S2, COS((a + b) * h) == C1 * C2 - S1 * S2,
                                                            S1 * S1 + C1 * C1 == 1, S2 * S2 + C2 * C2 == 1],
                goals=[('turning', implies(z3.And(unit, z3.Or(t == REVOLUTE, t == CONTINUOUS)), S.JM(t, ax, a + b) == S.COMP(S.JM(t, ax, a), S.JM(t, ax, b)))),
                       ('sliding', implies(t == PRISMATIC, S.JM(t, ax, a + b) == S.COMP(S.JM(t, ax, a), S.JM(t, ax, b))))])


@lemma
def turn_axis():
    """Conjugating a rotation about an axis gives the rotation about the turned axis."""
    q, a, s, c = Qc('q'), Vc('a'), Rc('s'), Rc('c')
    w = S.ROTV(q, a)
    return dict(vars=[q, a, s, c], hyp=S.UNIT(q), concl=S.QMUL(q, S.QMUL(quat(*([x * s for x in xyz(a)] + [c])), S.QINV(q))) == quat(*([x * s for x in xyz(w)] + [c])),
                pats=[S.QMUL(q, S.QMUL(quat(*([x * s for x in xyz(a)] + [c])), S.QINV(q)))], facts=udefs(q))


@lemma
def rodrigues():
    """Rotating a vector about a unit axis by an angle."""
    w, d, t = Vc('w'), Vc('d'), Rc('t')
    h = real('1/2')
    s, c = SIN(t * h), COS(t * h)
    E = vsub(vscale(vdot(w, d), w), d)
    r = vadd(d, vadd(vscale(SIN(t), S.CROSS(w, d)), vscale(1 - COS(t), E)))
    return dict(vars=[w, d, t], hyp=nrmv(w), concl=S.ROTV(quat(*([x * s for x in xyz(w)] + [c])), d) == r,
                pats=[S.ROTV(quat(*([x * s for x in xyz(w)] + [c])), d)],
                facts=udefs(quat(*(xyz(w) + [real(0)]))) + [COS(t) == c * c - s * s, SIN(t) == 2 * s * c, s * s + c * c == 1])


@lemma
def displaced_rotation():
    """Rotation part of C J C^-1 F."""
    C, J, F = Pc('C'), Pc('J'), Pc('F')
    e = S.COMP(C, S.COMP(J, S.COMP(S.PINV(C), F)))
    K = S.QMUL(rot(C), S.QMUL(rot(J), S.QINV(rot(C))))
    return dict(vars=[C, J, F], concl=rot(e) == S.QMUL(K, rot(F)), pats=[e])


@lemma
def displaced_position():
    """Position part of C J C^-1 F when J does not translate."""
    C, J, F = Pc('C'), Pc('J'), Pc('F')
    e = S.COMP(C, S.COMP(J, S.COMP(S.PINV(C), F)))
    K = S.QMUL(rot(C), S.QMUL(rot(J), S.QINV(rot(C))))
    Y = S.COMP(S.PINV(C), F)
    qi = S.QINV(rot(C))
    n = vec(*[-x for x in xyz(pos(C))])
    d = vsub(pos(F), pos(C))
    return dict(vars=[C, J, F], hyp=z3.And(S.UNIT(rot(C)), S.UNIT(rot(J)), pos(J) == V0()),
                concl=pos(e) == vadd(S.ROTV(K, d), pos(C)), pats=[e], expand=False, reveal=False,
                inst=[('comp_pos_affine', (C, S.COMP(J, Y))), ('comp_pos_affine', (J, Y)), ('comp_pos_affine', (S.PINV(C), F)), ('unit_qinv', (rot(C),)),
                      ('unit_qmul', (rot(J), qi)), ('rotv_linear', (qi, pos(F), n)), ('rotv_compose', (rot(J), qi, d)), ('rotv_compose', (rot(C), S.QMUL(rot(J), qi), d))],
                facts=[S.PINV(C) == spec.d_pinv(C), vadd(pos(F), n) == d])


@lemma
def displaced_slide():
    """C J C^-1 F for a pure translation J."""
    C, F, v = Pc('C'), Pc('F'), Vc('v')
    e = S.COMP(C, S.COMP(pose(v, QID()), S.COMP(S.PINV(C), F)))
    return dict(vars=[C, F, v], hyp=S.UNIT(rot(C)), concl=z3.And(pos(e) == vadd(pos(F), S.ROTV(rot(C), v)), rot(e) == rot(F)), pats=[e], facts=udefs(rot(C)),
                goals=[('position', pos(e) == vadd(pos(F), S.ROTV(rot(C), v))), ('rotation', rot(e) == rot(F))])


@lemma
def rotv_scale():
    q, a, s = Qc('q'), Vc('a'), Rc('s')
    return dict(vars=[q, a, s], concl=S.ROTV(q, vscale(s, a)) == vscale(s, S.ROTV(q, a)), pats=[S.ROTV(q, vscale(s, a))])


@lemma
def unit_axis():
    q, a = Qc('q'), Vc('a')
    w = S.ROTV(q, a)
    wq = quat(*(xyz(w) + [real(0)]))
    aq = quat(*(xyz(a) + [real(0)]))
    return dict(vars=[q, a], hyp=z3.And(S.UNIT(q), nrmv(a)), concl=nrmv(w), pats=[w], facts=udefs(q, aq, wq), goals=[('', nrm2(wq) == 1)])


@lemma
def turned_quaternion():
    """Product of a rotation about a world axis with a quaternion: its rate is QD."""
    w, q, s, c = Vc('w'), Qc('q'), Rc('s'), Rc('c')
    l = S.QMUL(quat(*([x * s for x in xyz(w)] + [c])), q)
    d = S.QD(q, w)
    r = quat(*[c * a + 2 * s * b for a, b in zip(xyzw(q), xyzw(d))])
    return dict(vars=[w, q, s, c], concl=l == r, pats=[l])


def rates_w(rpy, r):
    """Angular velocity of Rz(yaw) Ry(pitch) Rx(roll) when roll, pitch, yaw change at rates r."""
    _, p, y = xyz(rpy)
    a, b, c = xyz(r)
    return vec(COS(y) * COS(p) * a - SIN(y) * b, SIN(y) * COS(p) * a + COS(y) * b, -SIN(p) * a + c)


@lemma
def rpyd_rates():
    """RPYD gives the rates of roll, pitch and yaw that produce the angular velocity."""
    e, w = Vc('e'), Vc('w')
    _, p, y = xyz(e)
    return dict(vars=[e, w], hyp=COS(p) != 0, concl=rates_w(e, S.RPYD(e, w)) == w, pats=[S.RPYD(e, w)],
                facts=[SIN(p) * SIN(p) + COS(p) * COS(p) == 1, SIN(y) * SIN(y) + COS(y) * COS(y) == 1])


@lemma
def rpy_chain_rule():
    """The rate of the quaternion FROMRPY(r, p, y) at rates r' is QD of the angular velocity: product rule, d/dx sin(x/2) = cos(x/2)/2."""
    r, p, y = Rc('r'), Rc('p'), Rc('y')
    d = Vc('d')
    h = real('1/2')
    sn = [SIN(x * h) for x in (r, p, y)]
    cs = [COS(x * h) for x in (r, p, y)]
    ds, dc = [c * x * h for c, x in zip(cs, xyz(d))], [-s * x * h for s, x in zip(sn, xyz(d))]
    z = real(0)
    mkq = lambda i, s, c: quat(*([s if k == i else z for k in range(3)] + [c]))
    qx, qy, qz = mkq(0, sn[0], cs[0]), mkq(1, sn[1], cs[1]), mkq(2, sn[2], cs[2])
    dx, dy, dz = mkq(0, ds[0], dc[0]), mkq(1, ds[1], dc[1]), mkq(2, ds[2], dc[2])
    m = spec.d_qmul
    terms = [m(dz, m(qy, qx)), m(qz, m(dy, qx)), m(qz, m(qy, dx))]
    D = quat(*[sum(v[1:], v[0]) for v in zip(*[xyzw(t) for t in terms])])
    q = S.FROMRPY(r, p, y)
    dbl = []
    for t, s, c in zip((r, p, y), sn, cs):
        dbl += [COS(t) == c * c - s * s, SIN(t) == 2 * s * c, s * s + c * c == 1]
    return dict(vars=[r, p, y, d], concl=S.QD(q, rates_w(vec(r, p, y), d)) == D, pats=[S.QD(q, rates_w(vec(r, p, y), d))], facts=dbl)


@lemma
def rpy_reads_back():
    """Off the gimbal band, setFromRPY of getRPY turns every vector as the rotation does.

    Used of the library functions: sin and cos of asin and atan2 (polar coordinates)."""
    x, y, z, w = xyzw(quat(*[Rc(n) for n in ('x', 'y', 'z', 'w')]))
    q = quat(x, y, z, w)
    v = vec(Rc('a'), Rc('b'), Rc('c'))
    m00, m01, m02 = w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)
    m10, m11, m12 = 2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)
    m21, m22 = 2 * (y * z + w * x), w * w - x * x - y * y + z * z
    s = real(-2) * (x * z - w * y)
    unit = x * x + y * y + z * z + w * w == 1
    lim = real('0.99999')
    band = z3.And(-lim < s, s < lim)
    r, p, t = ATAN2(real(2) * (y * z + w * x), w * w - x * x - y * y + z * z), ASIN(s), ATAN2(real(2) * (x * y + w * z), w * w + x * x - y * y - z * z)
    cr, sr, cp, sp, cy, sy = Rc('cr'), Rc('sr'), Rc('cp'), Rc('sp'), Rc('cy'), Rc('sy')
    names = [cr == COS(r), sr == SIN(r), cp == COS(p), sp == SIN(p), cy == COS(t), sy == SIN(t)]
    asin = z3.Implies(z3.And(-1 <= s, s <= 1), z3.And(SIN(p) == s, COS(p) >= 0))
    polar = lambda a, b, h: z3.Implies(z3.And(h > 0, h * h == a * a + b * b), z3.And(h * SIN(ATAN2(a, b)) == a, h * COS(ATAN2(a, b)) == b))
    A, B, C, D, S_, Q1, Q2 = [Rc(n) for n in ('A', 'B', 'C', 'D', 'S', 'Q1', 'Q2')]
    steps = [('the cosine of the pitch', [band, asin, COS(p) * COS(p) + SIN(p) * SIN(p) == 1] + names, z3.And(cp > 0, sp == s, cp * cp == 1 - s * s)),
             ('the third row is a unit vector', [unit], m21 * m21 + m22 * m22 == 1 - s * s),
             ('the first column is a unit vector', [unit], m00 * m00 + m10 * m10 == 1 - s * s),
             ('roll is an angle', [cp > 0, cp * cp == A, A == m21 * m21 + m22 * m22, polar(r.arg(0), r.arg(1), cp), r.arg(0) == m21, r.arg(1) == m22] + names[:2], z3.And(cp * sr == m21, cp * cr == m22)),
             ('yaw is an angle', [cp > 0, cp * cp == A, A == m10 * m10 + m00 * m00, polar(t.arg(0), t.arg(1), cp), t.arg(0) == m10, t.arg(1) == m00] + names[4:], z3.And(cp * sy == m10, cp * cy == m00))]
    # the other entries: cp^2 times the entry, in terms of the first column and the last row
    ent = dict(m01=(cy * sp * sr - sy * cr, m00 * s * m21 - m10 * m22, m01), m02=(cy * sp * cr + sy * sr, m00 * s * m22 + m10 * m21, m02),
               m11=(sy * sp * sr + cy * cr, m10 * s * m21 + m00 * m22, m11), m12=(sy * sp * cr - cy * sr, m10 * s * m22 - m00 * m21, m12))
    for n, (e, rhs, m) in ent.items():
        steps.append(('entry %s of the matrix' % n, [unit], rhs == m * (1 - s * s)))
        a00, a10, a21, a22 = cp * cy, cp * sy, cp * sr, cp * cr
        expr = {'m01': a00 * sp * a21 - a10 * a22, 'm02': a00 * sp * a22 + a10 * a21, 'm11': a10 * sp * a21 + a00 * a22, 'm12': a10 * sp * a22 - a00 * a21}[n]
        steps.append(('entry %s from the angles' % n, [], cp * cp * e == expr))
        abstract = {'m01': A * S_ * C - B * D, 'm02': A * S_ * D + B * C, 'm11': B * S_ * C + A * D, 'm12': B * S_ * D - A * C}[n]
        steps.append(('entry %s agrees' % n, [cp > 0, cp * cp == 1 - S_ * S_, cp * cp * Q1 == z3.substitute(expr, (a00, A), (a10, B), (a21, C), (a22, D), (sp, S_)), abstract == Q2 * (1 - S_ * S_)], Q1 == Q2))
    a, b, c = xyz(v)
    mat = vec(cy * cp * a + (cy * sp * sr - sy * cr) * b + (cy * sp * cr + sy * sr) * c,
              sy * cp * a + (sy * sp * sr + cy * cr) * b + (sy * sp * cr - cy * sr) * c,
              -sp * a + cp * sr * b + cp * cr * c)
    E, G = [[Rc('%s%d' % (n, k)) for k in range(9)] for n in 'eg']
    full = [m00, m01, m02, m10, m11, m12, real(2) * (x * z - w * y), m21, m22]
    ang = [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, -sp, cp * sr, cp * cr]
    for f, g in zip(xyz(mat), xyz(d_matrix(q, v))):
        steps.append(('the matrices agree', [e == h for e, h in zip(E, G)], z3.substitute(f, *zip(ang, G)) == z3.substitute(g, *zip(full, E))))
    R3 = S.RPY(q)
    rr, pp, tt = xyz(R3)
    ang3, A3 = z3.And(rr == r, pp == p, tt == t), [Rc(n) for n in ('ra', 'pa', 'ya')]
    steps.append(('the angles off the band', [band, spec.d_rpy(q) == S.RPY(q)], ang3))
    M1, M2 = Vc('M1'), Vc('M2')     # stand for the two matrices applied to v
    steps.append(('the statement', [e == f for e, f in zip((rr, pp, tt), A3)] + [S.ROTV(q, v) == M2, S.ROTV(S.FROMRPY(*A3), v) == M1, M1 == M2],
                  S.ROTV(S.FROMRPY(rr, pp, tt), v) == S.ROTV(q, v)))
    return dict(vars=[x, y, z, w] + list(xyz(v)), hyp=z3.And(unit, band), concl=S.ROTV(S.FROMRPY(rr, pp, tt), v) == S.ROTV(q, v), pats=[], raw=steps)
