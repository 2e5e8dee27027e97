"""Specification functions (mathematics only; nothing here is read from the code under verification).

Rotations are quaternions (x, y, z, w); poses are (position, rotation).  The named operators are uninterpreted
for the solver; their definitions (DEFS) are revealed where a proof needs them."""
import z3
from .sym import *
from .lib import SIN, COS, ASIN, ATAN2, SQRT

tV, tQ, tP = [T('struct', name=n) for n in ('urdf::Vector3', 'urdf::Rotation', 'urdf::Pose')]
PI_2 = real(repr(1.57079632679489661923))


class _S:
    pass


S = _S()


def init():
    """Sorts exist only after the class layouts are known."""
    if hasattr(S, 'V'):
        return S
    S.V, S.Q, S.P = sort_of(tV), sort_of(tQ), sort_of(tP)
    V, Q, P, R = S.V, S.Q, S.P, Real
    F = z3.Function
    S.QMUL = F('QMUL', Q, Q, Q)
    S.ROTV = F('ROTV', Q, V, V)
    S.QINV = F('QINV', Q, Q)
    S.CROSS = F('CROSS', V, V, V)
    S.COMP = F('COMP', P, P, P)
    S.PINV = F('PINV', P, P)
    S.JM = F('JM', Int, V, R, P)
    S.FROMRPY = F('FROMRPY', R, R, R, Q)
    S.NORMQ = F('NORMQ', Q, Q)
    S.RPY = F('RPY', Q, V)
    S.RPYD = F('RPYD', V, V, V)
    S.QD = F('QD', Q, V, Q)
    return S


def vec(x, y, z):
    return mkrec(tV, x=x, y=y, z=z)


def quat(x, y, z, w):
    return mkrec(tQ, x=x, y=y, z=z, w=w)


def pose(p, q):
    return mkrec(tP, position=p, rotation=q)


def mkrec(t, **kw):
    return mk(t, [kw[f] for f, _ in fields_of(t)])


def X(v, f):
    t = tV if v.sort() == S.V else tQ if v.sort() == S.Q else tP
    return acc(t, v, f)


def xyz(v):
    return [X(v, f) for f in 'xyz']


def xyzw(q):
    return [X(q, f) for f in 'xyzw']


def pos(p):
    return acc(tP, p, 'position')


def rot(p):
    return acc(tP, p, 'rotation')


QID = lambda: quat(real(0), real(0), real(0), real(1))
V0 = lambda: vec(real(0), real(0), real(0))
PID = lambda: pose(V0(), QID())


# ---- definitions in terms of components
def d_qmul(a, b):
    ax, ay, az, aw = xyzw(a)
    bx, by, bz, bw = xyzw(b)
    return quat(aw * bx + ax * bw + ay * bz - az * by,
                aw * by - ax * bz + ay * bw + az * bx,
                aw * bz + ax * by - ay * bx + az * bw,
                aw * bw - ax * bx - ay * by - az * bz)


def nrm2(q):
    x, y, z, w = xyzw(q)
    return x * x + y * y + z * z + w * w


def d_qinv(q):
    """Inverse (the identity for the zero quaternion)."""
    x, y, z, w = xyzw(q)
    n = nrm2(q)
    return z3.If(n > 0, quat(-x / n, -y / n, -z / n, w / n), QID())


def d_rotv(q, v):
    x, y, z = xyz(v)
    r = S.QMUL(q, S.QMUL(quat(x, y, z, real(0)), S.QINV(q)))
    return vec(*[X(r, f) for f in 'xyz'])


def _conj(q):
    x, y, z, w = xyzw(q)
    return [-x, -y, -z, w]


def d_cross(a, b):
    ax, ay, az = xyz(a)
    bx, by, bz = xyz(b)
    return vec(ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx)


def vadd(a, b):
    return vec(*[p + q for p, q in zip(xyz(a), xyz(b))])


def vsub(a, b):
    return vec(*[p - q for p, q in zip(xyz(a), xyz(b))])


def vscale(s, a):
    return vec(*[s * p for p in xyz(a)])


def d_comp(a, b):
    return pose(vadd(S.ROTV(rot(a), pos(b)), pos(a)), S.QMUL(rot(a), rot(b)))


def d_pinv(a):
    """Inverse of a pose with a non-zero rotation."""
    qi = S.QINV(rot(a))
    return pose(S.ROTV(qi, vec(*[-c for c in xyz(pos(a))])), qi)


REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED = 1, 2, 3, 4, 5, 6


def d_jm(t, ax, th):
    """Motion of a joint."""
    s, c = SIN(th * real('1/2')), COS(th * real('1/2'))
    x, y, z = xyz(ax)
    return z3.If(z3.Or(t == REVOLUTE, t == CONTINUOUS), pose(V0(), quat(x * s, y * s, z * s, c)),
                 z3.If(t == PRISMATIC, pose(vec(x * th, y * th, z * th), QID()), PID()))


def d_fromrpy(r, p, y):
    h = real('1/2')
    sr, cr, sp, cp, sy, cy = SIN(r * h), COS(r * h), SIN(p * h), COS(p * h), SIN(y * h), COS(y * h)
    qz, qy, qx = quat(real(0), real(0), sy, cy), quat(real(0), sp, real(0), cp), quat(sr, real(0), real(0), cr)
    return d_qmul(qz, d_qmul(qy, qx))


def d_normq(q):
    s = SQRT(nrm2(q))
    return z3.If(s == 0, QID(), quat(*[c / s for c in xyzw(q)]))


def d_rpy(q):
    x, y, z, w = xyzw(q)
    sarg = real(-2) * (x * z - w * y)
    lim = real('0.99999')
    return z3.If(sarg <= -lim, vec(real(0), -PI_2, real(2) * ATAN2(x, -y)),
                 z3.If(sarg >= lim, vec(real(0), PI_2, real(2) * ATAN2(-x, y)),
                       vec(ATAN2(real(2) * (y * z + w * x), w * w - x * x - y * y + z * z), ASIN(sarg),
                           ATAN2(real(2) * (x * y + w * z), w * w + x * x - y * y - z * z))))


def d_rpyd(rpy, w):
    """Rate of (roll, pitch, yaw) when the frame turns with angular velocity w."""
    _, p, y = xyz(rpy)
    wx, wy, wz = xyz(w)
    c = COS(y) * wx + SIN(y) * wy
    return vec(c / COS(p), -SIN(y) * wx + COS(y) * wy, c * SIN(p) / COS(p) + wz)


def d_qd(q, w):
    """Rate of the quaternion q of a frame turning with angular velocity w (1/2 w q)."""
    wx, wy, wz = xyz(w)
    r = d_qmul(quat(wx, wy, wz, real(0)), q)
    return quat(*[c / 2 for c in xyzw(r)])


def defs():
    return {S.QMUL: d_qmul, S.ROTV: d_rotv, S.QINV: d_qinv, S.CROSS: d_cross, S.COMP: d_comp, S.PINV: d_pinv, S.JM: d_jm,
            S.FROMRPY: d_fromrpy, S.NORMQ: d_normq, S.RPY: d_rpy, S.RPYD: d_rpyd, S.QD: d_qd}


def reveal(terms, names=None, depth=3):
    """Definition instances for the operator applications occurring in terms."""
    D = {f.name(): (f, d) for f, d in defs().items() if names is None or f.name() in names}
    out, seen = [], set()
    todo = list(terms)
    for _ in range(depth):
        new = []
        st = list(todo)
        vis = set()
        while st:
            t = st.pop()
            if t.get_id() in vis or z3.is_quantifier(t):
                continue
            vis.add(t.get_id())
            if z3.is_app(t):
                if t.decl().name() in D and t.get_id() not in seen:
                    seen.add(t.get_id())
                    e = D[t.decl().name()][1](*t.children())
                    out.append(t == e)
                    new.append(e)
                st.extend(t.children())
        todo = new
        if not new:
            break
    return out


def expand(t, names=None, memo=None, more=None):
    """t with every operator application replaced by its definition, everywhere."""
    D = {f.name(): (f, d) for f, d in list(defs().items()) + list((more or {}).items()) if names is None or f.name() in names}
    memo = {} if memo is None else memo

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            if t.decl().name() in D:
                r = go(D[t.decl().name()][1](*ch))
            elif t.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                c = ch[0].decl()
                s = ch[0].sort()
                i = [j for j in range(c.arity()) if s.accessor(0, j).eq(t.decl())][0]
                r = ch[0].arg(i)
            elif t.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_ITE:
                r = z3.If(ch[0].arg(0), go(t.decl()(ch[0].arg(1))), go(t.decl()(ch[0].arg(2))))
            else:
                r = t.decl()(*ch)
        memo[k] = (t, r)
        return r
    return go(t)


def trig(terms):
    """Instances of the trigonometric facts for the applications occurring in terms."""
    seen, st, out = set(), list(terms), []
    done = set()
    while st:
        t = st.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 1 and t.decl().name() in ('SIN', 'COS'):
                a = t.arg(0)
                if a.get_id() not in done:
                    done.add(a.get_id())
                    s, c = SIN(a), COS(a)
                    out += [s * s + c * c == 1, SIN(-a) == -s, COS(-a) == c]
            if t.num_args() == 1 and t.decl().name() == 'SQRT' and t.get_id() not in done:
                done.add(t.get_id())
                out += [t >= 0, z3.Implies(t.arg(0) >= 0, t * t == t.arg(0))]
            st.extend(t.children())
    if done:
        out += [SIN(real(0)) == 0, COS(real(0)) == 1]
    return out
