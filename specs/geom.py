"""Contracts of the rotation and pose layer (urdf_model/pose.h, pose.cpp, joint.h, kinematics.cpp helpers)."""
from ccv.contract import Contract
from ccv.spec import *
from ccv import spec

PV = 'urdf::Vector3::'
Q = 'urdf::Rotation::'


class Opd(Contract):
    """A function whose result is one named operator of its arguments (definition revealed for its own proof)."""
    op = None
    reveal = True

    def args(self, cx):
        raise NotImplementedError

    def ensures(self, cx):
        return [('the result is %s' % self.op, cx.result == getattr(S, self.op)(*self.args(cx)))]


def this_of(cx):
    return cx.ex.read(cx.this, cx.old)


class Cross(Opd):
    qual = 'urdf::cross_product'

    def requires(self, cx):
        # the output must not alias an input
        return []

    def modifies(self, cx):
        return [cx.place(2)]

    def ensures(self, cx):
        return [('out = a x b', cx.argp(2) == S.CROSS(cx.arg(0), cx.arg(1)))]


class QMul(Opd):
    qual, typ, op = Q + 'operator*', 'const Rotation &', 'QMUL'

    def args(self, cx):
        return [this_of(cx), cx.arg(0)]


class QRot(Opd):
    qual, typ, op = Q + 'operator*', '(Vector3)', 'ROTV'

    def args(self, cx):
        return [this_of(cx), cx.arg(0)]

    def lemmas(self, cx, st):
        # an instance of qmul_assoc (proved): the three factors may be grouped either way
        q, v = self.args(cx)
        p, i = quat(*xyz(v), real(0)), S.QINV(q)
        return [S.QMUL(S.QMUL(q, p), i) == S.QMUL(q, S.QMUL(p, i))]


class GetInverse(Opd):
    qual, op = Q + 'GetInverse', 'QINV'

    def args(self, cx):
        return [this_of(cx)]


class QInverse(Opd):
    qual, op = Q + 'inverse', 'QINV'

    def requires(self, cx):
        return [('the quaternion is not zero', nrm2(this_of(cx)) > 0)]

    def args(self, cx):
        return [this_of(cx)]


class QInverseIn(Contract):
    qual = Q + 'inverse_inplace'

    def requires(self, cx):
        return [('the quaternion is not zero', nrm2(this_of(cx)) > 0)]

    def modifies(self, cx):
        return [cx.this]

    def ensures(self, cx):
        return [('the quaternion becomes its inverse', cx.ex.read(cx.this, cx.post) == S.QINV(this_of(cx)))]


class Normalize(Contract):
    qual = Q + 'normalize'

    def modifies(self, cx):
        return [cx.this]

    def ensures(self, cx):
        return [('the quaternion is scaled to unit length', cx.ex.read(cx.this, cx.post) == S.NORMQ(this_of(cx)))]


class SetRPY(Contract):
    qual = Q + 'setFromRPY'

    def modifies(self, cx):
        return [cx.this]

    def ensures(self, cx):
        return [('the rotation is Rz(yaw) Ry(pitch) Rx(roll)', cx.ex.read(cx.this, cx.post) == S.FROMRPY(cx.arg(0), cx.arg(1), cx.arg(2)))]


    def at_return(self, cx, st):
        e = d_fromrpy(cx.arg(0), cx.arg(1), cx.arg(2))
        return [('the product of the three rotations has unit norm', nrm2(e) == 1),
                ('so its length is one', SQRT(nrm2(e)) == 1),
                ('normalising it changes nothing', S.NORMQ(e) == e)]


class GetRPY3(Contract):
    qual, nparams = Q + 'getRPY', 3

    def modifies(self, cx):
        return [cx.place(0), cx.place(1), cx.place(2)]

    def ensures(self, cx):
        r = S.RPY(this_of(cx))
        return [('%s is that of the rotation' % n, cx.argp(i) == X(r, f)) for i, (n, f) in enumerate((('roll', 'x'), ('pitch', 'y'), ('yaw', 'z')))]


class GetRPY0(Opd):
    qual, nparams, op = Q + 'getRPY', 0, 'RPY'

    def args(self, cx):
        return [this_of(cx)]


class PInvIn(Contract):
    qual = 'urdf::Pose::inverse_inplace'

    def requires(self, cx):
        return [('the quaternion is not zero', nrm2(rot(this_of(cx))) > 0)]

    def modifies(self, cx):
        return [cx.this]

    def ensures(self, cx):
        return [('the pose becomes its inverse', cx.ex.read(cx.this, cx.post) == S.PINV(this_of(cx)))]


class PInv(Opd):
    qual, op = 'urdf::Pose::inverse', 'PINV'

    def requires(self, cx):
        return [('the quaternion is not zero', nrm2(rot(this_of(cx))) > 0)]

    def args(self, cx):
        return [this_of(cx)]


class PoseTransform(Opd):
    qual, op = 'urdf::pose_transform', 'COMP'

    def args(self, cx):
        return [cx.arg(0), cx.arg(1)]


class JTransform(Opd):
    qual, op = 'urdf::Joint::transform', 'JM'

    def jtype(self, cx):
        return cx.ex.read(cx.ex.lvf(cx.this, 'type'), cx.old)

    def throws(self, cx):
        t = self.jtype(cx)
        return z3.Not(z3.Or(*[t == k for k in (REVOLUTE, CONTINUOUS, PRISMATIC, FIXED)]))

    def args(self, cx):
        return [self.jtype(cx), cx.ex.read(cx.ex.lvf(cx.this, 'axis'), cx.old), cx.arg(0)]


class RpyDerivative(Opd):
    qual, op = 'tinyfk::rpy_derivative', 'RPYD'

    def args(self, cx):
        return [cx.arg(0), cx.arg(1)]


class QDerivative(Opd):
    """Called with the inverse of the rotation; yields the derivative of the rotation itself."""
    qual = 'tinyfk::q_derivative'

    def ensures(self, cx):
        x, y, z, w = xyzw(cx.arg(0))
        return [('the result is 1/2 w q for the conjugate q of the argument',
                 cx.result == S.QD(quat(-x, -y, -z, w), cx.arg(1)))]


CONTRACTS = [Cross, QMul, QRot, GetInverse, QInverse, QInverseIn, Normalize, SetRPY, GetRPY3, GetRPY0, PInvIn, PInv, PoseTransform,
             JTransform, RpyDerivative, QDerivative]
