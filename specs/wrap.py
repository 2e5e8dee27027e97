"""Contracts of the batch interface (KinematicsModelPyWrapper)."""
from ccv.contract import Contract
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import SQRT
from ccv import lemma
from .model import MC, SCRATCH, KM, VI, VR, parts, ids_ok
from .jac import use, MAT, RPYT, XYZW, IGNORE, jacf, isk
from .mass import Sums, Fold, M33, MassContract

W = 'KinematicsModelPyWrapper::'
VVR = T('vec', VR)


def base_of(at):
    """Pose given by x, y, z, roll, pitch, yaw."""
    return pose(vec(at(0), at(1), at(2)), S.FROMRPY(at(3), at(4), at(5)))


class SetBaseIt(MC):
    qual, typ = W + 'set_base_pose', '__normal_iterator'
    typ = 'const_iterator'

    def six(self, cx):
        it = cx.args[0]
        a = cx.ex.read(cx.ex.lvf(it.c, 'arr'), cx.old)
        return lambda k: sel(a, it.pos + k)

    def requires(self, cx):
        it = cx.args[0]
        return self.m0(cx).sizes() + [('six values follow', z3.And(it.pos >= 0, it.pos + 6 <= cx.ex.read(cx.ex.lvf(it.c, 'len'), cx.old)))]

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('base_pose_'), m.at('transform_cache_', 'cache_predicate_vector_')]

    def ensures(self, cx):
        m = self.m1(cx)
        return [('the base pose is (x, y, z, roll, pitch, yaw)', m.base == base_of(self.six(cx))), m.clearcache(), m.sizes()[0]]


class SetBaseVec(SetBaseIt):
    typ = 'const std::vector<double> &'
    exc = 'std::invalid_argument'

    def six(self, cx):
        a = parts(cx, 0, VR)[1]
        return lambda k: sel(a, z3.IntVal(k))

    def requires(self, cx):
        return self.m0(cx).sizes()

    def throws(self, cx):
        return parts(cx, 0, VR)[0] != 6


class GetBase(MC):
    qual = W + 'get_base_pose'
    reads_not = SCRATCH

    def ensures(self, cx):
        b = self.m0(cx).base
        v = xyz(pos(b)) + xyz(S.RPY(rot(b)))
        return [('six values', acc(VR, cx.result, 'len') == 6)] + [('value %d' % i, sel(acc(VR, cx.result, 'arr'), z3.IntVal(i)) == x) for i, x in enumerate(v)]


class WM(M):
    """The model with other joint values and base pose."""
    def __init__(self, m, angles, base):
        M.__init__(self, m.ex, m.this, m.st)
        self._a, self._b = angles, base
    angles = property(lambda s: s._a)
    base = property(lambda s: s._b)


FQ, FR = z3.Function('FQ', Int, Int, Int), z3.Function('FR', Int, Int, Int)
h_, c_ = z3.Int('h?'), z3.Int('c?')


def flat_def(ex, n):
    """Quotient and remainder of a flat index by n (definition)."""
    q, r = FQ(n, h_), FR(n, h_)
    return fa([h_], z3.Implies(z3.And(n > 0, h_ >= 0), z3.And(q >= 0, 0 <= r, r < n, h_ == ex.imul(q, n) + r)), q)


class Batch(MC):
    """A call for a list of waypoints; `lists` are the argument positions of (waypoints, joint ids)."""
    lists = (0, 1)
    wb = True
    jac_arg = None

    # ---- the configuration at waypoint i
    def seq(self, cx):
        return parts(cx, self.lists[0], VVR)

    def ids(self, cx):
        return parts(cx, self.lists[1], VI)

    def q(self, cx, i):
        e = sel(self.seq(cx)[1], i)
        return acc(VR, e, 'len'), acc(VR, e, 'arr')

    def with_base(self, cx):
        return FALSE

    def wp(self, cx, i):
        m = self.m0(cx)
        n, q = self.q(cx, i)
        nk, ids = self.ids(cx)
        b = m.base if z3.is_false(self.with_base(cx)) else base_of(lambda k: sel(q, n - 6 + k))
        return WM(m, seta(ids, q, m.angles, nk), b)

    def lemmas(self, cx, st):
        cx.ex.no_unfold = True
        return [use(cx.ex, 'seta_override', 'unit_fromrpy')]

    def requires(self, cx):
        m = self.m0(cx)
        nw, _ = self.seq(cx)
        nk, ids = self.ids(cx)
        n, _ = self.q(cx, I_)
        return m.valid() + m.units() + m.relevance() + [m.coh(), ('the joint ids are valid', ids_ok(ids, nk, m.m)),
                                            ('every waypoint has a value per joint', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < nw), z3.And(n >= nk, implies(self.with_base(cx), n >= 6))), sel(self.seq(cx)[1], I_)))]

    def reuse(self, cx, use_cache):
        """A caller who asks to keep the cached poses passes the current joint angles (a call with base pose clears them anyway)."""
        if z3.is_false(use_cache) or z3.is_true(self.with_base(cx)):
            return []
        return [('the waypoints are the current joint angles', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.seq(cx)[0]), self.wp(cx, I_).angles == self.m0(cx).angles), sel(self.seq(cx)[1], I_)))]

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('joint_angles_', 'arr'), m.at('base_pose_'), m.at('transform_stack_'), m.at('transform_cache_', 'data_', 'arr'), m.at('transform_cache_', 'cache_predicate_vector_')]

    def config(self, cx, m, k):
        """Configuration after the first k waypoints."""
        m0, w = self.m0(cx), self.wp(cx, k - 1)
        return [('joint angles after the last waypoint', z3.And(z3.Implies(k == 0, m.angles == m0.angles), z3.Implies(k > 0, m.angles == w.angles))),
                ('base pose after the last waypoint', z3.And(z3.Implies(k == 0, m.base == m0.base), z3.Implies(k > 0, m.base == w.base)))]

    def state(self, cx):
        m1 = self.m1(cx)
        return self.config(cx, m1, self.seq(cx)[0]) + [m1.coh(), m1.sizes()[0], ('the base rotation is a unit quaternion', S.UNIT(rot(m1.base)))]

    def outer(self, L):
        """Iteration count of the loop over the waypoints, and whether L is that loop."""
        ex = L.ex
        if L.modified(self.m0(L.cx).at('joint_angles_', 'arr')):
            ex.outerk = L.k
            return L.k, True
        return getattr(ex, 'outerk', z3.IntVal(0)), False

    def invariants(self, L):
        cx = L.cx
        K, top = self.outer(L)
        at = lambda v: M(v.ex, cx.this, v.st)
        out = [('cached poses are current', lambda v, k: at(v).coh()[1]), ('the stack keeps its capacity', lambda v, k: at(v).sizes()[0][1])]
        if top:
            out += [(nm, lambda v, k, i=i: self.config(cx, at(v), k)[i][1]) for i, (nm, _) in enumerate(self.config(cx, self.m0(cx), z3.IntVal(0)))]
        return out + self.results(L, K, top)

    def mats(self, L):
        return [lv for lv in L.holes(lambda t: t == MAT, all_frames=True) if L.modified(lv)]


def at_(lv, v):
    a = v.ex.read(v.ex.lvf(lv, 'at'), v.st)
    I = lambda x: x if isinstance(x, z3.ExprRef) else z3.IntVal(x)
    return lambda i, j: sel(sel(a, I(i)), I(j))


AM = T('array', MAT, 2)


class SolveFK(Batch):
    qual = W + 'solve_forward_kinematics'
    lists = (0, 2)
    exc = 'std::invalid_argument'

    def cases(self):
        return [(r, b, j, u) for u in (False, True) for r in (IGNORE, RPYT, XYZW) for b in (False, True) for j in (False, True)]

    def param(self, ex, i, t, case):
        if i == 3:
            return z3.IntVal(case[0])
        if i in (4, 5, 6):
            return z3.BoolVal(case[i - 3])

    def with_base(self, cx):
        return cx.arg(4)

    def links(self, cx):
        return parts(cx, 1, VI)

    def dim(self, cx):
        return {IGNORE: 3, RPYT: 6, XYZW: 7}[cx.arg(3).as_long()]

    def cols(self, cx):
        return self.ids(cx)[0] + (6 if z3.is_true(cx.arg(4)) else 0)

    def requires(self, cx):
        k, ids = self.links(cx)
        return Batch.requires(self, cx) + self.reuse(cx, cx.arg(6)) + [('the link ids are valid', ids_ok(ids, k, self.m0(cx).n))]

    def throws(self, cx):
        nw, _ = self.seq(cx)
        return z3.And(self.with_base(cx), nw > 0, self.ids(cx)[0] != self.q(cx, z3.IntVal(0))[0] - 6)

    def pose(self, cx, h):
        """The coordinates of row h."""
        k, ids = self.links(cx)
        w = self.wp(cx, FQ(k, h))
        F = w.FK(sel(w.links, sel(ids, FR(k, h))))
        rt = cx.arg(3).as_long()
        return xyz(pos(F)) + (xyz(S.RPY(rot(F))) if rt == RPYT else xyzw(rot(F)) if rt == XYZW else [])

    def jac(self, cx, R, c):
        k, ids = self.links(cx)
        nk, js = self.ids(cx)
        d = z3.IntVal(self.dim(cx))
        h = R / d
        w = self.wp(cx, FQ(k, h))
        return jacf(w, sel(w.links, sel(ids, FR(k, h))), js, nk, cx.arg(3), cx.arg(4))(R % d, c)

    def lemmas(self, cx, st):
        return Batch.lemmas(self, cx, st) + [flat_def(cx.ex, self.links(cx)[0])]

    def poses(self, cx, at, n):
        return [('coordinate %d of the poses' % r, fa([h_], z3.Implies(z3.And(0 <= h_, h_ < n), at(h_, r) == x), at(h_, r))) for r, x in enumerate(self.pose(cx, h_))]

    def jacs(self, cx, at, n):
        return ('the Jacobian blocks', fa([R_, c_], z3.Implies(z3.And(0 <= R_, R_ < self.dim(cx) * n, 0 <= c_, c_ < self.cols(cx)), at(R_, c_) == self.jac(cx, R_, c_)), at(R_, c_)))

    def ensures(self, cx):
        P, J = acc(AM, cx.result, 'e0'), acc(AM, cx.result, 'e1')
        g = lambda X: (lambda i, j: sel(sel(acc(MAT, X, 'at'), i), z3.IntVal(j) if isinstance(j, int) else j))
        n = cx.ex.imul(self.seq(cx)[0], self.links(cx)[0])
        d = self.dim(cx)
        out = [('one pose row per waypoint and link', acc(MAT, P, 'rows') == n), ('pose coordinates', acc(MAT, P, 'cols') == d)] + self.poses(cx, g(P), n)
        if z3.is_true(cx.arg(5)):
            out += [('one Jacobian block per waypoint and link', acc(MAT, J, 'rows') == d * n), ('one column per joint (and six for the base)', acc(MAT, J, 'cols') == self.cols(cx)), self.jacs(cx, g(J), n)]
        return out + self.state(cx)

    def results(self, L, K, top):
        cx = L.cx
        n = self.links(cx)[0]
        done = (lambda k: L.ex.imul(k, n)) if top else (lambda k: L.ex.imul(K, n) + k)
        out = []
        for lv in self.mats(L):
            r = z3.simplify(L.ex.read(L.ex.lvf(lv, 'rows'), L.pre))
            c = z3.simplify(L.ex.read(L.ex.lvf(lv, 'cols'), L.pre))
            if z3.is_int_value(r) or z3.is_int_value(c):
                flip = (lambda f: (lambda i, j: f(j, i))) if z3.is_int_value(r) else (lambda f: f)
                names = ['coordinate %d of the first poses' % i for i in range(self.dim(cx))]
                out += [(nm, lambda v, k, lv=lv, i=i, flip=flip: self.poses(cx, flip(at_(lv, v)), done(k))[i][1]) for i, nm in enumerate(names)]
            else:
                out.append(('the first Jacobian blocks', lambda v, k, lv=lv: self.jacs(cx, at_(lv, v), done(k))[1]))
        return out


VEC = T('mat', -1, 1)
MATPAIR = T('pair', VEC, MAT)


def el(X, t):
    """(i, j) -> element of the matrix value X."""
    I = lambda x: x if isinstance(x, z3.ExprRef) else z3.IntVal(x)
    return lambda i, j: sel(sel(acc(t, X, 'at'), I(i)), I(j))


class SqDists(Batch):
    """Squared distances of link pairs."""
    qual = W + 'compute_inter_link_squared_dists'
    lists = (0, 3)

    def cases(self):
        return [(b, g, u) for u in (False, True) for b in (False, True) for g in (False, True)]

    def param(self, ex, i, t, case):
        if i in (4, 5, 6):
            return z3.BoolVal(case[i - 4])

    def with_base(self, cx):
        return cx.arg(4)

    def cols(self, cx):
        return self.ids(cx)[0] + (6 if z3.is_true(cx.arg(4)) else 0)

    def requires(self, cx):
        k1, i1 = parts(cx, 1, VI)
        k2, i2 = parts(cx, 2, VI)
        n = self.m0(cx).n
        return Batch.requires(self, cx) + self.reuse(cx, cx.arg(6)) + [('the first link ids are valid', ids_ok(i1, k1, n)), ('the second link ids are valid', ids_ok(i2, k2, n)),
                                                                      ('the link lists have one length', k1 == k2)]

    def at(self, cx, h):
        """Configuration, the two links of row h."""
        k, i1 = parts(cx, 1, VI)
        i2 = parts(cx, 2, VI)[1]
        w = self.wp(cx, FQ(k, h))
        return w, sel(w.links, sel(i1, FR(k, h))), sel(w.links, sel(i2, FR(k, h)))

    def lemmas(self, cx, st):
        return Batch.lemmas(self, cx, st) + [flat_def(cx.ex, parts(cx, 1, VI)[0])]

    def diff(self, cx, h):
        w, a, b = self.at(cx, h)
        return [x - y for x, y in zip(xyz(pos(w.FK(a))), xyz(pos(w.FK(b))))]

    def dists(self, cx, at, n):
        d = self.diff(cx, h_)
        return fa([h_], z3.Implies(z3.And(0 <= h_, h_ < n), at(h_, 0) == d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), at(h_, 0))

    def grads(self, cx, at, n):
        nk, js = self.ids(cx)
        w, a, b = self.at(cx, h_)
        A, B = [jacf(w, x, js, nk, IGNORE, cx.arg(4)) for x in (a, b)]
        d = self.diff(cx, h_)
        g = sum((2 * (A(r, c_) - B(r, c_)) * d[r] for r in range(3)), real(0))
        return fa([h_, c_], z3.Implies(z3.And(0 <= h_, h_ < n, 0 <= c_, c_ < self.cols(cx)), at(h_, c_) == g), at(h_, c_))

    def ensures(self, cx):
        D, G = acc(MATPAIR, cx.result, 'first'), acc(MATPAIR, cx.result, 'second')
        n = cx.ex.imul(self.seq(cx)[0], parts(cx, 1, VI)[0])
        out = [('one entry per waypoint and pair', acc(VEC, D, 'rows') == n), ('the squared distances', self.dists(cx, el(D, VEC), n))]
        if z3.is_true(cx.arg(5)):
            out += [('one gradient per waypoint and pair', acc(MAT, G, 'rows') == n), ('one gradient entry per joint (and six for the base)', acc(MAT, G, 'cols') == self.cols(cx)),
                    ('the gradients', self.grads(cx, el(G, MAT), n))]
        return out + self.state(cx)

    def results(self, L, K, top):
        cx = L.cx
        n = parts(cx, 1, VI)[0]
        done = (lambda k: L.ex.imul(k, n)) if top else (lambda k: L.ex.imul(K, n) + k)
        out = []
        for t in (VEC, MAT):
            f = self.dists if t == VEC else self.grads
            for lv in L.holes(lambda x, t=t: x == t, all_frames=True):
                if L.modified(lv):
                    out.append(('the first squared distances' if t == VEC else 'the first gradients', lambda v, k, lv=lv, f=f: f(cx, at_(lv, v), done(k))))
        return out


class SolveCom(Batch):
    """Centre of mass and acting forces."""
    qual = W + 'solve_com_forward_kinematics'
    lists = (0, 1)

    def cases(self):
        return [(b, j) for b in (False, True) for j in (False, True)]

    def param(self, ex, i, t, case):
        if i in (4, 5):
            return z3.BoolVal(case[i - 4])

    def with_base(self, cx):
        return cx.arg(4)

    def cols(self, cx):
        return self.ids(cx)[0] + (6 if z3.is_true(cx.arg(4)) else 0)

    def requires(self, cx):
        m = self.m0(cx)
        k, ids = parts(cx, 2, VI)
        return Batch.requires(self, cx) + m.coms() + [('the total mass is positive', Sums(m).mass()(m.ncom) > 0), ('the acting link ids are valid', ids_ok(ids, k, m.n)),
                                                      ('one force per acting link', parts(cx, 3, VR)[0] >= k)]

    def weights(self, cx, i):
        """Folds over the forces at waypoint i: of the weights, of weight times position, of weight times Jacobian."""
        m, w = self.m0(cx), self.wp(cx, i)
        ids = parts(cx, 2, VI)[1]
        fo = parts(cx, 3, VR)[1]
        nk, js = self.ids(cx)
        tm = m.v('total_mass_')
        W_ = lambda k: sel(fo, k) / tm
        link = lambda k: sel(w.links, sel(ids, k))
        c = z3.Int('c?')
        a = w.cfg() + [w.links, ids, fo, tm]
        ws = Fold('SUM_force', [fo, tm], W_)
        wp = [Fold('SUM_forcepos_' + f, a, lambda k, f=f: W_(k) * X(pos(w.FK(link(k))), f)) for f in 'xyz']
        wj = [Fold('SUM_forcejac_%d' % r, a + [m.child, m.joints, js, nk, cx.arg(4)], lambda k, c, r=r: W_(k) * jacf(w, link(k), js, nk, IGNORE, cx.arg(4))(r, c), [c]) for r in range(3)]
        return ws, wp, wj

    def com(self, cx, i):
        return xyz(Sums(self.wp(cx, i)).com_pos())

    def comjac(self, cx, i, r, c):
        nk, js = self.ids(cx)
        s = Sums(self.wp(cx, i), js, nk, cx.arg(4))
        return s.jac()[r](s.m.ncom, c) / s.mass()(s.m.ncom)

    def coms(self, cx, at, n):
        k = parts(cx, 2, VI)[0]
        ws, wp, _ = self.weights(cx, h_)
        c = self.com(cx, h_)
        return [('coordinate %d of the averages' % r, fa([h_], z3.Implies(z3.And(0 <= h_, h_ < n), at(h_, r) == (c[r] + wp[r](k)) / (1 + ws(k))), at(h_, r))) for r in range(3)]

    def jacs(self, cx, at, n):
        k = parts(cx, 2, VI)[0]
        i = R_ / z3.IntVal(3)
        ws, _, wj = self.weights(cx, i)
        v = [(self.comjac(cx, i, x, c_) + wj[x](k, c_)) / (1 + ws(k)) for x in range(3)]
        return [('row %d of the averaged Jacobians' % x, fa([R_, c_], z3.Implies(z3.And(0 <= R_, R_ < 3 * n, R_ % 3 == x, 0 <= c_, c_ < self.cols(cx)), at(R_, c_) == v[x]), at(R_, c_))) for x in range(3)]

    def ensures(self, cx):
        P, J = acc(AM, cx.result, 'e0'), acc(AM, cx.result, 'e1')
        n = self.seq(cx)[0]
        out = [('one row per waypoint', acc(MAT, P, 'rows') == n), ('three coordinates', acc(MAT, P, 'cols') == 3)] + self.coms(cx, el(P, MAT), n)
        if z3.is_true(cx.arg(5)):
            out += [('three Jacobian rows per waypoint', acc(MAT, J, 'rows') == 3 * n), ('one column per joint (and six for the base)', acc(MAT, J, 'cols') == self.cols(cx))] + self.jacs(cx, el(J, MAT), n)
        return out + self.state(cx)

    def results(self, L, K, top):
        cx = L.cx
        ws, wp, wj = self.weights(cx, K if not top else L.k)
        for f in [ws] + wp + wj:
            L.ex.facts.extend(f.axioms(L.k if not top else z3.IntVal(0)))
        out = []
        for lv in L.holes(lambda t: t == REAL, all_frames=True):
            if L.modified(lv) and not top:
                out.append(('the running weight is one plus the first weights', lambda v, k, lv=lv: v.get(lv) == 1 + ws(k)))
        for lv in self.mats(L):
            r = z3.simplify(L.ex.read(L.ex.lvf(lv, 'rows'), L.pre))
            c = z3.simplify(L.ex.read(L.ex.lvf(lv, 'cols'), L.pre))
            if z3.is_int_value(r) or z3.is_int_value(c):
                flip = (lambda f: (lambda i, j: f(j, i))) if z3.is_int_value(r) else (lambda f: f)
                for x in range(3):
                    out.append(('coordinate %d of the first averages' % x, lambda v, k, lv=lv, x=x, flip=flip: self.coms(cx, flip(at_(lv, v)), k if top else K)[x][1]))
                    if not top:
                        out.append(('coordinate %d of the running sum' % x, lambda v, k, lv=lv, x=x, flip=flip: flip(at_(lv, v))(K, x) == self.com(cx, K)[x] + wp[x](k)))
            else:
                for x in range(3):
                    out.append(('row %d of the first averaged Jacobians' % x, lambda v, k, lv=lv, x=x: self.jacs(cx, at_(lv, v), k if top else K)[x][1]))
                    if not top:
                        out.append(('row %d of the running Jacobian sum' % x, lambda v, k, lv=lv, x=x: fa([R_, c_], z3.Implies(z3.And(R_ == 3 * K + x, 0 <= c_, c_ < self.cols(cx)), at_(lv, v)(R_, c_) == self.comjac(cx, K, x, c_) + wj[x](k, c_)), at_(lv, v)(R_, c_))))
        return out


class TotalInertia(Batch):
    """Inertia for a given joint vector."""
    qual = W + 'compute_total_inertia_matrix'
    lists = (None, 1)

    def seq(self, cx):
        raise NotImplementedError

    def w(self, cx):
        m = self.m0(cx)
        nk, ids = self.ids(cx)
        return WM(m, seta(ids, parts(cx, 0, VR)[1], m.angles, nk), m.base)

    def requires(self, cx):
        m = self.m0(cx)
        nk, ids = self.ids(cx)
        return m.valid() + m.coms() + [m.coh(), ('the total mass is positive', Sums(m).mass()(m.ncom) > 0), ('the joint ids are valid', ids_ok(ids, nk, m.m)),
                                       ('one value per joint', parts(cx, 0, VR)[0] >= nk)]

    def lemmas(self, cx, st):
        cx.ex.no_unfold = True
        return []

    def ensures(self, cx):
        w = self.w(cx)
        s = Sums(w)
        m1 = self.m1(cx)
        return [('entry (%d,%d) is the sum of the rotated and shifted inertias' % ij, acc(M33, cx.result, 'm%d_%d' % ij) == f(w.ncom)) for ij, f in s.inertia(s.com_pos()).items()] + \
            [('the joint angles are set', m1.angles == w.angles), m1.coh(), m1.sizes()[0]]


CONTRACTS = [SetBaseIt, SetBaseVec, GetBase, SolveFK, SqDists, SolveCom, TotalInertia]
