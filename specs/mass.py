"""Contracts of centre of mass, its Jacobian and the total inertia: sums over the links that carry an inertial."""
from ccv.contract import Contract
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv import lemma
from .model import MC, SCRATCH, KM, VI, VR, parts, ids_ok
from .jac import JacSpec, jacf, use, unit_fk, MAT, RPYT, XYZW, IGNORE, EPS

DIAG = ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')
k_ = z3.Int('k?')


class Fold:
    """F(args, k) = step(0) + ... + step(k-1), a recursively defined function of the model state `args`."""
    def __init__(self, name, args, step, params=()):
        self.step = step
        self.params = list(params)
        self.args = list(args)
        self.f = z3.Function(name, *([a.sort() for a in self.args] + [p.sort() for p in self.params] + [Int, Real]))

    def __call__(self, k, *ps):
        return self.f(*(self.args + list(ps) + [k if isinstance(k, z3.ExprRef) else z3.IntVal(k)]))

    def axioms(self, k):
        """Definition at 0 and at k + 1."""
        ps = self.params
        z = self(z3.IntVal(0), *ps) == 0
        s = z3.Implies(k >= 0, self(k + 1, *ps) == self(k, *ps) + self.step(k, *ps))
        if not ps:
            return [z, s]
        return [fa(ps, z, self(z3.IntVal(0), *ps)), fa(ps, s, self(k + 1, *ps))]


class Sums:
    """The sums for model view m (and joint ids for the Jacobian)."""
    def __init__(self, m, ids=None, nk=None, wb=None):
        self.m, self.ids, self.nk, self.wb = m, ids, nk, wb

    def link(self, k):
        return sel(self.m.com, k)

    def mass_of(self, k):
        return sel(self.m.mass, sel(self.m.inertial, self.link(k)))

    def F(self, k):
        return self.m.FK(self.link(k))

    def base(self):
        m = self.m
        return m.cfg() + [m.com, m.inertial, m.mass]

    def mass(self):
        m = self.m
        return Fold('SUM_mass', [m.com, m.inertial, m.mass], self.mass_of)

    def moment(self):
        return [Fold('SUM_moment_' + f, self.base(), lambda k, f=f: self.mass_of(k) * X(pos(self.F(k)), f)) for f in 'xyz']

    def jac(self):
        """Three folds with the column as parameter: the mass-weighted sum of the link Jacobians."""
        m = self.m
        c = z3.Int('c?')
        a = self.base() + [m.child, m.joints, self.ids, self.nk, self.wb]
        return [Fold('SUM_jac_%d' % r, a, lambda k, c, r=r: self.mass_of(k) * jacf(m, self.link(k), self.ids, self.nk, IGNORE, self.wb)(r, c), [c]) for r in range(3)]

    def com_pos(self):
        n = self.m.ncom
        t = self.mass()(n)
        return vec(*[f(n) / t for f in self.moment()])

    def inertia(self, com):
        """{(i, j): fold}: R I R^T + m (|d|^2 Id - d d^T) with d = position - com."""
        m = self.m
        h = {f: m.h(INERT, f) for f in DIAG}

        def step(k, i, j):
            q = rot(self.F(k))
            R = rotmat(q)
            d = xyz(vsub(pos(self.F(k)), com))
            inn = sel(m.inertial, self.link(k))
            I = lambda a, b: sel(h['i' + ''.join(sorted('xyz'[a] + 'xyz'[b]))], inn)
            rir = sum((R[i][a] * I(a, b) * R[j][b] for a in range(3) for b in range(3)), real(0))
            dd = sum((x * x for x in d), real(0)) if i == j else real(0)
            return rir + self.mass_of(k) * (dd - d[i] * d[j])
        a = self.base() + [h[f] for f in DIAG] + [com]
        return {(i, j): Fold('SUM_inertia_%d%d' % (i, j), a, lambda k, i=i, j=j: step(k, i, j)) for i in range(3) for j in range(3)}


def rotmat(q):
    """Columns are the images of the unit vectors (lemma rotv_matrix)."""
    x, y, z, w = xyzw(q)
    return [[1 - 2 * (y * y) - 2 * (z * z), 2 * (x * y) - 2 * (z * w), 2 * (x * z) + 2 * (y * w)],
            [2 * (x * y) + 2 * (z * w), 1 - 2 * (x * x) - 2 * (z * z), 2 * (y * z) - 2 * (x * w)],
            [2 * (x * z) - 2 * (y * w), 2 * (y * z) + 2 * (x * w), 1 - 2 * (x * x) - 2 * (y * y)]]


class MassContract(MC):
    reads_not = SCRATCH

    def requires(self, cx):
        m = self.m0(cx)
        return m.valid() + m.coms() + [m.coh(), ('the total mass is positive', Sums(m).mass()(m.ncom) > 0)]

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('transform_stack_'), m.at('transform_cache_', 'data_', 'arr'), m.at('transform_cache_', 'cache_predicate_vector_', 'arr')]

    def state(self, cx):
        m1 = self.m1(cx)
        return [m1.coh(), m1.sizes()[0]]

    def common(self, L):
        cx = L.cx
        return [('cached poses are current', lambda v, k: M(v.ex, cx.this, v.st).coh()[1]),
                ('the stack keeps its capacity', lambda v, k: M(v.ex, cx.this, v.st).sizes()[0][1])]

    def define(self, L, folds):
        for f in folds:
            L.ex.facts.extend(f.axioms(L.k))

    def mass_inv(self, L, s):
        out = []
        for lv in L.holes(lambda t: t == REAL, all_frames=True):
            if L.modified(lv):
                out.append(('the running mass is the sum of the first masses', lambda v, k, lv=lv: v.get(lv) == s.mass()(k)))
        return out


class GetCom(MassContract):
    qual = KM + 'get_com'

    def ensures(self, cx):
        m = self.m0(cx)
        c = Sums(m).com_pos()
        return [('coordinate %s is the weighted average' % f, X(cx.result, f) == X(c, f)) for f in 'xyz'] + self.state(cx)

    def invariants(self, L):
        s = Sums(self.m0(L.cx))
        mo = s.moment()
        self.define(L, mo + [s.mass()])
        out = self.common(L) + self.mass_inv(L, s)
        for lv in L.holes(lambda t: t == tV, all_frames=True):
            if L.modified(lv):
                out += [('the running sum %s is that of the first moments' % f, lambda v, k, lv=lv, f=f, mf=mf: X(v.get(lv), f) == mf(k)) for f, mf in zip('xyz', mo)]
        return out


class GetComJacobian(MassContract):
    qual = KM + 'get_com_jacobian'

    def cases(self):
        return [False, True]

    def param(self, ex, i, t, case):
        if i == 1:
            return z3.BoolVal(case)

    def requires(self, cx):
        m = self.m0(cx)
        k, ids = parts(cx, 0, VI)
        return MassContract.requires(self, cx) + m.units() + m.relevance() + [('the joint ids are valid', ids_ok(ids, k, m.m))]

    def sums(self, cx):
        k, ids = parts(cx, 0, VI)
        return Sums(self.m0(cx), ids, k, cx.arg(1)), k

    def cols(self, s):
        return s.nk + ite(s.wb, z3.IntVal(6), z3.IntVal(0))

    def entries(self, s, at, k, scale=None):
        """[(label, formula)]: the matrix holds the sums up to k (divided by scale)."""
        c = z3.Int('c?')
        d = (lambda x: x) if scale is None else (lambda x: x / scale)
        return [('row %d of the Jacobian' % r, fa([c], z3.Implies(z3.And(0 <= c, c < self.cols(s)), at(r, c) == d(f(k, c))), at(r, c))) for r, f in enumerate(s.jac())]

    def at(self, a):
        return lambda i, j: sel(sel(a, z3.IntVal(i)), j)

    def ensures(self, cx):
        s, nk = self.sums(cx)
        n = s.m.ncom
        return [('three rows', acc(MAT, cx.result, 'rows') == 3), ('one column per joint (and six for the base)', acc(MAT, cx.result, 'cols') == self.cols(s))] + \
            self.entries(s, self.at(acc(MAT, cx.result, 'at')), n, s.mass()(n)) + self.state(cx)

    def invariants(self, L):
        s, nk = self.sums(L.cx)
        self.define(L, s.jac() + [s.mass()])
        out = self.common(L) + self.mass_inv(L, s)
        for lv in L.holes(lambda t: t == MAT, all_frames=True):
            if not L.modified(lv):
                continue
            for r in range(3):
                def fn(v, k, lv=lv, r=r):
                    return self.entries(s, self.at(v.ex.read(v.ex.lvf(lv, 'at'), v.st)), k)[r][1]
                out.append(('row %d holds the first terms' % r, fn))
        return out


M33 = T('mat', 3, 3)


class GetInertia(MassContract):
    qual = KM + 'get_total_inertia_matrix'

    def ensures(self, cx):
        m = self.m0(cx)
        s = Sums(m)
        return [('entry (%d,%d) is the sum of the rotated and shifted inertias' % ij, acc(M33, cx.result, 'm%d_%d' % ij) == f(m.ncom))
                for ij, f in s.inertia(s.com_pos()).items()] + self.state(cx)

    def invariants(self, L):
        s = Sums(self.m0(L.cx))
        fs = s.inertia(s.com_pos())
        self.define(L, list(fs.values()))
        out = self.common(L)
        for lv in L.holes(lambda t: t == M33, all_frames=True):
            if L.modified(lv):
                for ij, f in fs.items():
                    def fn(v, k, lv=lv, ij=ij, f=f):
                        return acc(M33, v.get(lv), 'm%d_%d' % ij) == f(k)
                    out.append(('entry (%d,%d) holds the first terms' % ij, fn))
        return out


CONTRACTS = [GetCom, GetComJacobian, GetInertia]
