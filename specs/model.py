"""Contracts of tinyfk::KinematicModel."""
from ccv.contract import Contract
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import INF

KM = 'tinyfk::KinematicModel::'
VI, VR, VS = T('vec', UINT), T('vec', REAL), T('vec', STR)
TB = T('pair', REAL, REAL)


def vlen(cx, i, st=None):
    return acc(cx.args[i].t if isinstance(cx.args[i], LV) else VI, cx.arg(i, st), 'len')


def varr(cx, i, st=None):
    return acc(cx.args[i].t if isinstance(cx.args[i], LV) else VI, cx.arg(i, st), 'arr')


def parts(cx, i, t):
    v = cx.arg(i)
    return acc(t, v, 'len'), acc(t, v, 'arr')


def ids_ok(ids, k, bound):
    return fa([I_], z3.Implies(z3.And(0 <= I_, I_ < k), z3.And(sel(ids, I_) >= 0, sel(ids, I_) < bound)), sel(ids, I_))


# members whose contents depend on earlier calls: only get_link_pose may look into them
SCRATCH = ('transform_cache_', 'transform_stack_')


class MC(Contract):
    """A method of the model: m0 and m1 are the views before and after."""
    keep = ()

    def m0(self, cx):
        return M(cx.ex, cx.this, cx.old)

    def m1(self, cx):
        return M(cx.ex, cx.this, cx.post)


# ------------------------------------------------------------------ angles and base pose
class SetAnglesRaw(MC):
    qual = KM + '_set_joint_angles'

    def requires(self, cx):
        k, ids = parts(cx, 0, VI)
        kq, q = parts(cx, 1, VR)
        return [('the joint ids are valid', ids_ok(ids, k, self.m0(cx).v('joint_angles_', 'len'))), ('one value per id', kq >= k)]

    def spec(self, cx):
        k, ids = parts(cx, 0, VI)
        _, q = parts(cx, 1, VR)
        return ids, q, self.m0(cx).angles, k

    def modifies(self, cx):
        return [self.m0(cx).at('joint_angles_', 'arr')]

    def ensures(self, cx):
        return [('each listed joint has its (last) value, the others keep theirs', self.m1(cx).angles == seta(*self.spec(cx)))]

    def invariants(self, L):
        ids, q, a, n = self.spec(L.cx)
        L.ex.facts.extend(seta_axioms(ids, q, a, L.k))
        return [('the first values are set', lambda v, k: M(v.ex, L.cx.this, v.st).angles == seta(ids, q, a, k))]


class SetAngles(SetAnglesRaw):
    qual = KM + 'set_joint_angles'
    pred = True

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('joint_angles_', 'arr'), m.at('transform_cache_', 'cache_predicate_vector_')]

    def requires(self, cx):
        return SetAnglesRaw.requires(self, cx) + self.m0(cx).sizes()

    def ensures(self, cx):
        m = self.m1(cx)
        return SetAnglesRaw.ensures(self, cx) + [m.clearcache(), m.sizes()[0]]


class ClearCache(MC):
    qual = KM + 'clear_cache'

    def requires(self, cx):
        return self.m0(cx).sizes()

    def modifies(self, cx):
        return [self.m0(cx).at('transform_cache_', 'cache_predicate_vector_')]

    def ensures(self, cx):
        m = self.m1(cx)
        return [m.clearcache(), m.sizes()[0]]


class SetInit(MC):
    qual = KM + 'set_init_angles'

    def requires(self, cx):
        m = self.m0(cx)
        return m.sizes() + [('one angle per joint', z3.And(m.v('joint_angles_', 'len') == m.m, m.v('num_dof_') == m.m, m.m >= 0))]

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('joint_angles_'), m.at('transform_cache_', 'cache_predicate_vector_')]

    def ensures(self, cx):
        m = self.m1(cx)
        return [m.clearcache(), m.sizes()[0], ('one angle per joint', m.v('joint_angles_', 'len') == m.m),
                ('every angle is zero', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < m.m), sel(m.angles, I_) == 0), sel(m.angles, I_)))]

    def invariants(self, L):
        def zero(v, k):
            a = M(v.ex, L.cx.this, v.st).angles
            return fa([I_], z3.Implies(z3.And(0 <= I_, I_ < k), sel(a, I_) == 0), sel(a, I_))
        return [('the first angles are zero', zero)]


class SetAngle(MC):
    qual = KM + 'set_joint_angle'

    def requires(self, cx):
        m = self.m0(cx)
        return m.sizes() + [('the joint id is valid', z3.And(cx.arg(0) >= 0, cx.arg(0) < m.v('joint_angles_', 'len')))]

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('joint_angles_', 'arr'), m.at('transform_cache_', 'cache_predicate_vector_')]

    def ensures(self, cx):
        m = self.m1(cx)
        return [('exactly this angle changes', m.angles == z3.Store(self.m0(cx).angles, cx.arg(0), cx.arg(1))), m.clearcache(), m.sizes()[0]]


class SetBaseRaw(MC):
    qual = KM + '_set_base_pose'

    def modifies(self, cx):
        return [self.m0(cx).at('base_pose_')]

    def ensures(self, cx):
        return [('the base pose is the given pose', self.m1(cx).base == cx.arg(0))]


class SetBase(MC):
    qual = KM + 'set_base_pose'

    def requires(self, cx):
        return self.m0(cx).sizes()

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('base_pose_'), m.at('transform_cache_', 'cache_predicate_vector_')]

    def ensures(self, cx):
        m = self.m1(cx)
        return [('the base pose is the given pose', m.base == cx.arg(0)), m.clearcache(), m.sizes()[0]]


class GetAngles(MC):
    reads_not = SCRATCH
    qual = KM + 'get_joint_angles'

    def requires(self, cx):
        k, ids = parts(cx, 0, VI)
        return [('the joint ids are valid', ids_ok(ids, k, self.m0(cx).v('joint_angles_', 'len')))]

    def elem(self, cx, i):
        return sel(self.m0(cx).angles, sel(parts(cx, 0, VI)[1], i))

    def ensures(self, cx):
        k, ids = parts(cx, 0, VI)
        r = acc(VR, cx.result, 'arr')
        return [('one angle per id', acc(VR, cx.result, 'len') == k),
                ('in the order of the ids', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < k), sel(r, I_) == self.elem(cx, I_)), sel(r, I_)))]

    def pointwise(self, cx):
        return [(VR, lambda i: self.elem(cx, i))]


# ------------------------------------------------------------------ names and ids
class GetIds(MC):
    reads_not = SCRATCH
    exc = 'std::invalid_argument'
    tab = None

    def names(self, cx):
        return parts(cx, 0, VS)

    def missing(self, cx):
        k, ns = self.names(cx)
        return z3.Exists([I_], z3.And(0 <= I_, I_ < k, z3.Not(sel(self.m0(cx).v(self.tab, 'dom'), sel(ns, I_)))))

    def throws(self, cx):
        return self.missing(cx)

    def elem(self, cx, i):
        return sel(self.m0(cx).v(self.tab, 'val'), sel(self.names(cx)[1], i))

    def ensures(self, cx):
        k, ns = self.names(cx)
        r = acc(VI, cx.result, 'arr')
        return [('one id per name', acc(VI, cx.result, 'len') == k),
                ('each id is that of the name', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < k), sel(r, I_) == self.elem(cx, I_)), sel(r, I_)))]

    def pointwise(self, cx):
        return [(VI, lambda i: self.elem(cx, i))]

    def invariants(self, L):
        k, ns = self.names(L.cx)
        dom = self.m0(L.cx).v(self.tab, 'dom')
        return [('the first names exist', lambda v, c: fa([I_], z3.Implies(z3.And(0 <= I_, I_ < c), sel(dom, sel(ns, I_))), sel(ns, I_)))]


class GetJointIds(GetIds):
    qual, tab = KM + 'get_joint_ids', 'joint_ids_'


class GetLinkIds(GetIds):
    qual, tab = KM + 'get_link_ids', 'link_ids_'


class GetNames(MC):
    reads_not = SCRATCH
    lst, fld_ = None, None

    def requires(self, cx):
        m = self.m0(cx)
        a, n = m.v(self.lst, 'arr'), m.v(self.lst, 'len')
        return [('no entry is null', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n), sel(a, I_) > 0), sel(a, I_)))]

    def elem(self, cx, i):
        m = self.m0(cx)
        return sel(m.h(*self.fld_), sel(m.v(self.lst, 'arr'), i))

    def ensures(self, cx):
        m = self.m0(cx)
        r = acc(VS, cx.result, 'arr')
        return [('one name per entry', acc(VS, cx.result, 'len') == m.v(self.lst, 'len')),
                ('in the order of the ids', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < m.v(self.lst, 'len')), sel(r, I_) == self.elem(cx, I_)), sel(r, I_)))]

    def pointwise(self, cx):
        return [(VS, lambda i: self.elem(cx, i))]


class GetJointNames(GetNames):
    qual, lst, fld_ = KM + 'get_joint_names', 'joints_', (JOINT, 'name')


class GetLinkNames(GetNames):
    qual, lst, fld_ = KM + 'get_link_names', 'links_', (LINK, 'name')


# ------------------------------------------------------------------ limits
class Limits(MC):
    reads_not = SCRATCH
    rt = VR

    def requires(self, cx):
        k, ids = parts(cx, 0, VI)
        return self.m0(cx).shape() + [('the joint ids are valid', ids_ok(ids, k, self.m0(cx).m))]

    def joint(self, cx, i):
        return sel(self.m0(cx).joints, sel(parts(cx, 0, VI)[1], i))

    def ensures(self, cx):
        k, ids = parts(cx, 0, VI)
        r = acc(self.rt, cx.result, 'arr')
        return [('one limit per id', acc(self.rt, cx.result, 'len') == k),
                ('each limit is that of the joint', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < k), sel(r, I_) == self.elem(cx, I_)), sel(r, I_)))]

    def pointwise(self, cx):
        return [(self.rt, lambda i: self.elem(cx, i))]


class PosLimits(Limits):
    qual, rt = KM + 'get_joint_position_limits', T('vec', TB)

    def elem(self, cx, i):
        m = self.m0(cx)
        j = self.joint(cx, i)
        l = sel(m.limits, j)
        H = lambda f: sel(m.h('urdf::JointLimits', f), l)
        c = sel(m.type, j) == CONTINUOUS
        return mk(TB, [z3.If(c, -INF, H('lower')), z3.If(c, INF, H('upper'))])


class VelLimits(Limits):
    qual, f = KM + 'get_joint_velocity_limits', 'velocity'

    def elem(self, cx, i):
        m = self.m0(cx)
        l = sel(m.limits, self.joint(cx, i))
        return z3.If(l == 0, INF, sel(m.h('urdf::JointLimits', self.f), l))


class EffLimits(VelLimits):
    qual, f = KM + 'get_joint_effort_limits', 'effort'


# ------------------------------------------------------------------ forward kinematics
ET = T('struct', name='tinyfk::LinkIdAndTransform')


class GetPoseInner(MC):
    qual = KM + 'get_link_pose_inner'

    def requires(self, cx):
        m = self.m0(cx)
        return m.valid() + [m.coh(), ('the link id is valid', z3.And(cx.arg(0) >= 0, cx.arg(0) < m.n))]

    def modifies(self, cx):
        m = self.m0(cx)
        return [cx.place(1), m.at('transform_stack_'), m.at('transform_cache_', 'data_', 'arr'),
                m.at('transform_cache_', 'cache_predicate_vector_', 'arr')]

    def ensures(self, cx):
        m, m1 = self.m0(cx), self.m1(cx)
        return [('the pose is the forward kinematics of the link', cx.argp(1) == m.FK(sel(m.links, cx.arg(0)))), m1.coh(),
                m1.sizes()[0]]

    def invariants(self, L):
        cx = L.cx
        m = self.m0(cx)
        start = sel(m.links, cx.arg(0))
        out = [('cached poses are current', lambda v, k: M(v.ex, cx.this, v.st).coh()[1]),
               ('the stack keeps its capacity', lambda v, k: M(v.ex, cx.this, v.st).sizes()[0][1])]

        def stk(v):
            w = M(v.ex, cx.this, v.st)
            return w.v('transform_stack_', 'current_idx_'), w.v('transform_stack_', 'data_', 'arr')

        def ent(D, k):
            e = sel(D, k)
            return acc(ET, e, 'id'), acc(ET, e, 'pose')

        def chain(v, k):
            idx, D = stk(v)
            i_, p_ = ent(D, K_)
            l = sel(m.links, i_)
            return fa([K_], z3.Implies(z3.And(0 <= K_, K_ < idx), z3.And(i_ >= 0, i_ < m.n, p_ == m.local(l), sel(m.parent, l) != 0)), sel(D, K_))

        def succ(v, k):
            idx, D = stk(v)
            a, b = sel(m.links, ent(D, K_)[0]), sel(m.links, ent(D, J_)[0])
            return fa([K_, J_], z3.Implies(z3.And(0 <= K_, J_ == K_ + 1, J_ < idx), sel(m.parent, a) == b), (sel(D, K_), sel(D, J_)))

        def bottom(v, k):
            idx, D = stk(v)
            return z3.Implies(idx > 0, sel(m.links, ent(D, z3.IntVal(0))[0]) == start)
        out += [('stack entries are links with their local transforms', chain),
                ('each stack entry is the child of the next', succ), ('the first stack entry is the requested link', bottom),
                ('the stack is not longer than the chain', lambda v, k: z3.And(stk(v)[0] >= 0, stk(v)[0] <= S.RANK(start)))]
        for lv in L.holes(lambda t: t.k == 'ref' and t.name == LINK):
            if L.modified(lv):
                def cur(v, lv=lv):
                    return v.get(lv)

                def f1(v, k, cur=cur):
                    c, (idx, D) = cur(v), stk(v)
                    return z3.And(m.mem(c), idx + S.RANK(c) <= S.RANK(start))

                def f2(v, k, cur=cur):
                    c, (idx, D) = cur(v), stk(v)
                    return z3.And(z3.Implies(idx == 0, c == start),
                                  z3.Implies(idx > 0, sel(m.parent, sel(m.links, ent(D, idx - 1)[0])) == c))
                out += [('the current link is in the list, the stack fits', f1), ('the current link continues the chain', f2)]
        for lv in L.holes(lambda t: t == tP):
            if L.modified(lv):
                def g(v, k, lv=lv):
                    idx, D = stk(v)
                    c = z3.If(idx > 0, sel(m.parent, sel(m.links, ent(D, idx - 1)[0])), start)
                    return m.FK(c) == v.get(lv)
                out.append(('the running pose is that of the parent of the top entry', g))
        return out

    def measures(self, L):
        cx = L.cx
        out = [('stack size', lambda v: M(v.ex, cx.this, v.st).v('transform_stack_', 'current_idx_'))]
        for lv in L.holes(lambda t: t.k == 'ref' and t.name == LINK):
            if L.modified(lv):
                out.append(('rank of the current link', lambda v, lv=lv: S.RANK(v.get(lv))))
        return out


class GetPose(MC):
    qual = KM + 'get_link_pose'
    requires = GetPoseInner.requires
    modifies = GetPoseInner.modifies
    ensures = GetPoseInner.ensures


CONTRACTS = [SetAnglesRaw, SetAngles, ClearCache, SetInit, SetAngle, SetBaseRaw, SetBase, GetAngles, GetJointIds, GetLinkIds, GetJointNames,
             GetLinkNames, PosLimits, VelLimits, EffLimits, GetPoseInner, GetPose]
