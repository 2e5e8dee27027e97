"""Contracts of the Jacobian of a link."""
import math
from ccv.contract import Contract, Theorem
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import REMAINDER, SIN, COS
from ccv import lemma
from .model import MC, SCRATCH, KM, VI, VR, parts, ids_ok

IGNORE, RPYT, XYZW = 0, 1, 2
MAT = T('mat', -1, -1)
EPS = real(repr(1e-7))
TWO_PI = 2 * real(repr(math.pi))


def use(ex, *names):
    ex.lemmas_used = getattr(ex, 'lemmas_used', set()) | set(names)
    return conj([lemma.statement(n) for n in names])


def induct(cx, st, m, label, P, pat, by=(), facts=lambda l: []):
    """Induction over the rank of links (a natural number, smaller at the parent): P holds for every link of the list.

    The step is an obligation of its own; the conclusion is a fact only in this function."""
    ex = cx.ex
    l0 = ex.fresh('ind', Int)
    p = sel(m.parent, l0)
    hyp = z3.And(m.mem(l0), z3.Implies(z3.And(p != 0, m.mem(p), S.RANK(p) < S.RANK(l0)), P(p)))
    extra = [use(ex, *by)] if by else []
    P0 = P(l0)
    ex.obl('induction step: ' + label, implies(conj(extra + [hyp] + list(facts(l0))), P0), st, 'lemma')
    ex.assume(fa([R_], implies(m.mem(R_), P(R_)), *pat(R_)))


def isk(v, k):
    """v == k with constants decided."""
    if z3.is_int_value(v):
        return z3.BoolVal(v.as_long() == k)
    return v == k


def unit_fk(cx, st, m, **kw):
    induct(cx, st, m, 'link rotations are unit quaternions', lambda l: S.UNIT(rot(m.FK(l, **kw))), lambda l: [m.FK(l, **kw)],
           by=['unit_comp', 'unit_jm'], facts=lambda l: [unfold_fk(m.cfg(**kw), l)])


class JacSpec:
    """Columns of the Jacobian of the link with list index l, for joint ids `ids`."""
    def __init__(self, m, l, ids, k, rt, wb):
        self.m, self.l, self.ids, self.k, self.rt, self.wb = m, l, ids, k, rt, wb
        self.link = sel(m.links, l)
        self.F = m.FK(self.link)

    def rows(self):
        return z3.IntVal(3) + ite(isk(self.rt, RPYT), z3.IntVal(3), z3.IntVal(0)) + ite(isk(self.rt, XYZW), z3.IntVal(4), z3.IntVal(0))

    def cols(self):
        return self.k + ite(self.wb, z3.IntVal(6), z3.IntVal(0))

    def joint(self, c):
        return sel(self.m.joints, sel(self.ids, c))

    def wa(self, j):
        """World axis of joint j."""
        m = self.m
        return S.ROTV(rot(m.FK(sel(m.child, j))), sel(m.axis, j))

    def moves(self, j):
        return S.ANC(self.m.parent, sel(self.m.child, j), self.link)

    def dpos(self, c):
        j = self.joint(c)
        m = self.m
        w = self.wa(j)
        return [z3.If(self.moves(j), z3.If(sel(m.type, j) == PRISMATIC, X(w, f),
                                           X(S.CROSS(w, vsub(pos(self.F), pos(m.FK(sel(m.child, j))))), f)), real(0)) for f in 'xyz']

    def drot(self, c, kind):
        j = self.joint(c)
        w = self.wa(j)
        turn = z3.And(self.moves(j), sel(self.m.type, j) != PRISMATIC)
        if kind == RPYT:
            return [z3.If(turn, X(S.RPYD(S.RPY(rot(self.F)), w), f), real(0)) for f in 'xyz']
        return [z3.If(turn, X(S.QD(rot(self.F), w), f), real(0)) for f in 'xyzw']

    def kinds(self):
        """[(condition, rows from the third on)]"""
        return [(kd, isk(self.rt, kd)) for kd in (RPYT, XYZW) if not z3.is_false(isk(self.rt, kd))]

    def joint_rows(self):
        """[(row, condition, fn(column))]"""
        out = [(r, TRUE, lambda c, r=r: self.dpos(c)[r]) for r in range(3)]
        for kd, cond in self.kinds():
            out += [(3 + r, cond, lambda c, r=r, kd=kd: self.drot(c, kd)[r]) for r in range(3 if kd == RPYT else 4)]
        return out

    # ---- base
    def turned(self, a):
        """Base pose with roll, pitch or yaw (a = 0, 1, 2) increased by EPS."""
        b = self.m.base
        r = xyz(S.RPY(rot(b)))
        r[a] = r[a] + EPS
        return pose(pos(b), S.FROMRPY(*r))

    def turned_fk(self, a):
        """Pose of the link from the turned base."""
        return self.m.FK(self.link, base=self.turned(a))

    def turned_comp(self, a):
        b = self.m.base
        return S.COMP(self.turned(a), S.COMP(S.PINV(b), self.F))

    def base_cols(self, tf):
        """[(row, column offset, condition, value)]"""
        out = []
        for c in range(3):
            for r in range(3):
                out.append((r, c, TRUE, real(1 if r == c else 0)))
            for kd, cond in self.kinds():
                out += [(3 + r, c, cond, real(0)) for r in range(3 if kd == RPYT else 4)]
        for a in range(3):
            Pk = tf(a)
            for r in range(3):
                out.append((r, 3 + a, TRUE, (xyz(pos(Pk))[r] - xyz(pos(self.F))[r]) / EPS))
            for kd, cond in self.kinds():
                if kd == RPYT:
                    d = [p - q for p, q in zip(xyz(S.RPY(rot(Pk))), xyz(S.RPY(rot(self.F))))]
                    out += [(3, 3 + a, cond, REMAINDER(d[0], TWO_PI) / EPS), (4, 3 + a, cond, d[1] / EPS), (5, 3 + a, cond, REMAINDER(d[2], TWO_PI) / EPS)]
                else:
                    q0, q1 = xyzw(rot(self.F)), xyzw(rot(Pk))
                    dot = sum((x * y for x, y in zip(q1[1:], q0[1:])), q1[0] * q0[0])
                    s = z3.If(dot < 0, real(-1), real(1))
                    out += [(3 + r, 3 + a, cond, (s * q1[r] - q0[r]) / EPS) for r in range(4)]
        return out


def jacf(m, link, ids, nk, rt, wb):
    """JAC(state, link, joint ids, kind, base)(r, c): the Jacobian as a function of the state; jac_def is its definition."""
    a = m.cfg() + [m.child, m.joints, ids, nk, link, rt if isinstance(rt, z3.ExprRef) else z3.IntVal(rt), wb if isinstance(wb, z3.ExprRef) else z3.BoolVal(wb)]
    f = z3.Function('JAC', *([x.sort() for x in a] + [Int, Int, Real]))
    I = lambda x: x if isinstance(x, z3.ExprRef) else z3.IntVal(x)
    return lambda r, c: f(*(a + [I(r), I(c)]))


def jac_def(js):
    """[(row, fact)]: definition of JAC, row by row."""
    J = jacf(js.m, js.link, js.ids, js.k, js.rt, js.wb)
    c = z3.Int('c?')
    out = [(r, implies(cond, fa([c], z3.Implies(z3.And(0 <= c, c < js.k), J(r, c) == fn(c)), J(r, c)))) for r, cond, fn in js.joint_rows()]
    return out + [(r, implies(z3.And(js.wb, cond), J(r, js.k + c2) == v)) for r, c2, cond, v in js.base_cols(js.turned_fk)]


class GetJacobian(MC):
    qual = KM + 'get_jacobian'
    reads_not = SCRATCH
    rot_case = None

    def cases(self):
        return [(r, b) for r in (IGNORE, RPYT, XYZW) for b in (False, True)]

    def param(self, ex, i, t, case):
        if i == 2:
            return z3.IntVal(case[0])
        if i == 3:
            return z3.BoolVal(case[1])

    def js(self, cx, m=None):
        k, ids = parts(cx, 1, VI)
        return JacSpec(m or self.m0(cx), cx.arg(0), ids, k, cx.arg(2), cx.arg(3))

    def requires(self, cx):
        m = self.m0(cx)
        k, ids = parts(cx, 1, VI)
        return m.valid() + m.units() + m.relevance() + [m.coh(), ('the link id is valid', z3.And(cx.arg(0) >= 0, cx.arg(0) < m.n)),
                                            ('the joint ids are valid', ids_ok(ids, k, m.m))]

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('transform_stack_'), m.at('transform_cache_', 'data_', 'arr'), m.at('transform_cache_', 'cache_predicate_vector_', 'arr')]

    def lemmas(self, cx, st):
        m = self.m0(cx)
        unit_fk(cx, st, m)
        ex = cx.ex
        q = rot(m.FK(R_))
        use(ex, 'unit_qinv', 'unit_comp')
        return [fa([R_], S.UNIT(q) == (nrm2(q) == 1), S.UNIT(q)), unit_def(rot(m.base)), lemma.statement('unit_qinv')]

    def mat(self, cx):
        a = acc(MAT, cx.result, 'at')
        return lambda i, j: sel(sel(a, z3.IntVal(i) if isinstance(i, int) else i), j)

    def joint_post(self, cx, at, js, upto):
        c = z3.Int('c?')
        return [('row %d of a joint column' % r, implies(cond, fa([c], z3.Implies(z3.And(0 <= c, c < upto), at(r, c) == fn(c)), at(r, c))))
                for r, cond, fn in js.joint_rows()]

    def ensures(self, cx):
        js = self.js(cx)
        at = self.mat(cx)
        out = [('the Jacobian has one row per pose coordinate', acc(MAT, cx.result, 'rows') == js.rows()),
               ('the Jacobian has one column per joint (and six for the base)', acc(MAT, cx.result, 'cols') == js.cols())]
        out += self.joint_post(cx, at, js, js.k)
        for r, c, cond, v in js.base_cols(js.turned_fk):
            out.append(('row %d of base column %d' % (r, c), implies(z3.And(js.wb, cond), at(r, js.k + c) == v)))
        m1 = self.m1(cx)
        return out + [m1.coh(), m1.sizes()[0]]

    def entries(self, cx, js):
        at = self.mat(cx)
        c = z3.Int('c?')
        J = jacf(js.m, js.link, js.ids, js.k, js.rt, js.wb)
        return fa([R_, c], z3.Implies(z3.And(0 <= R_, R_ < js.rows(), 0 <= c, c < js.cols()), at(R_, c) == J(R_, c)), at(R_, c))

    def ensures_call(self, cx):
        js = self.js(cx)
        m1 = self.m1(cx)
        return [('rows', acc(MAT, cx.result, 'rows') == js.rows()), ('columns', acc(MAT, cx.result, 'cols') == js.cols()), ('entries', self.entries(cx, js)), m1.coh(), m1.sizes()[0]]

    def abstract(self, cx):
        """[(label, formula, definitions)] follows from the postconditions and the definitions."""
        js = self.js(cx)
        ds = jac_def(js)
        at = self.mat(cx)
        c = z3.Int('c?')
        J = jacf(js.m, js.link, js.ids, js.k, js.rt, js.wb)
        n = js.rows()
        n = z3.simplify(n).as_long()
        return [('every entry of row %d is that of the Jacobian' % r, fa([c], z3.Implies(z3.And(0 <= c, c < js.cols()), at(r, c) == J(r, c)), at(r, c)), [d for r2, d in ds if r2 == r]) for r in range(n)]

    def at_return(self, cx, st):
        js = self.js(cx)
        if z3.is_false(js.wb):
            return []
        m = js.m
        for a in range(3):
            b = js.turned(a)
            # moving the base moves every link rigidly
            induct(cx, st, m, 'turning the base by roll, pitch, yaw (%d) moves the link rigidly' % a,
                   lambda l: z3.And(m.FK(l, base=b) == S.COMP(b, S.COMP(S.PINV(m.base), m.FK(l)))), lambda l: [m.FK(l, base=b)],
                   by=['comp_assoc', 'comp_identity', 'comp_inverse', 'unit_comp', 'unit_pinv', 'unit_fromrpy'],
                   facts=lambda l: [unfold_fk(m.cfg(), l), unfold_fk(m.cfg(base=b), l)])
        return [('the pose of the root link is the base pose', m.FK(sel(m.links, m.v('root_link_id_'))) == m.base)] + [
            ('so does the requested link (%d)' % a, js.turned_fk(a) == js.turned_comp(a)) for a in range(3)]

    def invariants(self, L):
        cx = L.cx
        js = self.js(cx)
        out = [('cached poses are current', lambda v, k: M(v.ex, cx.this, v.st).coh()[1]),
               ('the stack keeps its capacity', lambda v, k: M(v.ex, cx.this, v.st).sizes()[0][1])]
        c = z3.Int('c?')
        for lv in L.holes(lambda t: t == MAT, all_frames=True):
            if not L.modified(lv):
                continue

            def at(v, lv=lv):
                a = v.ex.read(v.ex.lvf(lv, 'at'), v.st)
                return lambda i, j: sel(sel(a, z3.IntVal(i)), j)
            for r, cond, fn in js.joint_rows():
                out.append(('row %d of the finished joint columns' % r,
                            lambda v, k, r=r, fn=fn, cond=cond, at=at: implies(cond, fa([c], z3.Implies(z3.And(0 <= c, c < k), at(v)(r, c) == fn(c)), at(v)(r, c)))))
                out.append(('row %d of the other columns is zero' % r,
                            lambda v, k, r=r, cond=cond, at=at: implies(cond, fa([c], z3.Implies(c >= k, at(v)(r, c) == 0), at(v)(r, c)))))
        return out


def anc_def(par, a, l):
    return S.ANC(par, a, l) == z3.Or(a == l, z3.And(sel(par, l) != 0, S.ANC(par, a, sel(par, l))))


class Displacement(Theorem):
    """What moving one joint by any amount does to every link; the joint columns of get_jacobian are read off from it."""
    qual = 'theorem: displacement of a link by one joint'

    def requires(self, cx):
        m = M(cx.ex, cx.this, cx.old)
        return m.shape() + m.units()

    def prove(self, cx, st):
        ex = cx.ex
        m = M(ex, cx.this, st)
        j, t = ex.fresh('j', Int), ex.fresh('t', Real)
        ex.assume(z3.And(0 <= j, j < m.m))
        jj = sel(m.joints, j)
        c = sel(m.child, jj)
        par = m.parent
        a1 = z3.Store(m.angles, j, sel(m.angles, j) + t)
        C = m.FK(c)
        J = S.JM(sel(m.type, jj), sel(m.axis, jj), t)
        moved = lambda l: S.COMP(C, S.COMP(J, S.COMP(S.PINV(C), m.FK(l))))
        unit_fk(cx, st, m)
        induct(cx, st, m, 'descendants have larger rank', lambda l: z3.Implies(S.ANC(par, c, l), S.RANK(c) <= S.RANK(l)), lambda l: [S.ANC(par, c, l)],
               facts=lambda l: [anc_def(par, c, l)])
        p = sel(par, c)
        yield 'the parent of the child link is no descendant of it', z3.Not(S.ANC(par, c, p))
        ex.assume(anc_def(par, c, c))
        yield 'the child link is its own descendant', z3.And(m.mem(c), S.ANC(par, c, c))
        loc1, loc0 = local(m.cfg(angles=a1), c), m.local(c)
        ex.assume(use(ex, 'comp_assoc', 'comp_identity', 'comp_inverse', 'unit_comp', 'unit_jm', 'unit_pinv'))
        th = sel(m.angles, j)
        ax, ty, og = sel(m.axis, jj), sel(m.type, jj), sel(m.origin, jj)
        use(ex, 'jm_add')
        yield 'the joint of the child link has index j', z3.And(sel(m.pjoint, c) == jj, sel(m.jid, jj) == j, p != 0, m.mem(p))
        yield 'its axis is a unit vector', z3.And(nrmv(ax), z3.Or(*[ty == k for k in (REVOLUTE, CONTINUOUS, PRISMATIC)]), ty != FIXED, S.UNIT(rot(og)))
        ex.assume(lemma.instance('jm_add', ty, ax, th, t))
        yield 'the motions of the joint compose', S.JM(ty, ax, th + t) == S.COMP(S.JM(ty, ax, th), J)
        yield 'new local transform of the child', loc1 == S.COMP(og, S.COMP(S.JM(ty, ax, th), J))
        yield 'old local transform of the child', loc0 == S.COMP(og, S.JM(ty, ax, th))
        yield 'the local transform of the child composes with the motion', loc1 == S.COMP(loc0, J)
        yield 'old pose of the child', C == S.COMP(m.FK(p), loc0)
        yield 'the child moves by the joint motion', S.COMP(m.FK(p), loc1) == S.COMP(C, J)
        yield 'written as a displacement', S.COMP(C, J) == moved(c)
        # any other link keeps its transform in its parent's frame
        l1 = ex.fresh('other', Int)
        pj1 = sel(m.pjoint, l1)
        h1 = z3.And(m.mem(l1), l1 != c, sel(par, l1) != 0)
        yield 'another link has another joint', implies(z3.And(h1, sel(m.type, pj1) != FIXED), sel(m.jid, pj1) != j)
        loc = lambda l: (local(m.cfg(angles=a1), l), m.local(l))
        yield 'the local transforms of the other links do not change', implies(h1, loc(l1)[0] == loc(l1)[1])
        # induction over the rank of a link: one case for each reason
        l2 = ex.fresh('ind', Int)
        p2 = sel(par, l2)
        P = lambda l: z3.If(S.ANC(par, c, l), m.FK(l, angles=a1) == moved(l), m.FK(l, angles=a1) == m.FK(l))
        hyp = z3.And(m.mem(l2), z3.Implies(z3.And(p2 != 0, m.mem(p2), S.RANK(p2) < S.RANK(l2)), P(p2)))
        L0 = m.local(l2)
        ih = z3.And(m.mem(l2), p2 != 0, P(p2))
        same = z3.Implies(l2 != c, loc(l2)[0] == L0)
        ex.assume(z3.Implies(z3.And(m.mem(l2), l2 != c, p2 != 0), loc(l2)[0] == L0))       # proved above for any link
        ex.assume(z3.And(anc_def(par, c, l2), unfold_fk(m.cfg(), l2), unfold_fk(m.cfg(angles=a1), l2), unfold_fk(m.cfg(angles=a1), c)))
        sh = dict(m.shape())
        yield ('the parent of a link is in the list', implies(z3.And(m.mem(l2), p2 != 0), z3.And(m.mem(p2), S.RANK(p2) < S.RANK(l2))),
               [sh['the parent of a link is in the list and of smaller rank, reached by a joint']])
        yield 'the root keeps its pose', implies(z3.And(m.mem(l2), p2 == 0), z3.And(z3.Not(S.ANC(par, c, l2)), m.FK(l2, angles=a1) == m.FK(l2)))
        yield 'the parent of the child link keeps its pose', implies(z3.And(ih, l2 == c), m.FK(p, angles=a1) == m.FK(p))
        yield 'case: the child link', implies(z3.And(ih, l2 == c), m.FK(c, angles=a1) == moved(c))
        below = z3.And(ih, l2 != c, S.ANC(par, c, l2))
        Ci = S.PINV(C)
        F2, Fp = m.FK(l2), m.FK(p2)
        inst = lambda n, *a: known(lemma.instance(n, *a))
        def known(f):
            ex.assume(f)
            return f
        unit_all = fa([R_], implies(m.mem(R_), S.UNIT(rot(m.FK(R_)))), m.FK(R_))
        f_pl = 'the parent of a link is in the list'
        g_p = implies(z3.And(ih), z3.And(m.mem(p2), S.UNIT(rot(Fp)), S.UNIT(rot(F2)), S.UNIT(rot(C))))
        yield 'rotations of the link, its parent and the child link are unit quaternions', g_p
        g_l = implies(ih, S.UNIT(rot(L0)))
        lem = [inst('unit_jm', sel(m.type, sel(m.pjoint, l2)), sel(m.axis, sel(m.pjoint, l2)), sel(m.angles, sel(m.jid, sel(m.pjoint, l2))))]
        lem.append(inst('unit_comp', sel(m.origin, sel(m.pjoint, l2)), S.JM(sel(m.type, sel(m.pjoint, l2)), sel(m.axis, sel(m.pjoint, l2)), sel(m.angles, sel(m.jid, sel(m.pjoint, l2))))))
        q2 = sel(m.pjoint, l2)
        g_a = implies(ih, z3.And(S.UNIT(rot(sel(m.origin, q2))), z3.Or(sel(m.type, q2) == FIXED, nrmv(sel(m.axis, q2)))))
        yield 'its joint has a unit rotation and a unit axis', g_a
        yield 'the local transform has a unit rotation', g_l, lem + [g_a]
        g_j = z3.And(S.UNIT(rot(J)))
        inst('unit_jm', ty, ax, t)
        yield 'the motion has a unit rotation', g_j
        us = [inst('unit_pinv', C), inst('unit_comp', Ci, Fp), inst('unit_comp', J, S.COMP(Ci, Fp))]
        pd = implies(below, z3.And(m.FK(p2, angles=a1) == moved(p2), m.FK(l2, angles=a1) == S.COMP(moved(p2), L0), F2 == S.COMP(Fp, L0)))
        un1, un0 = unfold_fk(m.cfg(angles=a1), l2), unfold_fk(m.cfg(), l2)
        same_l = known(z3.Implies(z3.And(m.mem(l2), l2 != c, p2 != 0), loc(l2)[0] == L0))
        ad = known(anc_def(par, c, l2))
        yield 'below: the parent is displaced', pd, [same_l, known(un1), known(un0), ad]
        ur = implies(below, z3.And(*[S.UNIT(rot(x)) for x in (C, J, Ci, Fp, L0, S.COMP(Ci, Fp), S.COMP(J, S.COMP(Ci, Fp)))]))
        yield 'below: rotations are unit quaternions', ur, [g_p, g_l, g_j] + us
        as_ = [inst('comp_assoc', *a) for a in ((C, S.COMP(J, S.COMP(Ci, Fp)), L0), (J, S.COMP(Ci, Fp), L0), (Ci, Fp, L0))]
        yield 'below: shifting the brackets', implies(below, S.COMP(moved(p2), L0) == moved(l2)), as_ + [pd, ur]
        yield 'case: below the child link', implies(below, m.FK(l2, angles=a1) == moved(l2))
        yield 'case: the other links', implies(z3.And(ih, z3.Not(S.ANC(par, c, l2))), m.FK(l2, angles=a1) == F2), [same_l, un1, un0, ad, known(anc_def(par, c, c))]
        yield 'induction step: links below the joint are displaced, the others are not', implies(hyp, P(l2))
        ex.assume(fa([R_], implies(m.mem(R_), P(R_)), m.FK(R_, angles=a1)))
        # one link: read off the coordinates
        l = ex.fresh('li', Int)
        ex.assume(z3.And(0 <= l, l < m.n))
        ids = z3.K(Int, j)
        js = JacSpec(m, l, ids, z3.IntVal(1), z3.IntVal(XYZW), z3.BoolVal(False))
        js0, z0 = js, z3.IntVal(0)
        F, F1 = js.F, m.FK(js.link, angles=a1)
        w = js.wa(jj)
        q = rot(F)
        yield 'a joint that is not above the link does not move it', implies(z3.Not(js.moves(jj)), F1 == F)
        f_d = implies(js.moves(jj), F1 == moved(js.link))
        yield 'a joint above the link displaces it', f_d
        ex.assume(use(ex, 'unit_qinv', 'unit_qmul'))
        use(ex, 'displaced_rotation', 'displaced_position', 'displaced_slide', 'turn_axis', 'rodrigues', 'unit_axis', 'turned_quaternion', 'rotv_scale')
        h = real('1/2')
        sn, cn = SIN(t * h), COS(t * h)
        d = vsub(pos(F), pos(C))
        turn, slide = z3.Or(ty == REVOLUTE, ty == CONTINUOUS), ty == PRISMATIC
        qj = quat(*([x * sn for x in xyz(ax)] + [cn]))
        qw = quat(*([x * sn for x in xyz(w)] + [cn]))
        jturn = known(z3.Implies(turn, J == pose(V0(), qj)))
        jslide = known(z3.Implies(slide, J == pose(vscale(t, ax), QID())))
        L = {}
        for nm, args in (('displaced_rotation', (C, J, F)), ('displaced_position', (C, J, F)), ('turn_axis', (rot(C), ax, sn, cn)), ('rodrigues', (w, d, t)),
                         ('unit_axis', (rot(C), ax)), ('turned_quaternion', (w, q, sn, cn)), ('displaced_slide', (C, F, vscale(t, ax))), ('rotv_scale', (rot(C), ax, t))):
            L[nm] = inst(nm, *args)
        tm = z3.And(js.moves(jj), turn)
        ts = z3.And(js.moves(jj), slide)
        f_u = z3.And(S.UNIT(rot(C)), S.UNIT(q))
        yield 'the pose of the child is a unit rotation', f_u
        f_j = implies(turn, z3.And(rot(J) == qj, pos(J) == V0()))
        yield 'the motion of a turning joint', f_j, [jturn]
        f_w = implies(turn, S.QMUL(rot(C), S.QMUL(rot(J), S.QINV(rot(C)))) == qw)
        yield 'a turning joint turns about its world axis', f_w, [f_u, f_j, L['turn_axis']]
        f_n = nrmv(w)
        yield 'the world axis is a unit vector', f_n
        D = vec(*js.dpos(z0))
        DQ = quat(*js.drot(z0, XYZW))
        E = vsub(vscale(S_dot(w, d), w), d)
        P1 = vadd(pos(F), vadd(vscale(SIN(t), S.CROSS(w, d)), vscale(1 - COS(t), E)))
        Q1 = quat(*[cn * a + 2 * sn * b for a, b in zip(xyzw(q), xyzw(S.QD(q, w)))])
        f_c = implies(tm, z3.And(D == S.CROSS(w, d), DQ == S.QD(q, w)))
        yield 'the column of a turning joint', f_c, []
        f_p = implies(tm, pos(F1) == vadd(S.ROTV(qw, d), pos(C)))
        yield 'turning joint: the displaced position', f_p, [f_u, f_j, f_w, f_d, g_j, L['displaced_position']]
        f_q = implies(tm, rot(F1) == S.QMUL(qw, q))
        yield 'turning joint: the displaced rotation', f_q, [f_w, f_d, L['displaced_rotation']]
        f_r = implies(tm, S.ROTV(qw, d) == vadd(d, vadd(vscale(SIN(t), S.CROSS(w, d)), vscale(1 - COS(t), E))))
        yield 'turning joint: the turned lever', f_r, [f_n, L['rodrigues']]
        f_p1 = implies(tm, pos(F1) == P1)
        yield 'turning joint: position in terms of the axis', f_p1, [f_p, f_r]
        f_q1 = implies(tm, rot(F1) == Q1)
        yield 'turning joint: rotation in terms of the axis', f_q1, [f_q, L['turned_quaternion']]
        yield ('turning joint: position(angle + t) = position + sin(t) column + (1 - cos(t)) e', implies(
            tm, pos(F1) == vadd(pos(F), vadd(vscale(SIN(t), D), vscale(1 - COS(t), E)))), [f_p1, f_c])
        yield ('turning joint: quaternion(angle + t) = cos(t/2) quaternion + 2 sin(t/2) column', implies(
            tm, rot(F1) == quat(*[cn * a + 2 * sn * b for a, b in zip(xyzw(q), xyzw(DQ))])), [f_q1, f_c])
        f_s = implies(ts, z3.And(D == w, pos(F1) == vadd(pos(F), S.ROTV(rot(C), vscale(t, ax))), rot(F1) == q))
        yield 'sliding joint: the displaced pose', f_s, [f_u, f_d, jslide, L['displaced_slide']]
        yield ('sliding joint: position(value + t) = position + t column, same rotation', implies(
            ts, z3.And(pos(F1) == vadd(pos(F), vscale(t, D)), rot(F1) == q)), [f_s, L['rotv_scale']])
        yield 'sliding joint: the rotation columns are zero', implies(slide, DQ == quat(real(0), real(0), real(0), real(0)))
        yield 'other joints: the columns are zero', implies(z3.Not(js.moves(jj)), z3.And(D == V0(), DQ == quat(real(0), real(0), real(0), real(0))))


def S_dot(a, b):
    return sum((p * q for p, q in zip(xyz(a)[1:], xyz(b)[1:])), xyz(a)[0] * xyz(b)[0])


CONTRACTS = [GetJacobian]
THEOREMS = [Displacement]
