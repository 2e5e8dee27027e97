"""Contract of the constructor of the model."""
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import MSIZE, MKEY, MIDX, SCAT
from .model import MC, KM
from .build import *
from .tree import AddLink
from .mass import Fold, Sums

IDMAP = T('map', STR, INT)
VLINK, VJOINT = T('vec', T('ref', name=LINK)), T('vec', T('ref', name=JOINT))
AII = z3.ArraySort(Int, Int)
COUNT = z3.Function('COUNT', SB, SI, AII, Int, Int)         # links with an inertial among the first k


class Ctor(MC):
    """A valid model made of the parsed links and joints, or an exception."""
    qual, nparams = KM + 'KinematicModel', 1
    exc = '*'
    may_throw = True

    def parsed(self, ex, st, cx):
        return PM(ex, st, Obj(MI, PARSED(cx.arg(0), cx.ex.hleaf(cx.old, TOP))))

    def modifies(self, cx):
        return [cx.this] + ParseURDF.modifies(self, cx) + [('H', INERT, 'origin'), ('H', LINK, 'inertial')]

    modifies_exc = modifies

    def pv(self, v):
        return self.parsed(v.ex, v.st, v.L.cx)

    def mass(self, p):
        li = lambda i: p.L(MKEY(p.ldom, i))
        inn, ma = p.h(LINK, 'inertial'), p.h(INERT, 'mass')
        return Fold('SUM_links', [p.ldom, p.lval, inn, ma], lambda k: z3.If(sel(inn, li(k)) > 0, sel(ma, sel(inn, li(k))), real(0)))

    # ---- numbering
    def invariants(self, L):
        cx = L.cx
        p0 = self.parsed(L.ex, L.pre, cx)
        L.ex.mapfacts(p0.ldom)
        L.ex.mapfacts(p0.jdom)
        mod = {k[:3] for k in L.mod if k[0] == 'H'}
        out = []
        if ('H', LINK, 'id') in mod:
            out += self.link_ids(L)
        if ('H', JOINT, 'id') in mod:
            out += self.joint_ids(L)
        if ('H', JOINT, 'child_link_') in mod:
            out += self.child_links(L)
        if ('H', INERT, 'origin') in mod:
            return out + self.com_links(L)
        for lv in L.holes(lambda t: t == REAL):
            if L.modified(lv):
                f = self.mass(p0)
                L.ex.facts += f.axioms(L.k)
                out.append(('the mass of the first links', lambda v, k, lv=lv, f=f: v.get(lv) == f(k)))
        return out

    def mods(self, L, t):
        return [lv for lv in L.holes(lambda x: x == t) if L.modified(lv)]

    def lists(self, v, lv):
        ex = v.ex
        return ex.read(ex.lvf(lv, 'len'), v.st), ex.read(ex.lvf(lv, 'arr'), v.st)

    def table(self, v, lv):
        ex = v.ex
        return ex.read(ex.lvf(lv, 'dom'), v.st), ex.read(ex.lvf(lv, 'val'), v.st)

    def link_ids(self, L):
        i = I_
        key = lambda p: MKEY(p.ldom, i)
        out = [('the first links have their numbers', lambda v, k: (lambda p: fa([i], z3.Implies(z3.And(0 <= i, i < k), sel(p.h(LINK, 'id'), p.L(key(p))) == i), key(p)))(self.pv(v)))]
        for lv in self.mods(L, VLINK):
            def f(v, k, lv=lv):
                p, (n, a) = self.pv(v), self.lists(v, lv)
                return z3.And(n == k, fa([i], z3.Implies(z3.And(0 <= i, i < k), sel(a, i) == p.L(key(p))), sel(a, i), key(p)))
            out.append(('the first links are listed', f))
        for lv in self.mods(L, IDMAP):
            def f(v, k, lv=lv):
                p, (d, w) = self.pv(v), self.table(v, lv)
                return z3.And(MSIZE(d) == k, fa([n_], z3.And(sel(d, n_) == z3.And(sel(p.ldom, n_), MIDX(p.ldom, n_) < k), z3.Implies(sel(d, n_), sel(w, n_) == MIDX(p.ldom, n_))), sel(d, n_)))
            out.append(('the first links are in the table', f))
        return out

    def joint_ids(self, L):
        i = I_
        out = []
        for lv in self.mods(L, VJOINT):
            def pos(v, k, lv=lv):
                p, (n, a) = self.pv(v), self.lists(v, lv)
                jj = sel(a, i)
                nm = sel(p.jname, jj)
                return z3.And(0 <= n, n <= k, fa([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(sel(p.jdom, nm), p.J(nm) == jj, MIDX(p.jdom, nm) < k, movable(p, jj), sel(p.h(JOINT, 'id'), jj) == i)), jj))

            def all_(v, k, lv=lv):
                p, (n, a) = self.pv(v), self.lists(v, lv)
                ji = p.JI(i)
                jid = sel(p.h(JOINT, 'id'), ji)
                return fa([i], z3.Implies(z3.And(0 <= i, i < k), z3.Or(sel(p.h(JOINT, 'type'), ji) == FIXED, z3.And(movable(p, ji), 0 <= jid, jid < n, sel(a, jid) == ji))), MKEY(p.jdom, i))
            out += [('listed joints are movable and numbered', pos), ('the first joints are fixed or listed', all_)]
            for x in self.mods(L, INT) + self.mods(L, UINT):
                out.append(('the number of listed joints', lambda v, k, x=x, lv=lv: v.get(x) == self.lists(v, lv)[0]))
            for x in self.mods(L, IDMAP):
                def tab(v, k, lv=lv, x=x):
                    p, (n, a), (d, w) = self.pv(v), self.lists(v, lv), self.table(v, x)
                    j = p.J(n_)
                    return z3.And(MSIZE(d) == n, fa([n_], z3.And(sel(d, n_) == z3.And(sel(p.jdom, n_), MIDX(p.jdom, n_) < k, movable(p, j)),
                                                                  z3.Implies(sel(d, n_), sel(w, n_) == sel(p.h(JOINT, 'id'), j))), sel(d, n_)))
                out.append(('the listed joints are in the table', tab))
        return out

    def child_links(self, L):
        i = I_
        out = []
        for lv in self.mods(L, IDMAP):
            out.append(('the table is unchanged', lambda v, k, lv=lv: z3.And(*[x == y for x, y in zip(self.table(v, lv), self.table(L.view(L.pre), lv))])))
        for lv in L.holes(lambda x: x == VJOINT):
            def f(v, k, lv=lv):
                p, (n, a) = self.pv(v), self.lists(v, lv)
                jj = sel(a, i)
                return fa([i], z3.Implies(z3.And(0 <= i, i < k), sel(p.h(JOINT, 'child_link_'), jj) == p.L(p.CN(jj))), jj)
            out.append(('the first joints know their child links', f))
        return out

    # ---- center-of-mass links
    def count(self, p):
        """Links with an inertial among the first k (p before the com links are added)."""
        inn = p.h(LINK, 'inertial')
        f = lambda k: COUNT(p.ldom, p.lval, inn, k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
        d = lambda k: [f(0) == 0, z3.Implies(k >= 0, z3.And(f(k) >= 0, f(k + 1) == f(k) + z3.If(sel(inn, p.L(MKEY(p.ldom, k))) > 0, 1, 0)))]
        return f, d

    def massive(self, m, n, li, pat, inn, orig, com, cnt, k):
        """[(label, statement)]: what holds for the com links of the first k of n links li."""
        i, q = I_, K_
        l = li(i)
        at = cnt(i)
        c, d = sel(com, at), sel(com, q)
        pj = sel(m.pjoint, c)
        h = z3.And(0 <= i, i < k, sel(inn, l) > 0)
        up = sel(m.parent, d)
        j = sel(m.lid, up)
        e = sel(m.links, i)
        return [('every link with an inertial has a link at the inertial origin', fa([i], z3.Implies(h, z3.And(
                    0 <= at, at < cnt(k), m.mem(c), sel(m.parent, c) == l, sel(m.inertial, c) == sel(inn, l), sel(m.lname, c) == SCAT(sel(m.lname, l), strlit('_com')),
                    sel(m.type, pj) == FIXED, sel(m.origin, pj) == sel(orig, sel(inn, l)))), pat(i))),
                ('every such link comes from a link with an inertial', fa([q], z3.Implies(z3.And(0 <= q, q < cnt(k)), z3.And(
                    m.mem(d), 0 <= j, j < k, li(j) == up, sel(inn, up) > 0, cnt(j) == q, sel(m.inertial, d) == sel(inn, up))), d)),
                ('the inertial origins of the first links are moved there', fa([i], z3.Implies(h, sel(m.h(INERT, 'origin'), sel(inn, l)) == IDENTITY()), pat(i))),
                ('the new links are numbered after the parsed ones', fa([i], z3.Implies(z3.And(n <= i, i < n + cnt(k)), e == sel(com, i - n)), e)),
                ('one new link per inertial', m.n == n + cnt(k))]

    def com_links(self, L):
        cx, ex = L.cx, L.ex
        mv = lambda v: M(v.ex, cx.this, v.st)
        m0 = M(ex, cx.this, L.pre)
        names = [lab for lab, _ in AddLink.valid(self, m0) + m0.relevance()]
        out = [(lab, lambda v, k, x=x: (AddLink.valid(self, mv(v)) + mv(v).relevance())[x][1]) for x, lab in enumerate(names)]
        links = [lv for lv in L.holes(lambda t: t == VLINK) if not L.modified(lv)]
        coms = self.mods(L, VLINK)
        inn, orig = m0.inertial, m0.h(INERT, 'origin')
        top = m0.top
        i = I_
        cnt, defs = self.count(self.parsed(ex, L.pre, cx))
        ex.facts += defs(L.k)
        for lv in links:
            n0, a0 = self.lists(L.view(L.pre), lv)
            li = lambda i, a0=a0: sel(a0, i)
            l = li(i)
            out += [('the parsed links keep their numbers', lambda v, k, n0=n0, a0=a0: fa([i], z3.Implies(z3.And(0 <= i, i < n0), sel(mv(v).links, i) == sel(a0, i)), sel(mv(v).links, i), sel(a0, i))),
                    ('objects keep their inertials', lambda v, k: z3.And(mv(v).top >= top, fa([R_], z3.Implies(R_ < top, sel(mv(v).inertial, R_) == sel(inn, R_)), sel(mv(v).inertial, R_)))),
                    ('the other inertial origins are as parsed', lambda v, k, n0=n0, l=l: fa([i], z3.Implies(z3.And(k <= i, i < n0), sel(mv(v).h(INERT, 'origin'), sel(inn, l)) == sel(orig, sel(inn, l))), l)),
                    ('the number of inertials grows', lambda v, k, l=l: fa([i], z3.Implies(z3.And(0 <= i, i < k, sel(inn, l) > 0), z3.And(0 <= cnt(i), cnt(i) < cnt(k))), l))]
            for c in coms:
                out.append(('one com link per inertial', lambda v, k, c=c: self.lists(v, c)[0] == cnt(k)))
                out.append(('com links are new', lambda v, k, c=c: (lambda nc, a: fa([i], z3.Implies(z3.And(0 <= i, i < nc), sel(a, i) >= top), sel(a, i)))(*self.lists(v, c))))
                st = lambda v, k, c=c, li=li, n0=n0: self.massive(mv(v), n0, li, li, inn, orig, self.lists(v, c)[1], cnt, k)
                for x, (lab, _) in enumerate(self.massive(m0, n0, li, li, inn, orig, a0, cnt, L.k)):
                    out.append((lab, lambda v, k, x=x, st=st: st(v, k)[x][1]))
        return out

    def lemmas(self, cx, st):
        return [UNITAXES == ParseURDF.unitdoc(cx), S.UNIT(rot(IDENTITY())), MSIZE(z3.K(Str, FALSE)) == 0]

    def at_return(self, cx, st):
        f0, f1 = [self.mass(self.parsed(cx.ex, s, cx)) for s in (cx.old, cx.post)]
        n = MSIZE(self.parsed(cx.ex, cx.post, cx).ldom)
        k = K_
        for f in (f0, f1):
            cx.ex.facts += [fa([k], conj(f.axioms(k)), f(k))]
        nat_induct(cx, st, 'the parsed links keep their masses', lambda k: z3.Implies(k <= n, f0(k) == f1(k)), f1)
        return []

    def ensures(self, cx):
        m = self.m1(cx)
        p = self.parsed(cx.ex, cx.post, cx)
        i = I_
        key = MKEY(p.ldom, i)
        n = MSIZE(p.ldom)
        p0 = self.parsed(cx.ex, cx.old, cx)
        cnt, defs = self.count(p0)
        li = sel(m.links, i)
        coms = self.massive(m, n, lambda i: p.L(MKEY(p.ldom, i)), lambda i: MKEY(p.ldom, i), p0.h(LINK, 'inertial'), p0.h(INERT, 'origin'), m.com, cnt, n)
        kept = [m.h(c, f) == p0.h(c, f) for c, fs in PARSED_FIELDS for f in fs]
        return coms + [('as many com links as inertials', m.ncom == cnt(n)), ('what was read is kept', z3.And(*kept)),
                       ('only the root has no parent', fa([i], z3.Implies(z3.And(0 <= i, i < m.n, sel(m.parent, li) == 0), li == p.root), li))] + \
               [('a model was read', p.o.ref > 0)] + m.full() + [m.coh(), m.clearcache()] + \
            [('the base pose is the identity', m.base == IDENTITY()), ('every angle is zero', fa([i], z3.Implies(z3.And(0 <= i, i < m.m), sel(m.angles, i) == 0), sel(m.angles, i))),
             ('parsed links are numbered in the order of their names', fa([i], z3.Implies(z3.And(0 <= i, i < MSIZE(p.ldom)), sel(m.links, i) == p.L(key)), key)),
             ('parsed links are found by name', fa([n_], z3.Implies(sel(p.ldom, n_), z3.And(sel(m.ldom, n_), sel(m.links, sel(m.lval, n_)) == p.L(n_))), sel(p.ldom, n_))),
             ('exactly the movable joints are listed, no joint is planar or floating',
              fa([n_], z3.And(sel(m.jdom, n_) == z3.And(sel(p.jdom, n_), movable(p, p.J(n_))), z3.Implies(sel(m.jdom, n_), sel(m.joints, sel(m.jval, n_)) == p.J(n_)),
                              z3.Implies(sel(p.jdom, n_), z3.Or(movable(p, p.J(n_)), sel(m.type, p.J(n_)) == FIXED))), sel(p.jdom, n_), sel(m.jdom, n_))),
             ('movable joints know their child links', fa([n_], z3.Implies(sel(m.jdom, n_), sel(m.child, p.J(n_)) == p.L(p.CN(p.J(n_)))), sel(m.jdom, n_))),
             ('the root link is that of the document', sel(m.links, m.v('root_link_id_')) == p.root),
             ('the total mass is the sum of the masses of the links', m.v('total_mass_') == self.mass(p)(MSIZE(p.ldom)))] + [t for x, t in enumerate(p.tree(p.N)) if x in (0, 1, 4)]


PARSED_FIELDS = [(JOINT, ('name', 'type', 'axis', 'parent_to_joint_origin_transform', 'parent_link_name', 'child_link_name', 'limits', 'safety', 'calibration', 'mimic', 'dynamics')),
                 (LINK, ('name',)), (INERT, ('mass', 'ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')),
                 ('urdf::JointLimits', ('lower', 'upper', 'effort', 'velocity')), ('urdf::JointSafety', ('soft_upper_limit', 'soft_lower_limit', 'k_position', 'k_velocity')),
                 ('urdf::JointCalibration', ('reference_position', 'rising', 'falling')), ('urdf::JointMimic', ('offset', 'multiplier', 'joint_name')),
                 ('urdf::JointDynamics', ('damping', 'friction'))]


def IDENTITY():
    return pose(vec(*[real(0)] * 3), quat(*[real(0)] * 3 + [real(1)]))


CONTRACTS = [Ctor]
