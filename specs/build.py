"""Contracts of the construction of a model: the tree of the parsed links and joints, the reader of documents, the constructor."""
from ccv.contract import Contract, Theorem
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv import lemma
from ccv.lib import MSIZE, MKEY, MIDX, XCHILD, XNEXT, XROOT, XERR
from .jac import use
from .parse import *

MI = 'urdf::ModelInterface'
n_, m_ = z3.Const('n?', Str), z3.Const('m?', Str)
SI = z3.ArraySort(Str, Int)
SB = z3.ArraySort(Str, Bool)
IS = z3.ArraySort(Int, Str)
II = z3.ArraySort(Int, Int)
CNTP = z3.Function('CNTP', SB, SI, IS, Str, Int, Int)     # joints with this parent among the first k
NTH = z3.Function('NTH', II, Int, Int, Int)               # k-fold parent
DEPTH = z3.Function('DEPTH', II, Int, Int)                # links on the way to the root


class PM:
    """A parsed model (ModelInterface object) in a state."""
    def __init__(self, ex, st, o):
        self.ex, self.st, self.o = ex, st, o

    def f(self, *path):
        l = self.o
        for p in path:
            l = self.ex.lvf(l, p)
        return self.ex.read(l, self.st)

    def h(self, cls, f):
        return self.ex.hleaf(self.st, ('H', cls, f))

    ldom = property(lambda s: s.f('links_', 'dom'))
    lval = property(lambda s: s.f('links_', 'val'))
    jdom = property(lambda s: s.f('joints_', 'dom'))
    jval = property(lambda s: s.f('joints_', 'val'))
    parent = property(lambda s: s.h(LINK, 'parent_link_'))
    pjoint = property(lambda s: s.h(LINK, 'parent_joint'))
    lname = property(lambda s: s.h(LINK, 'name'))
    jname = property(lambda s: s.h(JOINT, 'name'))
    pname = property(lambda s: s.h(JOINT, 'parent_link_name'))
    cname = property(lambda s: s.h(JOINT, 'child_link_name'))
    children = property(lambda s: s.h(LINK, 'child_links'))
    root = property(lambda s: s.f('root_link_'))
    N = property(lambda s: MSIZE(s.jdom))
    vl = T('vec', T('ref', name='urdf::Link'))

    @property
    def top(self):
        return self.ex.hleaf(self.st, ('H', '$', 'top'))

    def kids(self, l):
        c = sel(self.children, l)
        return acc(self.vl, c, 'len'), acc(self.vl, c, 'arr')

    def L(self, n):
        return sel(self.lval, n)

    def J(self, n):
        return sel(self.jval, n)

    def JI(self, i):
        return self.J(MKEY(self.jdom, i))

    def PN(self, j):
        return sel(self.pname, j)

    def CN(self, j):
        return sel(self.cname, j)

    def cnt(self, n, k):
        return CNTP(self.jdom, self.jval, self.pname, n, k)

    # ---- what the maps hold
    def maps(self):
        l, j = self.L(n_), self.J(n_)
        return [('every entry of the link map is a link of that name', fa([n_], z3.Implies(sel(self.ldom, n_), z3.And(l > 0, l < self.top, sel(self.lname, l) == n_)), sel(self.ldom, n_), l)),
                ('every entry of the joint map is a joint of that name', fa([n_], z3.Implies(sel(self.jdom, n_), z3.And(j > 0, j < self.top, sel(self.jname, j) == n_)), sel(self.jdom, n_), j))]

    def parts(self):
        """What the parts of links and joints are."""
        l, l2, j = self.L(n_), self.L(m_), self.J(n_)
        i, i2 = sel(self.h(LINK, 'inertial'), l), sel(self.h(LINK, 'inertial'), l2)
        lim, ty = sel(self.h(JOINT, 'limits'), j), sel(self.h(JOINT, 'type'), j)
        return [('inertials are objects with a unit quaternion or nothing',
                 fa([n_], z3.Implies(sel(self.ldom, n_), z3.And(i >= 0, i < self.top, z3.Implies(i > 0, S.UNIT(rot(sel(self.h(INERT, 'origin'), i)))))), sel(self.ldom, n_), l)),
                ('links do not share an inertial', fa([n_, m_], z3.Implies(z3.And(sel(self.ldom, n_), sel(self.ldom, m_), n_ != m_, i > 0), i != i2), (i, i2))),
                ('joints have a known type, an origin and limits',
                 fa([n_], z3.Implies(sel(self.jdom, n_), z3.And(ty >= 1, ty <= 6, S.UNIT(rot(sel(self.h(JOINT, 'parent_to_joint_origin_transform'), j))), lim >= 0, lim < self.top,
                                                                z3.Implies(z3.Or(ty == REVOLUTE, ty == PRISMATIC), lim > 0))), sel(self.jdom, n_), j))]

    def exportable(self):
        """What the export relies on besides the maps."""
        md, mv = self.f('materials_', 'dom'), self.f('materials_', 'val')
        m, l, j = sel(mv, n_), self.L(n_), self.J(n_)
        out = [('materials are objects', fa([n_], z3.Implies(sel(md, n_), m != 0), sel(md, n_), m))]
        for f, cls in (('visual_array', 'urdf::Visual'), ('collision_array', 'urdf::Collision')):
            t = T('vec', T('ref', name=cls))
            v = sel(self.h(LINK, f), l)
            out.append(('entries of %s are objects' % f, z3.And(fa([n_], z3.Implies(sel(self.ldom, n_), acc(t, v, 'len') >= 0), sel(self.ldom, n_), l),
                        fa([n_, K_], z3.Implies(z3.And(sel(self.ldom, n_), 0 <= K_, K_ < acc(t, v, 'len')), sel(acc(t, v, 'arr'), K_) > 0), (sel(self.ldom, n_), sel(acc(t, v, 'arr'), K_)), (l, sel(acc(t, v, 'arr'), K_))))))
        c = sel(self.h(JOINT, 'calibration'), j)
        parts = z3.And(*[sel(self.h(JOINT, f), j) >= 0 for f in ('dynamics', 'limits', 'safety', 'calibration', 'mimic')] + [z3.Implies(c > 0, sel(self.h('urdf::JointCalibration', f), c) >= 0) for f in ('rising', 'falling')])
        return out + [('parts of joints are objects or nothing', fa([n_], z3.Implies(sel(self.jdom, n_), parts), sel(self.jdom, n_), j))]

    def new(self, top):
        """Links, their inertials and joints are new objects."""
        l, j = self.L(n_), self.J(n_)
        i = sel(self.h(LINK, 'inertial'), l)
        return [('links and inertials are new objects', fa([n_], z3.Implies(sel(self.ldom, n_), z3.And(l >= top, z3.Or(i == 0, i >= top))), sel(self.ldom, n_), l)),
                ('joints are new objects', fa([n_], z3.Implies(sel(self.jdom, n_), j >= top), sel(self.jdom, n_), j))]

    def loose(self):
        l = self.L(n_)
        return [('no link is connected yet', fa([n_], z3.Implies(sel(self.ldom, n_), z3.And(sel(self.parent, l) == 0, sel(self.pjoint, l) == 0, self.kids(l)[0] == 0)), sel(self.ldom, n_), l))]

    def connects(self, n):
        j = self.J(n)
        return z3.And(self.PN(j) != EMPTY, self.CN(j) != EMPTY, sel(self.ldom, self.PN(j)), sel(self.ldom, self.CN(j)))

    def good(self):
        return z3.And(fa([n_], z3.Implies(sel(self.jdom, n_), self.connects(n_)), sel(self.jdom, n_)),
                      fa([n_, m_], z3.Implies(z3.And(sel(self.jdom, n_), sel(self.jdom, m_), n_ != m_), self.CN(self.J(n_)) != self.CN(self.J(m_))),
                         (sel(self.jdom, n_), sel(self.jdom, m_))))

    # ---- the tree made of the first k joints
    def tree(self, k):
        i, q = I_, K_
        ji = self.JI(i)
        pl, cl = self.L(self.PN(ji)), self.L(self.CN(ji))
        np, pa = self.kids(pl)
        l = self.L(n_)
        nk, ka = self.kids(l)
        c, pj = sel(ka, q), sel(self.pjoint, l)
        at = self.cnt(self.PN(ji), i)
        rng = z3.And(0 <= i, i < k)
        return [('joints connect their links', fa([i], z3.Implies(rng, z3.And(self.connects(MKEY(self.jdom, i)), sel(self.pjoint, cl) == ji, sel(self.parent, cl) == pl)), MKEY(self.jdom, i))),
                ('children are listed in the order of the joints', fa([i], z3.Implies(rng, z3.And(0 <= at, at < np, sel(pa, at) == cl)), MKEY(self.jdom, i))),
                ('one child per joint', fa([n_], z3.Implies(sel(self.ldom, n_), nk == self.cnt(n_, k)), sel(self.ldom, n_), l)),
                ('every listed child is a link of the map whose parent is the owner',
                 fa([n_, q], z3.Implies(z3.And(sel(self.ldom, n_), 0 <= q, q < nk), z3.And(sel(self.ldom, sel(self.lname, c)), self.L(sel(self.lname, c)) == c, sel(self.parent, c) == l)), (sel(self.ldom, n_), c))),
                ('a link has a parent exactly with a parent joint, which is one of the joints',
                 fa([n_], z3.Implies(sel(self.ldom, n_), z3.And((pj == 0) == (sel(self.parent, l) == 0), z3.Implies(pj != 0, self.among(pj, n_, k)))), sel(self.ldom, n_), l))]

    def among(self, pj, n, k):
        jn = sel(self.jname, pj)
        return z3.And(sel(self.jdom, jn), self.J(jn) == pj, MIDX(self.jdom, jn) < k, self.CN(pj) == n)

    def same_joints(self, pre):
        return [self.jdom.eq(pre.jdom)]


class MIC(Contract):
    exc = 'urdf::ParseError'

    def p0(self, cx):
        return PM(cx.ex, cx.old, cx.this)

    def p1(self, cx):
        return PM(cx.ex, cx.post, cx.this)

    def pv(self, v):
        return PM(v.ex, v.st, v.L.cx.this)


class InitTree(MIC):
    """Links of the joints' names are connected, or the exception is thrown."""
    qual = MI + '::initTree'

    def requires(self, cx):
        p = self.p0(cx)
        return p.maps() + p.loose() + [('the name map is empty', fa([n_], neg(sel(self.tdom(cx, cx.old), n_)), sel(self.tdom(cx, cx.old), n_)))]

    def tdom(self, cx, st):
        return cx.fld('dom', st, cx.place(0))

    def throws(self, cx):
        return neg(self.p0(cx).good())

    def modifies(self, cx):
        return [cx.place(0)] + [('H', LINK, f) for f in ('parent_link_', 'parent_joint', 'child_links', 'child_joints')]
    modifies_exc = modifies

    def lemmas(self, cx, st):
        p = self.p0(cx)
        cx.ex.mapfacts(p.jdom)
        i = I_
        ji = p.JI(i)
        return [fa([n_], p.cnt(n_, z3.IntVal(0)) == 0, p.cnt(n_, z3.IntVal(0))),
                fa([n_, i], z3.Implies(i >= 0, z3.And(p.cnt(n_, i) >= 0, p.cnt(n_, i + 1) == p.cnt(n_, i) + z3.If(p.PN(p.JI(i)) == n_, 1, 0))), p.cnt(n_, i)),
                # the ghost index of a child is its position among its siblings, in the order of the joints
                z3.Implies(p.good(), fa([i], z3.Implies(z3.And(0 <= i, i < p.N), S.CIDX(p.L(p.CN(ji))) == p.cnt(p.PN(ji), i)), MKEY(p.jdom, i)))]

    def named(self, cx, st):
        p = PM(cx.ex, st, cx.this)
        t = self.tdom(cx, st)
        return [('the name map holds the links with a parent', fa([n_], sel(t, n_) == z3.And(sel(p.ldom, n_), sel(p.parent, p.L(n_)) != 0), sel(t, n_)))]

    def invariants(self, L):
        out = []
        labels = [lab for lab, _ in self.pv(L.view(L.pre)).tree(z3.IntVal(0))]
        for x, lab in enumerate(labels):
            out.append((lab, lambda v, k, x=x: self.pv(v).tree(k)[x][1]))
        out.append(('the name map so far', lambda v, k: self.named(L.cx, v.st)[0][1]))
        out.append(('two of the joints so far have different children', lambda v, k: self.differ(self.pv(v), k)))
        return out

    def differ(self, p, k):
        a, b = I_, J_
        return fa([a, b], z3.Implies(z3.And(0 <= a, a < b, b < k), p.CN(p.JI(a)) != p.CN(p.JI(b))), (MKEY(p.jdom, a), MKEY(p.jdom, b)))

    def ensures(self, cx):
        p = self.p1(cx)
        return p.tree(p.N) + self.named(cx, cx.post) + [self.indices(p), self.lengths(p)]

    @staticmethod
    def lengths(p):
        return ('child lists have a length', fa([n_], z3.Implies(sel(p.ldom, n_), p.kids(p.L(n_))[0] >= 0), sel(p.ldom, n_), p.L(n_)))

    @staticmethod
    def indices(p):
        i = I_
        ji = p.JI(i)
        return ('ghost index', fa([i], z3.Implies(z3.And(0 <= i, i < p.N), S.CIDX(p.L(p.CN(ji))) == p.cnt(p.PN(ji), i)), MKEY(p.jdom, i)))


# ------------------------------------------------------------------ ancestors
def nth_defs(P, l, k):
    """Definition of the k-fold parent (0: none)."""
    x = NTH(P, l, k)
    return [NTH(P, l, z3.IntVal(0)) == l, z3.Implies(k >= 0, NTH(P, l, k + 1) == z3.If(x == 0, 0, sel(P, x)))]


def _c(*names):
    return [z3.Const('P', II) if n == 'P' else z3.Int(n) for n in names]


@lemma.lemma
def nth_shift():
    P, l, k = _c('P', 'l', 'k')
    p = z3.Select(P, l)
    return dict(vars=[P, l, k], induct=k, hyp=l != 0, concl=NTH(P, l, k + 1) == NTH(P, p, k),
                facts=[f for x in (l, p) for y in (k, k + 1, z3.IntVal(0)) for f in nth_defs(P, x, y)], pats=[NTH(P, p, k)])


@lemma.lemma
def nth_add():
    P, l, a, j = _c('P', 'l', 'a', 'j')
    x = NTH(P, l, a)
    return dict(vars=[P, l, a, j], induct=j, hyp=a >= 0, concl=NTH(P, l, a + j) == NTH(P, x, j),
                facts=nth_defs(P, l, a + j) + nth_defs(P, x, j) + nth_defs(P, x, z3.IntVal(0)), pats=[NTH(P, x, j)])


@lemma.lemma
def nth_zero():
    P, l, a, j = _c('P', 'l', 'a', 'j')
    return dict(vars=[P, l, a, j], induct=j, hyp=z3.And(a >= 0, NTH(P, l, a) == 0), concl=NTH(P, l, a + j) == 0,
                facts=nth_defs(P, l, a + j), pats=[NTH(P, l, a + j)])


@lemma.lemma
def pigeonhole():
    """n + 1 values below n are not all different (vars: the values, n, and the indices of two equal ones)."""
    f, g, n, a, b, i = z3.Const('f', II), z3.Const('g', II), z3.Int('n'), z3.Int('a'), z3.Int('b'), z3.Int('i')
    hyp = lambda f, n: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(0 <= z3.Select(f, i), z3.Select(f, i) < n)), patterns=[z3.Select(f, i)])
    con = lambda f, n, a, b: z3.And(0 <= a, a < b, b <= n, z3.Select(f, a) == z3.Select(f, b))
    c, d = z3.Int('c'), z3.Int('d')
    some = lambda f, n: z3.Exists([a, b], con(f, n, a, b))
    swap = z3.ForAll([i], z3.Select(g, i) == z3.If(z3.Select(f, i) == n, z3.Select(f, n + 1), z3.Select(f, i)), patterns=[z3.Select(g, i)])
    none = z3.ForAll([c, d], neg(con(f, n + 1, c, d)), patterns=[z3.MultiPattern(z3.Select(f, c), z3.Select(f, d))])
    return dict(vars=[f, n], concl=z3.Implies(z3.And(n >= 0, hyp(f, n)), some(f, n)), pats=[],
                raw=[('base', [], neg(hyp(f, z3.IntVal(0))) if False else z3.Implies(z3.And(0 <= z3.Select(f, 0), z3.Select(f, 0) < 0), FALSE)),
                     ('step: the values without the last and the largest', [n >= 0, hyp(f, n + 1), none, swap, z3.Select(f, n + 1) >= 0, z3.Select(f, n + 1) <= n, 0 <= i, i <= n], z3.And(0 <= z3.Select(g, i), z3.Select(g, i) < n)),
                     ('step', [n >= 0, hyp(f, n + 1), none, swap, z3.Select(f, n + 1) >= 0, con(g, n, a, b)], FALSE)])


def nat_induct(cx, st, label, P, pat):
    """Induction over the natural numbers inside a function: two obligations, then a fact."""
    ex = cx.ex
    k = ex.fresh('k', Int)
    ex.obl(label + ' (base)', P(z3.IntVal(0)), st, 'lemma')
    ex.obl(label + ' (step)', z3.Implies(z3.And(k >= 0, P(k)), P(k + 1)), st, 'lemma')
    ex.facts.append(implies(st.guard(), fa([K_], z3.Implies(K_ >= 0, P(K_)), pat(K_))))


class InitRoot(MIC):
    """There is one root and every link leads up to it, or the exception is thrown."""
    qual = MI + '::initRoot'

    def requires(self, cx):
        p = self.p0(cx)
        t = cx.fld('dom', cx.old, cx.place(0))
        return p.maps() + p.tree(p.N) + [('the name map holds the links with a parent', fa([n_], sel(t, n_) == z3.And(sel(p.ldom, n_), sel(p.parent, p.L(n_)) != 0), sel(t, n_)))]

    def orphan(self, p, n):
        return z3.And(sel(p.ldom, n), sel(p.parent, p.L(n)) == 0)

    def cyclic(self, p):
        n = MSIZE(p.ldom) + 1
        return neg(fa([n_], z3.Implies(sel(p.ldom, n_), NTH(p.parent, p.L(n_), n) == 0), sel(p.ldom, n_), p.L(n_)))

    def throws(self, cx):
        p = self.p0(cx)
        none = fa([n_], neg(self.orphan(p, n_)), sel(p.ldom, n_), p.L(n_))
        two = neg(fa([n_, m_], z3.Implies(z3.And(self.orphan(p, n_), self.orphan(p, m_)), n_ == m_), (sel(p.ldom, n_), sel(p.ldom, m_)), (p.L(n_), p.L(m_))))
        return z3.Or(none, two, self.cyclic(p))

    def modifies(self, cx):
        return [cx.ex.lvf(cx.this, 'root_link_')]
    modifies_exc = modifies

    @staticmethod
    def inmap(p, x):
        nm = sel(p.lname, x)
        return z3.And(x > 0, sel(p.ldom, nm), p.L(nm) == x)

    def lemmas(self, cx, st):
        p = self.p0(cx)
        ex = cx.ex
        P = p.parent
        ex.mapfacts(p.ldom)
        ex.mapfacts(p.jdom)
        l, a, b = R_, I_, J_
        up = lambda x: z3.Implies(z3.And(self.inmap(p, x), sel(P, x) != 0), self.inmap(p, sel(P, x)))
        x = ex.fresh('x', Int)
        ex.obl('the parent of a link of the map is a link of the map', up(x), st, 'lemma')
        return [fa([l], up(l), sel(P, l)),
                fa([l, K_], conj(nth_defs(P, l, K_)), NTH(P, l, K_)),
                fa([l, K_], z3.Implies(K_ >= 0, lemma.instance('nth_shift', P, l, K_)), NTH(P, sel(P, l), K_)),
                fa([l, a, b], z3.simplify(z3.Implies(a <= b, lemma.instance('nth_zero', P, l, a, b - a))), (NTH(P, l, a), NTH(P, l, b))),
                fa([l, K_], z3.Implies(z3.And(K_ >= 0, NTH(P, l, K_) == 0), z3.And(0 <= DEPTH(P, l), DEPTH(P, l) <= K_, NTH(P, l, DEPTH(P, l)) == 0)), NTH(P, l, K_)),
                z3.Implies(neg(self.cyclic(p)), fa([n_], z3.Implies(sel(p.ldom, n_), S.RANK(p.L(n_)) == DEPTH(P, p.L(n_)) - 1), p.L(n_)))]

    def walks(self, L):
        return [lv for lv in L.holes(lambda t: t == T('ref', name='urdf::Link')) if L.modified(lv)]

    def invariants(self, L):
        p0 = self.p0(L.cx)
        P = p0.parent
        size = MSIZE(p0.ldom)
        out = []
        for lv in self.walks(L):
            out += [('k steps up', lambda v, k, lv=lv: v.get(lv) == NTH(P, v.ex.read(lv, L.pre), k)),
                    ('still a link', lambda v, k, lv=lv: self.inmap(p0, v.get(lv))),
                    ('still a link or past the root', lambda v, k, lv=lv: z3.Or(v.get(lv) == 0, self.inmap(p0, v.get(lv)))),
                    ('no more steps than links', lambda v, k: k <= size)]
        if out:
            return out
        root = lambda v: self.pv(v).root
        key = lambda k: MKEY(p0.ldom, k)
        i = I_

        def found(v, k):
            r = root(v)
            nm = sel(p0.lname, r)
            return z3.Implies(r != 0, z3.And(self.inmap(p0, r), sel(P, r) == 0, MIDX(p0.ldom, nm) < k))

        def others(v, k):
            return fa([i], z3.Implies(z3.And(0 <= i, i < k, sel(P, p0.L(key(i))) == 0), p0.L(key(i)) == root(v)), key(i))

        def leads(v, k):
            return fa([i], z3.Implies(z3.And(0 <= i, i < k), NTH(P, p0.L(key(i)), size + 1) == 0), key(i))
        return [('the root found so far', found), ('links without parent so far', others), ('the root is kept', lambda v, k: root(v) == PM(v.ex, L.pre, L.cx.this).root),
                ('links lead up to the root so far', leads)]

    def measures(self, L):
        size = MSIZE(self.p0(L.cx).ldom)
        if self.walks(L):
            return [('steps left', lambda v, lv=lv: size + 1 - v.get(lv)) for lv in L.holes(lambda t: t in (INT, UINT)) if L.modified(lv)]
        return []

    def at_return(self, cx, st):
        ex = cx.ex
        p = self.p1(cx)
        P = p.parent
        size = MSIZE(p.ldom)
        inmap = lambda x: self.inmap(p, x)
        w = ex.fresh('name', Str)
        l = p.L(w)
        at = lambda k: NTH(P, l, k)
        nat_induct(cx, st, 'ancestors are links of the map', lambda k: z3.Implies(z3.And(sel(p.ldom, w), at(k) != 0), inmap(at(k))), at)
        F, a, b = ex.fresh('F', II), ex.fresh('a', Int), ex.fresh('b', Int)
        D = DEPTH(P, l)
        ex.facts.append(fa([K_], sel(F, K_) == MIDX(p.ldom, sel(p.lname, at(K_))), sel(F, K_)))
        h = z3.And(sel(p.ldom, w), D > size)
        below = lambda k: z3.And(0 <= sel(F, k), sel(F, k) < size)
        nz = lambda k: at(k) != 0
        k = ex.fresh('k', Int)
        out = [('the ancestors have indices', z3.Implies(z3.And(h, 0 <= k, k <= size), below(k)))]
        ex.obl(out[0][0], out[0][1], st, 'lemma')
        use(ex, 'pigeonhole', 'nth_add', 'nth_shift')
        ex.facts.append(implies(st.guard(), z3.Implies(h, z3.And(0 <= a, a < b, b <= size, sel(F, a) == sel(F, b)))))
        ex.facts += [lemma.instance('nth_add', P, l, a, D - b), lemma.instance('nth_add', P, l, b, D - b)]
        ex.obl('a link has fewer ancestors than there are links', z3.Implies(sel(p.ldom, w), D <= size), st, 'lemma')
        ex.facts.append(implies(st.guard(), fa([n_], z3.Implies(sel(p.ldom, n_), DEPTH(P, p.L(n_)) <= size), p.L(n_))))
        d = DEPTH(P, l)
        ex.facts.append(lemma.instance('nth_shift', P, l, d - 1))
        ex.obl('the rank is smaller at the parent', z3.Implies(sel(p.ldom, w), self.ranked(p, w)), st, 'lemma')
        ex.facts.append(implies(st.guard(), fa([n_], z3.Implies(sel(p.ldom, n_), self.ranked(p, n_)), p.L(n_))))
        return []

    @staticmethod
    def ranked(p, n):
        l = p.L(n)
        q = sel(p.parent, l)
        return z3.And(S.RANK(l) >= 0, S.RANK(l) < MSIZE(p.ldom), z3.Implies(q != 0, S.RANK(q) < S.RANK(l)))

    def ensures(self, cx):
        p = self.p1(cx)
        r = p.root
        nm = sel(p.lname, r)
        return [('the root is a link without parent', z3.And(r > 0, sel(p.ldom, nm), p.L(nm) == r, sel(p.parent, r) == 0)),
                ('the only one', fa([n_], z3.Implies(self.orphan(p, n_), p.L(n_) == r), p.L(n_))),
                ('every link leads up to the root', fa([n_], z3.Implies(sel(p.ldom, n_), self.ranked(p, n_)), p.L(n_)))]


# ------------------------------------------------------------------ reading a document
class AssignMaterial(Contract):
    """Materials: memory safety and frame only."""
    qual = 'urdf::assignMaterial'

    def requires(self, cx):
        return [('there is a visual and a model', z3.And(cx.arg(0) > 0, cx.arg(1) > 0)), self.mats(cx, cx.old)]

    def mats(self, cx, st):
        return PM(cx.ex, st, Obj(MI, cx.arg(1))).exportable()[0]

    def ensures(self, cx):
        return [self.mats(cx, cx.post)]

    def modifies(self, cx):
        return [('H', 'urdf::Visual', 'material'), cx.ex.lvf(Obj(MI, cx.arg(1)), 'materials_')]


PARSED = z3.Function('PARSED', Str, Int, Int)         # names the model a call of parseURDF returns (ghost)
SEQ = z3.Function('SEQ', Int, Str, Int, Int)          # k-th child element with a name (0: there is none)
TAGS = {'joint': (JOINT, ParseJoint, 'jdom', 'J'), 'link': (LINK, ParseLink, 'ldom', 'L')}


def seq_defs(e, tag, k):
    x = SEQ(e, tag, k)
    return [SEQ(e, tag, z3.IntVal(0)) == XCHILD(e, tag), z3.Implies(k >= 0, SEQ(e, tag, k + 1) == z3.If(x == 0, 0, XNEXT(x, tag)))]


@lemma.lemma
def seq_end():
    e, t, a, j = z3.Int('e'), z3.Const('t', Str), z3.Int('a'), z3.Int('j')
    return dict(vars=[e, t, a, j], induct=j, hyp=z3.And(a >= 0, SEQ(e, t, a) == 0), concl=SEQ(e, t, a + j) == 0, facts=seq_defs(e, t, a + j), pats=[SEQ(e, t, a + j)])


class ParseURDF(MIC):
    """A model or nothing."""
    qual = 'urdf::parseURDF'

    def modifies(self, cx):
        return [TOP, ('H', 'urdf::Visual', 'material')] + [('H', LINK, f) for f in ('parent_link_', 'parent_joint', 'child_links', 'child_joints')]

    def robot(self, cx):
        return XROOT(cx.arg(0), strlit('robot'))

    def ensures(self, cx):
        r = cx.result
        p = PM(cx.ex, cx.post, Obj(MI, r))
        e = self.robot(cx)
        out = [('a document with an error is rejected', neg(XERR(cx.arg(0)))), ('a document without a named robot is rejected', z3.And(e != 0, has(cx, e, 'name'))),
               ('only version 1.0 is accepted', z3.Or(neg(has(cx, e, 'version')), self.version(cx, e)))] + self.model(cx, p)
        for tag in TAGS:
            s = lambda i, tag=tag: SEQ(e, strlit(tag), i)
            out += [('%s %s' % (tag, lab), fa([I_], z3.Implies(z3.And(0 <= I_, s(I_) != 0), f(I_)), s(I_))) for lab, f in self.content(cx, p, tag)]
            out.append(('%ss have different names' % tag, fa([I_, J_], z3.Implies(z3.And(0 <= I_, I_ < J_, s(J_) != 0), self.name(cx, s(I_)) != self.name(cx, s(J_))), (s(I_), s(J_)))))
            out.append(('every %s has an element' % tag, self.come_from(cx, p, tag, lambda i, s=s: s(i) != 0)))
        return [('a model or nothing', z3.And(r >= 0, r < p.top))] + [(lab, z3.Implies(r > 0, g)) for lab, g in out]

    def ensures_call(self, cx):
        """Callers of this contract use the statement about the model only, and a name for the result."""
        r = cx.result
        p = PM(cx.ex, cx.post, Obj(MI, r))
        return [('a model or nothing', z3.And(r >= 0, r < p.top)), ('its name', r == PARSED(cx.arg(0), cx.ex.hleaf(cx.old, TOP)))] + \
            [(lab, z3.Implies(r > 0, g)) for lab, g in self.model(cx, p)]

    def version(self, cx, e):
        v = text(cx, e, 'version')
        d = strlit('.')
        part = lambda i: PIECED(d, v, z3.IntVal(i))
        return z3.And(NPIECESD(d, v) == 2, ISUINT(part(0)), ISUINT(part(1)), UINTV(part(0)) == 1, UINTV(part(1)) == 0)

    def name(self, cx, e):
        return z3.If(has(cx, e, 'name'), text(cx, e, 'name'), EMPTY)

    def come_from(self, cx, p, tag, ok):
        e, dom = self.robot(cx), getattr(p, TAGS[tag][2])
        s = SEQ(e, strlit(tag), I_)
        return fa([n_], z3.Implies(sel(dom, n_), z3.Exists([I_], z3.And(0 <= I_, ok(I_), s != 0, n_ == self.name(cx, s)))), sel(dom, n_))

    def content(self, cx, p, tag):
        """[(label, statement about the i-th element)]: the object of this name has the values of the element."""
        import copy
        cls, P, dom, get = TAGS[tag]
        e = self.robot(cx)
        at = lambda i: SEQ(e, strlit(tag), i)
        obj = lambda i: getattr(p, get)(self.name(cx, at(i)))

        def views(i):
            class At(P):
                def elem(self, cx):
                    return at(i)

                def obj(self, cx):
                    return Obj(cls, obj(i))
            c = copy.copy(cx)
            c.post = p.st
            return At(), c
        out = [('element is in the map', lambda i: z3.And(at(i) > 0, sel(getattr(p, dom), self.name(cx, at(i)))))]
        if tag == 'joint':
            def ok(i):
                x, c = views(i)
                return x.ok(c)
            out.append(('element is well-formed', ok))
        x, c = views(I_)
        for n, (lab, _) in enumerate(x.values(c)):
            def val(i, n=n):
                x, c = views(i)
                return x.values(c)[n][1]
            out.append((lab, val))
        return out

    def model(self, cx, p):
        r = p.root
        return p.maps() + p.parts() + p.exportable() + p.new(cx.ex.hleaf(cx.old, TOP)) + [('the name', p.f('name_') == text(cx, self.robot(cx), 'name')), self.axes(cx, p)] + p.tree(p.N) + \
            [('there is a link', MSIZE(p.ldom) >= 1), ('the root is a link without parent', z3.And(InitRoot.inmap(p, r), sel(p.parent, r) == 0)),
             ('the only one', fa([n_], z3.Implies(InitRoot.orphan(self, p, n_), p.L(n_) == r), p.L(n_))),
             ('every link leads up to the root', fa([n_], z3.Implies(sel(p.ldom, n_), InitRoot.ranked(p, n_)), p.L(n_))), InitTree.indices(p), InitTree.lengths(p)]

    @staticmethod
    def unitdoc(cx):
        """The axes in the document have unit length (the attributes of elements do not change after they are read)."""
        a = cx.ex.hleaf(cx.old, ('H', 'TiXmlElement', '$attr'))
        return z3.Function('UNITDOC', a.sort(), Bool)(a)

    def unitdoc_def(self, cx):
        e = R_
        c = child(e, 'axis')
        return self.unitdoc(cx) == fa([e], z3.Implies(c != 0, z3.And(has(cx, c, 'xyz'), nrmv(vec3(text(cx, c, 'xyz'))))), c)

    def axes(self, cx, p):
        j = p.J(n_)
        return ('joints have unit axes if those of the document have', z3.Implies(self.unitdoc(cx), fa([n_], z3.Implies(z3.And(sel(p.jdom, n_), movable(p, j)), nrmv(sel(p.h(JOINT, 'axis'), j))), sel(p.jdom, n_), j)))

    def lemmas(self, cx, st):
        e = self.robot(cx)
        out = [nrmv(vec(real(1), real(0), real(0))), self.unitdoc_def(cx)]
        a, b = I_, J_
        for tag in TAGS:
            t = strlit(tag)
            out.append(fa([a, b], z3.simplify(z3.Implies(a <= b, lemma.instance('seq_end', e, t, a, b - a))), (SEQ(e, t, a), SEQ(e, t, b))))
        return out

    def invariants(self, L):
        out = []
        cx = L.cx
        e = self.robot(cx)
        for tag in TAGS:
            L.ex.facts += seq_defs(e, strlit(tag), L.k)
        # what a loop does not change needs no invariant
        touched = {k[1] for k in L.mod if k[0] == 'H'} & {MI, LINK, JOINT, INERT}
        if MI in touched and not any(k[:3] in (('H', MI, 'links_'), ('H', MI, 'joints_')) for k in L.mod):
            touched.discard(MI)
            if any(k[:3] == ('H', MI, 'materials_') for k in L.mod) and not touched:
                return [('materials are objects', lambda v, k, lv=lv: PM(v.ex, v.st, Obj(MI, v.get(lv))).exportable()[0][1]) for lv in L.holes(lambda t: t == T('ref', name=MI))]
        if not touched:
            return out
        mods = [lv for lv in L.holes(lambda t: t == T('ref', name='TiXmlElement')) if L.modified(lv)]
        start = [L.ex.read(lv, L.pre) for lv in mods]
        own = [tag for tag in TAGS if any(x.eq(XCHILD(e, strlit(tag))) for x in start)] or list(TAGS)
        for lv in L.holes(lambda t: t == T('ref', name=MI)):
            P = lambda v, lv=lv: PM(v.ex, v.st, Obj(MI, v.get(lv)))
            F = lambda p: p.maps() + p.parts() + p.exportable() + p.new(L.ex.top0()) + p.loose() + [self.axes(L.cx, p)]
            for x, (lab, _) in enumerate(F(PM(L.ex, L.pre, Obj(MI, z3.IntVal(0))))):
                out.append((lab, lambda v, k, x=x, P=P, F=F: F(P(v))[x][1]))
            for tag in own:
                s = lambda i, tag=tag: SEQ(e, strlit(tag), i)
                for xlv in mods:
                    out.append(('the k-th %s element' % tag, lambda v, k, s=s, xlv=xlv: v.get(xlv) == s(k)))
                    out += self.elems(cx, tag, P, s, lambda k, i: z3.And(0 <= i, i < k))
                if not mods:
                    out += self.elems(cx, tag, P, s, lambda k, i, s=s: z3.And(0 <= i, s(i) != 0))
        return out

    def elems(self, cx, tag, P, s, rng):
        out = []
        p0 = PM(cx.ex, cx.old, Obj(MI, z3.IntVal(0)))
        for n, (lab, _) in enumerate(self.content(cx, p0, tag)):
            out.append(('%s %s' % (tag, lab), lambda v, k, n=n: fa([I_], z3.Implies(rng(k, I_), self.content(cx, P(v), tag)[n][1](I_)), s(I_))))
        out.append(('%ss so far have different names' % tag, lambda v, k: fa([I_, J_], z3.Implies(z3.And(rng(k, I_), rng(k, J_), I_ < J_), self.name(cx, s(I_)) != self.name(cx, s(J_))), (s(I_), s(J_)))))
        out.append(('every %s so far has an element' % tag, lambda v, k: self.come_from(cx, P(v), tag, lambda i: rng(k, i))))
        return out


def movable(p, j):
    return z3.Or(*[sel(p.h(JOINT, 'type'), j) == k for k in (REVOLUTE, CONTINUOUS, PRISMATIC)])


CONTRACTS = [InitTree, InitRoot, AssignMaterial, ParseURDF]
