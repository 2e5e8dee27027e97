"""Abstract view of tinyfk::KinematicModel: validity, coherence and the forward-kinematics specification."""
import z3
from .sym import *
from .lib import MSIZE, sel
from .spec import *
from . import spec

LINK, JOINT, INERT = 'urdf::Link', 'urdf::Joint', 'urdf::Inertial'
AI = lambda s: z3.ArraySort(Int, s)


def init():
    S = spec.init()
    if hasattr(S, 'FK'):
        return
    A = AI(Int)
    cfg = [A, A, A, AI(S.V), AI(S.P), A, AI(Real), S.P]
    S.FK = z3.Function('FK', *(cfg + [Int, S.P]))
    S.RANK = z3.Function('RANK', Int, Int)
    S.UNIT = z3.Function('UNIT', S.Q, Bool)
    S.CIDX = z3.Function('CIDX', Int, Int)                  # position of a link in the child list of its parent (ghost)
    S.ANC = z3.Function('ANC', A, Int, Int, Bool)          # ANC(parent, a, l): a is l or an ancestor of l
    S.SETA = z3.Function('SETA', A, AI(Real), AI(Real), Int, AI(Real))
    S.HIT = z3.Function('HIT', A, Int, Int, Bool)
    S.SUMM = z3.Function('SUMM', A, A, AI(Real), Int, Real)
    S.SUMP = z3.Function('SUMP', *(cfg + [A, A, AI(Real), Int, S.V]))


UNITAXES = z3.Bool('UNITAXES')        # ghost: the axes in the document have unit length
I_, J_, K_, R_ = [z3.Int(x) for x in ('i?', 'j?', 'k?', 'l?')]
N_ = z3.Const('n?', Str)


def unit_def(q):
    return S.UNIT(q) == (nrm2(q) == 1)


class M:
    """The model at place `this` in state st."""
    def __init__(self, ex, this, st):
        self.ex, self.this, self.st = ex, this, st

    def at(self, *path):
        l = self.this
        for p in path:
            l = self.ex.lvf(l, p)
        return l

    def v(self, *path):
        return self.ex.read(self.at(*path), self.st)

    def h(self, cls, f):
        return self.ex.hleaf(self.st, ('H', cls, f))

    # ---- sizes and tables
    n = property(lambda s: s.v('links_', 'len'))
    m = property(lambda s: s.v('joints_', 'len'))
    links = property(lambda s: s.v('links_', 'arr'))
    joints = property(lambda s: s.v('joints_', 'arr'))
    angles = property(lambda s: s.v('joint_angles_', 'arr'))
    base = property(lambda s: s.v('base_pose_'))
    parent = property(lambda s: s.h(LINK, 'parent_link_'))
    pjoint = property(lambda s: s.h(LINK, 'parent_joint'))
    lid = property(lambda s: s.h(LINK, 'id'))
    lname = property(lambda s: s.h(LINK, 'name'))
    jname = property(lambda s: s.h(JOINT, 'name'))
    jid = property(lambda s: s.h(JOINT, 'id'))
    type = property(lambda s: s.h(JOINT, 'type'))
    axis = property(lambda s: s.h(JOINT, 'axis'))
    origin = property(lambda s: s.h(JOINT, 'parent_to_joint_origin_transform'))
    child = property(lambda s: s.h(JOINT, 'child_link_'))
    limits = property(lambda s: s.h(JOINT, 'limits'))
    children = property(lambda s: s.h(LINK, 'child_links'))
    inertial = property(lambda s: s.h(LINK, 'inertial'))
    mass = property(lambda s: s.h(INERT, 'mass'))
    ldom = property(lambda s: s.v('link_ids_', 'dom'))
    lval = property(lambda s: s.v('link_ids_', 'val'))
    jdom = property(lambda s: s.v('joint_ids_', 'dom'))
    jval = property(lambda s: s.v('joint_ids_', 'val'))
    data = property(lambda s: s.v('transform_cache_', 'data_', 'arr'))
    pred = property(lambda s: s.v('transform_cache_', 'cache_predicate_vector_', 'arr'))
    com = property(lambda s: s.v('com_dummy_links_', 'arr'))
    ncom = property(lambda s: s.v('com_dummy_links_', 'len'))
    table = property(lambda s: s.v('rptable_', 'table_', 'arr'))
    vb = T('vec', BOOL)
    vl = T('vec', T('ref', name='urdf::Link'))

    @property
    def top(self):
        t = self.st.store.get(('H', '$', 'top'))
        return self.ex.top0() if t is None else t

    def kids(self, l):
        """(number, array) of the child links of link l."""
        c = sel(self.children, l)
        return acc(self.vl, c, 'len'), acc(self.vl, c, 'arr')

    def cfg(self, angles=None, base=None):
        return [self.parent, self.pjoint, self.type, self.axis, self.origin, self.jid,
                self.angles if angles is None else angles, self.base if base is None else base]

    def FK(self, l, angles=None, base=None):
        c = self.cfg(angles, base)
        self.reg(c)
        return S.FK(*(c + [l]))

    def local(self, l, angles=None):
        return local(self.cfg(angles), l)

    def reg(self, c):
        ex = self.ex
        if not hasattr(ex, 'fkreg'):
            ex.fkreg = {}
        k = tuple(x.get_id() for x in c)
        if ex.dry or getattr(ex, 'no_unfold', False) or k in ex.fkreg:
            return
        ex.fkreg[k] = c
        t = S.FK(*(c + [R_]))
        ex.facts.append(fa([R_], unfold_fk(c, R_), (t, z3.Select(c[0], R_))))

    def mem(self, l):
        return z3.And(l > 0, l < self.top, sel(self.lid, l) >= 0, sel(self.lid, l) < self.n, sel(self.links, sel(self.lid, l)) == l)

    def rel(self, li, ji):
        """Relevance table entry."""
        return sel(acc(self.vb, sel(self.table, li), 'arr'), ji)

    # ---- validity
    def shape(self):
        n, m = self.n, self.m
        li, jj = sel(self.links, I_), sel(self.joints, J_)
        p, pj, c = sel(self.parent, li), sel(self.pjoint, li), sel(self.child, jj)
        top = self.top
        ty = sel(self.type, pj)
        root = self.v('root_link_id_')
        out = [
            ('there is a link', n >= 1),
            ('every entry of the link list is a link carrying its own index',
             fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n), z3.And(li > 0, li < top, sel(self.lid, li) == I_)), li)),
            ('the parent of a link is in the list and of smaller rank, reached by a joint',
             fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n),
                                 z3.And(S.RANK(li) >= 0, S.RANK(li) < n, p >= 0, p < top,
                                        z3.Or(p == 0, z3.And(sel(self.lid, p) >= 0, sel(self.lid, p) < n, sel(self.links, sel(self.lid, p)) == p,
                                                             S.RANK(p) < S.RANK(li), pj > 0, pj < top)))), p)),
            ('parent joints are fixed or belong to the joint list',
             fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n, p != 0),
                                 z3.And(z3.Or(ty == FIXED, z3.And(z3.Or(ty == REVOLUTE, ty == CONTINUOUS, ty == PRISMATIC),
                                                                  sel(self.jid, pj) >= 0, sel(self.jid, pj) < m,
                                                                  sel(self.joints, sel(self.jid, pj)) == pj, sel(self.child, pj) == li)),
                                        S.UNIT(rot(sel(self.origin, pj))))), pj)),
            ('every entry of the joint list is a movable joint carrying its own index',
             fa([J_], z3.Implies(z3.And(0 <= J_, J_ < m),
                                 z3.And(jj > 0, jj < top, sel(self.jid, jj) == J_,
                                        z3.Or(*[sel(self.type, jj) == k for k in (REVOLUTE, CONTINUOUS, PRISMATIC)]),
                                        z3.Or(sel(self.type, jj) == CONTINUOUS, z3.And(sel(self.limits, jj) > 0, sel(self.limits, jj) < top)),
                                        implies(UNITAXES, nrmv(sel(self.axis, jj))))), jj)),
            ('the child link of a movable joint is a link of the list whose parent joint it is',
             fa([J_], z3.Implies(z3.And(0 <= J_, J_ < m),
                                 z3.And(c > 0, c < top, sel(self.lid, c) >= 0, sel(self.lid, c) < n, sel(self.links, sel(self.lid, c)) == c,
                                        sel(self.pjoint, c) == jj, sel(self.parent, c) != 0)), c)),
            ('one angle per joint', z3.And(self.v('joint_angles_', 'len') == m, self.v('num_dof_') == m)),
            ('the root link is in the list and has no parent', z3.And(root >= 0, root < n, sel(self.parent, sel(self.links, root)) == 0)),
            ('the base rotation is a unit quaternion', S.UNIT(rot(self.base))),
        ]
        return out

    def sizes(self):
        return [('cache and stack have room for every link',
                 z3.And(self.v('transform_cache_', 'data_', 'len') == self.n, self.v('transform_cache_', 'cache_predicate_vector_', 'len') == self.n,
                        self.v('transform_cache_', 'cache_size_') == self.n, self.v('transform_stack_', 'data_', 'len') >= self.n))]

    def names(self):
        li, jj = sel(self.links, I_), sel(self.joints, J_)
        ln, jn = sel(self.lname, li), sel(self.jname, jj)
        return [('every link is found by its name', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.n), z3.And(sel(self.ldom, ln), sel(self.lval, ln) == I_)), li)),
                ('every name in the link table is that of its link',
                 fa([N_], z3.Implies(sel(self.ldom, N_), z3.And(sel(self.lval, N_) >= 0, sel(self.lval, N_) < self.n,
                                                                sel(self.lname, sel(self.links, sel(self.lval, N_))) == N_)), sel(self.ldom, N_), sel(self.lval, N_))),
                ('one table entry per link', MSIZE(self.ldom) == self.n),
                ('every joint is found by its name', fa([J_], z3.Implies(z3.And(0 <= J_, J_ < self.m), z3.And(sel(self.jdom, jn), sel(self.jval, jn) == J_)), jj)),
                ('every name in the joint table is that of its joint',
                 fa([N_], z3.Implies(sel(self.jdom, N_), z3.And(sel(self.jval, N_) >= 0, sel(self.jval, N_) < self.m,
                                                                sel(self.jname, sel(self.joints, sel(self.jval, N_))) == N_)), sel(self.jdom, N_), sel(self.jval, N_))),
                ('one table entry per joint', MSIZE(self.jdom) == self.m)]

    def relevance(self):
        """The relevance table has one row per link, one column per joint."""
        row = sel(self.table, I_)
        return [('the relevance table has one row per link and one column per joint',
                 z3.And(self.v('rptable_', 'table_', 'len') == self.n,
                        fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.n), acc(self.vb, row, 'len') == self.m), row))),
                ('an entry is set exactly when the child of the joint is the link or an ancestor',
                 fa([I_, J_], z3.Implies(z3.And(0 <= I_, I_ < self.n, 0 <= J_, J_ < self.m),
                                         self.rel(I_, J_) == S.ANC(self.parent, sel(self.child, sel(self.joints, J_)), sel(self.links, I_))),
                    self.rel(I_, J_)))]

    def coms(self):
        ck = sel(self.com, K_)
        top = self.top
        return [('center-of-mass links are links of the list with an inertial',
                 z3.And(self.ncom >= 0, fa([K_], z3.Implies(z3.And(0 <= K_, K_ < self.ncom),
                                                            z3.And(ck > 0, ck < top, sel(self.lid, ck) >= 0, sel(self.lid, ck) < self.n, sel(self.links, sel(self.lid, ck)) == ck,
                                                                   sel(self.inertial, ck) > 0, sel(self.inertial, ck) < top)), ck)))]

    def lists(self):
        """Child lists and parent pointers agree."""
        li = sel(self.links, I_)
        nk, ka = self.kids(li)
        ch = sel(ka, K_)
        p = sel(self.parent, li)
        np, pa = self.kids(p)
        ci = S.CIDX(li)
        return [('every entry of a child list is a link of the list whose parent is the owner',
                 fa([I_, K_], z3.Implies(z3.And(0 <= I_, I_ < self.n, 0 <= K_, K_ < nk), z3.And(self.mem(ch), sel(self.parent, ch) == li)), (li, ch))),
                ('child lists have a length', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.n), nk >= 0), li)),
                ('every link is in the child list of its parent',
                 fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.n, p != 0), z3.And(0 <= ci, ci < np, sel(pa, ci) == li)), li))]

    def valid(self):
        return self.shape() + self.sizes()

    def units(self):
        return [('the joint axes have unit length', UNITAXES)]

    def full(self):
        return self.shape() + self.sizes() + self.names() + self.lists() + self.relevance() + self.coms()

    def coh(self):
        d = sel(self.data, I_)
        return ('cached poses are current',
                fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.n, sel(self.pred, I_)), d == self.FK(sel(self.links, I_))), sel(self.pred, I_)))

    def clearcache(self):
        return ('the cache is empty', fa([I_], z3.Not(sel(self.pred, I_)), sel(self.pred, I_)))


def nrmv(a):
    x, y, z = xyz(a)
    return S.UNIT(quat(x, y, z, real(0)))


def local(c, l):
    """Transform of link l in its parent's frame."""
    pj = sel(c[1], l)
    ty = sel(c[2], pj)
    og = sel(c[4], pj)
    return z3.If(ty == FIXED, og, S.COMP(og, S.JM(ty, sel(c[3], pj), sel(c[6], sel(c[5], pj)))))


def unfold_fk(c, l):
    p = z3.Select(c[0], l)
    return S.FK(*(c + [l])) == z3.If(p == 0, c[7], S.COMP(S.FK(*(c + [p])), local(c, l)))


def seta(ids, q, a, k):
    return S.SETA(ids, q, a, k)


def seta_axioms(ids, q, a, k):
    """Definition of SETA at 0 and k+1."""
    z = z3.IntVal(0)
    return [S.SETA(ids, q, a, z) == a,
            z3.Implies(k >= 0, S.SETA(ids, q, a, k + 1) == z3.Store(S.SETA(ids, q, a, k), z3.Select(ids, k), z3.Select(q, k)))]
