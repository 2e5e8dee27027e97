"""Contracts of the relevance table and of adding links."""
from ccv.contract import Contract, Theorem
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import MSIZE
from ccv import lemma
from .model import MC, KM, VI, VR
from .jac import use, induct, anc_def

RT = T('struct', name='tinyfk::RelevancePredicateTable')
LREF = T('ref', name=LINK)
STK = T('vec', LREF)
x_ = z3.Int('x?')


def least(ex, label, bad, measure, *pats):
    """Well-ordering of the natural numbers: if some l is `bad`, one of least measure is (a fresh constant)."""
    w = ex.fresh('least', Int)
    ex.facts.append(fa([R_], z3.Implies(bad(R_), z3.And(bad(w), measure(w) <= measure(R_))), *[p(R_) for p in pats]))
    return w


VL = T('vec', LREF)
SA, SC = z3.ArraySort(Int, Int), None


def funs(C):
    """INSTK(a, n, l): l is among the first n entries of a.  TS(c, a, n): number of links in the subtrees of the first n entries.
    SZ(c, l): number of links in the subtree of l.  CH(c, l, k): number of links in the subtrees of the first k children of l."""
    return (z3.Function('INSTK', SA, Int, Int, Bool), z3.Function('TS', C, SA, Int, Int), z3.Function('SZ', C, Int, Int), z3.Function('CH', C, Int, Int, Int))


def stack_funs(m):
    c = m.children
    instk, ts, sz, ch = funs(c.sort())
    return instk, (lambda a, n: ts(c, a, n)), (lambda l: sz(c, l)), (lambda l, k: ch(c, l, k))


def stack_defs(INSTK, TS, SZ, a, n):
    """Recursive definitions of INSTK and TS at (a, n); SZ and TS are numbers of links."""
    return [fa([R_], INSTK(a, n, R_) == z3.And(n > 0, z3.Or(INSTK(a, n - 1, R_), R_ == sel(a, n - 1))), INSTK(a, n, R_)),
            TS(a, n) == z3.If(n > 0, TS(a, n - 1) + SZ(sel(a, n - 1)), 0), z3.Implies(n >= 0, TS(a, n) >= 0), z3.Implies(n >= 1, TS(a, n - 1) >= 0)]


@lemma.lemma
def stack_below():
    """INSTK and TS depend on the first n entries only."""
    C = z3.ArraySort(Int, sort_of(VL))
    instk, ts, sz, _ = funs(C)
    c, a, n, k, x, l = z3.Const('c', C), z3.Const('a', SA), z3.Int('n'), z3.Int('k'), z3.Int('x'), z3.Int('l')
    b = z3.Store(a, k, x)
    TS, SZ = (lambda a, n: ts(c, a, n)), (lambda l: sz(c, l))
    facts = [f for w in (a, b) for n_ in (n, n + 1, z3.IntVal(0)) for f in stack_defs(instk, TS, SZ, w, n_)]
    return dict(vars=[c, a, n, k, x, l], induct=n, hyp=n <= k, concl=z3.And(instk(b, n, l) == instk(a, n, l), TS(b, n) == TS(a, n)), facts=facts,
                pats=[(instk(b, n, l), TS(b, n))])


@lemma.lemma
def stack_push():
    """INSTK and TS after a push."""
    C = z3.ArraySort(Int, sort_of(VL))
    instk, ts, sz, _ = funs(C)
    c, a, n, x, l = z3.Const('c', C), z3.Const('a', SA), z3.Int('n'), z3.Int('x'), z3.Int('l')
    b = z3.Store(a, n, x)
    TS, SZ = (lambda a, n: ts(c, a, n)), (lambda l: sz(c, l))
    return dict(vars=[c, a, n, x, l], hyp=n >= 0, expand=False, facts=stack_defs(instk, TS, SZ, b, n + 1), inst=[('stack_below', [c, a, n, n, x, l])],
                concl=z3.And(instk(b, n + 1, l) == z3.Or(instk(a, n, l), l == x), TS(b, n + 1) == TS(a, n) + SZ(x)),
                pats=[(instk(b, n + 1, l), TS(b, n + 1))])


def pushes(ex, m, a, n):
    """Instance of stack_push for pushes onto (a, n)."""
    ex.lemmas_used = getattr(ex, 'lemmas_used', set()) | {'stack_push'}
    g = lambda i: lemma.instance('stack_push', m.children, a, n, x_, R_)
    INSTK, TS, SZ, CH = stack_funs(m)
    b = z3.Store(a, n, x_)
    return [fa([x_, R_], g(0), INSTK(b, n + 1, R_)), fa([x_, R_], g(0), (TS(b, n + 1), SZ(R_)))]


def anc_axiom(m):
    a, l = z3.Int('a?'), R_
    par = m.parent
    return fa([a, l], anc_def(par, a, l), (S.ANC(par, a, l), sel(par, l)))


class TableCtor(Contract):
    qual, nparams = 'tinyfk::RelevancePredicateTable::RelevancePredicateTable', 2
    vb = T('vec', BOOL)

    def requires(self, cx):
        return [('sizes are not negative', z3.And(cx.arg(0) >= 0, cx.arg(1) >= 0))]

    def modifies(self, cx):
        return [cx.this]

    def rows(self, cx, st, n):
        t = cx.ex.lvf(cx.this, 'table_')
        a = cx.ex.read(cx.ex.lvf(t, 'arr'), st)
        r = sel(a, I_)
        e = sel(acc(self.vb, r, 'arr'), J_)
        return [('rows', cx.ex.read(cx.ex.lvf(t, 'len'), st) == n), ('columns', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n), acc(self.vb, r, 'len') == cx.arg(1)), r)),
                ('no entry is set', fa([I_, J_], z3.Implies(z3.And(0 <= I_, I_ < n), z3.Not(e)), e))]

    def ensures(self, cx):
        return self.rows(cx, cx.post, cx.arg(0))

    def invariants(self, L):
        return [(nm, lambda v, k, i=i: self.rows(L.cx, v.st, k)[i][1]) for i, nm in enumerate(('rows so far', 'columns so far', 'no entry is set so far'))]


class UpdateTable(MC):
    qual = KM + 'update_rptable'
    unroll = 0

    def requires(self, cx):
        m = self.m0(cx)
        return m.shape() + m.names() + m.lists()

    def modifies(self, cx):
        return [self.m0(cx).at('rptable_')]

    def ensures(self, cx):
        return self.m1(cx).relevance()

    def tables(self, L):
        """Places of relevance tables in scope that the loop changes."""
        out = [lv for lv in L.holes(lambda t: t == RT, all_frames=True)]
        lv = self.m0(L.cx).at('rptable_')
        return [x for x in out + [lv] if L.modified(x)]

    def invariants(self, L):
        cx = L.cx
        m = self.m0(cx)
        ex = L.ex
        out = []
        stacks = [s for s in L.holes(lambda t: t == STK, all_frames=True) if L.modified(s)]
        INSTK, TS, SZ, CH = stack_funs(m)
        par = m.parent

        def table(lv, st):
            a = ex.read(ex.lvf(ex.lvf(lv, 'table_'), 'arr'), st)
            n = ex.read(ex.lvf(ex.lvf(lv, 'table_'), 'len'), st)
            return n, lambda i: acc(m.vb, sel(a, i), 'len'), lambda i, j: sel(acc(m.vb, sel(a, i), 'arr'), j)

        for lv in self.tables(L):
            def shp(v, k, lv=lv):
                n, rl, _ = table(lv, v.st)
                return z3.And(n == m.n, fa([I_], z3.Implies(z3.And(0 <= I_, I_ < m.n), rl(I_) == m.m), rl(I_)))
            out.append(('one row per link, one column per joint', shp))
            if not stacks:
                def cols(v, k, lv=lv):
                    _, _, e = table(lv, v.st)
                    return fa([I_, J_], z3.Implies(z3.And(0 <= I_, I_ < m.n, 0 <= J_, J_ < m.m),
                                                   e(I_, J_) == z3.And(J_ < k, S.ANC(par, sel(m.child, sel(m.joints, J_)), sel(m.links, I_)))), e(I_, J_))
                out.append(('the first columns are final, the others empty', cols))
        if not stacks:
            ex.facts.append(anc_axiom(m))
            return out
        st = stacks[0]

        def stk(s):
            return ex.read(ex.lvf(st, 'arr'), s), ex.read(ex.lvf(st, 'len'), s)
        a0, n0 = stk(L.pre)
        ah, nh = stk(L.head)
        ex.facts.extend(stack_defs(INSTK, TS, SZ, ah, nh) + stack_defs(INSTK, TS, SZ, a0, n0) + pushes(ex, m, ah, nh))
        ex.facts.append(fa([R_], z3.Implies(m.mem(R_), z3.And(SZ(R_) >= 1, SZ(R_) == 1 + CH(R_, m.kids(R_)[0]), CH(R_, z3.IntVal(0)) == 0)), SZ(R_), CH(R_, z3.IntVal(0))))
        ex.facts.append(fa([R_, K_], z3.Implies(z3.And(m.mem(R_), 0 <= K_, K_ < m.kids(R_)[0]), CH(R_, K_ + 1) == CH(R_, K_) + SZ(sel(m.kids(R_)[1], K_))), CH(R_, K_ + 1)))
        # ---- loop over the children of one link
        if not self.tables(L):
            heres = [v.c.proj[0][1] for v in L.pre.store.values() if isinstance(v, It) and isinstance(v.c, LV) and v.c.key == ('H', LINK, 'child_links')]
            heres = heres or [ex.read(lv, L.pre) for lv in L.holes(lambda t: t == LREF, all_frames=True) if not L.modified(lv)]
            for here in {h.get_id(): h for h in heres}.values():
                nk, ka = m.kids(here)

                def below(v, k, nk=nk, ka=ka):
                    a, n = stk(v.st)
                    return fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n), z3.Or(z3.And(I_ < n0, sel(a, I_) == sel(a0, I_)), z3.And(I_ >= n0, sel(a, I_) == sel(ka, I_ - n0)))), sel(a, I_))

                def on(v, k, nk=nk, ka=ka):
                    a, n = stk(v.st)
                    c = sel(ka, K_)
                    return fa([K_], z3.Implies(z3.And(0 <= K_, K_ < k), INSTK(a, n, c)), c)
                out += [('the stack holds its old entries and the first children', below), ('the first children are on the stack', on),
                        ('subtree sizes on the stack', lambda v, k, here=here: TS(*stk(v.st)) == TS(a0, n0) + CH(here, k))]
            return out + [('the stack grows by one', lambda v, k: stk(v.st)[1] == n0 + k),
                          ('no entry leaves the stack', lambda v, k: fa([R_], z3.Implies(INSTK(a0, n0, R_), INSTK(*stk(v.st), R_)), INSTK(*stk(v.st), R_), INSTK(a0, n0, R_)))]
        # ---- loop over the stack
        c = sel(a0, z3.IntVal(0))
        j = sel(m.jid, sel(m.pjoint, c))
        for lv in self.tables(L):
            _, _, e0 = table(lv, L.pre)

            def other(v, k, lv=lv, e0=e0):
                _, _, e = table(lv, v.st)
                return fa([I_, J_], z3.Implies(J_ != j, e(I_, J_) == e0(I_, J_)), e(I_, J_))

            def sound(v, k, lv=lv):
                _, _, e = table(lv, v.st)
                return fa([I_], z3.Implies(z3.And(0 <= I_, I_ < m.n, e(I_, j)), S.ANC(par, c, sel(m.links, I_))), e(I_, j))

            def first(v, k, lv=lv):
                _, _, e = table(lv, v.st)
                return z3.Or(e(sel(m.lid, c), j), INSTK(*stk(v.st), c))

            def closed(v, k, lv=lv):
                _, _, e = table(lv, v.st)
                l = sel(m.links, I_)
                p = sel(par, l)
                return fa([I_], z3.Implies(z3.And(0 <= I_, I_ < m.n, l != c, p != 0, e(sel(m.lid, p), j)), z3.Or(e(I_, j), INSTK(*stk(v.st), l))), l)
            out += [('other columns keep their value', other), ('marked links are descendants', sound), ('the start is marked or on the stack', first),
                    ('children of marked links are marked or on the stack', closed)]
            _, _, eh = table(lv, L.head)
            least(ex, 'unmarked descendant', lambda l, eh=eh: z3.And(m.mem(l), S.ANC(par, c, l), z3.Not(eh(sel(m.lid, l), j))), S.RANK, lambda l: S.ANC(par, c, l))

        def entries(v, k):
            a, n = stk(v.st)
            l = sel(a, I_)
            return fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n), z3.And(m.mem(l), S.ANC(par, c, l))), l)
        out.append(('entries of the stack are descendants', entries))
        return out

    def measures(self, L):
        m = self.m0(L.cx)
        INSTK, TS, SZ, CH = stack_funs(m)
        ex = L.ex
        return [('links below the stack', lambda v, s=s: TS(ex.read(ex.lvf(s, 'arr'), v.st), ex.read(ex.lvf(s, 'len'), v.st)))
                for s in L.holes(lambda t: t == STK, all_frames=True) if L.modified(s) and self.tables(L)]


class AddLink(MC):
    qual, nparams = KM + 'add_new_link', 3
    exc = 'std::invalid_argument'

    def offset(self, cx):
        return cx.arg(2)

    def valid(self, m):
        return m.shape() + m.sizes() + m.names() + m.lists() + m.coms()

    def requires(self, cx):
        m = self.m0(cx)
        return self.valid(m) + [('the parent id is valid', z3.And(cx.arg(1) >= 0, cx.arg(1) < m.n)), ('the offset rotation is a unit quaternion', self.unit(cx))]

    def unit(self, cx):
        return S.UNIT(rot(self.offset(cx)))

    def parent(self, cx):
        return sel(self.m0(cx).links, cx.arg(1))

    def throws(self, cx):
        return sel(self.m0(cx).ldom, cx.arg(0))

    def modifies(self, cx):
        m = self.m0(cx)
        return [m.at('links_'), m.at('link_ids_'), m.at('transform_cache_'), m.at('transform_stack_'), m.at('rptable_'),
                cx.ex.heap_lv(LINK, 'child_links', self.parent(cx)), ('H', '$', 'top')]

    def lemmas(self, cx, st):
        """Ghost fields of the objects this call allocates."""
        m = self.m0(cx)
        p = self.parent(cx)
        return [fa([R_], z3.Implies(R_ >= m.top, z3.And(S.RANK(R_) == S.RANK(p) + 1, S.CIDX(R_) == m.kids(p)[0])), S.RANK(R_), S.CIDX(R_))]

    def at_return(self, cx, st):
        m, m1 = self.m0(cx), self.m1(cx)
        ex = cx.ex
        # in every configuration
        q, b = ex.fresh('angles', m.angles.sort()), ex.fresh('base', m.base.sort())
        f0, f1 = (lambda l: m.FK(l, angles=q, base=b)), (lambda l: m1.FK(l, angles=q, base=b))
        induct(cx, st, m, 'poses of the old links', lambda l: f1(l) == f0(l), lambda l: [f1(l)],
               facts=lambda l: [unfold_fk(m.cfg(q, b), l), unfold_fk(m1.cfg(q, b), l)])
        return [('the poses of the other links are unchanged in every configuration', fa([R_], z3.Implies(m.mem(R_), f1(R_) == f0(R_)), f1(R_))),
                ('the pose of the new link is the offset from its parent in every configuration',
                 f1(cx.result) == S.COMP(f0(self.parent(cx)), self.offset(cx)))]

    def ensures(self, cx):
        m, m1 = self.m0(cx), self.m1(cx)
        r, p = cx.result, self.parent(cx)
        return [('the new link has the next free id', z3.And(m1.n == m.n + 1, r == sel(m1.links, m.n), sel(m1.lid, r) == m.n, r >= m.top, r < m1.top)),
                ('the other links keep their ids', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < m.n), sel(m1.links, I_) == sel(m.links, I_)), sel(m1.links, I_))),
                ('the new link has the given name', sel(m1.lname, r) == cx.arg(0)),
                ('the name table gains this name', z3.And(m1.ldom == z3.Store(m.ldom, cx.arg(0), TRUE), m1.lval == z3.Store(m.lval, cx.arg(0), m.n))),
                ('its parent is the given link', sel(m1.parent, r) == p),
                ('it is fixed to its parent with the given offset', z3.And(sel(m1.pjoint, r) > 0, sel(m1.type, sel(m1.pjoint, r)) == FIXED,
                                                                           sel(m1.origin, sel(m1.pjoint, r)) == self.offset(cx))),
                ('it has no inertial', sel(m1.inertial, r) == 0), ('the cache has room', m1.sizes()[0][1]), m1.clearcache()] + self.valid(m1) + m1.relevance()


class AddLinkRpy(AddLink):
    nparams = 4

    def offset(self, cx):
        A = T('array', REAL, 3)
        at = lambda i, k: acc(A, cx.arg(i), str(k)) if False else cx.ex.read(cx.ex.arr_elem(cx.args[i], z3.IntVal(k), cx.old, None), cx.old)
        return pose(vec(*[at(2, k) for k in range(3)]), S.FROMRPY(*[at(3, k) for k in range(3)]))

    def unit(self, cx):
        return TRUE

    def lemmas(self, cx, st):
        return [use(cx.ex, 'unit_fromrpy')]


CONTRACTS = [TableCtor, UpdateTable, AddLink, AddLinkRpy]
