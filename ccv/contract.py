"""Contracts, loop contexts and the obligation generator for one function."""
import z3
from .sym import *


class Contract:
    """Specification of one function of the repository; subclasses fill in the clauses.

    requires/ensures return lists of (label, formula); ensures may add a set of property ids.
    modifies lists places (or heap field keys) the function may change: everything else is framed."""
    qual = None
    nparams = None
    typ = None
    props = ()
    exc = 'std::runtime_error'
    inline = ()
    reads_not = ()          # members this function may only read through other contracts
    standalone = False            # proved on its own; callers execute the body in place
    check_casts = False
    result_place = None
    trusted = False         # an assumed contract (library boundary); never verified
    bounds = None
    may_throw = False             # an exception of the class is allowed in any call

    def requires(self, cx):
        return []

    def ensures(self, cx):
        return []

    def ensures_call(self, cx):
        """What callers may use: the postconditions, or their abstract form."""
        return self.ensures(cx)

    def abstract(self, cx):
        """[(label, formula, definitions)]: abstract form, a consequence of the postconditions and the definitions."""
        return []

    def throws(self, cx):
        return None

    def ensures_exc(self, cx):
        """What holds after the exception."""
        return []

    def modifies(self, cx):
        return []

    def invariants(self, L):
        return []

    def measures(self, L):
        return []

    def pointwise(self, cx):
        """[(type, fn(i))]: elements a local sequence of that type holds after i iterations."""
        return []

    def cases(self):
        return [None]

    def lemmas(self, cx, st):
        """Extra facts (instances of proved lemmas or definitions) added at function entry."""
        return []

    def at_return(self, cx, st):
        return []

    @property
    def id(self):
        return self.qual + ('/%s' % self.typ if self.typ else '') + ('/%d' % self.nparams if self.nparams is not None else '')


class Registry:
    def __init__(self, contracts):
        self.l = list(contracts)
        self.by = {}
        assert all(c.qual for c in self.l)
        for c in self.l:
            self.by.setdefault(c.qual, []).append(c)

    def find(self, f):
        for c in self.by.get(f.qual, []):
            if c.nparams is not None and len(f.params) != c.nparams:
                continue
            if c.typ is not None and c.typ not in f.type:
                continue
            if c.standalone:
                continue
            return c
        return None


class CallCtx:
    """A call of f: argument access in the pre-state, and the post-state once it exists."""
    def __init__(self, ex, c, f, this, args, st):
        self.ex, self.c, self.f, self.this, self.args = ex, c, f, this, args
        self.cur = st
        self.old = st
        self.post = None
        self.result = None
        self.case = None

    def freeze(self, st):
        self.old = st.copy()

    @property
    def st(self):
        return self.old

    def place(self, i):
        return self.args[i]

    def arg(self, i, st=None):
        a = self.args[i]
        if isinstance(a, LV):
            return self.ex.read(a, st or self.old)
        if isinstance(a, Obj):
            return a
        return a

    def argp(self, i):
        return self.arg(i, self.post)

    def fld(self, name, st=None, o=None):
        return self.ex.read(self.ex.lvf(o if o is not None else self.this, name), st or self.old)

    def heap(self, cls, f, st=None):
        return self.ex.hleaf(st or self.old, ('H', cls, f))

    def nexc(self):
        return self.c.throws(self)


class View:
    """The state at some point of a loop."""
    def __init__(self, L, st):
        self.L, self.st, self.ex = L, st, L.ex

    def get(self, lv):
        return self.ex.read(lv, self.st)


class LoopCtx:
    def __init__(self, ex, lid, node, pre, head, mod, cond, frame, k):
        self.ex, self.lid, self.node, self.pre, self.head, self.mod = ex, lid, node, pre.copy(), head, mod
        self.cond, self.frame, self.k = cond, frame, k
        self.cx = getattr(ex, 'topcx', None)
        f = frame
        self.frames = []
        while f is not None:
            self.frames.append(f)
            f = f.parent

    def view(self, st):
        return View(self, st)

    def holes(self, pred, all_frames=False):
        """Local places whose type satisfies pred (innermost frame first)."""
        out, seen = [], set()
        for fr in (self.frames if all_frames else self.frames[:1]):
            for key, l in fr.env.items():
                if isinstance(l, LV) and not l.proj and pred(l.t):
                    kk = l.key
                    if kk in seen:
                        continue
                    if any(s[:len(kk)] == kk for s in self.pre.store):
                        seen.add(kk)
                        out.append(l)
        return out

    def modified(self, lv):
        return any(m[:len(lv.key)] == lv.key for m in self.mod)

    def cond_sides(self):
        n = self.cond
        while n is not None and n['kind'] in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr'):
            n = self.ex.kids(n)[0]
        if n is None:
            return None
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('<', '<=', '!=', '>', '>='):
            a, b = self.ex.kids(n)
            return n['opcode'], a, b
        if n['kind'] == 'CXXOperatorCallExpr':
            ks = self.ex.kids(n)
            d = self.ex.strip(ks[0])
            nm = d['referencedDecl']['name'][8:] if d else ''
            if nm in ('!=', '<') and len(ks) == 3:
                return nm, ks[1], ks[2]
        return None

    def quiet(self, node, st):
        """Evaluate an expression without side effects or obligations."""
        ex = self.ex
        ex.dry += 1
        save = (len(ex.facts), len(ex.obls), [len(h) for h in ex.handlers])
        fr = ex.frame
        try:
            ex.frame = self.frame
            return ex.ev(node, st.copy())
        finally:
            ex.frame = fr
            ex.dry -= 1
            del ex.facts[save[0]:], ex.obls[save[1]:]
            for h, n in zip(ex.handlers, save[2]):
                del h[n:]

    def candidates(self):
        ex = self.ex
        cands, measures = [], []
        sides = self.cond_sides()
        for key in sorted(self.mod, key=str):
            pv = self.pre.store.get(key)
            nm = ex.vname.get(key[:2], '') + ('.' + '.'.join(map(str, key[2:])) if len(key) > 2 else '')
            if isinstance(pv, It):
                cands.append(('%s is at the iteration count' % nm, lambda v, k, key=key, pv=pv: v.st.store[key].pos == pv.pos + k))
            elif isinstance(pv, z3.ExprRef) and z3.is_int(pv) and key[0] == 'v':
                t = ex.kt.get(key)
                if t is not None and t.k == 'ref':
                    cands.append(('%s is null or an object' % nm, lambda v, k, key=key: v.st.store[key] >= 0))
                    if t.name == 'TiXmlElement':
                        from .lib import XLEFT
                        cands.append(('%s has a place among its siblings' % nm, lambda v, k, key=key: z3.Implies(v.st.store[key] > 0, XLEFT(v.st.store[key]) >= 0)))
                        cands.append(('%s stays null' % nm, lambda v, k, key=key, pv=pv: z3.Implies(pv == 0, v.st.store[key] == 0)))
                    continue
                cands.append(('%s counts iterations' % nm, lambda v, k, key=key, pv=pv: v.st.store[key] == pv + k))
                cands.append(('%s is unchanged' % nm, lambda v, k, key=key, pv=pv: v.st.store[key] == pv))
                cands.append(('%s does not decrease' % nm, lambda v, k, key=key, pv=pv: v.st.store[key] >= pv))
            elif isinstance(pv, z3.ExprRef) and key[-1] in ('len', 'rows', 'cols'):
                cands.append(('%s is unchanged' % nm, lambda v, k, key=key, pv=pv: v.st.store[key] == pv))
                if key[-1] == 'len':
                    cands.append(('%s grows by one' % nm, lambda v, k, key=key, pv=pv: v.st.store[key] == pv + k))
        self.heap_candidates(cands)
        if sides:
            op, a, b = sides

            def val(n, st):
                x = self.quiet(n, st)
                if isinstance(x, It):
                    return x.pos
                if isinstance(x, z3.ExprRef) and z3.is_int(x):
                    return x
                raise Unsupported('side')
            if op in ('<', '!='):
                cands.append(('the counter stays within its bound', lambda v, k: val(a, v.st) <= val(b, v.st)))
                measures.append(('remaining iterations', lambda v: val(b, v.st) - val(a, v.st)))
            elif op == '<=':
                cands.append(('the counter stays within its bound', lambda v, k: val(a, v.st) <= val(b, v.st) + 1))
                measures.append(('remaining iterations', lambda v: val(b, v.st) - val(a, v.st) + 1))
            elif op in ('>', '>='):
                cands.append(('the counter stays within its bound', lambda v, k: val(a, v.st) >= val(b, v.st) - (0 if op == '>' else 1)))
                measures.append(('remaining iterations', lambda v: val(a, v.st) - val(b, v.st) + 1))
        else:
            n = self.cond
            if n is not None:
                while n['kind'] in ('ExprWithCleanups', 'ParenExpr') or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'PointerToBoolean'):
                    n = ex.kids(n)[0]
                t, _ = ex.ntype(n)
                if t.k == 'ref' and t.name == 'TiXmlElement':
                    from .lib import XLEFT
                    measures.append(('remaining sibling elements', lambda v: z3.If(self.quiet(n, v.st) == 0, z3.IntVal(-1), XLEFT(self.quiet(n, v.st)) ) + 1))
        cx = self.cx
        self.generic = len(cands)       # the candidates so far do not come from the contract
        if cx is not None:
            # loops of functions executed in place get the same generic candidates only
            for name, fn in cx.c.invariants(self) or []:
                cands.append((name, fn))
            for name, fn in cx.c.measures(self) or []:
                measures.append((name, fn))
            for t, spec in cx.c.pointwise(cx):
                for lv in self.holes(lambda x: x == t, all_frames=True):
                    if not self.modified(lv):
                        continue
                    i = z3.Int('i?')

                    def fn(v, k, lv=lv, spec=spec):
                        arr = self.ex.read(self.ex.lvf(lv, 'arr'), v.st)
                        e = sel_(arr, i)
                        return fa([i], z3.Implies(z3.And(0 <= i, i < k), e == spec(i)), e)
                    cands.append(('the first elements are final', fn))
        return cands, measures

    def heap_candidates(self, cands):
        """Objects that existed when the function was entered keep the fields it does not list as modified."""
        ex, cx = self.ex, self.cx
        if cx is None:
            return
        top = ('H', '$', 'top')
        mods = None
        for key in sorted(self.mod, key=str):
            if key == top:
                cands.append(('objects stay allocated', lambda v, k: ex.hleaf(v.st, top) >= ex.hleaf(self.pre, top)))
            elif key[0] == 'H':
                if mods is None:
                    mods = cx.c.modifies(cx)
                if key in mods:
                    continue
                own = [m for m in mods if isinstance(m, LV) and m.key == key and m.proj]
                refs = [m.proj[0][1] for m in own]
                old = ex.hleaf(cx.old, key)

                def kept(v, k, key=key, refs=refs, old=old):
                    r = z3.Int('r?')
                    now = ex.hleaf(v.st, key)
                    return fa([r], z3.Implies(z3.And(r < ex.top0(), *[r != x for x in refs]), z3.Select(now, r) == z3.Select(old, r)), z3.Select(now, r))
                cands.append(('%s of other objects is kept' % '.'.join(key[1:]), kept))
                for m in own:
                    if m.t.k == 'vec':
                        cands.append(('%s has a length' % '.'.join(key[1:]), lambda v, k, m=m: ex.read(ex.lvf(m, 'len'), v.st) >= 0))

    def after_head(self, head, k):
        pass

    def exit_hook(self, ex, brk, k):
        pass


def sel_(a, i):
    return z3.Select(a, i)


def good_pat(e):
    return True


# ------------------------------------------------------------------ verification of one function
class Result:
    def __init__(self):
        self.ex = None
        self.obls = []
        self.error = None


def param_values(ex, c, f, st, case=None):
    """Symbolic arguments of f; their places are added to st."""
    args = []
    for i, p in enumerate(f.params):
        t, ref = ex.ntype(p)
        nm = p.get('name', 'arg%d' % i)
        if t.k == 'obj':
            r = z3.Int(nm)
            ex.facts.append(z3.And(r > 0, r < ex.top0()))
            args.append(Obj(t.name, r))
            continue
        v = c.param(ex, i, t, case) if hasattr(c, 'param') else None
        if t.k in ('opaque', 'eig') and v is None:
            raise Unsupported('parameter of type %r' % (t,))
        if t.k == 'iter' and v is None:
            et = T('vec', REAL)
            vt = ('p', 'itvec%d' % i)
            ex.set_root(st, vt, et, None, nm + '_vec')
            pos = z3.Int(nm + '_pos')
            ex.facts.append(pos >= 0)
            args.append(It(LV(vt, [], et), pos))
            continue
        root = ('p', i)
        ex.vname[root] = nm
        ex.set_root(st, root, t, v, nm)
        for k2, v2 in st.store.items():
            if k2[:2] == root and k2[-1] in ('len', 'rows', 'cols') and len(k2) > 2:
                ex.facts.append(v2 >= 0)
        lv = LV(root, [], t)
        args.append(lv if ref else ex.read(lv, st))
    for k2, v2 in st.store.items():
        if k2[-1] in ('len',) and k2[0] == 'p':
            ex.facts.append(v2 >= 0)
    return args


def verify_function(prog, registry, c, f, case=None):
    """Generates the obligations of contract c for the definition f (one case)."""
    from .execu import Exec
    ex = Exec(prog, registry, top=c)
    ex.case = case
    st = State()
    from .execu import Frame
    fr0 = Frame(f, None)
    ex.frame = fr0
    this = None
    if f.cls and f.kind in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and not f.is_static:
        t, _ = parse_type(f.cls)
        if t.k == 'obj':
            r = z3.Int('this')
            ex.facts.append(r > 0)
            ex.facts.append(r < ex.top0())
            this = Obj(t.name, r)
        else:
            root = ('p', 'this')
            ex.vname[root] = 'this'
            ex.set_root(st, root, t, None, 'this')
            this = LV(root, [], t)
    args = param_values(ex, c, f, st, case)
    cx = CallCtx(ex, c, f, this, args, st)
    cx.case = case
    cx.freeze(st)
    ex.topcx = cx
    ex.spec += 1
    nreq = 0
    for lab, g in c.requires(cx) or []:
        ex.facts.append(g)
        nreq += 1
    for g in c.lemmas(cx, st) or []:
        ex.facts.append(g)
    ex.pre_n = len(ex.facts)
    # run
    fr = Frame(f, this)
    ex.frame = fr
    ex.bind(fr, f, args, st)
    s = st.copy()
    ex.spec -= 1
    ex.reads.clear()
    if f.kind == 'CXXConstructorDecl':
        ex.init_members(f, this, s)
    out = ex.stmt(f.body, s)
    ex.spec += 1
    for fld in c.reads_not:
        bad = sorted(k for k in ex.reads if k[:3] == ('p', 'this', fld))
        ex.obl('%s is not read directly' % fld, FALSE if bad else TRUE, st, 'reads')
    rets = list(fr.rets)
    rt = None
    if out is not None:
        rets.append((out, None))
    thr = c.throws(cx)
    for i, (rs, v) in enumerate(rets):
        cx.post, cx.result = rs, v
        if isinstance(v, (LV,)) and False:
            pass
        for lab, g in c.at_return(cx, rs) or []:
            ex.obl(lab, g, rs, 'lemma')
            ex.assume(g, rs)
        if thr is not None and not c.may_throw:
            ex.obl('no normal return when an exception is due', neg(thr), rs, 'post')
        posts = []
        for e in c.ensures(cx) or []:
            o = ex.obl(e[0], e[1], rs, 'post')
            if o is not None and len(e) > 2:
                o.hint = e[2]
            posts.append(e[1])
        ab = c.abstract(cx) or []
        if ab:
            posts = [p if not rs.pc else implies(rs.guard(), p) for p in posts]
            ex.facts.extend(posts)
            for lab, g, ds in ab:
                ex.facts.extend(ds)
                ex.obl(lab, g, rs, 'post').using = posts + list(ds)
        # frame
        if f.kind != 'CXXConstructorDecl' or True:
            for lab, g in frame_goals(ex, c, cx, st, rs, f):
                ex.obl(lab, g, rs, 'frame')
    for s2, e in ex.handlers[0]:
        cx.post, cx.result = s2, None
        if thr is None and not c.may_throw:
            ex.obl('no exception (%s) is thrown' % e.cls, FALSE, s2, 'exc')
        else:
            if c.exc not in EXC.get(e.cls, [e.cls]) and c.exc != '*':
                ex.obl('the exception is a %s' % c.exc, FALSE, s2, 'exc')
            if not c.may_throw:
                ex.obl('an exception only when one is due', thr, s2, 'exc')
            for lab, g in c.ensures_exc(cx):
                ex.obl(lab + ' (exception)', g, s2, 'post')
            for lab, g in frame_goals(ex, c, cx, st, s2, f, exc=True):
                ex.obl(lab + ' (exception)', g, s2, 'frame')
    return ex


class Theorem(Contract):
    """A statement about every model that satisfies `requires`; no code is executed."""
    cls = 'tinyfk::KinematicModel'

    def prove(self, cx, st):
        """Yields (label, goal[, facts to use]); every goal is an obligation and a fact for the later ones."""
        return []


def verify_theorem(prog, registry, c, case=None):
    from .execu import Exec, Frame
    ex = Exec(prog, registry, top=c)
    ex.case = case
    st = State()

    class F_:
        qual, params, cls, tu = c.qual, [], c.cls, None
    ex.frame = Frame(F_, None)
    root = ('p', 'this')
    ex.vname[root] = 'this'
    t, _ = parse_type(c.cls)
    ex.set_root(st, root, t, None, 'this')
    for k2, v2 in st.store.items():
        if k2[-1] == 'len':
            ex.facts.append(v2 >= 0)
    cx = CallCtx(ex, c, F_, LV(root, [], t), [], st)
    cx.case = case
    cx.freeze(st)
    cx.post = st
    ex.topcx = cx
    for lab, g in c.requires(cx) or []:
        ex.facts.append(g)
    ex.pre_n = len(ex.facts)
    for lab, g, *using in c.prove(cx, st):
        o = ex.obl(lab, g, st, 'lemma')
        if using:
            have = {f.get_id() for f in ex.facts}
            for u in using[0]:
                if u.get_id() not in have:
                    raise Unsupported('not established: %s' % str(u)[:200])
            o.using = list(using[0])
        ex.assume(g, st)
    return ex


def frame_goals(ex, c, cx, st, rs, f, exc=False):
    """Everything reachable by the caller that is not in modifies keeps its value."""
    mods = [] if exc else c.modifies(cx)
    if exc and hasattr(c, 'modifies_exc'):
        mods = c.modifies_exc(cx)
    mk_, mp = [], []
    for m in mods:
        if isinstance(m, tuple):
            mk_.append(m)
        elif m.proj:
            mp.append(m)
        else:
            mk_.append(m.key)
    out = []
    if f.kind == 'CXXConstructorDecl' and not exc:
        mk_.append(('p', 'this'))
    for k, v in rs.store.items():
        if k[0] not in ('p', 'H'):
            continue
        if any(k[:len(m)] == m for m in mk_):
            continue
        if k == ('H', '$', 'top'):
            continue
        old = ex.hleaf(st, k) if k[0] == 'H' else st.store.get(k)
        if old is None or old is v:
            continue
        if not isinstance(v, z3.ExprRef):
            if isinstance(v, It) and isinstance(old, It) and v.pos.eq(old.pos):
                continue
            out.append(('%s is not changed' % '.'.join(map(str, k)), FALSE))
            continue
        if old.eq(v):
            continue
        pk = [m for m in mp if m.key == k]
        name = '%s is not changed' % '.'.join(str(x) for x in k)
        if k[0] == 'H':
            # objects that existed before the call, except the listed ones
            r = z3.Int('r?')
            ex_ = [r != m.proj[0][1] for m in pk if m.proj[0][0] == 'idx']
            out.append((name, z3.ForAll([r], z3.Implies(z3.And(*( [r < ex.top0()] + ex_)), z3.Select(v, r) == z3.Select(old, r)))))
        elif pk:
            i = z3.Int('i?')
            out.append((name, z3.ForAll([i], z3.Implies(z3.And(*[i != m.proj[0][1] for m in pk]), z3.Select(v, i) == z3.Select(old, i)))))
        else:
            out.append((name, v == old))
    return out
