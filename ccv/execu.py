"""Symbolic execution of the clang AST, generating proof obligations against contracts.

Branches are merged, loops are cut by invariants, calls to functions under contract use the contract
only; every other function defined in /repo is executed in place (so an extracted helper needs no
contract of its own)."""
import z3
from .sym import *
from .cast import line_of
from .lib import Lib, EntryLV, sel, CLSID, NPOS, CHAR0, same_text

GL = ('lvalue', 'xvalue')


class Frame:
    def __init__(self, func, this, parent=None):
        self.func, self.this, self.parent = func, this, parent
        self.env = {}
        self.rets = []
        self.brk, self.cont = [], []
        self.tu = func.tu


class Obl:
    __slots__ = ('label', 'n', 'pc', 'goal', 'kind', 'line', 'cand', 'props', 'func', 'hint', 'st', 'using')

    def __init__(self, label, n, pc, goal, kind, line, cand=None, func=None, hint=None):
        self.label, self.n, self.pc, self.goal, self.kind, self.line = label, n, pc, goal, kind, line
        self.cand, self.func, self.hint = cand, func, hint


class Cand:
    __slots__ = ("generic", 'id', 'name', 'sel', 'loop', 'obls', 'measure')

    def __init__(self, i, name, sel, loop, measure=False):
        self.id, self.name, self.sel, self.loop, self.obls, self.measure = i, name, sel, loop, [], measure


class Exec(Lib):
    def __init__(self, prog, contracts, top=None):
        self.prog, self.contracts = prog, contracts
        self.top = top                  # the contract being verified
        self.facts, self.obls, self.cands = [], [], []
        self.loops = []
        self.heap0 = HeapInit()
        self.uid = 0
        self.handlers = [[]]
        self.frame = None
        self.kt = {}                    # store key -> T of locals
        self.vname = {}                 # root -> source name (for reports only)
        self.seen_ge0 = set()
        self.dry = 0
        self.spec = 0           # > 0 while contracts are evaluated: their reads are not the program's
        self.reads = set()
        self.used = set()               # contracts used at call sites
        self.inlined = set()
        self.trusted = set()
        self.called = set()
        self.depth = 0
        self.fcount = 0
        self.frozen = {}
        self.heap_t = {}
        self.unroll_limit = getattr(top, 'unroll', 12)
        if not STRUCTS:
            load_structs(prog)

    # ---------------------------------------------------------------- basics
    def nid(self):
        self.uid += 1
        return self.uid

    def fresh(self, name, sort):
        self.fcount += 1
        return z3.Const('%s!%d' % (name, self.fcount), sort)

    def assume(self, f, st=None, raw=False):
        if z3.is_true(f):
            return
        self.facts.append(f if (st is None or not st.pc) else implies(st.guard(), f))

    def obl(self, label, goal, st, kind='safety', node=None, cand=None, hint=None):
        if self.dry:
            return
        if z3.is_true(goal):
            goal = TRUE
        o = Obl(label, len(self.facts), list(st.pc), goal, kind, line_of(node) if node else None, cand,
                self.frame.func.qual if self.frame else None, hint)
        self.obls.append(o)
        if cand is not None:
            cand.obls.append(o)
        if kind == 'safety' and not z3.is_true(goal):
            # execution continues only if the check passed (it is proved separately)
            self.assume(goal, st)
        return o

    def typeinv(self, term, t, st):
        if t.k == 'uint' and not z3.is_int_value(term) and not self.dry:
            if term.get_id() not in self.seen_ge0:
                self.seen_ge0.add(term.get_id())
                self.frozen[term.get_id()] = term
                self.facts.append(term >= 0)

    def new_local(self, st, t, term=None, name='tmp'):
        root = ('v', self.nid())
        self.vname[root] = name
        self.set_root(st, root, t, term, name)
        return LV(root, [], t)

    def set_root(self, st, root, t, term=None, name='v'):
        if isinstance(term, (Ptr, It, MatV, Opaque, FuncRef, Exc)) or (term is None and t.k in ('ptr', 'iter', 'opaque', 'eig')):
            st.store[root] = term if term is not None else Opaque('uninit')
            self.kt[root] = t
            return

        def fr(key, tt):
            c = self.fresh('.'.join(str(x) for x in (name,) + key[len(root):]), sort_of(tt))
            if tt.k == 'uint':
                self.facts.append(c >= 0)
            return c
        self.note_types(root, t)
        st.store.update(explode(root, t, term, None, fr))

    def note_types(self, key, t):
        self.kt[key] = t
        fs = fields_of(t)
        if fs:
            for f, ft in fs:
                self.note_types(key + (f,), ft)

    # ---------------------------------------------------------------- places
    def lvf(self, lv, f):
        """Field f of a place."""
        if isinstance(lv, Obj):
            return self.heap_lv(lv.cls, f, lv.ref)
        fs = dict(fields_of(lv.t) or [])
        if f not in fs:
            raise Unsupported('no field %s in %r' % (f, lv.t))
        if lv.proj:
            return LV(lv.key, lv.proj + [('fld', lv.t, f)], fs[f])
        return LV(lv.key + (f,), [], fs[f])

    def elem(self, lv, i):
        """Element i of an amap-typed place."""
        return LV(lv.key, lv.proj + [('idx', i)], lv.t.a[1])

    def heap_lv(self, cls, f, ref):
        c = cls
        while c:
            for n, t in HEAPF.get(c, []):
                if n == f:
                    self.heap_t[('H', c, f)] = t
                    return LV(('H', c, f), [('idx', ref)], t)
            c = SUPER.get(c) or next(iter(self.prog.records.get(c, {}).get('bases', [])), None)
        raise Unsupported('no heap field %s.%s' % (cls, f))

    def hleaf(self, st, key):
        if key in st.store:
            return st.store[key]
        if key == ('H', '$', 'top'):
            return self.top0()
        t = self.heap_t.get(key)
        if t is None:
            for n, tt in HEAPF.get(key[1], []):
                if n == key[2]:
                    t = tt
        if t is None:
            raise Unsupported('unknown heap field %s' % (key,))
        self.heap_t[key] = t
        return self.heap0.get(key, t)

    def leaf(self, st, key):
        if key[0] == 'H':
            return self.hleaf(st, key)
        if key not in st.store:
            raise Unsupported('read of unknown place %s (%s)' % (key, self.vname.get(key[:2])))
        return st.store[key]

    def read(self, lv, st):
        if isinstance(lv, Obj):
            raise Unsupported('copy of a heap object ' + lv.cls)
        if not self.spec and lv.key[0] == 'p':
            self.reads.add(lv.key)
        if isinstance(lv, BlockLV):
            return self.block_val(lv, st)
        if not lv.proj:
            if lv.key in st.store:
                v = st.store[lv.key]
                if isinstance(v, Opaque) and v.what in ('havoc', 'uninit'):
                    raise Unsupported('read of a pointer or expression changed by a loop')
            elif fields_of(lv.t) is not None:
                v = pack(st.store, lv.key, lv.t)
            else:
                v = self.leaf(st, lv.key)
            if isinstance(v, z3.ExprRef):
                self.typeinv(v, lv.t, st)
            return v
        v = self.leaf(st, lv.key)
        for p in lv.proj:
            v = sel(v, p[1]) if p[0] == 'idx' else acc(p[1], v, p[2])
        self.typeinv(v, lv.t, st)
        return v

    def write(self, lv, val, st):
        if isinstance(lv, BlockLV):
            return self.block_write(lv, val, st)
        if isinstance(lv, Obj):
            raise Unsupported('assignment to a heap object')
        if lv.t.k == 'mat' and isinstance(val, MatV):
            val = self.mat_pack(val, lv.t, st)
        if not lv.proj:
            if isinstance(val, z3.ExprRef) and fields_of(lv.t) is not None:
                if lv.key in st.store:
                    del st.store[lv.key]
                st.store.update(explode(lv.key, lv.t, val))
            else:
                st.store[lv.key] = val
            return
        if not isinstance(val, z3.ExprRef):
            raise Unsupported('pointer stored inside a container')
        st.store[lv.key] = self._upd(self.leaf(st, lv.key), lv.proj, val)

    def _upd(self, base, proj, val):
        if not proj:
            return val
        p = proj[0]
        if p[0] == 'idx':
            return z3.Store(base, p[1], self._upd(sel(base, p[1]), proj[1:], val))
        t = p[1]
        return mk(t, [self._upd(acc(t, base, f), proj[1:], val) if f == p[2] else acc(t, base, f) for f, _ in fields_of(t)])

    # ---------------------------------------------------------------- merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        n = 0
        while all(len(s.pc) > n for s in states) and all(s.pc[n] is states[0].pc[n] or s.pc[n].eq(states[0].pc[n]) for s in states):
            n += 1
        suf = [conj(s.pc[n:]) for s in states]
        pc = states[0].pc[:n]
        d = z3.simplify(disj(suf)) if len(suf) <= 3 else disj(suf)
        if len(suf) == 2 and (neg(suf[0]).eq(suf[1]) or suf[0].eq(neg(suf[1]))):
            d = TRUE
        if not z3.is_true(d):
            pc = pc + [disj(suf)]
        keys = set(states[0].store)
        for s in states[1:]:
            keys &= set(s.store)
        allk = set().union(*[set(s.store) for s in states])
        for k in allk - keys:
            if k[0] == 'H':
                keys.add(k)
        out = {}
        for k in keys:
            vals = [s.store[k] if k in s.store else self.hleaf(s, k) for s in states]
            v = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                v = self.mval(suf[i], vals[i], v)
                if v is None:
                    break
            if v is not None:
                out[k] = v
        return State(out, pc)

    def mval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return Ptr([(conj([c, g]), l) for g, l in a.alts] + [(conj([neg(c), g]), l) for g, l in b.alts])
        if isinstance(a, It) and isinstance(b, It) and a.c.same(b.c):
            return It(a.c, ite(c, a.pos, b.pos))
        if isinstance(a, MatV) and isinstance(b, MatV):
            if str(a.r) == str(b.r) and str(a.c) == str(b.c):
                return MatV(a.r, a.c, lambda i, j: ite(c, a.f(i, j), b.f(i, j)))
        return Opaque('havoc')

    # ---------------------------------------------------------------- statements
    def stmt(self, n, st):
        """Runs statement n; returns the normal exit state or None."""
        if st is None:
            return None
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, st)
        if 'valueCategory' in n or k in ('ExprWithCleanups',):
            self.effect(n, st)
            return None if st.pc and z3.is_false(st.pc[-1]) else st
        raise Unsupported('statement ' + k)

    def effect(self, n, st):
        """Expression statement."""
        if n.get('valueCategory') in GL:
            self.lv(n, st)
        else:
            self.ev(n, st)

    def kids(self, n):
        return [c for c in n.get('inner', []) if isinstance(c, dict) and 'kind' in c]

    def s_CompoundStmt(self, n, st):
        for c in self.kids(n):
            st = self.stmt(c, st)
            if st is None:
                return None
        return st

    def s_NullStmt(self, n, st):
        return st

    def s_DeclStmt(self, n, st):
        for d in self.kids(n):
            if d['kind'] == 'VarDecl':
                self.decl(d, st)
            elif d['kind'] in ('CXXRecordDecl', 'TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'EmptyDecl', 'EnumDecl'):
                continue
            else:
                raise Unsupported('declaration ' + d['kind'])
        return st

    def ntype(self, n):
        t = n['type']
        s = t.get('desugaredQualType', t['qualType'])
        try:
            return parse_type(s)
        except Unsupported:
            return parse_type(t['qualType'])

    def decl(self, d, st):
        t, ref = self.ntype(d)
        inner = self.kids(d)
        inner = [c for c in inner if not c['kind'].endswith('Attr')]
        key = (self.frame.tu, d['id'])
        if ref:
            if not inner:
                raise Unsupported('reference without initialiser')
            self.frame.env[key] = self.lv(inner[0], st, want=t)
            return
        if t.k == 'obj':
            ex = inner[0] if inner else None
            self.frame.env[key] = Obj(t.name, self.new_object(t.name, 'void ()', self.kids(ex) if ex else [], st))
            return
        if t.k == 'array' and inner and inner[0]['kind'] == 'InitListExpr' and not self.kids(inner[0]):
            inner = []
        if inner:
            v = self.ev(inner[0], st, want=t)
            if t.k == 'mat' and isinstance(v, MatV):
                v = self.mat_pack(v, t, st)
            if t.k == 'opaque' and isinstance(v, (It, MatV, Ptr)):
                pass
            elif isinstance(v, z3.ExprRef) and t.k in ('opaque', 'eig', 'iter'):
                raise Unsupported('type ' + d['type']['qualType'])
            lv = self.new_local(st, t, v, d.get('name', 'v'))
        else:
            lv = self.new_local(st, t, None, d.get('name', 'v'))
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        self.frame.env[key] = lv

    def s_ReturnStmt(self, n, st):
        k = self.kids(n)
        rt, ref = self.ret_type(self.frame.func)
        v = None
        if k:
            v = self.lv(k[0], st) if ref else self.ev(k[0], st, want=rt)
            if rt.k == 'mat' and isinstance(v, MatV):
                v = self.mat_pack(v, rt, st)
        self.frame.rets.append((st, v))
        return None

    def ret_type(self, f):
        s = f.type
        # "double (int) const" -> text before the parameter list
        d = 0
        for i, ch in enumerate(s):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                return parse_type(s[:i].strip())
        raise Unsupported('function type ' + s)

    def truth(self, c):
        """Bool as python True/False if it simplifies to a constant."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return None

    def s_IfStmt(self, n, st):
        ks = self.kids(n)
        if n.get('hasInit') or n.get('hasVar'):
            st2 = self.stmt(ks[0], st)
            ks = ks[1:]
        c = self.ev(ks[0], st)
        return self.branch(c, st, lambda s: self.stmt(ks[1], s), (lambda s: self.stmt(ks[2], s)) if len(ks) > 2 else (lambda s: s))

    def branch(self, c, st, ft, ff):
        t = self.truth(c)
        if t is None:
            g = z3.simplify(c)
            for p in st.pc:      # decided by the path condition, syntactically
                if p.eq(c) or p.eq(g):
                    t = True
                if p.eq(neg(c)) or p.eq(neg(g)):
                    t = False
        if t is True:
            return ft(st)
        if t is False:
            return ff(st)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(neg(c))
        return self.merge([ft(a), ff(b)])

    def s_SwitchStmt(self, n, st):
        ks = self.kids(n)
        v = self.ev(ks[0], st)
        body = ks[-1]
        # flatten case labels of the compound
        groups, cur = [], None
        for s in self.kids(body):
            labels, dflt = [], False
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                kk = self.kids(s)
                if s['kind'] == 'CaseStmt':
                    labels.append(self.ev(kk[0], st))
                else:
                    dflt = True
                s = kk[-1]
            if labels or dflt:
                cur = [labels, dflt, []]
                groups.append(cur)
            if cur is None:
                raise Unsupported('switch body')
            cur[2].append(s)
        alll = [l for g in groups for l in g[0]]
        self.frame.brk.append([])
        carry, outs = None, []
        for labels, dflt, stmts in groups:
            c = disj([v == l for l in labels] + ([conj([v != l for l in alll])] if dflt else []))
            e = st.copy()
            e.pc.append(c)
            if self.truth(c) is False:
                e = None
            s = self.merge([e, carry])
            for x in stmts:
                s = self.stmt(x, s)
            carry = s
        outs.append(carry)
        if not any(g[1] for g in groups):
            e = st.copy()
            e.pc.append(conj([v != l for l in alll]))
            outs.append(e)
        outs += self.frame.brk.pop()
        return self.merge(outs)

    def s_BreakStmt(self, n, st):
        self.frame.brk[-1].append(st)
        return None

    def s_ContinueStmt(self, n, st):
        self.frame.cont[-1].append(st)
        return None

    def s_CXXTryStmt(self, n, st):
        ks = self.kids(n)
        self.handlers.append([])
        out = self.stmt(ks[0], st)
        thrown = self.handlers.pop()
        outs = [out]
        for c in ks[1:]:
            ck = self.kids(c)
            var = ck[0] if ck and ck[0]['kind'] == 'VarDecl' else None
            body = ck[-1]
            ct = self.ntype(var)[0].name if var else None
            hit = [x for x in thrown if ct is None or ct in EXC.get(x[1].cls, [x[1].cls])]
            thrown = [x for x in thrown if not any(x is y for y in hit)]
            if hit:
                s = self.merge([x[0] for x in hit])
                if var is not None:
                    self.frame.env[(self.frame.tu, var['id'])] = self.new_local(s, T('opaque', name='exc'), Opaque('exc'), 'e')
                self.cur_exc = hit[0][1]
                outs.append(self.stmt(body, s))
        self.handlers[-1].extend(thrown)
        return self.merge(outs)

    # ---------------------------------------------------------------- loops
    def s_WhileStmt(self, n, st):
        ks = self.kids(n)
        return self.loop(n, st, ks[0], None, ks[1])

    def s_ForStmt(self, n, st):
        inner = n['inner']
        init, cv, cond, inc, body = inner
        if init.get('kind'):
            st = self.stmt(init, st)
        if cv.get('kind'):
            raise Unsupported('for with condition variable')
        return self.loop(n, st, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)

    def s_DoStmt(self, n, st):
        raise Unsupported('do loop')

    def s_CXXForRangeStmt(self, n, st):
        ks = n['inner']
        if len(ks) == 8:
            init, rng, beg, end, cond, inc, var, body = ks
        else:
            raise Unsupported('range for')
        if init.get('kind'):
            st = self.stmt(init, st)
        for d in (rng, beg, end):
            st = self.stmt(d, st)
        return self.loop(n, st, cond, inc, [var, body])

    def run_iter(self, st, cond, inc, body):
        """One iteration from state st (the loop head): returns (exit state, [end states], breaks)."""
        fr = self.frame
        if cond is None:
            c = TRUE
        else:
            c = self.ev(cond, st)
        ex, b = st.copy(), st.copy()
        if not z3.is_true(c):
            ex.pc.append(neg(c))
            b.pc.append(c)
        if self.truth(c) is True:
            ex = None
        if self.truth(c) is False:
            return ex, [], []
        fr.brk.append([])
        fr.cont.append([])
        b0 = b
        self.loop_entry = b.pc[-1] if b.pc else None
        s = b
        for x in (body if isinstance(body, list) else [body]):
            s = self.stmt(x, s)
        brk, cont = fr.brk.pop(), fr.cont.pop()
        s = self.merge([s] + cont)
        if s is not None and inc is not None:
            self.effect(inc, s)
        return ex, ([s] if s is not None else []), brk

    def loop(self, n, st, cond, inc, body):
        # concrete iterations first
        outs = []
        if cond is not None and cond['kind'] != 'CXXBoolLiteralExpr':
            it = 0
            while it < self.unroll_limit:
                self.dry += 1
                nf, no = len(self.facts), len(self.obls)
                probe = st.copy()
                hl = len(self.handlers[-1])
                c = self.ev(cond, probe)
                del self.handlers[-1][hl:]
                self.dry -= 1
                del self.facts[nf:]
                t = self.truth(c)
                if t is None:
                    break
                if t is False:
                    self.ev(cond, st)
                    return self.merge(outs + [st])
                ex, ends, brk = self.run_iter(st, cond, inc, body)
                outs += brk
                if not ends:
                    return self.merge(outs)
                st = ends[0]
                it += 1
        r = self.sym_loop(n, st, cond, inc, body)
        return self.merge(outs + ([r] if r is not None else []))

    def havoc(self, st, keys):
        for k in keys:
            if k[0] == 'H':
                old = self.hleaf(st, k)
            elif k in st.store:
                old = st.store[k]
            else:
                continue
            if isinstance(old, z3.ExprRef):
                nm = (self.vname.get(k[:2]) or k[0]) if k[0] == 'v' else '.'.join(map(str, k))
                if k[0] == 'v':
                    nm = '.'.join([nm] + [str(x) for x in k[2:]])
                v = self.fresh(nm, old.sort())
                st.store[k] = v
                t = self.kt.get(k)
                if k[-1] == 'len' or (t is not None and t.k == 'uint') or k[-1] in ('rows', 'cols'):
                    self.assume(v >= 0)
            elif isinstance(old, It):
                p = self.fresh('it', Int)
                self.assume(p >= 0)
                st.store[k] = It(old.c, p)
            else:
                st.store[k] = Opaque('havoc')

    def diff(self, h, ends, uid0):
        mod = set()
        for e in ends:
            for k, v in e.store.items():
                if k[0] in ('v', 't') and k[1] > uid0:
                    continue
                if k[0] == 'H':
                    o = self.hleaf(h, k)
                elif k in h.store:
                    o = h.store[k]
                else:
                    continue
                if o is v:
                    continue
                if isinstance(o, z3.ExprRef) and isinstance(v, z3.ExprRef) and o.eq(v):
                    continue
                if isinstance(o, It) and isinstance(v, It) and o.pos.eq(v.pos):
                    continue
                if isinstance(o, Ptr) and isinstance(v, Ptr) and len(o.alts) == len(v.alts) and all(
                        x[0].eq(y[0]) and (x[1] is y[1] or (x[1] is not None and x[1].same(y[1]))) for x, y in zip(o.alts, v.alts)):
                    continue
                mod.add(k)
            for k in h.store:       # representation changes (value root <-> exploded)
                if k not in e.store and not (k[0] in ('v', 't') and k[1] > uid0):
                    mod.add(k)
        return mod

    def sym_loop(self, n, st, cond, inc, body):
        fr = self.frame
        mod = set()
        for _ in range(6):
            h = st.copy()
            self.dry += 1
            save = (len(self.facts), len(self.obls), len(self.cands), len(self.loops), len(fr.rets), [len(x) for x in self.handlers])
            uid0 = self.uid
            self.havoc(h, mod)
            h0 = h.copy()
            try:
                ex, ends, brk = self.run_iter(h, cond, inc, body)
            finally:
                self.dry -= 1
                del self.facts[save[0]:], self.obls[save[1]:], self.cands[save[2]:], self.loops[save[3]:], fr.rets[save[4]:]
                for l, m in zip(self.handlers, save[5]):
                    del l[m:]
            new = self.diff(h0, ends, uid0) - mod
            if not new:
                break
            mod |= new
        else:
            raise Unsupported('write set of a loop did not stabilise')
        head = st.copy()
        self.havoc(head, mod)
        k = self.fresh('k', Int)
        self.assume(k >= 0)
        lid = len(self.loops)
        self.spec += 1
        L = LoopCtx(self, lid, n, st, head, mod, cond, fr, k)
        self.loops.append(L)
        cands, measures = ([], [])
        if not self.dry:
            cands, measures = L.candidates()
        live = []
        zero = z3.IntVal(0)
        for no, (name, fn) in enumerate(cands):
            try:
                gi, gh = fn(L.view(st), zero), fn(L.view(head), k)
            except (Unsupported, KeyError):
                continue
            if gi is None or gh is None:
                continue
            c = Cand(len(self.cands), '%d:%s' % (lid, name), None, lid)
            c.sel = z3.Bool('sel!%d' % c.id)
            c.generic = no < getattr(L, 'generic', 0)
            self.cands.append(c)
            self.obl('loop invariant holds on entry: ' + name, gi, st, 'inv-init', n, c)
            live.append((c, fn, gh))
        for c, fn, gh in live:
            self.facts.append(implies(conj([c.sel] + head.pc), gh))
        m0 = [(name, fn, fn(L.view(head))) for name, fn in measures]
        L.after_head(head, k)
        self.spec -= 1
        ex, ends, brk = self.run_iter(head, cond, inc, body)
        self.spec += 1
        for e in ends:
            for c, fn, gh in live:
                try:
                    g = fn(L.view(e), k + 1)
                except (Unsupported, KeyError):
                    g = FALSE
                self.obl('loop invariant is kept: ' + c.name, g, e, 'inv-pres', n, c)
            for name, fn, mv in m0:
                c = Cand(len(self.cands), '%d:%s' % (lid, name), None, lid, True)
                self.cands.append(c)
                c.sel = z3.Bool('sel!%d' % c.id)
                self.obl('loop terminates: ' + name, z3.And(mv >= 0, fn(L.view(e)) < mv), e, 'term', n, c)
        if ends and not m0 and not self.dry:
            c = Cand(len(self.cands), '%d:none' % lid, None, lid, True)
            c.sel = z3.Bool('sel!%d' % c.id)
            self.cands.append(c)
            self.obl('loop terminates: no measure', FALSE, ends[0], 'term', n, c)
        L.exit_hook(ex, brk, k)
        self.spec -= 1
        return self.merge([ex] + brk)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st, want=None):
        """Value of an expression (glvalues are read)."""
        k = n['kind']
        if n.get('valueCategory') in GL and k not in ('ExprWithCleanups', 'ParenExpr') and not (k == 'DeclRefExpr' and n['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'EnumConstantDecl')):
            return self.rd(self.lv(n, st), st)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n, st) if not m.__code__.co_argcount > 3 else m(n, st, want)

    def rd(self, l, st):
        if isinstance(l, EntryLV):
            return mk(T('pair', *l.m.t.a), [l.key, self.read(self.elem(self.lvf(l.m, 'val'), l.key), st)])
        if isinstance(l, (LV, BlockLV, Obj)):
            return self.read(l, st)
        return l        # already a value (e.g. Opaque)

    def lv(self, n, st, want=None):
        """Place of a glvalue; a prvalue gets a temporary."""
        k = n['kind']
        if n.get('valueCategory') not in GL and k not in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr'):
            t, _ = self.ntype(n)
            v = self.ev(n, st)
            if isinstance(v, BlockLV):
                return v
            return self.new_local(st, t if not (t.k in ('opaque', 'eig') and isinstance(v, z3.ExprRef)) else want, v)
        m = getattr(self, 'l_' + k, None)
        if m is None:
            m2 = getattr(self, 'e_' + k, None)
            if m2 is None:
                raise Unsupported('lvalue ' + k)
            v = m2(n, st)
            return v
        return m(n, st)

    def sub(self, n):
        return self.kids(n)[0]

    def e_ParenExpr(self, n, st):
        return self.ev(self.sub(n), st)

    def l_ParenExpr(self, n, st):
        return self.lv(self.sub(n), st)
    e_ConstantExpr = e_ParenExpr

    def e_ExprWithCleanups(self, n, st):
        return self.ev(self.sub(n), st)

    def l_ExprWithCleanups(self, n, st):
        return self.lv(self.sub(n), st)

    def e_CXXBindTemporaryExpr(self, n, st):
        return self.ev(self.sub(n), st)

    def l_CXXBindTemporaryExpr(self, n, st):
        return self.lv(self.sub(n), st)

    def l_MaterializeTemporaryExpr(self, n, st):
        s = self.sub(n)
        v = self.ev(s, st)
        if isinstance(v, (LV, Obj, BlockLV)):
            return v
        t, _ = self.ntype(n)
        if t.k in ('opaque', 'eig') and isinstance(v, z3.ExprRef):
            t2, _ = self.ntype(s)
            t = t2
        if t.k == 'mat' and isinstance(v, MatV):
            v = self.mat_pack(v, t, st)
        return self.new_local(st, t, v)

    def e_IntegerLiteral(self, n, st):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n, st):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n, st):
        return real(n['value'])

    def e_CXXBoolLiteralExpr(self, n, st):
        return z3.BoolVal(n['value'] in (True, 'true'))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return Opaque('null')
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, n, st):
        import json
        return CS.csome(strlit(json.loads(n['value'])))

    def l_StringLiteral(self, n, st):
        return self.e_StringLiteral(n, st)

    def e_CXXThisExpr(self, n, st):
        t = self.frame.this
        return t.ref if isinstance(t, Obj) else Ptr([(TRUE, t)])

    def e_CXXDefaultArgExpr(self, n, st):
        ks = self.kids(n)
        if ks:
            return self.ev(ks[0], st)
        return Opaque('default')

    def l_CXXDefaultArgExpr(self, n, st):
        return Opaque('default')

    def e_ImplicitValueInitExpr(self, n, st):
        return self.zero(self.ntype(n)[0], st)

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.zero(self.ntype(n)[0], st)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        s = self.sub(n)
        if ck == 'LValueToRValue':
            return self.rd(self.lv(s, st), st)
        if ck in ('IntegralCast', 'NoOp', 'FloatingCast', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion',
                  'DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(s, st)
            t, _ = self.ntype(n)
            if isinstance(v, z3.ExprRef) and z3.is_bool(v) and t.k in ('int', 'uint'):
                return ite(v, z3.IntVal(1), z3.IntVal(0))
            if ck == 'IntegralCast' and t.k == 'uint' and isinstance(v, z3.ExprRef):
                st_, _ = self.ntype(s)
                if st_.k == 'int' and not z3.is_int_value(v) and self.top and self.top.check_casts:
                    self.obl('conversion to unsigned keeps the value', v >= 0, st, 'safety', n)
            if ck == 'IntegralCast' and isinstance(v, z3.ExprRef) and z3.is_int(v) and not z3.is_int_value(v):
                wide = lambda x: x['type'].get('desugaredQualType', x['type']['qualType']).replace('const ', '')
                if wide(n) == 'unsigned int' and wide(s) in ('long', 'unsigned long', 'long long', 'unsigned long long'):
                    self.obl('conversion to a 32-bit number keeps the value', z3.And(v >= 0, v < 2 ** 32), st, 'safety', n)
            return v
        if ck == 'IntegralToFloating':
            v = self.ev(s, st)
            if z3.is_bool(v):
                return ite(v, real(1), real(0))
            return real(v.as_long()) if z3.is_int_value(v) else z3.ToReal(v)
        if ck == 'IntegralToBoolean':
            v = self.ev(s, st)
            return v if z3.is_bool(v) else v != 0
        if ck == 'FloatingToBoolean':
            return self.ev(s, st) != 0
        if ck == 'PointerToBoolean':
            return neg(self.isnull(self.ev(s, st)))
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(s, st)
        if ck == 'ArrayToPointerDecay':
            if s['kind'] == 'StringLiteral':
                return self.e_StringLiteral(s, st)
            return Ptr([(TRUE, self.lv(s, st))])
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            t, _ = self.ntype(n)
            return self.null_of(t)
        if ck == 'ToVoid':
            self.ev(self.kids(n)[0], st)
            return Opaque('void')
        raise Unsupported('cast ' + str(ck))

    def null_of(self, t):
        if t.k == 'cstr':
            return CS.cnull
        if t.k == 'ref':
            return z3.IntVal(0)
        if t.k == 'ptr':
            return Ptr([(TRUE, None)])
        return Opaque('null')

    def isnull(self, v):
        if isinstance(v, Opaque) and v.what == 'null':
            return TRUE
        if isinstance(v, Ptr):
            return disj([c for c, l in v.alts if l is None])
        if isinstance(v, z3.ExprRef):
            if v.sort() == CS:
                return CS.is_cnull(v) if not (z3.is_app(v) and v.decl().eq(CS.csome)) else FALSE
            if v.sort() == Int:
                return v == 0
        if isinstance(v, FuncRef):
            return FALSE
        raise Unsupported('null test of %r' % (v,))

    def l_ImplicitCastExpr(self, n, st):
        return self.lv(self.sub(n), st)
    l_CXXStaticCastExpr = l_CXXFunctionalCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr
    e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, n, st):
        if n.get('castKind') in ('NoOp', 'ConstructorConversion'):
            return self.ev(self.sub(n), st)
        return self.e_ImplicitCastExpr(n, st)

    def l_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        key = (self.frame.tu, rd['id'])
        f = self.frame
        if key in f.env:
            return f.env[key]
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'EnumConstantDecl'):
            return self.e_DeclRefExpr(n, st)
        if rd['kind'] == 'VarDecl' and key in self.prog.globals:
            return self.global_var(key, st)
        if rd['kind'] == 'VarDecl' and rd.get('name') == 'npos':
            return self.new_local(st, T('uint'), NPOS, 'npos')
        if rd['kind'] == 'VarDecl':
            return Opaque('global', rd.get('name'))
        raise Unsupported('reference to ' + rd.get('name', '?'))

    def global_var(self, key, st):
        d = self.prog.globals[key]
        t, _ = self.ntype(d)
        inner = [c for c in self.kids(d) if not c['kind'].endswith('Attr')]
        q = d['type']['qualType']
        if inner and ('const' in q or d.get('constexpr')):
            v = self.ev(inner[0], st)
            return self.new_local(st, t, v, d.get('name', 'g'))
        raise Unsupported('mutable global ' + d.get('name', '?'))

    def e_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            v = self.prog.enums.get((self.frame.tu, rd['id']), self.prog.enums.get((rd['type']['qualType'], rd['name'])))
            if v is None:
                raise Unsupported('enum constant ' + rd['name'])
            return z3.IntVal(v)
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncRef(rd['name'], self.prog.resolve_named(self.frame.tu, rd))
        return self.rd(self.l_DeclRefExpr(n, st), st)

    def deref(self, p, t, st, node, what='pointer'):
        if isinstance(p, Ptr):
            g = [c for c, l in p.alts if l is None]
            if g:
                self.obl('no null %s is dereferenced' % what, neg(disj(g)), st, 'safety', node)
            alts = [l for c, l in p.alts if l is not None]
            if not alts:
                raise Unsupported('dereference of null')
            if all(a.same(alts[0]) for a in alts[1:]):
                return alts[0]
            raise Unsupported('pointer with several targets')
        if isinstance(p, It):
            return self.it_deref(p, st, node)
        if isinstance(p, z3.ExprRef) and p.sort() == Int:
            self.obl('no null %s is dereferenced' % what, p != 0, st, 'safety', node)
            if t.name == 'double':
                return LV(('H', 'double', 'val'), [('idx', p)], REAL)
            return Obj(t.name, p)
        if isinstance(p, z3.ExprRef) and p.sort() == CS:
            return Opaque('char', p)
        raise Unsupported('dereference of %r' % (p,))

    def pointee_type(self, b):
        while b['kind'] in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            b = self.sub(b)
        if b['kind'] == 'CXXOperatorCallExpr' and len(self.kids(b)) == 2:
            d = self.strip(self.kids(b)[0])
            if d and d.get('referencedDecl', {}).get('name') == 'operator->':
                t, _ = self.ntype(self.kids(b)[1])
                if t.k == 'ref':
                    return t
        return self.ntype(b)[0]

    def l_MemberExpr(self, n, st):
        b = self.sub(n)
        name = n['name']
        if n.get('isArrow'):
            p = self.ev(b, st)
            t = self.pointee_type(b)
            o = self.deref(p, t, st, n)
        else:
            o = self.lv(b, st)
        if isinstance(o, EntryLV):
            return self.entry_field(o, name, st)
        if isinstance(o, (LV, Obj)):
            return self.lvf(o, name)
        if isinstance(o, It):
            raise Unsupported('iterator member')
        raise Unsupported('member %s of %r' % (name, o))

    def e_MemberExpr(self, n, st):
        return self.rd(self.l_MemberExpr(n, st), st)

    def l_ArraySubscriptExpr(self, n, st):
        a, i = self.kids(n)
        p = self.ev(a, st)
        i = self.ev(i, st)
        if isinstance(p, Ptr):
            o = self.deref(p, None, st, n)
            if o.t.k == 'array':
                return self.arr_elem(o, i, st, n)
            if isinstance(o, LV) and o.t.k in ('real', 'int', 'uint', 'bool'):      # pointer to a single object
                self.obl('array index in range', i == 0, st, 'safety', n)
                return o
        if isinstance(p, z3.ExprRef) and p.sort() == CS:
            if not (z3.is_int_value(i) and i.as_long() == 0):
                raise Unsupported('character of a text')
            return self.first_char(p, st, n)
        raise Unsupported('array subscript')

    def first_char(self, p, st, n):
        """The character a text pointer points at (zero exactly at the end)."""
        s = self.strval(p, st, n)
        c = CHAR0(s)
        self.assume((c == 0) == (s == strlit('')))
        return self.new_local(st, T('int'), c, 'char')

    def arr_elem(self, o, i, st, n):
        i = z3.simplify(i)
        if not z3.is_int_value(i):
            raise Unsupported('fixed array with symbolic index')
        self.obl('array index in range', z3.BoolVal(0 <= i.as_long() < o.t.a[1]), st, 'safety', n)
        if not 0 <= i.as_long() < o.t.a[1]:
            raise Unsupported('constant array index out of range')
        return self.lvf(o, 'e%d' % i.as_long())

    def l_UnaryOperator(self, n, st):
        op = n['opcode']
        if op == '*':
            p = self.ev(self.sub(n), st)
            if isinstance(p, z3.ExprRef) and p.sort() == CS:
                return self.first_char(p, st, n)
            return self.deref(p, self.ntype(self.sub(n))[0], st, n)
        if op in ('++', '--'):
            l = self.lv(self.sub(n), st)
            v = self.read(l, st)
            self.write(l, self.incdec(v, op, l.t, st, n), st)
            return l
        raise Unsupported('unary ' + op)

    def incdec(self, v, op, t, st, n):
        if isinstance(v, It):
            return It(v.c, v.pos + (1 if op == '++' else -1))
        one = real(1) if t.k == 'real' else z3.IntVal(1)
        r = z3.simplify(v + one if op == '++' else v - one)
        if op == '--' and t.k == 'uint':
            self.obl('unsigned decrement does not wrap around', v >= 1, st, 'safety', n)
        return r

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        s = self.sub(n)
        if op in ('++', '--'):      # postfix
            l = self.lv(s, st)
            v = self.read(l, st)
            self.write(l, self.incdec(v, op, l.t, st, n), st)
            return v
        if op == '&':
            l = self.lv(s, st)
            if isinstance(l, Obj):
                return l.ref
            return Ptr([(TRUE, l)])
        v = self.ev(s, st)
        if op == '-':
            r = -v
            return z3.simplify(r) if z3.is_int_value(v) or z3.is_rational_value(v) else r
        if op == '+':
            return v
        if op == '!':
            return neg(v)
        raise Unsupported('unary ' + op)

    def num2(self, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if z3.is_bool(a) and not z3.is_bool(b):
                a = ite(a, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(b) and not z3.is_bool(a):
                b = ite(b, z3.IntVal(1), z3.IntVal(0))
            if z3.is_real(a) and z3.is_int(b):
                b = z3.ToReal(b)
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
        return a, b

    def binop(self, op, a, b, t, st, n):
        if op in ('==', '!='):
            if isinstance(a, Opaque) and a.what == 'null' or isinstance(b, Opaque) and b.what == 'null':
                e = self.isnull(b if isinstance(a, Opaque) else a)
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and any(all(l is None for _, l in p.alts) for p in (a, b)):
                e = self.isnull(a if all(l is None for _, l in b.alts) else b)
            elif isinstance(a, It) and isinstance(b, It):
                e = a.pos == b.pos
            elif isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                a, b = self.num2(a, b)
                if a.sort() == CS and b.sort() == CS and not same_text(a, b):
                    raise Unsupported('comparison of text pointers')
                e = TRUE if a.eq(b) else a == b
            else:
                raise Unsupported('comparison of %r and %r' % (a, b))
            return e if op == '==' else neg(e)
        if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
            raise Unsupported('operator %s on %r' % (op, a))
        a, b = self.num2(a, b)
        if op in ('<', '>', '<=', '>='):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if op == '+':
            r = a + b
        elif op == '-':
            if t.k == 'uint':
                self.obl('unsigned subtraction does not wrap around', a >= b, st, 'safety', n)
            r = a - b
        elif op == '*':
            r = self.mul(a, b)
        elif op == '/':
            if z3.is_int(a):
                raise Unsupported('integer division')
            r = a / b
        else:
            raise Unsupported('operator ' + op)
        if z3.is_int(r):
            r2 = z3.simplify(r)
            if z3.is_int_value(r2):
                return r2
        return r

    def mul(self, a, b):
        if z3.is_int(a):
            a2, b2 = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(a2) or z3.is_int_value(b2):
                return a2 * b2 if not (z3.is_int_value(a2) and z3.is_int_value(b2)) else z3.simplify(a2 * b2)
            return self.imul(a2, b2)
        return a * b

    def imul(self, a, b):
        """Product of two unknown integers: sums and constant factors are expanded, products of atoms stay opaque (lemmas imul_*)."""
        def lin(t):
            if z3.is_int_value(t):
                return [(t.as_long(), None)]
            if z3.is_add(t):
                return [x for c in t.children() for x in lin(c)]
            if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                return [(t.arg(0).as_long() * k, x) for k, x in lin(t.arg(1))]
            return [(1, t)]
        out = None
        for k, x in lin(a):
            for l, y in lin(b):
                p = z3.IntVal(1) if x is None and y is None else x if y is None else y if x is None else IMUL(x, y)
                p = p if k * l == 1 else z3.IntVal(k * l) * p
                out = p if out is None else out + p
        from .lemma import LEMMAS, statement
        if not self.dry and not hasattr(self, 'imul_used') and 'imul_order' in LEMMAS:
            self.imul_used = True
            self.lemmas_used = getattr(self, 'lemmas_used', set()) | {'imul_order', 'imul_nonneg', 'imul_commutes'}
            self.facts.extend(statement(x) for x in ('imul_order', 'imul_nonneg', 'imul_commutes'))
        return out

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = self.kids(n)
        if op == '=':
            self.l_BinaryOperator(n, st)
            return self.rd(self.lv(a, st), st)
        if op == ',':
            self.effect(a, st)
            return self.ev(b, st)
        if op in ('&&', '||'):
            va = self.ev(a, st)
            t = self.truth(va)
            if op == '&&':
                if t is False:
                    return FALSE
                if t is True:
                    return self.ev(b, st)
            else:
                if t is True:
                    return TRUE
                if t is False:
                    return self.ev(b, st)
            g = va if op == '&&' else neg(va)
            s2 = st.copy()
            s2.pc.append(g)
            vb = self.ev(b, s2)
            other = st.copy()
            other.pc.append(neg(g))
            m = self.merge([s2, other])
            # keep new temporaries of the evaluated side out; adopt the merged store
            st.store, st.pc = m.store, m.pc
            return conj([va, vb]) if op == '&&' else disj([va, vb])
        va = self.ev(a, st)
        vb = self.ev(b, st)
        return self.binop(op, va, vb, self.ntype(n)[0], st, n)

    def l_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = self.kids(n)
        if op == '=':
            v = self.ev(b, st)
            l = self.lv(a, st)
            if isinstance(v, z3.ExprRef) and isinstance(l, LV):
                if l.t.k == 'real' and z3.is_int(v):
                    v = z3.ToReal(v)
                if l.t.k in ('int', 'uint') and z3.is_bool(v):
                    v = ite(v, z3.IntVal(1), z3.IntVal(0))
            self.write(l, v, st)
            return l
        if op == ',':
            self.effect(a, st)
            return self.lv(b, st)
        raise Unsupported('lvalue operator ' + op)

    def l_CompoundAssignOperator(self, n, st):
        a, b = self.kids(n)
        v = self.ev(b, st)
        l = self.lv(a, st)
        old = self.read(l, st)
        if isinstance(old, It):
            self.write(l, It(old.c, old.pos + v if n['opcode'] == '+=' else old.pos - v), st)
            return l
        r = self.binop(n['opcode'][:-1], old, v, l.t, st, n)
        self.write(l, r, st)
        return l

    def e_CompoundAssignOperator(self, n, st):
        return self.read(self.l_CompoundAssignOperator(n, st), st)

    def e_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        vc = self.ev(c, st)
        if n['type'].get('qualType') == 'void':
            if '__assert_fail' in str(b):
                self.obl('the assertion holds', vc, st, 'safety', n)
                return Opaque('void')
            raise Unsupported('conditional expression of type void')
        t = self.truth(vc)
        if t is not None:
            return self.ev(a if t else b, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(vc)
        s2.pc.append(neg(vc))
        va, vb = self.ev(a, s1), self.ev(b, s2)
        m = self.merge([s1, s2])
        st.store, st.pc = m.store, m.pc
        va, vb = self.num2(va, vb)
        if isinstance(va, MatV) or isinstance(vb, MatV):
            va, vb = self.as_mat(va, st), self.as_mat(vb, st)
            if str(va.r) != str(vb.r) or str(va.c) != str(vb.c):
                return MatV(ite(vc, toint(va.r), toint(vb.r)), ite(vc, toint(va.c), toint(vb.c)),
                            lambda i, j: ite(vc, va.f(i, j), vb.f(i, j)))
        r = self.mval(vc, va, vb)
        if isinstance(r, Opaque):
            raise Unsupported('conditional expression')
        return r

    def l_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        vc = self.ev(c, st)
        t = self.truth(vc)
        if t is not None:
            return self.lv(a if t else b, st)
        raise Unsupported('conditional lvalue')

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        raise Unsupported('sizeof')

    def e_InitListExpr(self, n, st, want=None):
        t, _ = self.ntype(n)
        ks = self.kids(n)
        if t.k in ('int', 'uint', 'real', 'bool', 'ref', 'cstr', 'str') and len(ks) == 1:
            return self.ev(ks[0], st)
        if t.k == 'array':
            if ks and ks[0]['kind'] == 'InitListExpr' and len(ks) == 1:
                ks = self.kids(ks[0])
            vals = [self.ev(x, st) for x in ks]
            vals = [self.mat_pack(v, t.a[0], st) if isinstance(v, MatV) else v for v in vals]
            while len(vals) < t.a[1]:
                vals.append(self.zero(t.a[0], st))
            return mk(t, vals)
        fs = fields_of(t)
        if fs is None:
            raise Unsupported('initialiser list of %r' % (t,))
        vals = []
        for (f, ft), x in zip(fs, ks):
            v = self.ev(x, st)
            if isinstance(v, MatV):
                v = self.mat_pack(v, ft, st)
            vals.append(v)
        while len(vals) < len(fs):
            vals.append(self.zero(fs[len(vals)][1], st))
        return mk(t, vals)

    # ---------------------------------------------------------------- construction
    def zero(self, t, st):
        """Value-initialised value of type t."""
        k = t.k
        if k in ('int', 'uint', 'ref', 'char'):
            return z3.IntVal(0)
        if k == 'real':
            return real(0)
        if k == 'bool':
            return FALSE
        if k == 'str':
            return strlit('')
        if k == 'sstream':      # (the global locale is not known to be the classic one)
            return mk(t, [strlit(''), self.fresh('locale', Bool), FALSE, FALSE])
        if k == 'cstr':
            return CS.cnull
        if k == 'vec':
            return mk(t, [z3.IntVal(0), self.fresh('empty', sort_of(fields_of(t)[1][1]))])
        if k == 'map':
            fs = fields_of(t)
            return mk(t, [z3.K(sort_of(t.a[0]), FALSE), self.fresh('emptymap', sort_of(fs[1][1]))])
        if k == 'struct':
            return self.construct(t, 'void ()', [], st)
        if k in ('pair', 'array'):
            return mk(t, [self.zero(ft, st) for _, ft in fields_of(t)])
        if k == 'mat':
            if t.a[0] > 0 and t.a[1] > 0:
                return mk(t, [self.fresh('m', Real) for _ in fields_of(t)])
            return self.mat_pack(MatV(z3.IntVal(0), z3.IntVal(0), lambda i, j: real(0)), t, st)
        raise Unsupported('default value of %r' % (t,))

    def ctor_func(self, cls, ctortype, nargs):
        base = cls.split('<')[0].split('::')[-1]
        fs = [f for f in self.prog.byqual.get(cls + '::' + base, []) if f.kind == 'CXXConstructorDecl']
        c = [f for f in fs if f.type == ctortype]
        if not c:
            norm = lambda s: s.replace(' noexcept', '').replace('unsigned long', 'size_t')
            c = [f for f in fs if norm(f.type) == norm(ctortype)]
        if not c:
            c = [f for f in fs if len(f.params) == nargs and not f.node.get('isImplicit')]
            if len(c) != 1:
                c = []
        return c[0] if c else None

    def is_copy(self, t, ctortype, args):
        if len(args) != 1:
            return False
        at, _ = self.ntype(args[0])
        return at == t

    def construct(self, t, ctortype, args, st, node=None):
        """Value of class type t built by the given constructor (args: AST nodes)."""
        if t.k == 'struct':
            if self.is_copy(t, ctortype, args):
                return self.ev(args[0], st)
            f = self.ctor_func(t.name, ctortype, len(args))
            tmp = self.new_local(st, t, None, 'obj')
            if f is None:
                if args:
                    raise Unsupported('constructor %s %s' % (t.name, ctortype))
                self.default_init(tmp, t, st)
                return self.read(tmp, st)
            self.run_ctor(f, tmp, [self.arg(p, a, st) for p, a in zip(f.params, self.fill(f, args))], st)
            return self.read(tmp, st)
        return self.lib_construct(t, ctortype, args, st, node)

    def fill(self, f, args):
        return args

    def default_init(self, lv, t, st):
        for fn, ft in (fields_of(t) if t.k == 'struct' else HEAPF[t.name]):
            if ft.k in ('struct', 'vec', 'map', 'str', 'ref'):
                self.write(self.lvf(lv, fn), self.zero(ft, st), st)

    def run_ctor(self, f, this, args, st):
        """Constructor body on the place this."""
        c = self.contracts.find(f)
        if c is not None and not (self.top is not None and c in self.top.inline):
            self.used.add(c)
            self.call_contract(c, f, this, args, st, None)
            return
        self.call_body(f, this, args, st, ctor=True)

    def init_members(self, f, this, st):
        done = set()
        for i in f.inits:
            e = self.kids(i)
            if 'delegatingInit' in i or ('anyInit' not in i and 'baseInit' not in i):
                ex = e[0]
                while ex['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    ex = self.sub(ex)
                t, _ = self.ntype(ex)
                g = self.ctor_func(t.name, ex['ctorType']['qualType'], len(self.kids(ex)))
                if g is None:
                    raise Unsupported('delegating constructor')
                self.call_body(g, this, [self.arg(p, a, st) for p, a in zip(g.params, self.kids(ex))], st, ctor=True)
                continue
            if 'baseInit' in i:
                ex = e[0]
                bt, _ = self.ntype(ex)
                if bt.k in ('struct', 'obj'):
                    g = self.ctor_func(bt.name, ex.get('ctorType', {}).get('qualType', 'void ()'), len(self.kids(ex)))
                    if g is not None:
                        self.call_body(g, this, [self.arg(p, a, st) for p, a in zip(g.params, self.kids(ex))], st, ctor=True)
                continue
            name = i['anyInit'].get('name')
            l = self.lvf(this, name)
            if l.t.k == 'opaque':
                continue
            done.add(name)
            v = self.ev(e[0], st, want=l.t)
            self.write(l, v, st)
        # class-type members without an initialiser in the tree (weak_ptr, strings) start empty
        fs = HEAPF.get(this.cls, []) if isinstance(this, Obj) else []
        for name, t in fs:
            if name not in done and t.k in ('ref', 'str', 'vec', 'map') and not name.startswith('$'):
                if any('delegatingInit' in i for i in f.inits):
                    continue
                self.write(self.lvf(this, name), self.zero(t, st), st)

    def e_CXXConstructExpr(self, n, st, want=None):
        t, _ = self.ntype(n)
        return self.construct(t, n.get('ctorType', {}).get('qualType', 'void ()'), self.kids(n), st, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def l_CXXConstructExpr(self, n, st):
        v = self.e_CXXConstructExpr(n, st)
        return self.new_local(st, self.ntype(n)[0], v)

    def alloc(self, cls, st):
        """A fresh object of a heap class: its reference."""
        top = self.hleaf_top(st)
        r = self.fresh('new_' + cls.split('::')[-1], Int)
        self.assume(r == top, st)
        self.assume(r > 0)
        st.store[('H', '$', 'top')] = r + 1
        return r

    def hleaf_top(self, st):
        k = ('H', '$', 'top')
        if k not in st.store:
            st.store[k] = self.top0()
        return st.store[k]

    def top0(self):
        if not hasattr(self, '_top0'):
            self._top0 = z3.Int('top0')
        return self._top0

    def new_object(self, cls, ctortype, args, st):
        r = self.alloc(cls, st)
        o = Obj(cls, r)
        if cls == 'double':
            self.write(LV(('H', 'double', 'val'), [('idx', r)], REAL), self.ev(args[0], st) if args else real(0), st)
            return r
        if cls in ('TiXmlElement', 'TiXmlDocument'):
            return self.xml_new(cls, r, args, st)
        if SUPER.get(cls) == 'urdf::Geometry':
            st.store[('H', 'urdf::Geometry', '$cls')] = z3.Store(self.hleaf(st, ('H', 'urdf::Geometry', '$cls')), r, CLSID(cls))
        f = self.ctor_func(cls, ctortype, len(args))
        if f is None:
            if args:
                raise Unsupported('constructor of ' + cls)
            for fn, ft in self.all_heap_fields(cls):
                if ft.k in ('ref', 'str', 'vec', 'map', 'struct'):
                    self.write(self.lvf(o, fn), self.zero(ft, st), st)
            return r
        for fn, ft in self.all_heap_fields(cls):
            pass
        self.run_ctor(f, o, [self.arg(p, a, st) for p, a in zip(f.params, args)], st)
        return r

    def all_heap_fields(self, cls):
        out = list(HEAPF.get(cls, []))
        s = SUPER.get(cls)
        if s:
            out += HEAPF.get(s, [])
        return out

    def e_CXXNewExpr(self, n, st):
        t, _ = self.ntype(n)
        ks = self.kids(n)
        cls = t.name
        if t.k == 'ptr' and t.a[0].k == 'real':
            cls = 'double'
            return self.new_object('double', '', ks, st)
        if t.k != 'ref':
            raise Unsupported('new ' + repr(t))
        if ks and ks[0]['kind'] == 'CXXConstructExpr':
            return self.new_object(cls, ks[0].get('ctorType', {}).get('qualType', 'void ()'), self.kids(ks[0]), st)
        return self.new_object(cls, 'void ()', [], st)

    def e_CXXThrowExpr(self, n, st):
        ks = self.kids(n)
        if not ks:
            e = self.cur_exc
        else:
            v = self.ev(ks[0], st)
            e = v if isinstance(v, Exc) else Exc('std::runtime_error')
        s = st.copy()
        self.handlers[-1].append((s, e))
        st.pc.append(FALSE)
        return Opaque('void')

    # ---------------------------------------------------------------- calls
    def arg(self, p, a, st):
        """Argument a (AST) for parameter p: ('ref', place) or ('val', value)."""
        t, ref = self.ntype(p)
        if ref:
            l = self.lv(a, st, want=t)
            if not isinstance(l, (LV, Obj, BlockLV)):
                l = self.new_local(st, t, l)
            return l
        v = self.ev(a, st, want=t)
        if isinstance(v, Opaque) and v.what == 'null':
            v = self.null_of(t)
        if isinstance(v, Opaque) and v.what == 'default':
            v = self.default_arg(p, st)
        if isinstance(v, z3.ExprRef) and t.k == 'real' and z3.is_int(v):
            v = z3.ToReal(v)
        return v

    def default_arg(self, p, st):
        ks = self.kids(p)
        if not ks:
            raise Unsupported('default argument')
        return self.ev(ks[0], st)

    def e_CallExpr(self, n, st):
        ks = self.kids(n)
        f = self.ev(ks[0], st)
        if not isinstance(f, FuncRef):
            raise Unsupported('call of %r' % (f,))
        if f.f is None and f.name not in self.LIBF:
            # a function defined outside the dumped namespaces (a new static helper, say)
            rd = self.strip(ks[0])
            if rd is not None and self.prog.lookup_missing(self.frame.tu, f.name):
                pass
            cand = [g for g in self.prog.byqual.get(f.name, []) if g.type == rd['referencedDecl'].get('type', {}).get('qualType')]
            if cand:
                f = FuncRef(f.name, cand[0])
        if f.f is not None:
            args = ks[1:]
            return self.call(f.f, None, [self.arg(p, a, st) for p, a in zip(f.f.params, args)], st, n)
        return self.lib_call(f.name, ks[1:], st, n)

    def strip(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = self.sub(n)
        return n if n['kind'] == 'DeclRefExpr' else None

    def l_CallExpr(self, n, st):
        return self.e_CallExpr(n, st)

    def l_CXXMemberCallExpr(self, n, st):
        return self.e_CXXMemberCallExpr(n, st)

    def l_CXXOperatorCallExpr(self, n, st):
        return self.e_CXXOperatorCallExpr(n, st)

    def e_CXXMemberCallExpr(self, n, st):
        ks = self.kids(n)
        m = ks[0]
        while m['kind'] == 'ParenExpr':
            m = self.sub(m)
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call')
        b = self.sub(m)
        f = self.prog.resolve_function(self.frame.tu, m.get('referencedMemberDecl'))
        bt = self.pointee_type(b) if m.get('isArrow') else self.ntype(b)[0]
        if m.get('isArrow'):
            p = self.ev(b, st)
            o = self.deref(p, bt, st, n)
        else:
            o = self.lv(b, st)
        if f is None:
            f = self.method_of(o, bt, m['name'], ks[1:], b)
        if f is not None:
            return self.call(f, o, [self.arg(p, a, st) for p, a in zip(f.params, ks[1:])], st, n)
        return self.lib_method(m['name'], o, bt, ks[1:], st, n)

    def method_of(self, o, bt, name, args, b):
        cls = o.cls if isinstance(o, Obj) else (o.t.name if isinstance(o, LV) and o.t.k in ('struct', 'obj') else None)
        if cls is None:
            return None
        x = b
        while x['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
            if x.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase'):     # a method of the base class is named
                q = x['type'].get('desugaredQualType', x['type']['qualType']).replace('const ', '').rstrip(' *&')
                cls = next((k for k in self.prog.records if k == q or k.endswith('::' + q)), cls)
                break
            x = self.sub(x)
        c = [f for f in self.prog.methods(cls, name) if len(f.params) == len(args)]
        if len(c) > 1:
            at = [self.ntype(a)[0] for a in args]
            c2 = [f for f in c if [self.ntype(p)[0] for p in f.params] == at]
            c = c2 or c
        if len(c) > 1:
            const = b['type']['qualType'].lstrip().startswith('const ')
            c2 = [f for f in c if f.type.endswith('const') == const]
            c = c2 or c
        return c[0] if len(c) == 1 else None

    def e_CXXOperatorCallExpr(self, n, st):
        ks = self.kids(n)
        d = self.strip(ks[0])
        name = d['referencedDecl']['name']
        f = self.prog.resolve_named(self.frame.tu, d['referencedDecl'])
        args = ks[1:]
        if f is not None and not f.node.get('isImplicit'):
            if f.kind == 'CXXMethodDecl':
                o = self.lv(args[0], st)
                return self.call(f, o, [self.arg(p, a, st) for p, a in zip(f.params, args[1:])], st, n)
            return self.call(f, None, [self.arg(p, a, st) for p, a in zip(f.params, args)], st, n)
        return self.lib_operator(name, args, st, n)

    def call(self, f, this, args, st, node):
        c = self.contracts.find(f)
        if c is not None and not (self.top is not None and c in self.top.inline):
            self.used.add(c)
            return self.call_contract(c, f, this, args, st, node)
        self.inlined.add(f.qual)
        return self.call_body(f, this, args, st)

    def bind(self, fr, f, args, st):
        for p, a in zip(f.params, args):
            t, ref = self.ntype(p)
            key = (f.tu, p['id'])
            if ref:
                fr.env[key] = a
            elif isinstance(a, (LV, Obj)) and t.k not in ('iter',):
                raise Unsupported('place passed by value')
            else:
                fr.env[key] = self.new_local(st, t, a, p.get('name', 'arg'))

    def call_body(self, f, this, args, st, ctor=False):
        """Executes f in place, updating st; returns the result."""
        if self.depth > 24:
            raise Unsupported('recursion in ' + f.qual)
        if f.body is None:
            raise Unsupported('no body: ' + f.qual)
        fr = Frame(f, this, self.frame)
        save = self.frame
        self.depth += 1
        try:
            self.frame = fr
            self.bind(fr, f, args, st)
            base = st
            s = st.copy()
            if ctor:
                self.init_members(f, this, s)
            s = self.stmt(f.body, s)
        finally:
            self.frame = save
            self.depth -= 1
        rets = list(fr.rets)
        if s is not None:
            rets.append((s, None))
        if not rets:
            st.pc.append(FALSE)
            rt, ref = self.ret_type(f)
            return None if rt.k == 'void' or ctor else self.dead_value(rt, ref, st)
        if len(rets) == 1:
            st.store, st.pc = rets[0][0].store, rets[0][0].pc
            return rets[0][1]
        for i, (rs, v) in enumerate(rets):
            if isinstance(v, z3.ExprRef) or v is not None:
                rs.store[('ret',)] = v
        if all(isinstance(v, (LV, Obj)) for _, v in rets):
            if not all(isinstance(v, LV) and v.same(rets[0][1]) for _, v in rets):
                m = self.merge([r[0] for r in rets])
                raise Unsupported('function returning different places')
            m = self.merge([r[0] for r in rets])
            st.store, st.pc = m.store, m.pc
            st.store.pop(('ret',), None)
            return rets[0][1]
        m = self.merge([r[0] for r in rets])
        v = m.store.pop(('ret',), None)
        st.store, st.pc = m.store, m.pc
        if isinstance(v, Opaque) and v.what == 'havoc':
            raise Unsupported('returned values cannot be merged')
        return v

    def dead_value(self, t, ref, st):
        if ref:
            return self.new_local(st, t, None)
        if t.k in ('ptr', 'opaque', 'iter', 'eig'):
            return Opaque('dead')
        return self.fresh('dead', sort_of(t))

    def call_contract(self, c, f, this, args, st, node):
        self.spec += 1
        try:
            return self.call_contract_(c, f, this, args, st, node)
        finally:
            self.spec -= 1

    def call_contract_(self, c, f, this, args, st, node):
        from .contract import CallCtx
        cx = CallCtx(self, c, f, this, args, st)
        for lab, g in c.requires(cx) or []:
            self.obl('precondition of %s: %s' % (f.qual.split('::')[-1], lab), g, st, 'pre', node)
            if not z3.is_true(g):
                self.assume(g, st)
        thr = self.fresh('throws', Bool) if c.may_throw else c.throws(cx)
        if thr is not None and not z3.is_false(thr):
            s = st.copy()
            s.pc.append(thr)
            for m in c.modifies_exc(cx) if hasattr(c, 'modifies_exc') else ():
                self.havoc_lv(m, s)
            cx.freeze(st)
            cx.post = s
            for lab, g in c.ensures_exc(cx):
                self.assume(g, s)
            self.handlers[-1].append((s, Exc(c.exc)))
            st.pc.append(neg(thr))
        cx.freeze(st)
        for m in c.modifies(cx):
            self.havoc_lv(m, st)
        cx.post = st
        rt, ref = self.ret_type(f)
        if f.kind == 'CXXConstructorDecl':
            rt = VOID
        res = None
        if c.result_place is not None:
            res = c.result_place(cx)
        elif rt.k != 'void':
            res = self.fresh_value(rt, st, 'r_' + f.name)
        cx.result = res
        for lab, g, *_ in c.ensures_call(cx) or []:
            self.assume(g, st)
        return res

    def fresh_value(self, t, st, name):
        l = self.new_local(st, t, None, name)
        return self.read(l, st)

    def havoc_lv(self, m, st):
        if m == ('H', '$', 'top'):         # objects may be allocated
            old = self.hleaf_top(st)
            v = self.fresh('top', Int)
            self.assume(v >= old)
            st.store[m] = v
            return
        if isinstance(m, tuple):           # a whole heap field
            self.havoc(st, [m])
            return
        if m.proj:
            v = self.fresh('upd', sort_of(m.t))
            self.write(m, v, st)
            return
        keys = [k for k in st.store if k[:len(m.key)] == m.key]
        if not keys:
            raise Unsupported('modifies of an unknown place %r' % (m,))
        self.havoc(st, keys)


IMUL = z3.Function('imul', Int, Int, Int)
HEAPF = {}


def toint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def load_structs(prog):
    for q, r in prog.records.items():
        fs = []
        try:
            for n, ty in r['fields']:
                s = ty.get('desugaredQualType', ty['qualType'])
                fs.append((n, parse_type(s)[0]))
        except Unsupported:
            continue
        if q in HEAP:
            HEAPF[q] = [(n, t) for n, t in fs if t.k not in ('opaque',)]
        else:
            STRUCTS[q] = fs
    STRUCTS['KinematicsModelPyWrapper'] = STRUCTS.get('tinyfk::KinematicModel', [])
    # ghost view of an XML element
    HEAPF['TiXmlElement'] = [('$tag', STR), ('$attr', T('amap', STR, CSTR)), ('$kids', T('vec', T('ref', name='TiXmlElement'))), ('$first', T('amap', STR, INT))]
    HEAPF['TiXmlDocument'] = [('$kids', T('vec', T('ref', name='TiXmlElement'))), ('$first', T('amap', STR, INT))]
    if 'urdf::Geometry' in HEAPF:
        HEAPF['urdf::Geometry'] = HEAPF['urdf::Geometry'] + [('$cls', INT)]
    HEAPF['double'] = [('val', REAL)]
    HEAPF['$'] = [('top', INT)]


from .contract import LoopCtx  # noqa: E402
