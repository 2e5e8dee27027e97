"""Discharging obligations: trivial, ring normalisation, z3 (worker processes), cvc5 as second back end."""
import os, time, struct, pickle, signal, subprocess, tempfile
import z3
from .sym import *
from . import ring, spec

NPROC = int(os.environ.get('CCV_JOBS', '8'))


def sel_of(fact):
    """Selector guarding a loop-invariant fact, if any."""
    if z3.is_implies(fact):
        a = fact.arg(0)
        if z3.is_const(a) and a.decl().name().startswith('sel!'):
            return a.decl().name()
        if z3.is_and(a) and a.num_args() and z3.is_const(a.arg(0)) and a.arg(0).decl().name().startswith('sel!'):
            return a.arg(0).decl().name()
    return None


class Prover:
    deadline = float('inf')     # of the whole run; what is not decided by then is unknown

    def __init__(self, ex, extra=(), t_quick=4000, t_full=30000):
        self.ex = ex
        self.extra = list(extra) + str_axioms()
        self.sels = [sel_of(f) for f in ex.facts]
        self.t_quick, self.t_full = t_quick, t_full

    # ------------------------------------------------------------ one obligation
    def assertions(self, o, live):
        if getattr(o, 'using', None) is not None:
            return list(o.using) + list(o.pc)
        on = {'sel!%d' % i for i in live}
        out = list(self.extra)
        for f, s in zip(self.ex.facts[:o.n], self.sels[:o.n]):
            if s is None:
                out.append(f)
            elif s in on:
                a = f.arg(0)
                rest = conj([a.arg(i) for i in range(1, a.num_args())]) if z3.is_and(a) else TRUE
                out.append(implies(rest, f.arg(1)))
        return out + list(o.pc)

    def solve(self, asserts, goal, tmo, mbqi=False, seed=0, nl=True, inc=False):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', tmo)
        s.set('auto_config', False)
        s.set('smt.mbqi', mbqi)
        s.set('smt.random_seed', seed)
        if not mbqi:
            s.set('smt.arith.nl', nl)
        for a in asserts:
            s.add(a)
        if inc:         # without the preprocessing of the whole problem
            s.push()
        s.add(neg(goal))
        r = s.check()
        return r, s

    def check(self, o, live, full=True):
        """(status, backend, seconds, note)"""
        t0 = time.time()
        if z3.is_true(o.goal) or any(z3.is_false(p) for p in o.pc):
            return 'proved', 'syntactic', 0.0, ''
        asserts = self.assertions(o, live)
        gid = o.goal.get_id()
        if any(a.get_id() == gid for a in asserts):
            return 'proved', 'syntactic', time.time() - t0, ''
        if not hasq(o.goal):
            rules = rewrites(asserts, o.pc)
            if rules:
                g = rewrite(o.goal, rules)
                if z3.is_true(g):
                    return 'proved', 'rewriting', time.time() - t0, ''
                if self.solve(asserts, g, 1000, nl=False)[0] == z3.unsat:
                    return 'proved', 'z3', time.time() - t0, 'after rewriting'
            r = self.resolve(o, asserts, rules, t0)
            if r is not None:
                return r
        more = [] if getattr(self, 'no_reveal', False) else spec.reveal([o.goal] + asserts)
        more += spec.trig([o.goal] + asserts + more)
        for extra in ([], more) if more else ([],):
            if ring.applicable(o.goal):
                try:
                    if ring.prove(o.goal, asserts + extra, lambda g: self.solve(asserts + extra, g, 2000)[0] == z3.unsat):
                        return 'proved', 'ring', time.time() - t0, ''
                except ring.GiveUp:
                    pass
        if len(asserts) < 40 and nra(asserts + more, o.goal):
            return 'proved', 'z3', time.time() - t0, 'nlsat'
        ground = [a for a in asserts if not hasq(a)]
        for nl in (False, True):
            r, _ = self.solve(ground, o.goal, 700, nl=nl)
            if r == z3.unsat:
                return 'proved', 'z3', time.time() - t0, ''
        r, _ = self.solve(asserts, o.goal, 1500, nl=False)
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
        r, _ = self.solve(asserts, o.goal, 2500)
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
        sk = skolem(o.goal)
        for nl in (False, True):
            r, _ = self.solve(asserts, o.goal if sk is None else sk, 1500 if sk is None else 2500, nl=nl, inc=True)
            if r == z3.unsat:
                return 'proved', 'z3', time.time() - t0, 'constants for the bound variables'
        if sk is not None and z3.is_implies(sk):
            ps = conjuncts(sk.arg(1))
            hyp = asserts + [sk.arg(0)]
            if len(ps) > 1 and all(any(self.solve(hyp, p, 1500, nl=nl, inc=True)[0] == z3.unsat for nl in (False, True)) for p in ps):
                return 'proved', 'z3', time.time() - t0, 'conclusion by parts'
        if more:
            r, _ = self.solve(asserts + more, o.goal, 2500)
            if r == z3.unsat:
                return 'proved', 'z3', time.time() - t0, ''
        la = abstract_products(asserts, o.goal)
        if la is not None and self.solve(la[0], la[1], 4000, nl=False)[0] == z3.unsat:
            return 'proved', 'z3', time.time() - t0, 'products abstracted'
        r0 = self.attempt(o, asserts, full, t0)
        if r0[0] == 'proved' or not more:
            return r0
        return self.attempt(o, asserts + more, full, t0)

    def resolve(self, o, asserts, rules, t0):
        """Case conditions and equal links that the facts decide are put into the goal before it is normalised."""
        g = rewrite(o.goal, rules) if rules else o.goal
        known = []

        def entails(c):
            return self.solve(asserts, c, 800, nl=False)[0] == z3.unsat
        # a truth value from the goal's case distinctions
        sub = []
        for c in ite_conds(o.goal)[:6]:
            for v, b in ((c, TRUE), (neg(c), FALSE)):
                if entails(v):
                    known.append(v)
                    sub.append((c, b))
                    break
        eqs = []
        if known:
            rules = rewrites(asserts, list(o.pc) + known)
            g = rewrite(fold_ite(z3.substitute(o.goal, *sub), {}), rules)
            if z3.is_true(g):
                return 'proved', 'rewriting', time.time() - t0, 'case decided'
        fk = {}
        fk_args(g, fk)
        for args in fk.values():
            args.sort(key=lambda a: len(a.sexpr()))
            for i in range(1, min(len(args), 4)):
                if entails(args[i] == args[0]):
                    eqs.append((args[i], args[0]))
        if not known and not eqs:
            return None
        if eqs:
            g = rewrite(z3.substitute(g, *eqs), rules)
            g = z3.substitute(g, *eqs)
            if z3.is_true(z3.simplify(g)):
                return 'proved', 'rewriting', time.time() - t0, 'links identified'
        if z3.is_true(z3.simplify(g, som=True)):
            return 'proved', 'rewriting', time.time() - t0, ''
        roots = [t * t == t.arg(0) for t in sqrt_terms(g) if nra([], t.arg(0) >= 0, 1500)]
        if ring.applicable(g):
            try:
                if ring.prove(g, asserts + roots, lambda h: self.solve(asserts, h, 2000)[0] == z3.unsat):
                    return 'proved', 'ring', time.time() - t0, 'case decided'
            except ring.GiveUp:
                pass
        if self.solve(asserts, g, 2000, nl=False)[0] == z3.unsat:
            return 'proved', 'z3', time.time() - t0, 'case decided'
        return None

    def attempt(self, o, asserts, full, t0):
        r, s = self.solve(asserts, o.goal, self.t_quick if not full else self.t_full // 3)
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
        note = ''
        if full and time.time() < self.deadline:
            # split conjunctions, then other seeds, then model-based instantiation, then cvc5
            parts = conjuncts(o.goal)
            if len(parts) > 1:
                ok = True
                for g in parts:
                    if self.solve(asserts, g, self.t_full // 3)[0] != z3.unsat:
                        ok = False
                        break
                if ok:
                    return 'proved', 'z3', time.time() - t0, 'split'
            r2, s2 = self.solve(asserts, o.goal, self.t_full // 3, mbqi=True, seed=7)
            if r2 == z3.unsat:
                return 'proved', 'z3', time.time() - t0, 'mbqi'
            if r2 == z3.sat:
                try:
                    note = str(s2.model())[:6000]
                except z3.Z3Exception:
                    note = ''
                return 'refuted', 'z3', time.time() - t0, note
            if cvc5_unsat(s2.to_smt2(), self.t_full // 2):
                return 'proved', 'cvc5', time.time() - t0, ''
        if r == z3.unknown:
            note = s.reason_unknown()
        return 'unknown', 'z3', time.time() - t0, note

    # ------------------------------------------------------------ parallel map
    def pmap(self, tasks, full, live, budget=600):
        """tasks: list of obligations; returns list of results."""
        n = len(tasks)
        if n == 0:
            return []
        res = [None] * n
        todo = []
        for i, o in enumerate(tasks):
            if z3.is_true(o.goal) or any(z3.is_false(p) for p in o.pc):
                res[i] = ('proved', 'syntactic', 0.0, '')
            else:
                todo.append(i)
        if not todo:
            return res
        k = min(NPROC, len(todo))
        tr, tw = os.pipe()
        data = b''.join(struct.pack('<i', i) for i in todo) + struct.pack('<i', -1) * k
        pids, fds = [], {}
        feeder = os.fork()
        if feeder == 0:
            try:
                os.close(tr)
                while data:
                    m = os.write(tw, data[:4096])
                    data = data[m:]
            finally:
                os._exit(0)
        os.close(tw)
        for _ in range(k):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    while True:
                        b = os.read(tr, 4)
                        if len(b) < 4:
                            break
                        i = struct.unpack('<i', b)[0]
                        if i < 0:
                            break
                        try:
                            x = self.check(tasks[i], live, full)
                        except Exception as e:  # noqa
                            x = ('unknown', 'error', 0.0, '%s: %s' % (type(e).__name__, str(e)[:300]))
                        p = pickle.dumps((i, x))
                        os.write(w, struct.pack('<i', len(p)) + p)
                finally:
                    os._exit(0)
            os.close(w)
            pids.append(pid)
            fds[r] = b''
        os.close(tr)
        import select
        end = min(time.time() + budget, max(self.deadline, time.time() + 5))
        while fds:
            left = end - time.time()
            if left <= 0:
                break
            rd, _, _ = select.select(list(fds), [], [], left)
            for fd in rd:
                b = os.read(fd, 1 << 16)
                if not b:
                    os.close(fd)
                    del fds[fd]
                    continue
                fds[fd] += b
                while len(fds[fd]) >= 4:
                    ln = struct.unpack('<i', fds[fd][:4])[0]
                    if len(fds[fd]) < 4 + ln:
                        break
                    i, x = pickle.loads(fds[fd][4:4 + ln])
                    fds[fd] = fds[fd][4 + ln:]
                    res[i] = x
        for p in pids + [feeder]:
            try:
                if fds:
                    os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p, 0)
        for fd in list(fds):
            os.close(fd)
        return [x if x is not None else ('unknown', 'none', 0.0, 'out of time') for x in res]

    # ------------------------------------------------------------ loop invariants
    def houdini(self, hints=None):
        """Largest set of candidate invariants that is inductive. hints: names to start from (optional)."""
        ex = self.ex
        live = {c.id for c in ex.cands if not c.measure}
        if hints is not None:
            names = {c.id for c in ex.cands if not c.measure and c.name in hints}
            if names:
                live = names
        done = {}
        rounds = 0
        while True:
            rounds += 1
            obls = [o for c in ex.cands if c.id in live for o in c.obls]
            todo = [o for o in obls if done.get(id(o), (None,))[0] != frozenset(live)]
            rs = self.pmap(todo, rounds > 1 and len(todo) < 0, live)
            self.cut = time.time() > self.deadline  # invariants may have been given up for want of time
            bad = {o.cand.id for o, r in zip(todo, rs) if r[0] != 'proved'}
            if bad:
                # a second chance with more time before an invariant is given up
                again = [o for o, r in zip(todo, rs) if r[0] != 'proved']
                if hints is not None:
                    rs2 = self.pmap(again, True, live)
                    bad = {o.cand.id for o, r in zip(again, rs2) if r[0] != 'proved'}
            if not bad:
                self.houdini_rounds = rounds
                return live
            # the automatic candidates go first: wrong ones slow down or block the others
            gen = {c.id for c in ex.cands if c.id in bad and getattr(c, 'generic', False)}
            live = live - (gen or bad)

    def vacuous(self):
        """Contradictions in what was assumed: None, or a description."""
        ex = self.ex
        live = getattr(self, 'live', set())

        def mk(n, pc):
            class O_:
                pass
            o = O_()
            o.n, o.pc, o.goal, o.kind, o.cand, o.label = n, pc, FALSE, 'vacuity', None, ''
            return o
        todo = [mk(ex.pre_n, [])]
        seen = set()
        for o in ex.obls:
            if o.kind == 'post':
                k = tuple(p.get_id() for p in o.pc)
                if k not in seen:
                    seen.add(k)
                    todo.append(mk(len(ex.facts), list(o.pc)))
        if len(todo) == 1:
            todo.append(mk(len(ex.facts), []))

        class Q(Prover):
            def check(self, o, live, full=True):
                a = self.assertions(o, live)
                for g in (a, [x for x in a if not hasq(x)]):
                    if self.solve(g, FALSE, 4000)[0] == z3.unsat:
                        return 'proved', 'z3', 0.0, ''
                return 'unknown', 'z3', 0.0, ''
        rs = Q(ex).pmap(todo, True, live)
        bad = [r[0] == 'proved' for r in rs]
        if bad[0]:
            return 'the preconditions are contradictory'
        if all(bad[1:]):
            return 'no return is reachable under the assumptions'
        return None

    def run(self, hints=None, log=None):
        """All obligations: [(obl, (status, backend, secs, note))] plus live candidates."""
        ex = self.ex
        live = self.houdini(hints) if ex.cands else set()
        plain = [o for o in ex.obls if o.cand is None]
        inv = [o for c in ex.cands if c.id in live for o in c.obls]
        meas = [o for c in ex.cands if c.measure for o in c.obls]
        byloop = {}
        for c in ex.cands:
            if c.measure:
                byloop.setdefault(c.loop, {}).setdefault(c.name, []).extend(c.obls)
        # a loop terminates if one of its measures works for every iteration path; cheap attempts first
        mres = dict((id(o), r) for o, r in zip(meas, self.pmap(meas, False, live)))
        good = lambda os_: all(mres[id(o)][0] == 'proved' for o in os_)
        late = [o for ms in byloop.values() if not any(good(os_) for os_ in ms.values()) for os_ in ms.values() for o in os_ if mres[id(o)][0] != 'proved']
        rs = self.pmap(plain + late, True, live)
        out = list(zip(plain, rs[:len(plain)]))
        mres.update((id(o), r) for o, r in zip(late, rs[len(plain):]))
        for lp, ms in byloop.items():
            nm = next((nm for nm, os_ in ms.items() if good(os_)), next(iter(ms)))
            out.extend((o, mres[id(o)]) for o in ms[nm])
        if getattr(self, 'cut', False) or time.time() > self.deadline:
            # an obligation that was given up for want of time, or whose invariants were, says nothing about the code
            cut = getattr(self, 'cut', False)
            out = [(o, r if r[0] == 'proved' or (r[0] == 'refuted' and not cut) else ('unknown', 'none', r[2], 'out of time')) for o, r in out]
        out.extend((o, ('proved', 'z3 (invariant)', 0.0, '')) for o in inv)
        self.live = live
        return out


def conjuncts(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_implies(g) and z3.is_and(g.arg(1)):
        return [z3.Implies(g.arg(0), x) for x in conjuncts(g.arg(1))]
    if z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_DATATYPE_SORT and g.arg(0).sort().num_constructors() == 1:
        s = g.arg(0).sort()
        out = []
        for i in range(s.constructor(0).arity()):
            a = s.accessor(0, i)
            out += conjuncts(a(g.arg(0)) == a(g.arg(1)))
        return out
    return [g]


def fresh_no(t):
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        if '!' in nm and nm.rsplit('!', 1)[1].isdigit():
            return int(nm.rsplit('!', 1)[1])
    return None


_mx = {}


def max_fresh(t):
    k = t.get_id()
    if k not in _mx:
        n = fresh_no(t)
        _mx[k] = (t, max([n if n is not None else -1] + [max_fresh(c) for c in t.children()]))
    return _mx[k][1]


def is_fk(t):
    return z3.is_app(t) and t.decl().name() == 'FK'


def sqrt_terms(t):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == 'SQRT':
                out.append(x)
            for c in x.children():
                go(c)
    go(t)
    return out


def is_fold(t):
    return z3.is_app(t) and t.decl().name().startswith('SUM_')


def ite_conds(t):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and not any(x.arg(0).eq(c) for c in out) and not hasq(x.arg(0)):
                out.append(x.arg(0))
            for c in x.children():
                go(c)
    go(t)
    return out


def fk_args(t, out, seen=None):
    """Links whose poses occur, by configuration."""
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if is_fk(t):
        l = out.setdefault(tuple(c.get_id() for c in t.children()[:-1]), [])
        a = t.arg(t.num_args() - 1)
        if not any(a.eq(x) for x in l):
            l.append(a)
    if z3.is_app(t):
        for c in t.children():
            fk_args(c, out, seen)


def occurs(t, s, memo=None):
    memo = {} if memo is None else memo
    k = t.get_id()
    if k not in memo:
        memo[k] = t.eq(s) or any(occurs(c, s, memo) for c in t.children())
    return memo[k]


def rewrites(asserts, pc):
    """Equations that hold on this path, as replacement rules: fresh constants and poses by what they stand for."""
    known = set()

    def note(p):
        if z3.is_and(p):
            for c in p.children():
                note(c)
        known.add(p.get_id())
    for p in list(pc) + [a for a in asserts if not hasq(a)]:
        note(p)
    rules = {}

    def holds(g):
        if z3.is_and(g):
            return all(holds(c) for c in g.children())
        return g.get_id() in known or (not hasq(g) and z3.is_true(z3.simplify(g)))

    def const(a, b):
        n = fresh_no(a)
        if n is not None and max_fresh(b) < n:
            rules.setdefault(a.get_id(), (a, b))
            return True
        return False

    def eqn(f):
        if z3.is_and(f):
            for c in f.children():
                eqn(c)
        elif z3.is_implies(f):
            if not hasq(f) and holds(f.arg(0)):
                eqn(f.arg(1))
        elif z3.is_eq(f) and not hasq(f):
            a, b = f.arg(0), f.arg(1)
            if z3.is_int(a):
                a, b = (x if is_fold(x) or is_fk(x) else z3.simplify(x) for x in (a, b))
            for x, y in ((a, b), (b, a)):
                if const(x, y):
                    return
            got = False
            for x, y in ((a, b), (b, a)):
                if iscons(x):
                    s = x.sort()
                    for i in range(x.num_args()):
                        w = y.arg(i) if iscons(y) else s.accessor(0, i)(y)
                        if iscons(x.arg(i)):
                            for k in range(x.arg(i).num_args()):
                                w2 = w.arg(k) if iscons(w) else x.arg(i).sort().accessor(0, k)(w)
                                got = const(x.arg(i).arg(k), w2) or got
                        else:
                            got = const(x.arg(i), w) or got
            if not got:
                for x, y in ((a, b), (b, a)):
                    if (is_fk(x) or is_fold(x)) and not occurs(y, x):
                        rules.setdefault(x.get_id(), (x, y))
                        return
    for f in asserts:
        eqn(f)
    return list(rules.values())


def iscons(x):
    return x.sort().kind() == z3.Z3_DATATYPE_SORT and x.sort().num_constructors() == 1 and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and x.num_args() > 0


def eta(t, memo):
    """mk(x(t), y(t), ...) is t; x(mk(a, ...)) is a."""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [eta(c, memo) for c in t.children()]
        r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        if iscons(r):
            s = r.sort()
            a0 = r.arg(0)
            if z3.is_app(a0) and a0.num_args() == 1 and a0.decl().eq(s.accessor(0, 0)) and all(
                    r.arg(i).num_args() == 1 and r.arg(i).decl().eq(s.accessor(0, i)) and r.arg(i).arg(0).eq(a0.arg(0)) for i in range(1, r.num_args())):
                r = a0.arg(0)
        elif r.decl().kind() == z3.Z3_OP_DT_ACCESSOR and iscons(r.arg(0)):
            s = r.arg(0).sort()
            for i in range(r.arg(0).num_args()):
                if s.accessor(0, i).eq(r.decl()):
                    r = r.arg(0).arg(i)
                    break
        while z3.is_select(r) and z3.is_store(r.arg(0)) and z3.is_int(r.arg(1)):
            d = z3.simplify(r.arg(1) - r.arg(0).arg(1))
            if not z3.is_int_value(d):
                break
            if d.as_long() == 0:
                r = r.arg(0).arg(2)
                break
            r = z3.Select(r.arg(0).arg(0), r.arg(1))
    memo[k] = (t, r)
    return r


def fold_ite(t, memo):
    """Decided case distinctions are removed, nothing else changes."""
    k = t.get_id()
    if k not in memo:
        r = t
        if z3.is_app(t) and t.num_args():
            if t.decl().kind() == z3.Z3_OP_ITE and (z3.is_true(t.arg(0)) or z3.is_false(t.arg(0))):
                r = fold_ite(t.arg(1 if z3.is_true(t.arg(0)) else 2), memo)
            else:
                ch = [fold_ite(c, memo) for c in t.children()]
                r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        memo[k] = (t, r)
    return memo[k][1]


def rewrite(g, rules):
    memo = {}
    big = [r for r in rules if r[0].num_args()]
    if big and len(big) < len(rules):
        # also with the constants of the left-hand sides replaced
        consts = [r for r in rules if not r[0].num_args()]
        more = []
        for x, y in big:
            h = x
            for _ in range(6):
                h2 = eta(z3.substitute(h, *consts), memo)
                if h2.eq(h):
                    break
                h = h2
            if not h.eq(x) and not h.eq(y):
                more.append((h, y))
        rules = list(rules) + more
    for _ in range(12):
        if big:
            g = eta(z3.substitute(g, *big), memo)
        h = eta(z3.substitute(g, *rules), memo)
        if h.eq(g):
            break
        g = h
    g = z3.simplify(g)
    return g if z3.is_true(g) else z3.simplify(g, som=True)


_hq = {}


def skolem(g):
    """The goal with constants in place of its outer bound variables (None: it has none)."""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i).replace('?', '')) for i in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        return skolem(b) if skolem(b) is not None else b
    if z3.is_implies(g):
        b = skolem(g.arg(1))
        return None if b is None else z3.Implies(g.arg(0), b)
    return None


def hasq(t):
    """Does a quantifier occur in t?"""
    k = t.get_id()
    if k not in _hq:
        _hq[k] = (t, z3.is_quantifier(t) or any(hasq(c) for c in t.children()))
    return _hq[k][1]


RM = z3.Function('RM', z3.RealSort(), z3.RealSort(), z3.RealSort())


def abstract_products(asserts, goal):
    """Products of two unknowns inside quantified formulas become applications of a commutative function (sound: less is known)."""
    memo, found = {}, [False]

    def mono(t):
        """Sum of (coefficient, factors)."""
        if z3.is_rational_value(t):
            return [(t.as_fraction(), [])]
        if z3.is_to_real(t) and z3.is_int_value(t.arg(0)):
            return [(t.arg(0).as_long(), [])]
        if z3.is_app(t) and t.sort() == z3.RealSort():
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                return [m for c in t.children() for m in mono(c)]
            if k == z3.Z3_OP_SUB:
                return mono(t.arg(0)) + [(-c, f) for x in t.children()[1:] for c, f in mono(x)]
            if k == z3.Z3_OP_UMINUS:
                return [(-c, f) for c, f in mono(t.arg(0))]
            if k == z3.Z3_OP_MUL:
                out = [(1, [])]
                for x in t.children():
                    mx = mono(x)
                    out = [(a * b, f + g) for a, f in out for b, g in mx]
                    if len(out) > 400:
                        raise NotReal()
                return out
            if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() != 0:
                d = t.arg(1).as_fraction()
                return [(c / d, f) for c, f in mono(t.arg(0))]
        return [(1, [go(t)])]

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t):
            vs = [z3.FreshConst(t.var_sort(i), 'q') for i in range(t.num_vars())]
            sub = list(reversed(vs))
            body = go(z3.substitute_vars(t.body(), *sub))
            pats = []
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                pats.append(z3.MultiPattern(*[go(z3.substitute_vars(c, *sub)) for c in p.children()]))
            r = z3.ForAll(vs, body, patterns=pats) if t.is_forall() else z3.Exists(vs, body, patterns=pats) if t.is_exists() else t
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.sort() == z3.RealSort():
            terms = []
            for c, f in mono(t):
                x = None
                for y in reversed(f):
                    if x is not None:
                        found[0] = True
                    x = y if x is None else RM(y, x)
                cv = z3.RealVal(str(c))
                terms.append(cv if x is None else x if c == 1 else cv * x)
            r = z3.Sum(terms) if terms else z3.RealVal(0)
        elif z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        else:
            r = t
        memo[k] = (t, r)
        return r
    try:
        if not any(hasq(a) for a in list(asserts) + [goal]):
            return None
        out, g = [go(a) for a in asserts], go(goal)
    except (NotReal, z3.Z3Exception):
        return None
    if not found[0]:
        return None
    x, y = z3.Reals('rx? ry?')
    return out + [z3.ForAll([x, y], RM(x, y) == RM(y, x), patterns=[RM(x, y)])], g


class NotReal(Exception):
    pass


def nra(asserts, goal, tmo=3000):
    """Quantifier-free real arithmetic with every other real term taken as a variable."""
    memo, ok = {}, (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                    z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE)

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t):
            raise NotReal()
        if z3.is_rational_value(t):
            r = t
        elif z3.is_app(t) and t.decl().kind() in ok and all(z3.is_bool(c) or z3.is_real(c) for c in t.children()):
            r = t.decl()(*[go(c) for c in t.children()])
        elif z3.is_real(t):
            r = z3.Real('abs!%d' % k)
        elif z3.is_bool(t):
            r = z3.Bool('abs!%d' % k)
        else:
            raise NotReal()
        memo[k] = (t, r)
        return r
    s = z3.Solver()
    s.set('timeout', tmo)
    try:
        g = go(goal)
    except NotReal:
        return False
    for a in asserts:
        try:
            s.add(go(a))
        except NotReal:
            pass
    s.add(neg(g))
    return s.check() == z3.unsat


def cvc5_unsat(smt2, tmo):
    exe = '/usr/bin/cvc5'
    for c in ('/usr/bin/cvc5', '/usr/local/bin/cvc5', '/opt/veriftools/bin/cvc5'):
        if os.path.exists(c):
            exe = c
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        p = f.name
    try:
        r = subprocess.run([exe, '--tlimit=%d' % tmo, p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo / 1000 + 5)
        return r.stdout.decode().strip().startswith('unsat')
    except Exception:
        return False
    finally:
        os.unlink(p)
