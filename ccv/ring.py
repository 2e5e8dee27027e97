"""Polynomial back end: equalities of real terms modulo polynomial side relations.

Terms are normalised to polynomials over atoms (variables, applications of uninterpreted functions,
reciprocals).  Side relations come from the assumptions: equalities whose leading monomial is the square of
an atom become rewriting rules.  Conditionals are split.  Everything is exact rational arithmetic."""
from fractions import Fraction
import z3


class GiveUp(Exception):
    pass


MAXTERMS = 60000


class Poly:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): Fraction(1)})

    def __add__(self, o):
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        if len(self.d) * len(o.d) > MAXTERMS * 20:
            raise GiveUp('polynomial too large')
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                s = d.get(m, 0) + c1 * c2
                if s:
                    d[m] = s
                else:
                    d.pop(m, None)
        if len(d) > MAXTERMS:
            raise GiveUp('polynomial too large')
        return Poly(d)

    def scale(self, c):
        return Poly({m: x * c for m, x in self.d.items()}) if c else Poly()

    def iszero(self):
        return not self.d

    def isconst(self):
        return all(m == () for m in self.d)

    def constval(self):
        return self.d.get((), Fraction(0))

    def vars(self):
        return {v for m in self.d for v, _ in m}

    def key(self):
        return tuple(sorted(self.d.items()))

    def deriv(self, dv):
        """Formal derivative; dv: atom -> Poly (its derivative; absent means constant)."""
        out = Poly()
        for m, c in self.d.items():
            for i, (v, e) in enumerate(m):
                if v in dv:
                    rest = m[:i] + (((v, e - 1),) if e > 1 else ()) + m[i + 1:]
                    out = out + Poly({rest: c * e}) * dv[v]
        return out

    def __repr__(self):
        return ' + '.join('%s*%s' % (c, '*'.join('%s^%d' % x for x in m)) for m, c in sorted(self.d.items(), key=str)) or '0'


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def reduce(p, rules):
    """rules: list of (monomial, Poly): monomial -> poly, until none applies."""
    if not rules:
        return p
    for _ in range(200):
        out, changed = Poly(), False
        acc = {}
        for m, c in p.d.items():
            hit = None
            md = dict(m)
            for lm, rp in rules:
                if all(md.get(v, 0) >= e for v, e in lm):
                    hit = (lm, rp)
                    break
            if hit is None:
                s = acc.get(m, 0) + c
                if s:
                    acc[m] = s
                else:
                    acc.pop(m, None)
                continue
            changed = True
            lm, rp = hit
            for v, e in lm:
                md[v] -= e
            rest = tuple(sorted((v, e) for v, e in md.items() if e))
            for m2, c2 in rp.d.items():
                mm = mmul(rest, m2)
                s = acc.get(mm, 0) + c * c2
                if s:
                    acc[mm] = s
                else:
                    acc.pop(mm, None)
        p = Poly(acc)
        if len(acc) > MAXTERMS:
            raise GiveUp('polynomial too large')
        if not changed:
            return p
    raise GiveUp('reduction does not stop')


class Norm:
    """z3 real terms -> polynomials over atoms; conditionals must have been split by the caller (env)."""
    def __init__(self):
        self.atoms = {}        # atom name -> z3 term or ('inv', Poly)
        self.byterm = {}
        self.cache = {}
        self.inv = {}
        self.ites = []

    def atom(self, key, info):
        if key not in self.byterm:
            n = 'a%05d' % len(self.atoms)
            self.byterm[key] = n
            self.atoms[n] = info
        return Poly.var(self.byterm[key])

    def poly(self, t, dec):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._poly(t, dec)
        self.cache[k] = r
        self.keep = getattr(self, 'keep', [])
        self.keep.append(t)
        return r

    def _poly(self, t, dec):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return Poly.const(Fraction(str(t.as_fraction())) if z3.is_rational_value(t) else t.as_long())
        kd = t.decl().kind() if z3.is_app(t) else None
        if kd == z3.Z3_OP_ADD:
            r = Poly()
            for c in t.children():
                r = r + self.poly(c, dec)
            return r
        if kd == z3.Z3_OP_SUB:
            cs = t.children()
            r = self.poly(cs[0], dec)
            for c in cs[1:]:
                r = r - self.poly(c, dec)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -self.poly(t.arg(0), dec)
        if kd == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for c in t.children():
                r = r * self.poly(c, dec)
            return r
        if kd == z3.Z3_OP_DIV:
            a, b = self.poly(t.arg(0), dec), self.poly(t.arg(1), dec)
            if b.isconst() and b.constval():
                return a.scale(1 / b.constval())
            return a * self.invert(b)
        if kd == z3.Z3_OP_TO_REAL:
            return self.poly(t.arg(0), dec)
        if kd == z3.Z3_OP_ITE:
            c = t.arg(0)
            d = dec(c)
            if d is None:
                raise NeedSplit(c)
            return self.poly(t.arg(1) if d else t.arg(2), dec)
        if kd == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            # arguments are normalised, so that f(2*x/2) and f(x) are one atom
            ks = []
            for c in t.children():
                if c.sort() == z3.RealSort():
                    ks.append(self.poly(c, dec).key())
                else:
                    ks.append(self.canon(c, dec))
            nm = t.decl().name()
            sign = 1
            if nm in ('SIN', 'COS') and len(ks) == 1:
                if not ks[0]:
                    return Poly.const(0 if nm == 'SIN' else 1)
                if ks[0][0][1] < 0:         # sin(-x) = -sin(x), cos(-x) = cos(x)
                    ks[0] = tuple((m, -c) for m, c in ks[0])
                    sign = -1 if nm == 'SIN' else 1
            return self.atom((nm,) + tuple(ks), t).scale(sign)
        if z3.is_app(t) and t.num_args():
            return self.atom((t.decl().name(),) + tuple(self.key2(c, dec) for c in t.children()), t)
        return self.atom(('t', t.sexpr()), t)

    def canon(self, t, dec):
        """Structural key of a non-real term with its real parts normalised."""
        if t.sort() in (z3.RealSort(),):
            return self.poly(t, dec).key()
        if z3.is_app(t) and t.num_args():
            if t.decl().kind() == z3.Z3_OP_ITE:
                d = dec(t.arg(0))
                if d is None:
                    raise NeedSplit(t.arg(0))
                return self.canon(t.arg(1 if d else 2), dec)
            return (t.decl().name(),) + tuple(self.key2(c, dec) for c in t.children())
        return ('t', t.sexpr())

    def key2(self, c, dec):
        if c.sort() == z3.RealSort():
            return self.poly(c, dec).key()
        return self.canon(c, dec)

    def invert(self, p):
        # pull out a constant factor for sharing
        lead = max(p.d.items(), key=lambda x: x[0]) if p.d else None
        if lead is None:
            return self.atom(('inv0',), ('inv', p))
        q = p.scale(1 / lead[1])
        k = ('inv', q.key())
        return self.atom(k, ('inv', q)).scale(1 / lead[1])


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


def applicable(g):
    """A (conjunction of) equality of reals or of values made of reals, with products or quotients."""
    if z3.is_and(g):
        return all(applicable(c) for c in g.children())
    if z3.is_implies(g):
        return applicable(g.arg(1))
    if not z3.is_eq(g):
        return False
    s = g.arg(0).sort()
    return (s == z3.RealSort() or realstruct(s)) and nonlinear(g)


def realstruct(s):
    if s.kind() != z3.Z3_DATATYPE_SORT or s.num_constructors() != 1:
        return False
    c = s.constructor(0)
    return c.arity() > 0 and all(c.domain(i) == z3.RealSort() or realstruct(c.domain(i)) for i in range(c.arity()))


def nonlinear(g):
    seen, st = set(), [g]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return False
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and t.sort() == z3.RealSort() and sum(1 for c in t.children() if not (z3.is_rational_value(c))) > 1:
            return True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            return True
        st.extend(t.children())
    return False


def split_eq(a, b):
    s = a.sort()
    if s == z3.RealSort():
        return [(a, b)]
    c = s.constructor(0)
    out = []
    for i in range(c.arity()):
        ac = s.accessor(0, i)

        def get(t):
            if z3.is_app(t) and t.decl().eq(c):
                return t.arg(i)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return z3.If(t.arg(0), get(t.arg(1)), get(t.arg(2)))
            return ac(t)
        out += split_eq(get(a), get(b))
    return out


def goal_eqs(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in goal_eqs(c)]
    if z3.is_implies(g):
        return [(conds + [g.arg(0)], a, b) for conds, a, b in goal_eqs(g.arg(1))]
    return [([], a, b) for a, b in split_eq(g.arg(0), g.arg(1))]


def definitions(asserts):
    """c == t facts for constants and UF applications: substitution; other real equalities: candidate rules."""
    eqs = []
    for a in asserts:
        st = [a]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(x.children())
            elif z3.is_eq(x) and (x.arg(0).sort() == z3.RealSort() or realstruct(x.arg(0).sort())):
                eqs.append(x)
            elif z3.is_implies(x):
                eqs.append(x)
    return eqs


def prove(goal, asserts, entails, depth=0):
    """True if every equality of goal reduces to 0 = 0."""
    eqs = [e for e in definitions(asserts) if z3.is_eq(e)]
    imps = [e for e in definitions(asserts) if z3.is_implies(e)]
    dec = {}
    keepref = []

    def run(facts_extra, decided):
        def decf(c):
            for d, v in decided:
                if d.eq(c):
                    return v
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            n = z3.simplify(c)
            if z3.is_true(n):
                return True
            if z3.is_false(n):
                return False
            return None
        nm = Norm()
        try:
            rules = []
            subst = {}
            for conds, a, b in goal_eqs(goal):
                p = nm.poly(a, decf) - nm.poly(b, decf)
                if p.iszero():
                    continue
                rs = getrules(nm, eqs + facts_extra, imps, decf, p, lambda g: entails(z3.Implies(z3.And(*([d if v else z3.Not(d) for d, v in decided] + conds)), g) if decided or conds else g))
                p = reduce(p, rs)
                if not p.iszero():
                    return False
            return True
        except NeedSplit as e:
            if len(decided) >= 6:
                raise GiveUp('too many cases')
            for v in (True, False):
                d2 = decided + [(e.c, v)]
                lits = z3.And(*[d if x else z3.Not(d) for d, x in d2])
                if entails(z3.Not(lits)):
                    continue
                if not run(facts_extra, d2):
                    return False
            return True
    return run([], [])


def getrules(nm, eqs, imps, decf, p, entails):
    """Rewriting rules from equalities among the assumptions."""
    rules = []
    polys = []
    for e in eqs:
        for a, b in split_eq(e.arg(0), e.arg(1)):
            try:
                q = nm.poly(a, decf) - nm.poly(b, decf)
            except (NeedSplit, GiveUp):
                continue
            if not q.iszero():
                polys.append(q)
    for e in imps:
        if not z3.is_eq(e.arg(1)):
            continue
        a0 = e.arg(1).arg(0)
        if not (a0.sort() == z3.RealSort() or realstruct(a0.sort())):
            continue
        if entails(e.arg(0)):
            for a, b in split_eq(e.arg(1).arg(0), e.arg(1).arg(1)):
                try:
                    q = nm.poly(a, decf) - nm.poly(b, decf)
                except (NeedSplit, GiveUp):
                    continue
                if not q.iszero():
                    polys.append(q)
    # reciprocals: b * inv(b) = 1 when b is known to be non-zero
    # linear definitions first: v -> poly
    changed = True
    for _ in range(40):
        changed = False
        for q in list(polys):
            q2 = reduce(q, rules)
            polys.remove(q)
            if q2.iszero():
                continue
            r = orient(q2)
            if r is None:
                continue
            rules.append(r)
            rules = [(m, reduce(x, [r])) if (m, x) is not r and not (m == r[0]) else (m, x) for m, x in rules]
            changed = True
        if not changed:
            break
    for n, info in list(nm.atoms.items()):
        if isinstance(info, tuple) and info[0] == 'inv':
            b = info[1]
            br = reduce(b, rules)
            if br.isconst() and br.constval():
                rules.append((((n, 1),), Poly.const(1 / br.constval())))
            elif len(br.d) == 1:
                (m, c), = br.d.items()
                # inv(c*m): m * inv -> 1/c, when the atoms are non-zero
                if entails(nonzero(nm, m)):
                    rules.append((tuple(sorted(m + ((n, 1),))), Poly.const(1 / c)))
            else:
                # b = lead + rest: lead * inv -> 1 - rest * inv
                t = poly_term(nm, br)
                if t is not None and entails(t != 0):
                    r = orient(br * Poly.var(n) - Poly.const(1))
                    if r:
                        rules.append(r)
    return rules


def nonzero(nm, m):
    out = []
    for v, e in m:
        t = nm.atoms.get(v)
        if not isinstance(t, z3.ExprRef):
            return z3.BoolVal(False)
        out.append(t != 0)
    return z3.And(*out) if out else z3.BoolVal(True)


def poly_term(nm, p):
    s = None
    for m, c in p.d.items():
        x = z3.Q(c.numerator, c.denominator)
        for v, e in m:
            t = nm.atoms.get(v)
            if not isinstance(t, z3.ExprRef):
                return None
            for _ in range(e):
                x = x * t
        s = x if s is None else s + x
    return s


def orient(q):
    """(monomial, Poly): choose a leading monomial: a lone atom first, else the square of an atom."""
    best = None
    for m, c in q.d.items():
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            if not any(v == w for m2 in q.d if m2 != m for w, _ in m2):
                if best is None or v > best[0]:
                    best = (v, m, c)
    if best is None:
        for m, c in q.d.items():
            if len(m) == 1 and m[0][1] == 2:
                v = m[0][0]
                if not any(v == w for m2 in q.d if m2 != m for w, _ in m2):
                    if best is None or v > best[0]:
                        best = (v, m, c)
    if best is None:
        return None
    _, m, c = best
    rest = Poly({k: x for k, x in q.d.items() if k != m})
    return (m, rest.scale(-1 / c))
