"""Named lemmas over the specification functions.

A lemma is a universally quantified formula with its own proof obligations; contracts may use only its statement.
LEMMAS maps a name to a function returning dict(vars, hyp, concl, pats, by): `by` names the lemmas its proof may use
(they must have been registered earlier, so the order of registration rules out circular use); `facts` are extra
definitional facts (unfoldings of specification functions)."""
import time
from . import spec
from .sym import *
from .prove import Prover

LEMMAS = {}
ORDER = []


class _Ex:
    facts, cands = [], []


class _O:
    def __init__(self, label, goal):
        self.label, self.goal, self.kind, self.line, self.func, self.n, self.pc = label, goal, 'lemma', None, None, 0, []


def lemma(f):
    LEMMAS[f.__name__] = f
    ORDER.append(f.__name__)
    return f


def statement(name):
    d = LEMMAS[name]()
    body = implies(d.get('hyp', TRUE), d['concl'])
    if 'induct' in d:
        body = implies(d['induct'] >= 0, body)
    if not d['vars']:
        return body
    return fa(d['vars'], body, *d['pats'])


def instance(name, *args):
    d = LEMMAS[name]()
    body = implies(d.get('hyp', TRUE), d['concl'])
    if 'induct' in d:
        body = implies(d['induct'] >= 0, body)
    return z3.substitute(body, *[(v, a) for v, a in zip(d['vars'], args)])


def components(v):
    nm = v.decl().name()
    if v.sort() == spec.S.P:
        return spec.pose(components(z3.Const(nm + '.p', spec.S.V)), components(z3.Const(nm + '.q', spec.S.Q)))
    fs = 'xyz' if v.sort() == spec.S.V else 'xyzw'
    return (spec.vec if fs == 'xyz' else spec.quat)(*[z3.Real('%s.%s' % (nm, f)) for f in fs])


def isstruct(g):
    return z3.is_eq(g) and g.arg(0).sort() in (spec.S.V, spec.S.Q, spec.S.P)


def pairs(g):
    from .ring import split_eq
    return split_eq(g.arg(0), g.arg(1))


def simp(t):
    """Accessors applied to constructors are resolved."""
    return t


def check(name):
    """[(obligation, (status, back end, seconds, note))] for one lemma."""
    d = LEMMAS[name]()
    ex = _Ex()
    ex.facts, ex.cands = list(d.get('facts', [])), []
    for b in d.get('by', []):
        assert ORDER.index(b) < ORDER.index(name)
        ex.facts.append(statement(b))
    for b, a in d.get('inst', []):
        assert ORDER.index(b) < ORDER.index(name)
        ex.facts.append(instance(b, *a))
    if 'hyp' in d:
        ex.facts.append(d['hyp'])
    out = []
    if 'raw' in d:      # the steps of the proof, each with its own facts
        for nm, fs, g in d['raw']:
            ex.facts = list(fs)
            o = _O('lemma %s: %s' % (name, nm), g)
            o.n = len(ex.facts)
            out += list(zip([o], Prover(ex).pmap([o], True, set())))
        return out
    if 'induct' in d:
        # natural induction on one variable: the statement follows from base and step
        n = d['induct']
        at = lambda v: implies(d.get('hyp', TRUE), d['concl']) if v is n else z3.substitute(implies(d.get('hyp', TRUE), d['concl']), (n, v))
        ex.facts = [f for f in ex.facts if not ('hyp' in d and f.eq(d['hyp']))]
        os_ = []
        for nm, g in (('base', at(z3.IntVal(0))), ('step', z3.Implies(z3.And(n >= 0, at(n)), at(n + 1)))):
            o = _O('lemma %s: %s' % (name, nm), g)
            o.n = len(ex.facts)
            os_.append(o)
        return list(zip(os_, Prover(ex).pmap(os_, True, set())))
    goals = d.get('goals') or [('', d['concl'])]
    if d.get('goals'):
        # the parts must give the lemma
        ex1 = _Ex()
        ex1.facts, ex1.cands = ex.facts + [g for _, g in goals], []
        o = _O('lemma %s: the parts give the statement' % name, d['concl'])
        o.n = len(ex1.facts)
        out += list(zip([o], Prover(ex1).pmap([o], True, set())))
    via = d.get('via', [])
    plain = [('condition of %s' % n, z3.substitute(LEMMAS[n]().get('hyp', TRUE), *list(zip(LEMMAS[n]()['vars'], a)))) for n, a in via]
    pf = list(ex.facts)
    for n, a in via:
        assert ORDER.index(n) < ORDER.index(name)
        e = z3.substitute(LEMMAS[n]()['concl'], *list(zip(LEMMAS[n]()['vars'], a)))
        goals = [(nm, z3.substitute(g, (e.arg(0), e.arg(1)))) for nm, g in goals]
    if via:
        ex.facts = []
    if d.get('expand', True) and (via or not d.get('by')):
        # polynomial form: every operator replaced by its definition over the components of the variables
        more = {spec.S.UNIT: lambda q: spec.nrm2(q) == 1}
        sub = [(v, components(v)) for v in d['vars'] if v.sort() in (spec.S.V, spec.S.Q, spec.S.P)]
        memo = {}

        def ex_(t):
            return simp(spec.expand(z3.substitute(t, *sub) if sub else t, memo=memo, more=more))
        ex.facts = [ex_(f) for f in ex.facts]
        goals = [(nm, conj([simp(x == y) if False else x == y for x, y in pairs(ex_(g))]) if isstruct(g) else ex_(g)) for nm, g in goals]
    if plain:
        ex2 = _Ex()
        ex2.facts, ex2.cands = pf, []
        os2 = [_O('lemma %s: %s' % (name, nm), g) for nm, g in plain]
        for o in os2:
            o.n = len(pf)
        out += list(zip(os2, Prover(ex2).pmap(os2, True, set())))
    P = Prover(ex, t_quick=20000, t_full=60000)
    os_ = []
    for nm, g in goals:
        o = _O('lemma %s%s' % (name, nm and ': ' + nm), g)
        o.n = len(ex.facts)
        os_.append(o)
    P.no_reveal = not d.get('reveal', True)
    rs = P.pmap(os_, True, set())
    return out + list(zip(os_, rs))


def closure(names):
    out, todo = [], list(names)
    while todo:
        n = todo.pop()
        if n not in out:
            out.append(n)
            d = LEMMAS[n]()
            todo += d.get('by', []) + [b for b, _ in d.get('inst', [])] + [b for b, _ in d.get('via', [])]
    return [n for n in ORDER if n in out]
