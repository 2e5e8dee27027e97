"""Lemmas about products of indices and about setting listed joints."""
import z3
from ccv.lemma import lemma
from ccv.model import *
from ccv.spec import *
from ccv.sym import *
from ccv.execu import IMUL

a_, b_, n_ = z3.Ints('a b n')


def prod(*ps):
    return [IMUL(x, y) == x * y for x, y in ps]


@lemma
def imul_nonneg():
    return dict(vars=[a_, b_], hyp=z3.And(a_ >= 0, b_ >= 0), concl=IMUL(a_, b_) >= 0, facts=prod((a_, b_)), expand=False, pats=[IMUL(a_, b_)])


@lemma
def imul_commutes():
    return dict(vars=[a_, b_], concl=IMUL(a_, b_) == IMUL(b_, a_), facts=prod((a_, b_), (b_, a_)), expand=False, pats=[IMUL(a_, b_)])


@lemma
def imul_order():
    """Rows of length n do not overlap."""
    return dict(vars=[a_, b_, n_], hyp=z3.And(0 <= a_, a_ < b_, n_ >= 0), concl=IMUL(a_, n_) + n_ <= IMUL(b_, n_), facts=prod((a_, n_), (b_, n_)), expand=False,
                pats=[(IMUL(a_, n_), IMUL(b_, n_))])


@lemma
def imul_next():
    return dict(vars=[a_, n_], concl=IMUL(a_ + 1, n_) == IMUL(a_, n_) + n_, facts=prod((a_ + 1, n_), (a_, n_)), expand=False, pats=[IMUL(a_ + 1, n_)])


AR, AIn = z3.ArraySort(Int, Real), z3.ArraySort(Int, Int)
VALQ = z3.Function('VALQ', AIn, AR, Int, Int, Real)


def hit_defs(ids, q, n, j):
    """HIT(ids, n, j): j is among the first n ids; VALQ: the last value given for it."""
    return [S.HIT(ids, z3.IntVal(0), j) == FALSE, S.HIT(ids, n + 1, j) == z3.Or(S.HIT(ids, n, j), sel(ids, n) == j),
            VALQ(ids, q, n + 1, j) == z3.If(sel(ids, n) == j, sel(q, n), VALQ(ids, q, n, j))]


@lemma
def seta_value():
    """The angles after setting the first n listed joints, joint by joint."""
    ids, q, a, j = z3.Const('ids', AIn), z3.Const('q', AR), z3.Const('a', AR), z3.Int('j')
    v = sel(S.SETA(ids, q, a, n_), j)
    return dict(vars=[ids, q, a, n_, j], induct=n_, concl=v == z3.If(S.HIT(ids, n_, j), VALQ(ids, q, n_, j), sel(a, j)), pats=[v],
                facts=seta_axioms(ids, q, a, n_) + hit_defs(ids, q, n_, j))


@lemma
def seta_override():
    """Setting the same joints twice: the first values do not matter."""
    ids, q, p, a = z3.Const('ids', AIn), z3.Const('q', AR), z3.Const('p', AR), z3.Const('a', AR)
    l, r = S.SETA(ids, q, S.SETA(ids, p, a, n_), n_), S.SETA(ids, q, a, n_)
    return dict(vars=[ids, q, p, a, n_], hyp=n_ >= 0, concl=l == r, pats=[l], by=['seta_value'])
