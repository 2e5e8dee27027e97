"""The scratch stack and the pose cache as abstract data types, and the invariant over histories of public calls."""
from ccv.contract import Contract, Theorem
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.execu import Frame
from .model import MC, KM, ET

SQ, CQ = 'tinyfk::SizedStack<tinyfk::LinkIdAndTransform>', 'tinyfk::SizedCache<urdf::Pose>'


class Unit(Contract):
    standalone = True

    def get(self, cx, *path, st=None):
        l = cx.this
        for p in path:
            l = cx.ex.lvf(l, p)
        return cx.ex.read(l, st or cx.old)

    def at(self, cx, *path):
        l = cx.this
        for p in path:
            l = cx.ex.lvf(l, p)
        return l


# ------------------------------------------------------------------ last-in-first-out stack: entries 0 .. size-1
class Stack(Unit):
    def size(self, cx, st=None):
        return self.get(cx, 'current_idx_', st=st)

    def ent(self, cx, st=None):
        return self.get(cx, 'data_', 'arr', st=st)

    def cap(self, cx, st=None):
        return self.get(cx, 'data_', 'len', st=st)

    def same(self, cx, n):
        """The first n entries keep their values."""
        a, b = self.ent(cx), self.ent(cx, cx.post)
        return ('the capacity and the entries below are the same', z3.And(self.cap(cx, cx.post) == self.cap(cx), fa([I_], z3.Implies(z3.And(0 <= I_, I_ < n), sel(b, I_) == sel(a, I_)), sel(b, I_))))


class StackCtor(Stack):
    qual, nparams = SQ + '::SizedStack', 1

    def requires(self, cx):
        return [('the capacity is not negative', cx.arg(0) >= 0)]

    def ensures(self, cx):
        return [('the stack is empty', self.size(cx, cx.post) == 0), ('it has the capacity', self.cap(cx, cx.post) == cx.arg(0))]


class StackPush(Stack):
    qual = SQ + '::push'

    def requires(self, cx):
        return [('there is room', z3.And(0 <= self.size(cx), self.size(cx) < self.cap(cx)))]

    def modifies(self, cx):
        return [self.at(cx, 'data_'), self.at(cx, 'current_idx_')]

    def ensures(self, cx):
        n = self.size(cx)
        return [('the stack grows by one', self.size(cx, cx.post) == n + 1), ('the new entry is on top', sel(self.ent(cx, cx.post), n) == cx.arg(0)), self.same(cx, n)]


class StackTop(Stack):
    qual = SQ + '::top'

    def requires(self, cx):
        return [('the stack is not empty', z3.And(0 < self.size(cx), self.size(cx) <= self.cap(cx)))]

    def ensures(self, cx):
        r = cx.result
        return [('the top entry is returned', cx.ex.read(r, cx.post) == sel(self.ent(cx), self.size(cx) - 1))]


class StackPop(Stack):
    qual = SQ + '::pop'

    def requires(self, cx):
        return [('the stack is not empty', 0 < self.size(cx))]

    def modifies(self, cx):
        return [self.at(cx, 'current_idx_')]

    def ensures(self, cx):
        return [('the top entry is removed', self.size(cx, cx.post) == self.size(cx) - 1), self.same(cx, self.size(cx) - 1)]


class StackReset(Stack):
    qual = SQ + '::reset'

    def modifies(self, cx):
        return [self.at(cx, 'current_idx_')]

    def ensures(self, cx):
        return [('the stack is empty', self.size(cx, cx.post) == 0), self.same(cx, z3.IntVal(0))]


class StackEmpty(Stack):
    qual = SQ + '::empty'

    def ensures(self, cx):
        return [('true exactly without entries', cx.result == (self.size(cx) == 0))]


# ------------------------------------------------------------------ partial map id -> pose
class Cache(Unit):
    def inv(self, cx, st=None):
        n = self.get(cx, 'cache_size_', st=st)
        return ('there is room for every id', z3.And(n >= 0, self.get(cx, 'data_', 'len', st=st) == n, self.get(cx, 'cache_predicate_vector_', 'len', st=st) == n))

    def n(self, cx, st=None):
        return self.get(cx, 'cache_size_', st=st)

    def dom(self, cx, i, st=None):
        return sel(self.get(cx, 'cache_predicate_vector_', 'arr', st=st), i)

    def val(self, cx, i, st=None):
        return sel(self.get(cx, 'data_', 'arr', st=st), i)

    def requires(self, cx):
        return [self.inv(cx)]

    def empty(self, cx):
        d = self.dom(cx, I_, cx.post)
        return ('no entry is left', fa([I_], z3.Implies(z3.And(0 <= I_, I_ < self.n(cx, cx.post)), z3.Not(d)), d))


class CacheCtor(Cache):
    qual, nparams = CQ + '::SizedCache', 1

    def requires(self, cx):
        return [('the size is not negative', cx.arg(0) >= 0)]

    def ensures(self, cx):
        return [self.inv(cx, cx.post), ('it has the size', self.n(cx, cx.post) == cx.arg(0)), self.empty(cx)]


class CacheSet(Cache):
    qual = CQ + '::set_cache'

    def requires(self, cx):
        return [self.inv(cx), ('the id is valid', z3.And(0 <= cx.arg(0), cx.arg(0) < self.n(cx)))]

    def modifies(self, cx):
        return [self.at(cx, 'data_'), self.at(cx, 'cache_predicate_vector_')]

    def ensures(self, cx):
        i = cx.arg(0)
        d1, v1 = self.dom(cx, I_, cx.post), self.val(cx, I_, cx.post)
        inr = z3.And(0 <= I_, I_ < self.n(cx))
        return [self.inv(cx, cx.post), ('the id has the given pose', z3.And(self.dom(cx, i, cx.post), self.val(cx, i, cx.post) == cx.arg(1))),
                ('the other ids keep their entries', fa([I_], z3.Implies(z3.And(inr, I_ != i), z3.And(d1 == self.dom(cx, I_), z3.Implies(d1, v1 == self.val(cx, I_)))), d1))]


class CacheGet(Cache):
    qual = CQ + '::get_cache'

    def requires(self, cx):
        return [self.inv(cx), ('the id is valid', z3.And(0 <= cx.arg(0), cx.arg(0) < self.n(cx)))]

    def ensures(self, cx):
        i = cx.arg(0)
        out = []
        for c, l in cx.result.alts:
            out.append(('null exactly without an entry', implies(c, self.dom(cx, i) == z3.BoolVal(l is not None))))
            if l is not None:
                out.append(('the entry of the id is returned', implies(c, cx.ex.read(l, cx.post) == self.val(cx, i))))
        return out


class CacheExtend(Cache):
    qual = CQ + '::extend'

    def modifies(self, cx):
        return [cx.this]

    def ensures(self, cx):
        return [self.inv(cx, cx.post), ('there is room for one more id', self.n(cx, cx.post) == self.n(cx) + 1), self.empty(cx)]


class CacheClear(Cache):
    qual = CQ + '::clear'

    def modifies(self, cx):
        return [self.at(cx, 'cache_predicate_vector_')]

    def ensures(self, cx):
        return [self.inv(cx, cx.post), self.empty(cx)]


# ------------------------------------------------------------------ histories
class Histories(Theorem):
    """The validity invariant and cache coherence are kept by every public operation (by its contract), from every state that has them."""
    qual = 'theorem: every public operation keeps the model valid and its cache current'
    ops = [KM + x for x in ('set_joint_angles', 'set_joint_angle', 'set_init_angles', 'set_base_pose', 'clear_cache', 'get_joint_angles', 'get_joint_ids', 'get_link_ids',
                            'get_joint_names', 'get_link_names', 'get_joint_position_limits', 'get_joint_velocity_limits', 'get_joint_effort_limits', 'get_link_pose',
                            'get_jacobian', 'get_com', 'get_com_jacobian', 'get_total_inertia_matrix', 'add_new_link', 'update_rptable')]

    caller = ('the joint ids are valid', 'one value per id', 'the joint id is valid', 'the link id is valid', 'the parent id is valid', 'the offset rotation is a unit quaternion',
              'the total mass is positive', 'the joint axes have unit length')

    def cases(self):
        import specs
        out = []
        for c in specs.CONTRACTS:
            if c.qual in self.ops:
                o = c()
                out += [(o.id, case) for case in o.cases()]
        return out

    def requires(self, cx):
        m = M(cx.ex, cx.this, cx.old)
        return m.full() + [m.coh()]

    def prove(self, cx, st):
        import specs
        from ccv.contract import CallCtx, param_values
        ex = cx.ex
        oid, case = cx.case
        c = next(k() for k in specs.CONTRACTS if k().id == oid)
        f, = ex.prog.find(c.qual, c.nparams, c.typ)
        ex.frame = Frame(f, cx.this)
        args = param_values(ex, c, f, st, case)
        pre = CallCtx(ex, c, f, cx.this, args, st)
        pre.case = case
        pre.freeze(st)
        # what the caller provides is assumed; what the state provides is proved below (the precondition obligations of the call)
        mine = [(lab, g) for lab, g in list(c.requires(pre)) if lab in self.caller] + self.extra(ex, c, pre)
        for lab, g in mine:
            ex.assume(g)
        ex.handlers.append([])
        ex.call_contract(c, f, cx.this, args, st, None)
        m = M(ex, cx.this, st)
        for lab, g in m.full() + [m.coh()]:
            yield 'after %s: %s' % (c.qual.split('::')[-1], lab), g

    def extra(self, ex, c, pre):
        """What a valid argument is, beyond the precondition."""
        if c.qual == KM + 'set_base_pose':
            return [('the base rotation is a unit quaternion', S.UNIT(rot(pre.arg(0))))]
        return []


CONTRACTS = [StackCtor, StackPush, StackTop, StackPop, StackReset, StackEmpty, CacheCtor, CacheSet, CacheGet, CacheExtend, CacheClear]
THEOREMS = [Histories]
