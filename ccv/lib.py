"""Models of the libraries the repository calls: the C++ standard library, Eigen and tinyxml's element
interface.  These are the trusted contracts of the verification (each use is recorded in Exec.trusted)."""
import z3
from .sym import *

R = z3.RealSort()
SIN, COS, ASIN = [z3.Function(n, R, R) for n in ('SIN', 'COS', 'ASIN')]
SQRT = z3.Function('SQRT', R, R)
ATAN2, REMAINDER = [z3.Function(n, R, R, R) for n in ('ATAN2', 'REMAINDER')]
UNF = {}      # name -> uninterpreted real functions met in the code but without any axiom
INF = z3.Real('INF')
SCAT = z3.Function('SCAT', Str, Str, Str)
SLEN = z3.Function('SLEN', Str, Int)
TOSTR = z3.Function('TOSTR', Int, Str)
DOM = z3.ArraySort(Str, Bool)
MSIZE = z3.Function('MSIZE', DOM, Int)
MKEY = z3.Function('MKEY', DOM, Int, Str)
MIDX = z3.Function('MIDX', DOM, Str, Int)
ISNUM = z3.Function('ISNUM', Str, Bool)
NUM = z3.Function('NUM', Str, R)
XCHILD = z3.Function('XCHILD', Int, Str, Int)
XCHILD0 = z3.Function('XCHILD0', Int, Int)
XNEXT = z3.Function('XNEXT', Int, Str, Int)
XLEFT = z3.Function('XLEFT', Int, Int)
XROOT = z3.Function('XROOT', Str, Str, Int)     # first element with a name at the top of the document with a text
XERR = z3.Function('XERR', Str, Bool)
NPOS = z3.IntVal(2 ** 64 - 1)
FFO = z3.Function('FFO', Str, Str, Int, Int)        # std::string::find_first_of(characters, start)
SUBT = z3.Function('SUBT', Str, Int, Int, Str)      # characters from .. up to .. of a text
SCANOK = z3.Function('SCANOK', Bool, Str, Bool)     # stream >> double: whether a prefix of the text is a number (under the classic or another locale),
SCANEND = z3.Function('SCANEND', Bool, Str, Bool)   # whether nothing is left behind it,
SCANV = z3.Function('SCANV', Bool, Str, R)          # and its value
FMT = z3.Function('FMT', R, Str)          # text of a double as written by an output stream
XML = ('TiXmlElement', 'TiXmlDocument', 'TiXmlNode')
MATHF = {'sin': SIN, 'cos': COS, 'asin': ASIN, 'sqrt': SQRT}


CHAR0 = z3.Function('CHAR0', Str, Int)              # first character (0: none)
STRTOL = z3.Function('STRTOL', Str, Int, Int)       # value and unread rest of strtol(text, &rest, base)
STREST = z3.Function('STREST', Str, Int, Str)


def same_text(a, b):
    """Pointers into one text (a suffix of a text stands for the position where it begins, so equality of the suffixes is that of the pointers)."""
    if a.eq(CS.cnull) or b.eq(CS.cnull):
        return True
    v = lambda x: x.arg(0) if z3.is_app(x) and x.decl().eq(CS.csome) else CS.cval(x)
    a, b = z3.simplify(v(a)), z3.simplify(v(b))
    rest = lambda x, y: z3.is_app(x) and x.decl().eq(STREST) and x.arg(0).eq(y)
    return a.eq(b) or rest(a, b) or rest(b, a)


class EntryLV:
    """Element of a std::map seen through an iterator."""
    __slots__ = ('m', 'key')

    def __init__(self, m, key):
        self.m, self.key = m, key


def map_axioms(dom):
    i, k = z3.Int('i'), z3.Const('k', Str)
    return [MSIZE(dom) >= 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < MSIZE(dom)), z3.And(z3.Select(dom, MKEY(dom, i)), MIDX(dom, MKEY(dom, i)) == i)),
                      patterns=[MKEY(dom, i)]),
            z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= MIDX(dom, k), MIDX(dom, k) < MSIZE(dom), MKEY(dom, MIDX(dom, k)) == k)),
                      patterns=[z3.Select(dom, k)])]


class Lib:
    LIBF = {'strtol', 'sin', 'cos', 'asin', 'sqrt', 'atan2', 'move', 'forward', 'prev', 'next', 'make_shared', 'make_pair', 'to_string', 'infinity',
            'Zero', 'Identity', 'fabs', 'abs', 'remainder', 'max', 'min', 'dynamic_pointer_cast', 'static_pointer_cast', 'classic', 'getline',
            'tan', 'acos', 'atan', 'pow', 'fmod', 'floor', 'ceil', 'exp', 'log', 'swap', 'max_element', 'hypot', 'copysign', 'isfinite', 'isnan'}

    # ------------------------------------------------------------- helpers
    def mapfacts(self, dom):
        if self.dry:
            return
        if not hasattr(self, '_mapdone'):
            self._mapdone = {}
        if dom.get_id() in self._mapdone:
            return
        self._mapdone[dom.get_id()] = dom
        try:
            self.facts.extend(map_axioms(dom))
        except z3.Z3Exception:      # a domain that is no pattern (it contains a conditional)
            d = self.fresh('dom', dom.sort())
            self.facts.append(d == dom)
            self.facts.extend(map_axioms(d))

    def in_range(self, i, n, st, node, what):
        self.obl('%s index is in range' % what, z3.And(i >= 0, i < n), st, 'safety', node)

    def vecget(self, lv, i, st, node, what='vector'):
        n = self.read(self.lvf(lv, 'len'), st)
        self.in_range(i, n, st, node, what)
        return self.elem(self.lvf(lv, 'arr'), i)

    def strval(self, v, st, node):
        """A std::string value from a string or a C string."""
        if isinstance(v, z3.ExprRef) and v.sort() == CS:
            if z3.is_app(v) and v.decl().eq(CS.csome):
                return v.arg(0)
            self.obl('no null string is used', neg(CS.is_cnull(v)), st, 'safety', node)
            return CS.cval(v)
        if isinstance(v, z3.ExprRef) and v.sort() == Str:
            return v
        raise Unsupported('string value')

    def it_deref(self, it, st, node):
        c = it.c
        if c.t.k == 'map':
            dom = self.read(self.lvf(c, 'dom'), st)
            self.mapfacts(dom)
            if it.mapkey is not None:
                self.obl('a map iterator is valid', sel(dom, it.mapkey), st, 'safety', node)
                return EntryLV(c, it.mapkey)
            self.in_range(it.pos, MSIZE(dom), st, node, 'map iterator')
            return EntryLV(c, MKEY(dom, it.pos))
        return self.vecget(c, it.pos, st, node, 'iterator')

    def entry_field(self, e, f, st):
        if f == 'first':
            return self.new_local(st, e.m.t.a[0], e.key, 'key')
        return self.elem(self.lvf(e.m, 'val'), e.key)

    def it_eq(self, a, b, st):
        if a.mapkey is not None and b.mapkey is not None:
            raise Unsupported('comparison of map iterators')
        for x, y in ((a, b), (b, a)):
            if x.mapkey is not None:
                dom = self.read(self.lvf(x.c, 'dom'), st)
                if z3.is_app(y.pos) and y.pos.decl().eq(MSIZE) and y.pos.arg(0).eq(dom):
                    return neg(sel(dom, x.mapkey))
                return z3.And(sel(dom, x.mapkey), y.pos == MIDX(dom, x.mapkey)) if False else self._ue()
        return a.pos == b.pos

    def _ue(self):
        raise Unsupported('comparison of map iterators')

    # ------------------------------------------------------------- Eigen
    def as_mat(self, v, st, t=None):
        if isinstance(v, MatV):
            return v
        if isinstance(v, BlockLV):
            return self.block_val(v, st)
        if isinstance(v, LV):
            v, t = self.read(v, st), v.t
            if isinstance(v, MatV):
                return v
        if isinstance(v, z3.ExprRef):
            n = v.sort().name()
            if t is None:
                for kk, d in list(_matsorts().items()):
                    if v.sort() == d:
                        t = T('mat', *kk)
            if t is not None and t.k == 'mat':
                return self.mat_view(v, t)
        raise Unsupported('matrix value %r' % (v,))

    def mat_view(self, v, t):
        r, c = t.a
        if r > 0 and c > 0:
            def one(n, i):
                # the indices an index term may stand for (outside the matrix the element has no meaning)
                i = i if isinstance(i, int) else z3.simplify(i)
                if n == 1:
                    return [(0, None)]
                if isinstance(i, int) or z3.is_int_value(i):
                    return [(self.ci(i), None)]
                return [(k, i == k) for k in range(n)]

            def f(i, j):
                out = None
                for a, ca in reversed(one(r, i)):
                    row = None
                    for b, cb in reversed(one(c, j)):
                        e = acc(t, v, 'm%d_%d' % (a, b))
                        row = e if row is None else ite(cb, e, row)
                    out = row if out is None else ite(ca, row, out)
                return out
            m = MatV(r, c, f)
        else:
            at = acc(t, v, 'at')
            m = MatV(acc(t, v, 'rows') if r < 0 else r, acc(t, v, 'cols') if c < 0 else c, lambda i, j: sel(sel(at, toI(i)), toI(j)))
            m.at = at
        m.packed = (t, v)
        return m

    def ci(self, i):
        if isinstance(i, int):
            return i
        s = z3.simplify(i)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported('symbolic index of a fixed matrix')

    def lam(self, f, hint='at'):
        """A nested array with at[i][j] == f(i, j) everywhere."""
        at = self.fresh(hint, z3.ArraySort(Int, z3.ArraySort(Int, Real)))
        i, j = z3.Int('i?'), z3.Int('j?')
        if not self.dry:
            self.facts.append(z3.ForAll([i, j], sel(sel(at, i), j) == f(i, j), patterns=[z3.Select(z3.Select(at, i), j)]))
        return at

    def mat_pack(self, m, t, st):
        if getattr(m, 'packed', None) and m.packed[0] == t:
            return m.packed[1]
        r, c = t.a
        if r > 0 and c > 0:
            for want, have in ((r, m.r), (c, m.c)):
                if not (isinstance(have, int) and have == want):
                    self.obl('matrix sizes agree', toI(have) == want, st, 'safety')
            return mk(t, [m.f(i, j) for i in range(r) for j in range(c)])
        at = getattr(m, 'at', None)
        if at is None:
            at = self.lam(m.f)
        return mk(t, [toI(m.r), toI(m.c), at])

    def mat_elem(self, o, i, j, st, node):
        """Place of element (i, j) of the matrix place o."""
        r, c = o.t.a
        if r > 0 and c > 0:
            i, j = self.ci(i), self.ci(j)
            self.obl('matrix index is in range', z3.BoolVal(0 <= i < r and 0 <= j < c), st, 'safety', node)
            return self.lvf(o, 'm%d_%d' % (i, j))
        rows, cols = self.read(self.lvf(o, 'rows'), st), self.read(self.lvf(o, 'cols'), st)
        self.in_range(i, rows, st, node, 'matrix row')
        if not (c == 1 and isinstance(j, int)):
            self.in_range(j, cols, st, node, 'matrix column')
        return self.elem(self.elem(self.lvf(o, 'at'), toI(i)), toI(j))

    def block_lv(self, o, args, st, node):
        r0, c0, nr, nc = [self.ev(a, st) for a in args]
        rows, cols = self.read(self.lvf(o, 'rows'), st), self.read(self.lvf(o, 'cols'), st)
        self.obl('matrix block is inside the matrix', z3.And(r0 >= 0, c0 >= 0, nr >= 0, nc >= 0, r0 + nr <= rows, c0 + nc <= cols), st, 'safety', node)
        return BlockLV(o, r0, c0, nr, nc)

    def block_val(self, b, st):
        at = self.read(self.lvf(b.m, 'at'), st)
        return MatV(b.nr, b.nc, lambda i, j: sel(sel(at, toI(i) + b.r0), toI(j) + b.c0))

    def block_write(self, b, val, st):
        v = self.as_mat(val, st)
        self.same_size(v, MatV(b.nr, b.nc, None), st)
        atl = self.lvf(b.m, 'at')
        at = self.read(atl, st)
        new = self.lam(lambda i, j: z3.If(z3.And(i >= b.r0, i < b.r0 + b.nr, j >= b.c0, j < b.c0 + b.nc),
                                          v.f(0 if v.r == 1 and isinstance(v.r, int) else i - b.r0, 0 if v.c == 1 and isinstance(v.c, int) else j - b.c0), sel(sel(at, i), j)))
        self.write(atl, new, st)

    def same_size(self, a, b, st, node=None):
        for x, y in ((a.r, b.r), (a.c, b.c)):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    self.obl('matrix sizes agree', FALSE, st, 'safety', node)
            elif not toI(x).eq(toI(y)):
                self.obl('matrix sizes agree', toI(x) == toI(y), st, 'safety', node)

    def pick(self, a, b):
        return a if isinstance(a, int) else b

    def mat_bin(self, op, a, b, st, node):
        self.same_size(a, b, st, node)
        r, c = self.pick(a.r, b.r), self.pick(a.c, b.c)
        if op == '+':
            return MatV(r, c, lambda i, j: a.f(i, j) + b.f(i, j))
        return MatV(r, c, lambda i, j: a.f(i, j) - b.f(i, j))

    def mat_mul(self, a, b, st, node):
        inner = self.pick(a.c, b.r)
        if not isinstance(inner, int):
            s = z3.simplify(inner)
            if not z3.is_int_value(s):
                raise Unsupported('matrix product with symbolic inner size')
            inner = s.as_long()
        for x in (a.c, b.r):
            if not isinstance(x, int) or x != inner:
                self.obl('matrix sizes agree', toI(x) == inner, st, 'safety', node)

        def f(i, j):
            s = a.f(i, 0) * b.f(0, j)
            for k in range(1, inner):
                s = s + a.f(i, k) * b.f(k, j)
            return s
        return MatV(a.r, b.c, f)

    def norm2(self, m):
        if not (isinstance(m.r, int) and isinstance(m.c, int)):
            raise Unsupported('norm of a dynamic matrix')
        s = None
        for i in range(m.r):
            for j in range(m.c):
                x = m.f(i, j)
                s = x * x if s is None else s + x * x
        return s

    # ------------------------------------------------------------- free functions
    def math(self, name, a, st):
        self.trusted.add('real function ' + name)
        if name in ('fabs', 'abs'):
            return ite(a >= 0, a, -a)
        f = MATHF.get(name)
        if f is None:
            f = UNF.setdefault(name, z3.Function('F_' + name, R, R))
        r = f(a)
        if not self.dry and r.get_id() not in self.seen_ge0:
            self.seen_ge0.add(r.get_id())
            self.frozen[r.get_id()] = r
            if name == 'sqrt':
                self.facts.append(z3.And(r >= 0, z3.Implies(a >= 0, r * r == a)))
        return r

    def lib_call(self, name, args, st, n):
        self.trusted.add('std::' + name)
        if name in ('move', 'forward'):
            return self.lv(args[0], st)
        if name in ('sin', 'cos', 'asin', 'sqrt', 'fabs', 'tan', 'acos', 'atan', 'floor', 'ceil', 'exp', 'log') or (name == 'abs' and self.ntype(n)[0].k == 'real'):
            v = self.ev(args[0], st)
            return self.math(name, z3.ToReal(v) if z3.is_int(v) else v, st)
        if name == 'atan2':
            a, b = [self.ev(x, st) for x in args]
            return ATAN2(a, b)
        if name == 'remainder':
            a, b = [self.ev(x, st) for x in args]
            return REMAINDER(a, b)
        if name in ('pow', 'fmod', 'hypot', 'copysign'):
            a, b = [self.ev(x, st) for x in args]
            a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
            if name == 'pow' and z3.is_rational_value(z3.simplify(b)) and z3.simplify(b).as_fraction() == 2:
                return a * a
            return UNF.setdefault(name, z3.Function('F_' + name, R, R, R))(a, b)
        if name in ('max', 'min'):
            a, b = [self.ev(x, st) for x in args]
            a, b = self.num2(a, b)
            return ite((a >= b) if name == 'max' else (a <= b), a, b)
        if name == 'prev' or name == 'next':
            it = self.ev(args[0], st)
            k = self.ev(args[1], st)
            if isinstance(k, Opaque):
                k = z3.IntVal(1)
            p = it.pos - k if name == 'prev' else it.pos + k
            ln = self.read(self.lvf(it.c, 'len'), st)
            self.obl('iterator arithmetic stays inside the vector', z3.And(p >= 0, p <= ln), st, 'safety', n)
            return It(it.c, p)
        if name == 'make_shared':
            t, _ = self.ntype(n)
            return self.new_object(t.name, 'void ()', args, st)
        if name == 'make_pair':
            t, _ = self.ntype(n)
            vals = []
            for ft, a in zip(t.a, args):
                v = self.ev(a, st)
                if ft.k == 'str':
                    v = self.strval(v, st, a)
                vals.append(v)
            return mk(t, vals)
        if name == 'strtol':
            s, base = self.strval(self.ev(args[0], st), st, n), self.ev(args[2], st)
            e = self.ev(args[1], st)
            if isinstance(e, Ptr) and len(e.alts) == 1 and e.alts[0][1].t.k == 'cstr':
                self.write(e.alts[0][1], CS.csome(STREST(s, base)), st)
            elif not (isinstance(e, Opaque) and e.what == 'null'):
                raise Unsupported('end pointer of strtol')
            r = STRTOL(s, base)
            self.assume(z3.And(r >= -2 ** 63, r < 2 ** 63))
            return r
        if name == 'to_string':
            return TOSTR(self.ev(args[0], st))
        if name == 'infinity':
            return INF
        if name == 'Zero':
            t, _ = self.ntype(n)
            return self.const_mat(n, [self.ev(a, st) for a in args], lambda i, j: real(0), zero=True)
        if name == 'Identity':
            return self.const_mat(n, [self.ev(a, st) for a in args], lambda i, j: self.ident(i, j))
        if name in ('dynamic_pointer_cast', 'static_pointer_cast'):
            t, _ = self.ntype(n)
            v = self.ev(args[0], st)
            if name[0] == 's':
                return v
            c = z3.Select(self.hleaf(st, ('H', 'urdf::Geometry', '$cls')), v)
            return ite(z3.And(v != 0, c == CLSID(t.name)), v, z3.IntVal(0))
        raise Unsupported('library function ' + name)

    def ident(self, i, j):
        if isinstance(i, int) and isinstance(j, int):
            return real(1) if i == j else real(0)
        return z3.If(toI(i) == toI(j), real(1), real(0))

    def const_mat(self, n, args, f, zero=False):
        s = n['type'].get('desugaredQualType', n['type']['qualType'])
        import re
        m = re.search(r'Matrix<double, (-?\d+), (-?\d+)', s)
        if not m:
            raise Unsupported('matrix type ' + s[:80])
        r, c = int(m.group(1)), int(m.group(2))
        a = list(args)
        rr = r if r > 0 else a.pop(0)
        cc = c if c > 0 else a.pop(0)
        v = MatV(rr, cc, f)
        if zero and not (r > 0 and c > 0):
            v.at = z3.K(Int, z3.K(Int, real(0)))
        return v

    # ------------------------------------------------------------- operators
    def lib_operator(self, name, args, st, n):
        op = name[len('operator'):]
        t0, _ = self.ntype(args[0])
        if op == '->':
            v = self.ev(args[0], st)
            return v
        if op == '*' and len(args) == 1:
            v = self.ev(args[0], st)
            if isinstance(v, It):
                return self.it_deref(v, st, n)
            return self.deref(v, t0, st, n)
        if op == '[]':
            return self.op_index(args, st, n)
        if op == '()':
            return self.op_paren(args, st, n)
        if op == '=':
            return self.op_assign(args, st, n)
        if op in ('++', '--'):
            l = self.lv(args[0], st)
            v = self.read(l, st)
            if not isinstance(v, It):
                raise Unsupported('operator ++')
            if v.mapkey is not None:
                raise Unsupported('advance of a found map iterator')
            self.write(l, It(v.c, z3.simplify(v.pos + (1 if op == '++' else -1))), st)
            return v if len(args) > 1 else l
        if op == ',':
            c = self.ev(args[0], st)
            if isinstance(c, Comma):
                return self.comma(c, self.ev(args[1], st), st, n)
        if op == '<<':
            l = self.lv(args[0], st)
            if isinstance(l, LV) and l.t.k == 'mat':
                return self.comma(Comma(l, 0), self.ev(args[1], st), st, n)
            if isinstance(l, LV) and l.t.k == 'opaque' and l.t.name == 'stream':
                self.ev(args[1], st)
                return l
            if isinstance(l, LV) and l.t.k == 'sstream':
                self.stream_out(l, self.ev(args[1], st), st, n)
                return l
            raise Unsupported('operator <<')
        if op == '>>':
            l = self.lv(args[0], st)
            if isinstance(l, LV) and l.t.k == 'sstream':
                self.stream_in(l, self.lv(args[1], st), st, n)
                return l
            raise Unsupported('operator >>')
        if op in ('+=', '-=', '*=', '/='):
            return self.op_compound(op, args, st, n)
        if op in ('==', '!=', '<', '>'):
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            if isinstance(a, It) and isinstance(b, It):
                if op in ('==', '!='):
                    e = self.it_eq(a, b, st)
                    return e if op == '==' else neg(e)
                return (a.pos < b.pos) if op == '<' else (a.pos > b.pos)
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and Str in (a.sort(), b.sort()):
                a, b = self.strval(a, st, n), self.strval(b, st, n)
                if op in ('<', '>'):
                    raise Unsupported('string order')
                return (a == b) if op == '==' else neg(a == b)
            return self.binop(op, a, b, self.ntype(n)[0], st, n)
        if op in ('+', '-', '*', '/'):
            a = self.ev(args[0], st)
            b = self.ev(args[1], st)
            if isinstance(a, It):
                if isinstance(b, It):
                    return a.pos - b.pos
                return It(a.c, z3.simplify(a.pos + b if op == '+' else a.pos - b))
            tn = self.ntype(n)[0]
            if tn.k == 'str':
                if any(isinstance(x, z3.ExprRef) and z3.is_int(x) for x in (a, b)):
                    raise Unsupported('string + char')
                return SCAT(self.strval(a, st, n), self.strval(b, st, n))
            am = self.maybe_mat(a, args[0], st)
            bm = self.maybe_mat(b, args[1], st)
            if op in '+-' and am and bm:
                return self.mat_bin(op, am, bm, st, n)
            if op == '*' and am and bm:
                return self.mat_mul(am, bm, st, n)
            if op == '*' and bm:
                s = z3.ToReal(a) if z3.is_int(a) else a
                return MatV(bm.r, bm.c, lambda i, j: s * bm.f(i, j))
            if op == '*' and am:
                s = z3.ToReal(b) if z3.is_int(b) else b
                return MatV(am.r, am.c, lambda i, j: am.f(i, j) * s)
            if op == '/' and am:
                s = z3.ToReal(b) if z3.is_int(b) else b
                return MatV(am.r, am.c, lambda i, j: am.f(i, j) / s)
            raise Unsupported('operator ' + op)
        if op == '-' and len(args) == 1:
            am = self.maybe_mat(self.ev(args[0], st), args[0], st)
            return MatV(am.r, am.c, lambda i, j: -am.f(i, j))
        if op == '!':
            l = self.lv(args[0], st)
            if isinstance(l, LV) and l.t.k == 'sstream':
                return self.read(self.lvf(l, 'failed'), st)
            raise Unsupported('operator !')
        raise Unsupported('library operator ' + name)

    def maybe_mat(self, v, node, st):
        if isinstance(v, MatV):
            return v
        if isinstance(v, BlockLV):
            return self.block_val(v, st)
        if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_DATATYPE_SORT:
            try:
                return self.as_mat(v, st)
            except Unsupported:
                return None
        return None

    def comma(self, c, v, st, n):
        r, cc = c.lv.t.a
        if not (r > 0 and cc > 0):
            raise Unsupported('comma initialiser of a dynamic matrix')
        self.obl('comma initialiser does not overflow the matrix', z3.BoolVal(c.n < r * cc), st, 'safety', n)
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            v = z3.ToReal(v)
        self.write(self.lvf(c.lv, 'm%d_%d' % (c.n // cc, c.n % cc)), v, st)
        return Comma(c.lv, c.n + 1)

    def op_index(self, args, st, n):
        o = self.lv(args[0], st)
        i = self.ev(args[1], st)
        if isinstance(o, LV) and o.t.k == 'vec':
            l = self.vecget(o, i, st, n)
        elif isinstance(o, LV) and o.t.k == 'array':
            l = self.arr_elem(o, i, st, n)
        elif isinstance(o, LV) and o.t.k == 'map':
            l = self.map_index(o, self.strval(i, st, n) if o.t.a[0].k == 'str' else i, st)
        elif isinstance(o, LV) and o.t.k == 'mat':
            l = self.mat_elem(o, i, 0, st, n)
        else:
            raise Unsupported('operator[] on %r' % (o,))
        if n.get('valueCategory') not in ('lvalue', 'xvalue') and self.ntype(n)[0].k == 'bool':
            return self.read(l, st)
        return l

    def map_index(self, o, k, st):
        dl = self.lvf(o, 'dom')
        dom = self.read(dl, st)
        vl = self.lvf(o, 'val')
        val = self.read(vl, st)
        has = sel(dom, k)
        if self.truth(has) is not True:
            self.mapfacts(dom)
            self.write(vl, z3.Store(val, k, ite(has, sel(val, k), self.zero(o.t.a[1], st))), st)
            nd = z3.Store(dom, k, TRUE)
            self.write(dl, nd, st)
            self.grow(dom, nd, k)
        return self.elem(self.lvf(o, 'val'), k)

    def grow(self, dom, nd, k):
        if not self.dry:
            self.mapfacts(dom)
            self.mapfacts(nd)
            self.facts.append(MSIZE(nd) == MSIZE(dom) + z3.If(z3.Select(dom, k), 0, 1))

    def op_paren(self, args, st, n):
        o = self.lv(args[0], st)
        if isinstance(o, LV) and o.t.k == 'mat':
            idx = [self.ev(a, st) for a in args[1:]]
            l = self.mat_elem(o, idx[0], idx[1] if len(idx) > 1 else 0, st, n)
            return l if n.get('valueCategory') in ('lvalue', 'xvalue') else self.read(l, st)
        if isinstance(o, (BlockLV, MatV)):
            m = self.as_mat(o, st)
            idx = [self.ev(a, st) for a in args[1:]]
            return m.f(*(idx if len(idx) > 1 else idx + [0]))
        raise Unsupported('operator()')

    def op_assign(self, args, st, n):
        v = self.ev(args[1], st)
        if isinstance(v, (LV, EntryLV)):
            v = self.rd(v, st)
        l = self.lv(args[0], st)
        if isinstance(l, BlockLV):
            self.block_write(l, v, st)
            return l
        if not isinstance(l, LV):
            raise Unsupported('assignment to %r' % (l,))
        if self.ntype(self.uncast(args[0]))[0].k in ('opaque', 'eig') and 'Eigen' in self.uncast(args[0]).get('type', {}).get('qualType', ''):
            raise Unsupported('assignment to a matrix expression')
        if isinstance(v, Opaque) and v.what == 'null':
            v = self.null_of(l.t)
        if l.t.k == 'str':
            v = self.strval(v, st, n)
        if l.t.k == 'mat':
            v = self.as_mat(v, st)
        if l.t.k in ('opaque',) and not isinstance(v, z3.ExprRef):
            st.store[l.key] = v
            return l
        self.write(l, v, st)
        return l

    def uncast(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = self.kids(n)[0]
        return n

    def op_compound(self, op, args, st, n):
        v = self.ev(args[1], st)
        l = self.lv(args[0], st)
        o = op[0]
        if isinstance(l, LV) and l.t.k == 'str' and op == '+=':
            self.write(l, SCAT(self.read(l, st), self.strval(v, st, n)), st)
            return l
        if isinstance(l, LV) and l.t.k not in ('mat',):
            old = self.read(l, st)
            if isinstance(old, It):
                self.write(l, It(old.c, z3.simplify(old.pos + v if o == '+' else old.pos - v)), st)
                return l
            raise Unsupported('operator ' + op)
        if isinstance(l, LV) and self.ntype(self.uncast(args[0]))[0].k != 'mat':
            raise Unsupported('assignment to a matrix expression')
        m = self.as_mat(l, st)
        if o in '+-':
            w = self.mat_bin(o, m, self.as_mat(v, st), st, n)
        else:
            s = z3.ToReal(v) if z3.is_int(v) else v
            w = MatV(m.r, m.c, (lambda i, j: m.f(i, j) * s) if o == '*' else (lambda i, j: m.f(i, j) / s))
        self.write(l, w, st)
        return l

    # ------------------------------------------------------------- methods
    def lib_method(self, name, o, bt, args, st, n):
        if isinstance(o, Obj) and o.cls in XML:
            return self.xml_method(name, o, args, st, n)
        if isinstance(o, EntryLV):
            o = self.new_local(st, T('pair', *o.m.t.a), self.rd(o, st))
        if isinstance(o, Opaque) and o.what in ('dead',):
            return o
        t = o.t if isinstance(o, LV) else bt
        if isinstance(o, MatV) or isinstance(o, BlockLV):
            return self.mat_method(name, o, args, st, n)
        if isinstance(o, Obj):
            raise Unsupported('method %s of %s' % (name, o.cls))
        k = t.k
        if k == 'eig' and isinstance(o, LV):    # a named matrix expression: its value where it was formed
            v = self.read(o, st)
            if isinstance(v, (MatV, BlockLV)):
                return self.mat_method(name, v, args, st, n)
        if k == 'ref':
            v = self.read(o, st)
            if name in ('get', 'lock', 'operator->'):
                return v
            if name == 'operator bool':
                return neg(v == 0)
            if name == 'reset':
                self.write(o, self.ev(args[0], st) if args else z3.IntVal(0), st)
                return Opaque('void')
            if name == 'expired':
                return v == 0
        if k == 'vec':
            return self.vec_method(name, o, args, st, n)
        if k == 'map':
            return self.map_method(name, o, args, st, n)
        if k == 'str':
            v = self.read(o, st)
            if name == 'empty':
                return v == strlit('')
            if name in ('size', 'length'):
                r = SLEN(v)
                self.assume(z3.And(r >= 0, (r == 0) == (v == strlit(''))))
                return r
            if name == 'c_str':
                return CS.csome(v)
            if name == 'clear':
                self.write(o, strlit(''), st)
                return Opaque('void')
            if name == 'find_first_of' and len(args) == 2:
                self.trusted.add('std::string::find_first_of')
                d, a = self.strval(self.ev(args[0], st), st, n), self.ev(args[1], st)
                r = FFO(v, d, a)
                self.assume(z3.And(SLEN(v) >= 0, SLEN(v) < NPOS, z3.Or(r == NPOS, z3.And(a <= r, r < SLEN(v)))))
                return r
            if name == 'substr':
                self.trusted.add('std::string::substr')
                a = self.ev(args[0], st)
                self.assume(z3.And(SLEN(v) >= 0, SLEN(v) < NPOS))
                self.obl('the part starts inside the text', z3.And(a >= 0, a <= SLEN(v)), st, 'safety', n)
                if len(args) < 2 or args[1]['kind'] == 'CXXDefaultArgExpr':
                    return SUBT(v, a, SLEN(v))
                b = self.ev(args[1], st)
                return SUBT(v, a, z3.If(a + b <= SLEN(v), a + b, SLEN(v)))
        if k == 'mat':
            return self.mat_method(name, o, args, st, n)
        if k == 'array':
            if name == 'size':
                return z3.IntVal(t.a[1])
            if name == 'at':
                return self.arr_elem(o, self.ev(args[0], st), st, n)
        if k == 'bool' and name == 'operator bool':
            return self.read(o, st)
        if k == 'sstream' and isinstance(o, LV):
            g = lambda f: self.read(self.lvf(o, f), st)
            if name == 'str' and not args:
                return g('text')
            if name == 'imbue':
                self.write(self.lvf(o, 'classic'), TRUE if self.is_classic(args[0]) else self.fresh('locale', Bool), st)
                return Opaque('void')
            if name == 'fail':
                return g('failed')
            if name == 'eof':
                return g('ateof')
            if name in ('good',):
                return z3.And(neg(g('failed')), neg(g('ateof')))
            if name == 'operator bool':
                return neg(g('failed'))
            self.write(self.lvf(o, 'text'), self.fresh('stream', Str), st)        # format changed, content unknown from here on
            return Opaque('void')
        if k == 'opaque' and isinstance(o, LV) and o.t.name == 'stream':
            if name == 'str':
                return self.fresh('stream', Str)
            if name in ('imbue', 'precision', 'close'):
                return Opaque('void')
        if k in ('opaque',) and name in ('what',):
            return CS.csome(self.fresh('what', Str))
        raise Unsupported('method %s of %r' % (name, t))

    def vec_method(self, name, o, args, st, n):
        ln = self.lvf(o, 'len')
        if name == 'size':
            return self.read(ln, st)
        if name == 'empty':
            return self.read(ln, st) == 0
        if name in ('push_back', 'push', 'emplace_back'):
            v = self.ev(args[0], st)
            if isinstance(v, (LV, EntryLV)):
                v = self.rd(v, st)
            et = o.t.a[0]
            if et.k == 'str':
                v = self.strval(v, st, n)
            if isinstance(v, z3.ExprRef) and et.k == 'real' and z3.is_int(v):
                v = z3.ToReal(v)
            if isinstance(v, Opaque) and v.what == 'null':
                v = self.null_of(et)
            c = self.read(ln, st)
            self.write(self.elem(self.lvf(o, 'arr'), c), v, st)
            self.write(ln, z3.simplify(c + 1), st)
            return Opaque('void')
        if name in ('pop', 'pop_back'):
            c = self.read(ln, st)
            self.obl('pop of a non-empty sequence', c >= 1, st, 'safety', n)
            self.write(ln, z3.simplify(c - 1), st)
            return Opaque('void')
        if name in ('top', 'back'):
            return self.vecget(o, z3.simplify(self.read(ln, st) - 1), st, n)
        if name == 'front':
            return self.vecget(o, z3.IntVal(0), st, n)
        if name == 'at':
            i = self.ev(args[0], st)
            return self.vecget(o, i, st, n)      # std::out_of_range is treated as a failure
        if name in ('begin', 'cbegin'):
            return It(o, z3.IntVal(0))
        if name in ('end', 'cend'):
            return It(o, self.read(ln, st))
        if name == 'clear':
            self.write(o, self.zero(o.t, st), st)
            return Opaque('void')
        if name == 'reserve':
            self.ev(args[0], st)
            return Opaque('void')
        if name in ('resize', 'assign'):
            c = self.ev(args[0], st)
            v = self.ev(args[1], st) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else self.zero(o.t.a[0], st)
            if isinstance(v, (LV,)):
                v = self.rd(v, st)
            old, arr = self.read(ln, st), self.lvf(o, 'arr')
            if name == 'assign':
                self.write(arr, z3.K(Int, v), st)
            else:
                a0 = self.read(arr, st)
                na = self.fresh('arr', a0.sort())
                i = z3.Int('i?')
                if not self.dry:
                    self.facts.append(z3.ForAll([i], sel(na, i) == z3.If(i < old, z3.Select(a0, i), v), patterns=[z3.Select(na, i)]))
                self.write(arr, na, st)
            self.write(ln, c, st)
            return Opaque('void')
        raise Unsupported('vector method ' + name)

    def map_method(self, name, o, args, st, n):
        dl = self.lvf(o, 'dom')
        dom = self.read(dl, st)
        if name == 'size':
            self.mapfacts(dom)
            return MSIZE(dom)
        if name == 'empty':
            self.mapfacts(dom)
            return MSIZE(dom) == 0
        if name in ('end', 'cend'):
            self.mapfacts(dom)
            return It(o, MSIZE(dom))
        if name in ('begin', 'cbegin'):
            self.mapfacts(dom)
            return It(o, z3.IntVal(0))
        if name in ('find', 'count', 'at'):
            k = self.ev(args[0], st)
            if o.t.a[0].k == 'str':
                k = self.strval(k, st, n)
            if name == 'count':
                return ite(sel(dom, k), z3.IntVal(1), z3.IntVal(0))
            if name == 'find':
                return It(o, ite(sel(dom, k), MIDX(dom, k), MSIZE(dom)), k)
            s = st.copy()
            s.pc.append(neg(sel(dom, k)))
            self.handlers[-1].append((s, Exc('std::out_of_range')))
            st.pc.append(sel(dom, k))
            return self.elem(self.lvf(o, 'val'), k)
        if name == 'clear':
            self.write(o, self.zero(o.t, st), st)
            return Opaque('void')
        if name in ('insert', 'emplace'):
            if len(args) != 1:
                raise Unsupported('map emplace')
            v = self.ev(args[0], st)
            if isinstance(v, (LV, EntryLV)):
                v = self.rd(v, st)
            pt = T('pair', *o.t.a)
            k, x = acc(pt, v, 'first'), acc(pt, v, 'second')
            vl = self.lvf(o, 'val')
            val = self.read(vl, st)
            self.write(vl, z3.Store(val, k, ite(sel(dom, k), sel(val, k), x)), st)
            nd = z3.Store(dom, k, TRUE)
            self.write(dl, nd, st)
            self.grow(dom, nd, k)
            return Opaque('void')
        raise Unsupported('map method ' + name)

    def mat_method(self, name, o, args, st, n):
        if name == 'block' and isinstance(o, LV):
            return self.block_lv(o, args, st, n)
        m = self.as_mat(o, st)
        if name == 'transpose':
            w = MatV(m.c, m.r, lambda i, j: m.f(j, i))
            return w
        if name == 'squaredNorm':
            return self.norm2(m)
        if name == 'norm':
            return self.math('sqrt', self.norm2(m), st)
        if name in ('rows', 'cols'):
            return toI(m.r if name == 'rows' else m.c)
        if name == 'size':
            return self.mul(toI(m.r), toI(m.c))
        if name == 'eval':
            return m
        if name == 'setZero' and isinstance(o, LV):
            self.write(o, MatV(m.r, m.c, lambda i, j: real(0)), st)
            return o
        if name == 'dot':
            b = self.as_mat(self.ev(args[0], st), st)
            return self.norm2_dot(m, b)
        raise Unsupported('matrix method ' + name)

    def norm2_dot(self, a, b):
        s = None
        for i in range(a.r):
            x = a.f(i, 0) * b.f(i, 0)
            s = x if s is None else s + x
        return s

    # ------------------------------------------------------------- constructors
    def lib_construct(self, t, ctortype, args, st, node):
        k = t.k
        if len(args) == 1 and k not in ('vec', 'exc') or k == 'vec' and len(args) == 1 and self.ntype(args[0])[0] == t:
            v = self.ev(args[0], st)
            if isinstance(v, (LV, EntryLV)) and k != 'bool':
                v = self.rd(v, st)
            if k == 'bool' and isinstance(v, LV):
                v = self.rd(v, st)
            if k == 'str':
                return self.strval(v, st, node)
            if k == 'ref':
                if isinstance(v, Opaque) and v.what == 'null':
                    return z3.IntVal(0)
                return v
            if k == 'mat':
                return self.mat_pack(self.as_mat(v, st), t, st)
            if k == 'pair' and isinstance(v, z3.ExprRef):
                at, _ = self.ntype(args[0])
                if at.k == 'pair' and at != t:
                    vs = [acc(at, v, 'first'), acc(at, v, 'second')]
                    return mk(t, [self.strval(x, st, node) if tt.k == 'str' and ft.k == 'cstr' else x for x, tt, ft in zip(vs, t.a, at.a)])
            return v
        if k == 'str':
            if not args:
                return strlit('')
            if len(args) == 2 and self.ntype(args[1])[0].k == 'opaque':
                return self.strval(self.ev(args[0], st), st, node)
        if k == 'ref' and not args:
            return z3.IntVal(0)
        if k == 'ref':
            v = self.ev(args[0], st)
            return z3.IntVal(0) if isinstance(v, Opaque) else v
        if k == 'vec':
            if args and 'initializer_list' in ctortype:
                return self.init_list(t, args[0], st)
            real_args = [a for a in args if not self.is_allocator(a)]
            if not real_args:
                return self.zero(t, st)
            at, _ = self.ntype(real_args[0])
            if at.k in ('int', 'uint'):
                c = self.ev(real_args[0], st)
                self.obl('vector size is not negative', c >= 0, st, 'safety', node)
                if len(real_args) > 1:
                    v = self.ev(real_args[1], st)
                    if isinstance(v, LV):
                        v = self.rd(v, st)
                    if t.a[0].k == 'real' and z3.is_int(v):
                        v = z3.ToReal(v)
                else:
                    v = self.zero(t.a[0], st)
                return mk(t, [c, z3.K(Int, v)])
            if at.k == 'iter' and len(real_args) >= 2:
                a, b = self.ev(real_args[0], st), self.ev(real_args[1], st)
                if isinstance(a, It) and isinstance(b, It) and a.c.same(b.c):
                    src = self.read(self.lvf(a.c, 'arr'), st)
                    self.obl('iterator range is inside the vector', z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= self.read(self.lvf(a.c, 'len'), st)), st, 'safety', node)
                    na = self.fresh('arr', src.sort())
                    i = z3.Int('i?')
                    if not self.dry:
                        self.facts.append(z3.ForAll([i], sel(na, i) == z3.Select(src, i + a.pos), patterns=[z3.Select(na, i)]))
                    return mk(t, [z3.simplify(b.pos - a.pos), na])
        if k == 'map' and 'initializer_list' not in ctortype and not [a for a in args if not self.is_allocator(a)]:
            return self.zero(t, st)
        if k == 'pair':
            if not args:
                return self.zero(t, st)
            vals = []
            for ft, a in zip(t.a, args):
                v = self.ev(a, st)
                if isinstance(v, LV):
                    v = self.rd(v, st)
                if isinstance(v, MatV):
                    v = self.mat_pack(v, ft, st)
                if ft.k == 'str':
                    v = self.strval(v, st, node)
                vals.append(v)
            return mk(t, vals)
        if k == 'exc':
            for a in args:
                if self.ntype(a)[0].k != 'opaque':
                    try:
                        self.ev(a, st)
                    except Unsupported:
                        pass
            return Exc(t.name)
        if k == 'mat' and not args:
            return self.zero(t, st)
        if k == 'array' and not args:
            return self.zero(t, st)
        if k == 'sstream' and not [a for a in args if a['kind'] != 'CXXDefaultArgExpr']:
            return self.zero(t, st)
        if k == 'sstream' and 'istringstream' in str(node['type']):     # (only read from)
            self.trusted.add('std::stringstream')
            return mk(t, [self.strval(self.ev(args[0], st), st, args[0]), self.fresh('locale', Bool), FALSE, FALSE])
        if k == 'opaque' and t.name == 'stream':
            return Opaque('stream')
        if k == 'opaque' and not args:
            return Opaque(t.name)
        raise Unsupported('construction of %r from %d arguments' % (t, len(args)))

    def is_allocator(self, a):
        return a['kind'] == 'CXXDefaultArgExpr' or 'allocator' in a['type'].get('desugaredQualType', a['type']['qualType'])

    def init_list(self, t, node, st):
        while node['kind'] != 'InitListExpr':
            node = self.sub(node)
        vals = [self.ev(x, st, want=t.a[0]) for x in self.kids(node)]
        arr = self.fresh('arr', sort_of(fields_of(t)[1][1]))
        for i, v in enumerate(vals):
            if isinstance(v, LV):
                v = self.rd(v, st)
            arr = z3.Store(arr, z3.IntVal(i), v)
        return mk(t, [z3.IntVal(len(vals)), arr])

    def stream_out(self, l, v, st, n):
        """Output to a text stream with the default format."""
        self.trusted.add('std::stringstream')
        if isinstance(v, (LV, Obj)):
            v = self.read(v, st)
        if isinstance(v, z3.ExprRef) and v.sort() in (Str, CS):
            t = self.strval(v, st, n)
        elif isinstance(v, z3.ExprRef) and z3.is_real(v):
            t = FMT(v)
        else:
            t = None
        l = self.lvf(l, 'text')
        old = self.read(l, st)
        self.write(l, self.fresh('stream', Str) if t is None else t if old.eq(strlit('')) else SCAT(old, t), st)

    def is_classic(self, a):
        while a['kind'] != 'CallExpr' and len(self.kids(a)) == 1:
            a = self.kids(a)[0]
        if a['kind'] != 'CallExpr' or len(self.kids(a)) != 1:
            return False
        f = self.uncast(self.kids(a)[0])
        return f.get('referencedDecl', {}).get('name') == 'classic'

    def stream_in(self, l, r, st, n):
        """Input of a number: once, from the whole text."""
        self.trusted.add('std::stringstream')
        if not (isinstance(r, LV) and r.t.k == 'real'):
            raise Unsupported('operator >>')
        c, t, f = [self.read(self.lvf(l, x), st) for x in ('classic', 'text', 'failed')]
        ok = z3.And(neg(f), SCANOK(c, t))
        self.write(r, z3.If(ok, SCANV(c, t), self.fresh('unread', R)), st)
        self.write(self.lvf(l, 'failed'), neg(ok), st)
        self.write(self.lvf(l, 'ateof'), z3.If(f, self.read(self.lvf(l, 'ateof'), st), SCANEND(c, t)), st)
        self.write(self.lvf(l, 'text'), self.fresh('stream', Str), st)

    # ------------------------------------------------------------- tinyxml
    def xml_new(self, cls, r, args, st):
        o = Obj(cls, r)
        if cls == 'TiXmlElement':
            self.write(self.lvf(o, '$tag'), self.strval(self.ev(args[0], st), st, args[0]), st)
            self.write(self.lvf(o, '$attr'), z3.K(Str, CS.cnull), st)
        self.write(self.lvf(o, '$kids'), self.zero(T('vec', T('ref', name='TiXmlElement')), st), st)
        self.write(self.lvf(o, '$first'), z3.K(Str, z3.IntVal(0)), st)
        return r

    def xml_method(self, name, o, args, st, n):
        self.trusted.add('TiXmlElement::' + name)
        if name == 'Attribute':
            k = self.strval(self.ev(args[0], st), st, n)
            return sel(self.read(self.lvf(Obj('TiXmlElement', o.ref), '$attr'), st), k)
        if name == 'FirstChildElement':
            if not args or args[0]['kind'] == 'CXXDefaultArgExpr':
                r = XCHILD0(o.ref)
            elif o.cls == 'TiXmlDocument' and ('x', 'doc') in st.store:
                r = XROOT(st.store[('x', 'doc')], self.strval(self.ev(args[0], st), st, n))
            else:
                r = XCHILD(o.ref, self.strval(self.ev(args[0], st), st, n))
            self.assume(r >= 0)
            self.assume(z3.Implies(r > 0, XLEFT(r) >= 0))
            return r
        if name == 'NextSiblingElement':
            r = XNEXT(o.ref, self.strval(self.ev(args[0], st), st, n))
            self.assume(r >= 0)
            self.assume(z3.Implies(r > 0, z3.And(XLEFT(r) >= 0, XLEFT(r) < XLEFT(o.ref))))
            return r
        if name in ('ValueStr', 'Value'):
            v = self.lvf(Obj('TiXmlElement', o.ref), '$tag')
            return v if name == 'ValueStr' else CS.csome(self.read(v, st))
        if name == 'SetAttribute':
            k = self.strval(self.ev(args[0], st), st, n)
            v = self.ev(args[1], st)
            if not (isinstance(v, z3.ExprRef) and v.sort() in (Str, CS)):
                raise Unsupported('SetAttribute with a number')
            l = self.lvf(Obj('TiXmlElement', o.ref), '$attr')
            self.write(l, z3.Store(self.read(l, st), k, CS.csome(self.strval(v, st, n))), st)
            return Opaque('void')
        if name in ('LinkEndChild',):
            c = self.ev(args[0], st)
            self.obl('no null element is linked', c != 0, st, 'safety', n)
            l = self.lvf(Obj('TiXmlElement' if o.cls != 'TiXmlDocument' else o.cls, o.ref), '$kids')
            ln = self.lvf(l, 'len')
            k = self.read(ln, st)
            self.write(self.elem(self.lvf(l, 'arr'), k), c, st)
            self.write(ln, k + 1, st)
            # the first child with each name
            f = self.lvf(Obj(o.cls, o.ref), '$first')
            old, tag = self.read(f, st), self.read(self.lvf(Obj('TiXmlElement', c), '$tag'), st)
            self.write(f, z3.Store(old, tag, z3.If(sel(old, tag) == 0, c, sel(old, tag))), st)
            return c
        if o.cls == 'TiXmlDocument':
            if name == 'Parse':
                v = self.strval(self.ev(args[0], st), st, n)
                st.store[('x', 'doc')] = v
                return Opaque('void')
            if name == 'Error':
                return XERR(st.store[('x', 'doc')])
            if name == 'ClearError':
                return Opaque('void')
        raise Unsupported('tinyxml method ' + name)


_cls = {}


def CLSID(name):
    return z3.IntVal(_cls.setdefault(name, len(_cls) + 1))


def toI(x):
    return z3.IntVal(x) if isinstance(x, int) else x


_ms = {}


def _matsorts():
    for kk in ((-1, -1), (-1, 1), (3, 1), (3, 3), (1, -1)):
        if kk not in _ms:
            _ms[kk] = dt_of(T('mat', *kk))[0]
    return _ms


def sel(a, i):
    while True:
        if z3.is_store(a):
            j = a.arg(1)
            if i.eq(j):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(j):
                a = a.arg(0)
                continue
        if z3.is_K(a):
            return a.arg(0)
        return z3.Select(a, i)
