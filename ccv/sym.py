"""Types, symbolic values and the store of the verifier.

Machine integers are mathematical integers, doubles are reals (both are listed as assumptions).
Value classes (Vector3, Pose, SizedStack, std::vector, ...) are values; objects that live behind
smart or raw pointers (Link, Joint, Inertial, TiXmlElement, ...) are references into per-field maps."""
import re
import z3

_ctx = None
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Str = z3.DeclareSort('Str')
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """The code left the fragment of C++ that the verifier models."""


# ------------------------------------------------------------------ types
class T:
    __slots__ = ('k', 'a', 'name')

    def __init__(self, k, *a, name=None):
        self.k, self.a, self.name = k, a, name

    def key(self):
        return (self.k, self.name) + tuple(x.key() if isinstance(x, T) else x for x in self.a)

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k in ('struct', 'ref', 'opaque', 'exc'):
            return '%s:%s' % (self.k, self.name)
        return self.k + ('<' + ','.join(map(str, self.a)) + '>' if self.a else '')


INT, UINT, REAL, BOOL, STR, CSTR, VOID, NULLT = T('int'), T('uint'), T('real'), T('bool'), T('str'), T('cstr'), T('void'), T('null')
CHAR = T('char')

HEAP = {'urdf::Link', 'urdf::Joint', 'urdf::Inertial', 'urdf::JointDynamics', 'urdf::JointLimits',
        'urdf::JointSafety', 'urdf::JointCalibration', 'urdf::JointMimic', 'urdf::Material', 'urdf::Visual',
        'urdf::Collision', 'urdf::Geometry', 'urdf::Sphere', 'urdf::Box', 'urdf::Cylinder', 'urdf::Mesh',
        'urdf::ModelInterface', 'TiXmlElement', 'TiXmlDocument', 'TiXmlNode', 'double'}
SUPER = {'TiXmlElement': 'TiXmlNode', 'TiXmlDocument': 'TiXmlNode', 'urdf::Sphere': 'urdf::Geometry',
         'urdf::Box': 'urdf::Geometry', 'urdf::Cylinder': 'urdf::Geometry', 'urdf::Mesh': 'urdf::Geometry'}
INTS = {'int', 'long', 'short', 'long long', 'std::ptrdiff_t', 'Eigen::Index', 'ptrdiff_t', 'difference_type'}
UINTS = {'unsigned int', 'unsigned long', 'size_t', 'unsigned long long', 'unsigned short', 'size_type', 'uint32_t', 'std::size_t',
         'unsigned char'}
EXC = {'std::runtime_error': ['std::runtime_error', 'std::exception'],
       'urdf::ParseError': ['urdf::ParseError', 'std::runtime_error', 'std::exception'],
       'std::invalid_argument': ['std::invalid_argument', 'std::logic_error', 'std::exception'],
       'std::out_of_range': ['std::out_of_range', 'std::logic_error', 'std::exception']}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ALIAS = {'Transform': 'urdf::Pose', 'tinyfk::Transform': 'urdf::Pose', 'tinyfk::Vector3': 'urdf::Vector3',
         'tinyfk::Rotation': 'urdf::Rotation', 'Vector3': 'urdf::Vector3', 'Rotation': 'urdf::Rotation', 'Pose': 'urdf::Pose',
         'Bound': 'std::pair<double, double>', 'Link': 'urdf::Link', 'Joint': 'urdf::Joint', 'Material': 'urdf::Material',
         'Geometry': 'urdf::Geometry', 'Visual': 'urdf::Visual', 'Collision': 'urdf::Collision', 'Inertial': 'urdf::Inertial',
         'Eigen::MatrixXd': 'Eigen::Matrix<double, -1, -1>', 'Eigen::VectorXd': 'Eigen::Matrix<double, -1, 1>',
         'Eigen::Matrix3d': 'Eigen::Matrix<double, 3, 3>', 'std::string': 'std::basic_string<char>', 'string': 'std::basic_string<char>',
         'ParseError': 'urdf::ParseError', 'KinematicsModelPyWrapper': 'KinematicsModelPyWrapper',
         'LinkSharedPtr': 'std::shared_ptr<urdf::Link>', 'JointSharedPtr': 'std::shared_ptr<urdf::Joint>'}
for n in ('Link', 'Joint', 'Material', 'Visual', 'Collision', 'Geometry', 'Inertial', 'ModelInterface', 'JointLimits', 'JointSafety',
          'JointMimic', 'JointDynamics', 'JointCalibration'):
    for p in ('', 'urdf::'):
        ALIAS[p + n + 'SharedPtr'] = 'std::shared_ptr<urdf::%s>' % n
        ALIAS[p + n + 'WeakPtr'] = 'std::weak_ptr<urdf::%s>' % n
        ALIAS[p + n + 'ConstSharedPtr'] = 'std::shared_ptr<const urdf::%s>' % n
ALIAS['DoubleSharedPtr'] = 'std::shared_ptr<double>'
VALUE_CLASSES = {'urdf::Vector3', 'urdf::Rotation', 'urdf::Pose', 'urdf::Color', 'tinyfk::RelevancePredicateTable',
                 'tinyfk::LinkIdAndTransform', 'tinyfk::KinematicModel', 'KinematicsModelPyWrapper',
                 'urdf_export_helpers::URDFVersion'}
_tc = {}


def parse_type(s):
    """C++ type text -> (T, is_reference)"""
    if s in _tc:
        return _tc[s]
    r = _parse_type(s)
    _tc[s] = r
    return r


def _parse_type(s0):
    s = s0.strip()
    ref = False
    while s.endswith('&'):
        s, ref = s[:-1].strip(), True
    s = re.sub(r'^(const|volatile|typename|struct|class|constexpr)\s+', '', s)
    s = re.sub(r'\s+const$', '', s)
    if s.endswith('*') or s.endswith('*const'):
        b = re.sub(r'\*(const)?$', '', s).strip()
        if b in ('const char', 'char'):
            return CSTR, ref
        t, _ = parse_type(b)
        if t.k == 'obj':
            return T('ref', name=t.name), ref
        return T('ptr', t), ref
    s = re.sub(r'^(const)\s+', '', s)
    m = re.match(r'^(.*\S)\s*\[(\d+)\]$', s)
    if m:
        if m.group(1) in ('char', 'const char'):
            return CSTR, ref
        return T('array', parse_type(m.group(1))[0], int(m.group(2))), ref
    if s in ALIAS and ALIAS[s] != s:
        return parse_type(ALIAS[s])[0], ref
    if s in INTS:
        return INT, ref
    if s in UINTS:
        return UINT, ref
    if s in ('double', 'float', 'const double'):
        return REAL, ref
    if s == 'bool':
        return BOOL, ref
    if s == 'void':
        return VOID, ref
    if s == 'char':
        return CHAR, ref
    if s in ('std::nullptr_t', 'nullptr_t'):
        return NULLT, ref
    if 'unnamed enum' in s or s.startswith('enum ') or s in ('tinyfk::RotationType', 'RotationType'):
        return INT, ref
    if s in EXC:
        return T('exc', name=s), ref
    m = re.match(r'^([\w:]+)<(.*)>(::\w+)?$', s)
    if m and not m.group(3):
        h, args = m.group(1), split_args(m.group(2))
        h = h.replace('std::__cxx11::', 'std::')
        if h in ('std::basic_string', 'basic_string'):
            return STR, ref
        if h in ('std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__weak_ptr', 'shared_ptr', 'weak_ptr'):
            b, _ = parse_type(args[0])
            if b.k == 'obj':
                return T('ref', name=b.name), ref
            if b.k == 'real':
                return T('ref', name='double'), ref
            raise Unsupported('shared_ptr to ' + args[0])
        if h in ('std::vector', 'vector', 'std::stack', 'std::deque'):
            return T('vec', parse_type(args[0])[0]), ref
        if h in ('std::map', 'std::unordered_map'):
            return T('map', parse_type(args[0])[0], parse_type(args[1])[0]), ref
        if h in ('std::pair', 'pair'):
            return T('pair', parse_type(args[0])[0], parse_type(args[1])[0]), ref
        if h == 'std::array':
            return T('array', parse_type(args[0])[0], int(args[1].rstrip('UL'))), ref
        if h == 'Eigen::Matrix':
            r, c = int(args[1]), int(args[2])
            return T('mat', r, c), ref
        if h == 'tinyfk::SizedStack' or h == 'tinyfk::SizedCache':
            return T('struct', name=h + '<' + ', '.join(re.sub('^tinyfk::Transform$', 'urdf::Pose', a) for a in args) + '>'), ref
        if 'iterator' in h:
            return T('iter', name=s), ref
        if h.startswith('Eigen::'):
            return T('eig'), ref
        if 'stringstream' in h:
            return T('sstream'), ref
        if 'stream' in h:
            return T('opaque', name='stream'), ref
        if h.endswith('numeric_limits') or h.startswith('std::'):
            return T('opaque', name=s), ref
    if s in HEAP or 'urdf::' + s in HEAP:
        return T('obj', name=s if s in HEAP else 'urdf::' + s), ref
    if s in VALUE_CLASSES or s in ('SizedStack', 'SizedCache'):
        return T('struct', name=s), ref
    if 'stringstream' in s:
        return T('sstream'), ref
    if 'stream' in s:
        return T('opaque', name='stream'), ref
    return T('opaque', name=s), ref


# ------------------------------------------------------------------ sorts
STRUCTS = {}     # struct name -> [(field, T)] (filled from the AST records)
CS = z3.Datatype('CStr')
CS.declare('cnull')
CS.declare('csome', ('cval', Str))
CS = CS.create()
_dt = {}


def fields_of(t):
    """Components of an exploded value type, or None for a leaf."""
    if t.k == 'struct':
        return STRUCTS[t.name]
    if t.k == 'pair':
        return [('first', t.a[0]), ('second', t.a[1])]
    if t.k == 'vec':
        return [('len', INT), ('arr', T('amap', INT, t.a[0]))]
    if t.k == 'map':
        return [('dom', T('amap', t.a[0], BOOL)), ('val', T('amap', t.a[0], t.a[1]))]
    if t.k == 'array':
        return [('e%d' % i, t.a[0]) for i in range(t.a[1])]
    if t.k == 'mat':
        r, c = t.a
        if r > 0 and c > 0:
            return [('m%d_%d' % (i, j), REAL) for i in range(r) for j in range(c)]
        return [('rows', INT), ('cols', INT), ('at', T('amap', INT, T('amap', INT, REAL)))]
    if t.k == 'sstream':    # a string stream: its text, whether its locale is the classic one, and the state bits
        return [('text', T('str')), ('classic', BOOL), ('failed', BOOL), ('ateof', BOOL)]
    return None


def mangle(t):
    return re.sub(r'\W+', '_', repr(t).replace('-', 'd')).strip('_')


def sort_of(t):
    k = t.k
    if k in ('int', 'uint', 'char', 'ref'):
        return Int
    if k == 'real':
        return Real
    if k == 'bool':
        return Bool
    if k == 'str':
        return Str
    if k == 'cstr':
        return CS
    if k == 'amap':
        return z3.ArraySort(sort_of(t.a[0]), sort_of(t.a[1]))
    if k == 'null':
        return Int
    if k in ('opaque', 'exc', 'char'):
        return Int
    return dt_of(t)[0]


def dt_of(t):
    """(sort, constructor, {field: accessor})"""
    key = t.key()
    if key in _dt:
        return _dt[key]
    fs = fields_of(t)
    if fs is None:
        raise Unsupported('no sort for %r' % (t,))
    n = 'D_' + mangle(t)
    d = z3.Datatype(n)
    d.declare('mk_' + n, *[(n + '_' + f, sort_of(ft)) for f, ft in fs])
    d = d.create()
    r = (d, d.constructor(0), {f: d.accessor(0, i) for i, (f, ft) in enumerate(fs)})
    _dt[key] = r
    return r


def acc(t, term, f):
    """Field f of a packed value term (constructor applications and ites are seen through)."""
    s, c, ac = dt_of(t)
    if z3.is_app(term):
        if term.decl().eq(c):
            i = [x for x, _ in fields_of(t)].index(f)
            return term.arg(i)
        if term.decl().kind() == z3.Z3_OP_ITE:
            a, b = acc(t, term.arg(1), f), acc(t, term.arg(2), f)
            return ite(term.arg(0), a, b)
    return ac[f](term)


def mk(t, vals):
    s, c, ac = dt_of(t)
    fs = fields_of(t)
    # mk(x.f1, x.f2, ...) is x
    v0 = vals[0]
    if z3.is_app(v0) and v0.num_args() == 1 and v0.decl().eq(ac[fs[0][0]]):
        b = v0.arg(0)
        if all(z3.is_app(v) and v.num_args() == 1 and v.decl().eq(ac[f]) and v.arg(0).eq(b) for v, (f, _) in zip(vals, fs)):
            return b
    return c(*vals)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l):
        return FALSE
    if not l:
        return TRUE
    return l[0] if len(l) == 1 else z3.And(*l)


def disj(l):
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l):
        return TRUE
    if not l:
        return FALSE
    return l[0] if len(l) == 1 else z3.Or(*l)


def neg(c):
    if z3.is_true(c):
        return FALSE
    if z3.is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def real(x):
    """Exact real of a decimal literal."""
    from fractions import Fraction
    if isinstance(x, str) and '/' not in x and ('.' in x or 'e' in x.lower()):
        x = repr(float(x))      # the double, written with its shortest decimal
    f = Fraction(str(x)) if not isinstance(x, Fraction) else x
    return z3.Q(f.numerator, f.denominator)


_strs = {}


def strlit(s):
    if s not in _strs:
        _strs[s] = z3.Const('str!' + (s if re.match(r'^[\w ./:]*$', s) else 'h%d' % len(_strs)), Str)
    return _strs[s]


def str_axioms():
    l = list(_strs.values())
    return [z3.Distinct(*l)] if len(l) > 1 else []


# ------------------------------------------------------------------ python-level values
class LV:
    """A place: store key plus projections inside the packed leaf."""
    __slots__ = ('key', 'proj', 't')

    def __init__(self, key, proj, t):
        self.key, self.proj, self.t = key, proj, t

    def __repr__(self):
        return 'LV(%s,%s,%s)' % (self.key, self.proj, self.t)

    def same(self, o):
        return (isinstance(o, LV) and self.key == o.key and len(self.proj) == len(o.proj) and
                all(p[0] == q[0] and (p[1].eq(q[1]) if p[0] == 'idx' else p[1:] == q[1:]) for p, q in zip(self.proj, o.proj)))


class Obj:
    """*ref for a heap class (an lvalue)."""
    __slots__ = ('cls', 'ref')

    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref

    @property
    def t(self):
        return T('obj', name=self.cls)


class Ptr:
    """Raw pointer to a value: guarded alternatives (cond, LV or None for null)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = [(c, l) for c, l in alts if not z3.is_false(c)]


class It:
    """Iterator: container place, position, and for maps the key at that position."""
    __slots__ = ('c', 'pos', 'mapkey')

    def __init__(self, c, pos, mapkey=None):
        self.c, self.pos, self.mapkey = c, pos, mapkey


class MatV:
    """Eigen expression: rows, cols and element function. rows/cols: python int or z3 Int."""
    __slots__ = ('r', 'c', 'f', 'packed', 'at')

    def __init__(self, r, c, f):
        self.r, self.c, self.f, self.packed, self.at = r, c, f, None, None


class BlockLV:
    __slots__ = ('m', 'r0', 'c0', 'nr', 'nc')

    def __init__(self, m, r0, c0, nr, nc):
        self.m, self.r0, self.c0, self.nr, self.nc = m, r0, c0, nr, nc


class Comma:
    __slots__ = ('lv', 'n')

    def __init__(self, lv, n):
        self.lv, self.n = lv, n


class Opaque:
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what, self.data = what, data


class FuncRef:
    __slots__ = ('name', 'f')

    def __init__(self, name, f=None):
        self.name, self.f = name, f


class Exc:
    __slots__ = ('cls', 'msg')

    def __init__(self, cls, msg=None):
        self.cls, self.msg = cls, msg


# ------------------------------------------------------------------ store
class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store=None, pc=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []

    def copy(self):
        return State(dict(self.store), list(self.pc))

    def guard(self):
        return conj(self.pc)


class HeapInit:
    """Initial contents of heap fields, created on demand (shared by all states of a run)."""
    def __init__(self, prefix='H0'):
        self.d, self.prefix = {}, prefix

    def get(self, key, t):
        if key not in self.d:
            self.d[key] = z3.Const('%s.%s.%s' % (self.prefix, key[1].split('::')[-1], key[2]), z3.ArraySort(Int, sort_of(t)))
        return self.d[key]


def explode(key, t, term=None, out=None, fresh=None):
    """Leaves (key, value) for a value of type t."""
    out = {} if out is None else out
    fs = fields_of(t)
    if fs is None:
        out[key] = term if term is not None else fresh(key, t)
        return out
    for f, ft in fs:
        explode(key + (f,), ft, acc(t, term, f) if term is not None else None, out, fresh)
    return out


def pack(store, key, t):
    fs = fields_of(t)
    if fs is None:
        if key not in store:
            raise Unsupported('read of an uninitialised or unknown place %s' % (key,))
        return store[key]
    return mk(t, [pack(store, key + (f,), ft) for f, ft in fs])


def free_in(t, v):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


BADPAT = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


def pat_ok(p):
    seen, st = set(), [p]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() in BADPAT:
            return False
        st.extend(x.children())
    return p.num_args() > 0 and p.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL)


def fa(vs, body, *pats):
    """Universal quantifier with explicit patterns (tuples are multi-patterns)."""
    vs = [v for v in vs if free_in(body, v)]
    if not vs:
        return body
    ps = []
    for p in pats:
        p = p if isinstance(p, tuple) else (p,)
        if all(pat_ok(x) for x in p) and all(any(free_in(x, v) for x in p) for v in vs):
            ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    return z3.ForAll(vs, body, patterns=ps)
