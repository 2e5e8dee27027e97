"""Contracts of the URDF reader: attributes of XML elements end up in the fields of joints, links and inertials."""
from ccv.contract import Contract
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import ISNUM, NUM, XCHILD, XNEXT, XLEFT, SCANOK, SCANEND, SCANV, FFO, SUBT, NPOS, SLEN, STRTOL, STREST
from .jac import use

U = 'urdf::'
NPIECESD, PIECED = z3.Function('NPIECES', Str, Str, Int), z3.Function('PIECE', Str, Str, Int, Str)      # parts of a text between delimiters
ISUINT, UINTV = z3.Function('ISUINT', Str, Bool), z3.Function('UINTV', Str, Int)                        # 32-bit unsigned numbers
CNT = z3.Function('CNT', Str, Int, Int)             # non-empty ones among the first k
VALT = z3.Function('VALT', Str, Int, Real)          # value of the c-th non-empty part
ISVEC = z3.Function('ISVEC', Str, Bool)             # three non-empty parts, each a number
EMPTY, BLANK = strlit(''), strlit(' ')
k_ = z3.Int('k?')


def NPIECES(s):
    return NPIECESD(BLANK, s)


def PIECE(s, k):
    return PIECED(BLANK, s, k)


def vec_defs(s):
    """Definitions for the text s of a vector."""
    p = PIECE(s, k_)
    return [NPIECES(s) >= 0, CNT(s, z3.IntVal(0)) == 0,
            ISVEC(s) == z3.And(numbers(s, NPIECES(s)), CNT(s, NPIECES(s)) == 3),
            fa([k_], z3.Implies(k_ >= 0, z3.And(CNT(s, k_ + 1) == CNT(s, k_) + z3.If(p == EMPTY, 0, 1), z3.Implies(p != EMPTY, VALT(s, CNT(s, k_)) == NUM(p)))), p)]


def numbers(s, n):
    p = PIECE(s, k_)
    return fa([k_], z3.Implies(z3.And(0 <= k_, k_ < n), z3.Or(p == EMPTY, ISNUM(p))), p)


def vec3(s):
    return vec(*[VALT(s, z3.IntVal(i)) for i in range(3)])


class StrToDouble(Contract):
    """Conversion through a C++ stream: the whole text is a number as the classic locale reads it."""
    qual = U + 'strToDouble'

    def text(self, cx):
        return CS.cval(cx.arg(0))

    def lemmas(self, cx, st):
        s = self.text(cx)
        return [ISNUM(s) == z3.And(SCANOK(TRUE, s), SCANEND(TRUE, s)), NUM(s) == SCANV(TRUE, s)]      # (definitions)

    def requires(self, cx):
        return [('the text is not null', CS.is_csome(cx.arg(0)))]

    def throws(self, cx):
        return neg(ISNUM(self.text(cx)))

    def ensures(self, cx):
        return [('value', cx.result == NUM(self.text(cx)))]


PSTART = z3.Function('PSTART', Str, Str, Int, Int)      # where the k-th part begins (behind the k-th delimiter)
NDEL = z3.Function('NDEL', Str, Str, Int)               # number of delimiters


class SplitString(Contract):
    """Parts between delimiters; what follows the last delimiter is a part unless it is empty."""
    qual = U + 'split_string'

    def modifies(self, cx):
        return [cx.place(0)]

    def requires(self, cx):
        return [('the result starts empty', cx.fld('len', o=cx.place(0)) == 0)]

    def lemmas(self, cx, st):
        """Definitions of the parts."""
        s, d = cx.arg(1), cx.arg(2)
        q = lambda k: PSTART(d, s, k)
        f = lambda k: FFO(s, d, q(k))
        n = NDEL(d, s)
        return [q(z3.IntVal(0)) == 0, n >= 0, f(n) == NPOS, SLEN(s) >= 0, SLEN(s) < NPOS,
                fa([k_], z3.Implies(z3.And(0 <= k_, k_ < n), z3.And(f(k_) != NPOS, q(k_ + 1) == f(k_) + 1, PIECED(d, s, k_) == SUBT(s, q(k_), f(k_)))), q(k_)),
                fa([k_], z3.Implies(z3.And(0 <= k_, k_ <= n), z3.Or(f(k_) == NPOS, z3.And(q(k_) <= f(k_), f(k_) < SLEN(s)))), q(k_)),       # (find_first_of)
                NPIECESD(d, s) == n + z3.If(q(n) < SLEN(s), 1, 0), PIECED(d, s, n) == SUBT(s, q(n), SLEN(s))]

    def parts(self, cx, st, n):
        s, d = cx.arg(1), cx.arg(2)
        a = cx.fld('arr', st, cx.place(0))
        return fa([k_], z3.Implies(z3.And(0 <= k_, k_ < n), sel(a, k_) == PIECED(d, s, k_)), sel(a, k_))

    def invariants(self, L):
        cx = L.cx
        s, d = cx.arg(1), cx.arg(2)
        out = [('no more parts than delimiters', lambda v, k: k <= NDEL(d, s)), ('the parts so far', lambda v, k: self.parts(cx, v.st, k))]
        for lv in L.holes(lambda t: t.k in ('uint', 'int'), all_frames=True):
            if L.modified(lv):
                out += [('the next part', lambda v, k, lv=lv: v.ex.read(lv, v.st) == PSTART(d, s, k)),
                        ('the part ends', lambda v, k, lv=lv: v.ex.read(lv, v.st) == FFO(s, d, PSTART(d, s, k))),
                        ('the part starts inside', lambda v, k, lv=lv: z3.And(0 <= v.ex.read(lv, v.st), v.ex.read(lv, v.st) <= SLEN(s)))]
        return out

    def measures(self, L):
        cx = L.cx
        return [('remaining delimiters', lambda v: NDEL(cx.arg(2), cx.arg(1)) - cx.fld('len', v.st, cx.place(0)))]

    def ensures(self, cx):
        n = NPIECESD(cx.arg(2), cx.arg(1))
        return [('number of parts', z3.And(n >= 0, cx.fld('len', cx.post, cx.place(0)) == n)), ('the parts', self.parts(cx, cx.post, n))]


class StrToUnsigned(Contract):
    """A number that strtol reads from the whole text and that fits into 32 bits."""
    qual = 'urdf_export_helpers::URDFVersion::strToUnsigned'

    def text(self, cx):
        return CS.cval(cx.arg(0))

    def lemmas(self, cx, st):
        s = self.text(cx)
        v, rest = STRTOL(s, z3.IntVal(10)), STREST(s, z3.IntVal(10))
        return [ISUINT(s) == z3.And(s != EMPTY, rest != s, rest == EMPTY, v >= 0, v < 2 ** 32), UINTV(s) == v]      # (definitions)

    def requires(self, cx):
        return [('the text is not null', CS.is_csome(cx.arg(0)))]

    def throws(self, cx):
        return neg(ISUINT(self.text(cx)))

    def ensures(self, cx):
        return [('value', z3.And(cx.result == UINTV(self.text(cx)), cx.result >= 0))]


class VecInit(Contract):
    qual = U + 'Vector3::init'
    exc = 'urdf::ParseError'

    def text(self, cx):
        return cx.arg(0)

    def lemmas(self, cx, st):
        return vec_defs(self.text(cx))

    def throws(self, cx):
        return neg(ISVEC(self.text(cx)))

    def modifies(self, cx):
        return [cx.this]
    modifies_exc = modifies

    def value(self, cx):
        return vec3(self.text(cx))

    def ensures(self, cx):
        return [('the numbers of the text', cx.ex.read(cx.this, cx.post) == self.value(cx))]

    def invariants(self, L):
        s = self.text(L.cx)
        out = [('the parts so far are numbers', lambda v, k: numbers(s, k))]
        for lv in L.holes(lambda t: t == T('vec', REAL), all_frames=True):
            if L.modified(lv):
                def vals(v, k, lv=lv):
                    a = v.ex.read(v.ex.lvf(lv, 'arr'), v.st)
                    return fa([k_], z3.Implies(z3.And(0 <= k_, k_ < CNT(s, k)), sel(a, k_) == VALT(s, k_)), sel(a, k_))
                out += [('one value per part so far', lambda v, k, lv=lv: v.ex.read(v.ex.lvf(lv, 'len'), v.st) == CNT(s, k)), ('the values so far', vals)]
        return out


class RotInit(VecInit):
    qual = U + 'Rotation::init'

    def lemmas(self, cx, st):
        return [use(cx.ex, 'unit_fromrpy'), S.UNIT(quat(*[real(0)] * 3 + [real(1)]))]

    def ensures(self, cx):
        return VecInit.ensures(self, cx) + self.ensures_exc(cx)

    def ensures_exc(self, cx):
        return [('a unit quaternion', S.UNIT(cx.ex.read(cx.this, cx.post)))]

    def value(self, cx):
        s = self.text(cx)
        return S.FROMRPY(*[VALT(s, z3.IntVal(i)) for i in range(3)])


# ------------------------------------------------------------------ elements
def attr(cx, e, name):
    """Attribute of an element (a possibly null text) before the call."""
    return sel(sel(cx.ex.hleaf(cx.old, ('H', 'TiXmlElement', '$attr')), e), name if isinstance(name, z3.ExprRef) else strlit(name))


def has(cx, e, name):
    return CS.is_csome(attr(cx, e, name))


def text(cx, e, name):
    return CS.cval(attr(cx, e, name))


def is_num(cx, e, name):
    return z3.And(has(cx, e, name), ISNUM(text(cx, e, name)))


def num_ok(cx, e, name):
    """Absent or a number."""
    return z3.Or(neg(has(cx, e, name)), ISNUM(text(cx, e, name)))


def num(cx, e, name, default=None):
    v = NUM(text(cx, e, name))
    return v if default is None else z3.If(has(cx, e, name), v, real(default))


def child(e, name):
    return XCHILD(e, strlit(name))


class Fields:
    """What an element of the file says about an object: (required attributes, optional attributes with default)."""
    def __init__(self, cls, required, optional):
        self.cls, self.required, self.optional = cls, required, optional

    def ok(self, cx, e):
        return z3.And(*([is_num(cx, e, a) for a, _ in self.required] + [num_ok(cx, e, a) for a, _, _ in self.optional]))

    def values(self, cx, e, get):
        """[(label, formula)] for field getter get(name)."""
        return [('%s is the attribute %s' % (f, a), get(f) == num(cx, e, a)) for a, f in self.required] + \
            [('%s is the attribute %s (default %s)' % (f, a, d), get(f) == num(cx, e, a, d)) for a, f, d in self.optional]


def same(*names):
    return [(n, n) for n in names]


LIMITS = Fields('urdf::JointLimits', same('effort', 'velocity'), [('lower', 'lower', 0), ('upper', 'upper', 0)])
SAFETY = Fields('urdf::JointSafety', same('k_velocity'), [('soft_lower_limit', 'soft_lower_limit', 0), ('soft_upper_limit', 'soft_upper_limit', 0), ('k_position', 'k_position', 0)])
MIMIC = Fields('urdf::JointMimic', [], [('multiplier', 'multiplier', 1), ('offset', 'offset', 0)])


class Parse(Contract):
    """A function filling an object from an element; false means rejected."""
    cls = None

    def elem(self, cx):
        return cx.arg(1)

    def requires(self, cx):
        e = self.elem(cx)
        return [('there is an element', e > 0)]

    def obj(self, cx):
        return cx.args[0]

    def get(self, cx):
        return lambda f: cx.fld(f, cx.post, self.obj(cx))

    def modifies(self, cx):
        return [cx.ex.lvf(self.obj(cx), f) for f, _ in cx.ex.all_heap_fields(self.cls)]

    def ok(self, cx):
        raise NotImplementedError

    def values(self, cx):
        raise NotImplementedError

    def ensures(self, cx):
        ok = self.ok(cx)
        return [('accepted exactly when well-formed', cx.result == ok)] + [(lab, z3.Implies(ok, g)) for lab, g in self.values(cx)]


class ParseFields(Parse):
    F = None
    cls = property(lambda s: s.F.cls)

    def ok(self, cx):
        return self.F.ok(cx, self.elem(cx))

    def values(self, cx):
        return self.F.values(cx, self.elem(cx), self.get(cx))


class ParseLimits(ParseFields):
    qual, F = U + 'parseJointLimits', LIMITS


class ParseSafety(ParseFields):
    qual, F = U + 'parseJointSafety', SAFETY


class ParseDynamics(ParseFields):
    qual = U + 'parseJointDynamics'
    F = Fields('urdf::JointDynamics', [], [('damping', 'damping', 0), ('friction', 'friction', 0)])

    def ok(self, cx):
        e = self.elem(cx)
        return z3.And(self.F.ok(cx, e), z3.Or(has(cx, e, 'damping'), has(cx, e, 'friction')))


class ParseMimic(ParseFields):
    qual, F = U + 'parseJointMimic', MIMIC

    def ok(self, cx):
        return z3.And(self.F.ok(cx, self.elem(cx)), has(cx, self.elem(cx), 'joint'))

    def values(self, cx):
        return self.F.values(cx, self.elem(cx), self.get(cx)) + [('joint_name is the attribute joint', self.get(cx)('joint_name') == text(cx, self.elem(cx), 'joint'))]


TOP = ('H', '$', 'top')         # objects may be allocated


def val_of(cx, r):
    return sel(cx.ex.hleaf(cx.post, ('H', 'double', 'val')), r)


class ParseCalibration(Parse):
    qual, cls = U + 'parseJointCalibration', 'urdf::JointCalibration'

    def requires(self, cx):
        return Parse.requires(self, cx) + [('no values are set', z3.And(cx.fld('rising', o=self.obj(cx)) == 0, cx.fld('falling', o=self.obj(cx)) == 0))]

    def modifies(self, cx):
        return Parse.modifies(self, cx) + [TOP]

    def ok(self, cx):
        e = self.elem(cx)
        return z3.And(num_ok(cx, e, 'rising'), num_ok(cx, e, 'falling'))

    def values(self, cx):
        e, g = self.elem(cx), self.get(cx)
        return [('%s is the attribute %s, if any' % (f, f), z3.If(has(cx, e, f), z3.And(g(f) > 0, val_of(cx, g(f)) == num(cx, e, f)), g(f) == 0)) for f in ('rising', 'falling')]


class ParsePose(Parse):
    qual = U + 'parsePose'

    def requires(self, cx):
        return [('an element or nothing', self.elem(cx) >= 0)]

    def modifies(self, cx):
        return [self.obj(cx)]

    @staticmethod
    def okof(cx, e):
        return z3.Or(e == 0, z3.And(*[z3.Or(neg(has(cx, e, a)), ISVEC(text(cx, e, a))) for a in ('xyz', 'rpy')]))

    @staticmethod
    def poseof(cx, e):
        r = text(cx, e, 'rpy')
        p = z3.If(z3.And(e > 0, has(cx, e, 'xyz')), vec3(text(cx, e, 'xyz')), vec(*[real(0)] * 3))
        q = z3.If(z3.And(e > 0, has(cx, e, 'rpy')), S.FROMRPY(*[VALT(r, z3.IntVal(i)) for i in range(3)]), quat(*[real(0)] * 3 + [real(1)]))
        return pose(p, q)

    def ok(self, cx):
        return self.okof(cx, self.elem(cx))

    def lemmas(self, cx, st):
        return [S.UNIT(quat(*[real(0)] * 3 + [real(1)]))]

    def ensures(self, cx):
        return Parse.ensures(self, cx) + [('the rotation is a unit quaternion', S.UNIT(rot(cx.ex.read(self.obj(cx), cx.post))))]

    def values(self, cx):
        return [('the pose of the attributes xyz and rpy', cx.ex.read(self.obj(cx), cx.post) == self.poseof(cx, self.elem(cx)))]


class ParseInertial(Parse):
    qual, cls = U + 'parseInertial', 'urdf::Inertial'
    lemmas = ParsePose.lemmas

    def ensures(self, cx):
        return Parse.ensures(self, cx) + [('the rotation is a unit quaternion', S.UNIT(rot(self.get(cx)('origin'))))]
    SIX = ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')

    def ok(self, cx):
        e = self.elem(cx)
        o, m, i = [child(e, x) for x in ('origin', 'mass', 'inertia')]
        return z3.And(ParsePose.okof(cx, o), m > 0, is_num(cx, m, 'value'), i > 0, *[is_num(cx, i, a) for a in self.SIX])

    def values(self, cx):
        e, g = self.elem(cx), self.get(cx)
        return [('the origin', g('origin') == ParsePose.poseof(cx, child(e, 'origin'))), ('the mass', g('mass') == num(cx, child(e, 'mass'), 'value'))] + \
            [('%s is its attribute' % a, g(a) == num(cx, child(e, 'inertia'), a)) for a in self.SIX]


TYPES = [('revolute', 1), ('continuous', 2), ('prismatic', 3), ('floating', 4), ('planar', 5), ('fixed', 6)]


class ParseJoint(Parse):
    """A joint element. The axis is left open when it is not read (fixed, floating) or its element has no xyz."""
    qual, cls = U + 'parseJoint', 'urdf::Joint'
    PARTS = [('limit', 'limits', ParseLimits), ('safety_controller', 'safety', ParseSafety), ('calibration', 'calibration', ParseCalibration),
             ('mimic', 'mimic', ParseMimic), ('dynamics', 'dynamics', ParseDynamics)]

    def lemmas(self, cx, st):
        return ParsePose.lemmas(self, cx, st) + [nrmv(vec(real(1), real(0), real(0)))]

    def modifies(self, cx):
        return Parse.modifies(self, cx) + [TOP]

    def type(self, cx):
        return text(cx, self.elem(cx), 'type')

    def of_type(self, cx, *names):
        return z3.Or(*[self.type(cx) == strlit(n) for n in names])

    def part(self, cx, tag, P):
        """Contract of a part's parser for the element with this tag."""
        e = child(self.elem(cx), tag)

        class At(P):
            def elem(self, cx):
                return e

            def obj(self, cx):
                return self.o
        p = At()
        return e, p

    def ok(self, cx):
        e = self.elem(cx)
        ax = child(e, 'axis')
        out = [has(cx, e, 'name'), has(cx, e, 'type'), self.of_type(cx, *[n for n, _ in TYPES]), ParsePose.okof(cx, child(e, 'origin')),
               z3.Implies(z3.And(neg(self.of_type(cx, 'fixed', 'floating')), ax > 0, has(cx, ax, 'xyz')), ISVEC(text(cx, ax, 'xyz'))),
               z3.Implies(self.of_type(cx, 'revolute', 'prismatic'), child(e, 'limit') > 0)]
        for tag, _, P in self.PARTS:
            c, p = self.part(cx, tag, P)
            out.append(z3.Implies(c > 0, p.ok(cx)))
        return z3.And(*out)

    def values(self, cx):
        e, g = self.elem(cx), self.get(cx)
        ax = child(e, 'axis')
        out = [('the origin has a unit quaternion', S.UNIT(rot(g('parent_to_joint_origin_transform')))), ('the name', g('name') == text(cx, e, 'name')), ('the type', z3.And(*[z3.Implies(self.of_type(cx, n), g('type') == k) for n, k in TYPES])),
               ('the origin', g('parent_to_joint_origin_transform') == ParsePose.poseof(cx, child(e, 'origin')))]
        for tag, f in (('parent', 'parent_link_name'), ('child', 'child_link_name')):
            c = child(e, tag)
            out.append(('the %s link' % tag, g(f) == z3.If(z3.And(c > 0, has(cx, c, 'link')), text(cx, c, 'link'), EMPTY)))
        moves = neg(self.of_type(cx, 'fixed', 'floating'))
        out.append(('the axis', z3.And(z3.Implies(z3.And(moves, ax > 0, has(cx, ax, 'xyz')), g('axis') == vec3(text(cx, ax, 'xyz'))),
                                       z3.Implies(z3.And(moves, ax == 0), g('axis') == vec(real(1), real(0), real(0))))))
        out.append(('the axis has unit length if that of the element has',
                    z3.Implies(z3.And(z3.Or(*[g('type') == t for t in (REVOLUTE, CONTINUOUS, PRISMATIC)]), z3.Or(ax == 0, z3.And(has(cx, ax, 'xyz'), nrmv(vec3(text(cx, ax, 'xyz')))))), nrmv(g('axis')))))
        for tag, f, P in self.PARTS:
            c, p = self.part(cx, tag, P)
            r = g(f)
            p.o = Obj(P().cls, r)
            out.append(('%s present exactly with its element' % f, z3.And((r == 0) == (c == 0), r >= 0, r < cx.ex.hleaf(cx.post, TOP))))
            out += [('%s: %s' % (f, lab), z3.Implies(c != 0, v)) for lab, v in p.values(cx)]
        return out


class ParseShape(Parse):
    """Visual parts: memory safety and frame only (no property depends on their content)."""
    def ok(self, cx):
        return cx.result

    def values(self, cx):
        return []


class ParseSphere(ParseShape):
    qual, cls = U + 'parseSphere', 'urdf::Sphere'


class ParseBox(ParseShape):
    qual, cls = U + 'parseBox', 'urdf::Box'


class ParseCylinder(ParseShape):
    qual, cls = U + 'parseCylinder', 'urdf::Cylinder'


class ParseMesh(ParseShape):
    qual, cls = U + 'parseMesh', 'urdf::Mesh'


class ParseMaterial(ParseShape):
    qual, cls = U + 'parseMaterial', 'urdf::Material'

    def ensures(self, cx):
        e = self.elem(cx)
        return [('the name', self.get(cx)('name') == z3.If(has(cx, e, 'name'), text(cx, e, 'name'), EMPTY))]


class ColorInit(Contract):
    """Content of a colour: frame only."""
    qual = U + 'Color::init'


class ParseGeometry(Contract):
    qual = U + 'parseGeometry'

    def requires(self, cx):
        return [('an element or nothing', cx.arg(0) >= 0)]

    def modifies(self, cx):
        return [TOP]

    def ensures(self, cx):
        return [('an object or nothing', cx.result >= 0)]


class ParseVisual(ParseShape):
    qual, cls = U + 'parseVisual', 'urdf::Visual'

    def modifies(self, cx):
        return Parse.modifies(self, cx) + [TOP]


class ParseCollision(ParseVisual):
    qual, cls = U + 'parseCollision', 'urdf::Collision'


def objects(n, a):
    return fa([k_], z3.Implies(z3.And(0 <= k_, k_ < n), sel(a, k_) > 0), sel(a, k_))


class ParseLink(Parse):
    qual, cls = U + 'parseLink', 'urdf::Link'

    def modifies(self, cx):
        return [cx.ex.lvf(self.obj(cx), f) for f, _ in cx.ex.all_heap_fields(self.cls) if f != 'parent_link_'] + [TOP]

    lemmas = ParsePose.lemmas

    def invariants(self, L):
        ex, o = L.ex, self.obj(L.cx)
        return [('the %ss so far are objects' % n, lambda v, k, f=ex.lvf(o, n + '_array'): objects(v.ex.read(v.ex.lvf(f, 'len'), v.st), v.ex.read(v.ex.lvf(f, 'arr'), v.st)))
                for n in ('visual', 'collision')]

    def ensures(self, cx):
        e, g = self.elem(cx), self.get(cx)
        i = child(e, 'inertial')

        class At(ParseInertial):
            def elem(self, cx):
                return i

            def obj(self, cx):
                return Obj('urdf::Inertial', g('inertial'))
        p = At()
        good = z3.And(has(cx, e, 'name'), z3.Or(i == 0, p.ok(cx)))
        len_ = lambda f: cx.ex.read(cx.ex.lvf(cx.ex.lvf(self.obj(cx), f), 'len'), cx.post)
        return [('a malformed name or inertial is rejected', z3.Implies(cx.result, good)),
                ('without visual and collision elements nothing else is rejected',
                 z3.Implies(z3.And(good, child(e, 'visual') == 0, child(e, 'collision') == 0), cx.result)),
                ('no relatives yet', z3.And(g('parent_joint') == 0, len_('child_links') == 0, len_('child_joints') == 0)),
                ('parts are objects or nothing', z3.And(g('inertial') >= 0, g('inertial') < cx.ex.hleaf(cx.post, TOP), g('visual') >= 0)),
                ('the inertial is a new object with a unit quaternion',
                 z3.Implies(g('inertial') > 0, z3.And(g('inertial') >= cx.ex.hleaf(cx.old, TOP), S.UNIT(rot(cx.fld('origin', cx.post, Obj('urdf::Inertial', g('inertial')))))))),
                ('a number of visuals and collisions', z3.And(len_('visual_array') >= 0, len_('collision_array') >= 0))] + \
            [('the %ss are objects' % n, objects(*[cx.ex.read(cx.ex.lvf(cx.ex.lvf(self.obj(cx), n + '_array'), f), cx.post) for f in ('len', 'arr')])) for n in ('visual', 'collision')] + self.values(cx)

    def values(self, cx):
        """What the element says about the link; a part that is malformed is left open."""
        e, g = self.elem(cx), self.get(cx)
        i = child(e, 'inertial')

        class At(ParseInertial):
            def elem(self, cx):
                return i

            def obj(self, cx):
                return Obj('urdf::Inertial', g('inertial'))
        p = At()
        named = has(cx, e, 'name')
        return [('the name', g('name') == z3.If(named, text(cx, e, 'name'), EMPTY)),
                ('an inertial exactly with its element', z3.And((g('inertial') > 0) == z3.And(named, i != 0), g('inertial') >= 0))] + \
            [('inertial: ' + lab, z3.Implies(z3.And(named, i != 0, p.ok(cx)), v)) for lab, v in p.values(cx)]


CONTRACTS = [StrToDouble, StrToUnsigned, SplitString, VecInit, RotInit, ParseLimits, ParseSafety, ParseDynamics, ParseMimic, ParseCalibration, ParsePose, ParseInertial,
             ParseJoint, ParseSphere, ParseBox, ParseCylinder, ParseMesh, ParseMaterial, ParseGeometry, ParseVisual, ParseCollision, ParseLink]
