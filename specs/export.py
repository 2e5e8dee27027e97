"""Contracts of the export: fields of joints, links and inertials are written under the names the reader uses."""
from fractions import Fraction
from ccv.contract import Contract, Theorem
from ccv.spec import *
from ccv.model import *
from ccv.sym import *
from ccv.lib import MSIZE, MKEY, MIDX, FMT, SCAT, ISNUM, NUM
from .parse import TOP, EMPTY, BLANK, LIMITS, SAFETY, MIMIC, TYPES, ParseInertial, ParseDynamics, ParseJoint, ParseLink, ISVEC, VALT, CNT, NPIECES, PIECE, vec_defs, child, has
from .build import PM, MI, n_

XE = 'TiXmlElement'
XD = 'TiXmlDocument'
VEC = T('vec', T('ref', name=XE))
MAT, VIS, COL = 'urdf::Material', 'urdf::Visual', 'urdf::Collision'


def text3(v):
    """Text of three numbers."""
    s = FMT(v[0])
    for x in v[1:]:
        s = SCAT(SCAT(s, BLANK), FMT(x))
    return s


def xyz(v):
    return text3([X(v, f) for f in 'xyz'])


class Node:
    """An element under construction in a state."""
    def __init__(self, ex, st, ref, cls=XE):
        self.ex, self.st, self.ref, self.cls = ex, st, ref, cls

    def h(self, f):
        return sel(self.ex.hleaf(self.st, ('H', self.cls, f)), self.ref)

    tag = property(lambda s: s.h('$tag'))
    n = property(lambda s: acc(VEC, s.h('$kids'), 'len'))
    arr = property(lambda s: acc(VEC, s.h('$kids'), 'arr'))

    def kid(self, i):
        return Node(self.ex, self.st, sel(self.arr, i))

    def first(self, tag):
        return Node(self.ex, self.st, sel(self.h('$first'), strlit(tag)))

    def attr(self, name):
        return sel(self.h('$attr'), strlit(name))

    def says(self, name, t):
        return self.attr(name) == CS.csome(t)


class Fld:
    """Fields of an object of the model."""
    def __init__(self, ex, st, cls, ref):
        self.ex, self.st, self.cls, self.ref = ex, st, cls, ref

    def __call__(self, f):
        return sel(self.ex.hleaf(self.st, ('H', self.cls, f)), self.ref)

    def at(self, cls, f):
        return Fld(self.ex, self.st, cls, self(f))


def pose_says(d, p):
    r = S.RPY(rot(p))
    return [('xyz is the position', d.says('xyz', xyz(pos(p)))), ('rpy are the angles of the rotation', d.says('rpy', xyz(r)))]


def fields_say(F):
    def f(d, o):
        return [('the attribute %s is %s' % (a, f), d.says(a, FMT(o(f)))) for a, f in F.required] + [('the attribute %s is %s' % (a, f), d.says(a, FMT(o(f)))) for a, f, _ in F.optional]
    return f


def mimic_says(d, o):
    return fields_say(MIMIC)(d, o) + [('the attribute joint is joint_name', d.says('joint', o('joint_name')))]


def calibration_says(d, o):
    val = lambda r: sel(d.ex.hleaf(d.st, ('H', 'double', 'val')), r)
    return [('the attribute %s is %s, if any' % (f, f), z3.If(o(f) > 0, d.says(f, FMT(val(o(f)))), d.attr(f) == CS.cnull)) for f in ('rising', 'falling')]


def inside(d, tag, says, o):
    """The first child with this tag says it."""
    c = d.first(tag)
    return [('%s: %s' % (tag, lab), z3.And(c.ref > 0, c.tag == strlit(tag), g)) for lab, g in says(c, o)]


def inertial_says(d, o):
    return inside(d, 'mass', lambda c, o: [('value is the mass', c.says('value', FMT(o('mass'))))], o) + inside(d, 'origin', lambda c, o: pose_says(c, o('origin')), o) + \
        inside(d, 'inertia', lambda c, o: [('the attribute %s' % a, c.says(a, FMT(o(a)))) for a in ParseInertial.SIX], o)


LDYN = fields_say(ParseDynamics.F)
PARTS = [('dynamics', 'dynamics', 'urdf::JointDynamics', LDYN, lambda o: TRUE),
         ('limit', 'limits', 'urdf::JointLimits', fields_say(LIMITS), lambda o: TRUE),
         ('safety_controller', 'safety', 'urdf::JointSafety', fields_say(SAFETY), lambda o: TRUE),
         ('calibration', 'calibration', 'urdf::JointCalibration', calibration_says, lambda o: z3.Or(o('falling') > 0, o('rising') > 0)),
         ('mimic', 'mimic', 'urdf::JointMimic', mimic_says, lambda o: o('joint_name') != EMPTY)]


def joint_says(d, o):
    out = [('the name', d.says('name', o('name')))] + [('type %s' % n, z3.Implies(o('type') == k, d.says('type', strlit(n)))) for n, k in TYPES]
    out += inside(d, 'origin', lambda c, o: pose_says(c, o('parent_to_joint_origin_transform')), o)
    out += inside(d, 'axis', lambda c, o: [('xyz', c.says('xyz', xyz(o('axis'))))], o)
    out += inside(d, 'parent', lambda c, o: [('link', c.says('link', o('parent_link_name')))], o)
    out += inside(d, 'child', lambda c, o: [('link', c.says('link', o('child_link_name')))], o)
    for tag, f, cls, says, cond in PARTS:
        p = o.at(cls, f)
        there = z3.And(o(f) > 0, cond(p))
        c = d.first(tag)
        out.append(('%s: written exactly when there is one' % tag, z3.And((c.ref != 0) == there, c.ref >= 0, z3.Implies(there, c.tag == strlit(tag)))))
        out += [('%s: %s' % (tag, lab), z3.Implies(there, g)) for lab, g in says(c, p)]
    return out


def link_says(d, o):
    c = d.first('inertial')
    return [('the name', d.says('name', o('name'))), ('inertial: written exactly when there is one', z3.And((c.ref != 0) == (o('inertial') > 0), c.ref >= 0, z3.Implies(o('inertial') > 0, c.tag == strlit('inertial'))))] + \
        [('inertial: ' + lab, z3.Implies(o('inertial') > 0, g)) for lab, g in inertial_says(c, o.at('urdf::Inertial', 'inertial'))]


def nested(tag, d):
    """The elements inside an element of this name that the statements are about."""
    first = {'inertial': ('mass', 'origin', 'inertia'), 'joint': ('origin', 'axis', 'parent', 'child') + tuple(p[0] for p in PARTS), 'link': ('inertial',)}.get(tag, ())
    out = [(TRUE, d.first(t)) for t in first]
    return out + [(c.ref != 0, x) for t, (_, c) in zip(first, out) for _, x in nested(t, c)] if tag == 'link' else out


class Export(Contract):
    """Adds one child at the end of an element."""
    cls = tag = None
    by_value = False

    def xml(self, cx):
        return cx.arg(1)

    def requires(self, cx):
        x = self.xml(cx)
        return [('there is an element', z3.And(x > 0, x < cx.ex.hleaf(cx.old, TOP))), ('a number of children', Node(cx.ex, cx.old, x).n >= 0)]

    def modifies(self, cx):
        o = Obj(XE, self.xml(cx))
        return [cx.ex.lvf(o, '$kids'), cx.ex.lvf(o, '$first'), TOP]

    def obj(self, cx):
        return Fld(cx.ex, cx.old, self.cls, cx.args[0].ref)

    def says(self, d, o):
        return []

    def added(self, cx):
        """The new child, and that it is there."""
        a, b = Node(cx.ex, cx.old, self.xml(cx)), Node(cx.ex, cx.post, self.xml(cx))
        d = b.kid(a.n)
        t = strlit(self.tag)
        fa_, fb = a.h('$first'), b.h('$first')
        return d, [('one child more, at the end', z3.And(b.n == a.n + 1, b.arr == z3.Store(a.arr, a.n, d.ref))),
                   ('the first child with each name', fb == z3.Store(fa_, t, z3.If(sel(fa_, t) == 0, d.ref, sel(fa_, t)))),
                   ('a new element of that name', z3.And(d.ref >= cx.ex.hleaf(cx.old, TOP), d.ref < cx.ex.hleaf(cx.post, TOP), d.tag == t))] + self.new_parts(cx, d)

    def new_parts(self, cx, d):
        ns = nested(self.tag, d)
        return [('the element inside is new (%d)' % i, z3.Implies(g, z3.Or(c.ref == 0, z3.And(c.ref >= cx.ex.hleaf(cx.old, TOP), c.ref < cx.ex.hleaf(cx.post, TOP))))) for i, (g, c) in enumerate(ns)]

    def content(self, cx, d):
        return self.says(d, self.obj(cx))

    def ensures(self, cx):
        d, out = self.added(cx)
        return out + self.content(cx, d)


class ExportPose(Export):
    qual, tag = 'urdf::exportPose', 'origin'

    def content(self, cx, d):
        return pose_says(d, cx.ex.read(cx.args[0], cx.old))


class ExportDynamics(Export):
    qual, tag, cls = 'urdf::exportJointDynamics', 'dynamics', 'urdf::JointDynamics'
    says = staticmethod(LDYN)


class ExportLimits(Export):
    qual, tag, cls = 'urdf::exportJointLimits', 'limit', 'urdf::JointLimits'
    says = staticmethod(fields_say(LIMITS))


class ExportSafety(Export):
    qual, tag, cls = 'urdf::exportJointSafety', 'safety_controller', 'urdf::JointSafety'
    says = staticmethod(fields_say(SAFETY))


class ExportSome(Export):
    """Adds a child only under a condition."""
    def cond(self, o):
        return next(c for t, _, _, _, c in PARTS if t == self.tag)(o)

    def ensures(self, cx):
        c = self.cond(self.obj(cx))
        a, b = Node(cx.ex, cx.old, self.xml(cx)), Node(cx.ex, cx.post, self.xml(cx))
        return [(lab, z3.Implies(c, g)) for lab, g in Export.ensures(self, cx)] + \
            [('nothing is written otherwise', z3.Implies(neg(c), z3.And(b.n == a.n, b.arr == a.arr, b.h('$first') == a.h('$first'))))]


class ExportCalibration(ExportSome):
    qual, tag, cls = 'urdf::exportJointCalibration', 'calibration', 'urdf::JointCalibration'
    says = staticmethod(calibration_says)

    def requires(self, cx):
        o = self.obj(cx)
        return Export.requires(self, cx) + [('values are objects or nothing', z3.And(o('rising') >= 0, o('falling') >= 0))]


class ExportMimic(ExportSome):
    qual, tag, cls = 'urdf::exportJointMimic', 'mimic', 'urdf::JointMimic'
    says = staticmethod(mimic_says)


def joint_parts(o):
    return z3.And(*[o(f) >= 0 for _, f, _, _, _ in PARTS] + [z3.Implies(o('calibration') > 0, o.at('urdf::JointCalibration', 'calibration')(f) >= 0) for f in ('rising', 'falling')])


class ExportJoint(Export):
    qual, tag, cls = 'urdf::exportJoint', 'joint', JOINT
    says = staticmethod(joint_says)

    def requires(self, cx):
        return Export.requires(self, cx) + [('parts are objects or nothing', joint_parts(self.obj(cx)))]


class ExportInertial(Export):
    qual, tag, cls = 'urdf::exportInertial', 'inertial', 'urdf::Inertial'
    says = staticmethod(inertial_says)


# ------------------------------------------------------------------ links
class ExportMaterial(Export):
    qual, tag, cls = 'urdf::exportMaterial', 'material', MAT

    def content(self, cx, d):
        return [('the name', d.says('name', self.obj(cx)('name')))]


class ExportSphere(Export):
    qual, tag, cls = 'urdf::exportSphere', 'sphere', 'urdf::Sphere'


class ExportBox(Export):
    qual, tag, cls = 'urdf::exportBox', 'box', 'urdf::Box'


class ExportCylinder(Export):
    qual, tag, cls = 'urdf::exportCylinder', 'cylinder', 'urdf::Cylinder'


class ExportMesh(Export):
    qual, tag, cls = 'urdf::exportMesh', 'mesh', 'urdf::Mesh'


class ExportGeometry(Export):
    """The shape itself is not specified; a shape is made up where there is none."""
    qual, tag = 'urdf::exportGeometry', 'geometry'

    def requires(self, cx):
        return Export.requires(self, cx) + [('a shape or nothing', cx.arg(0) >= 0)]

    def modifies(self, cx):
        return Export.modifies(self, cx) + [cx.place(0)]

    def content(self, cx, d):
        return [('a shape', cx.argp(0) > 0)]


class ExportVisual(Export):
    qual, tag, cls = 'urdf::exportVisual', 'visual', VIS

    def requires(self, cx):
        o = self.obj(cx)
        return Export.requires(self, cx) + [('parts are objects or nothing', z3.And(o('geometry') >= 0, *[o('material') >= 0] if self.cls == VIS else []))]

    def modifies(self, cx):
        return Export.modifies(self, cx) + [cx.ex.lvf(cx.args[0], 'geometry')]

    def content(self, cx, d):
        return [('a shape', cx.fld('geometry', cx.post, cx.args[0]) > 0)]


class ExportCollision(ExportVisual):
    qual, tag, cls = 'urdf::exportCollision', 'collision', COL


r_ = z3.Int('r?')


def shapes(ex, st):
    """Visual and collision objects have a shape or nothing."""
    out = []
    for cls, fs in ((VIS, ('geometry', 'material')), (COL, ('geometry',))):
        for f in fs:
            h = ex.hleaf(st, ('H', cls, f))
            out.append(('%s.%s is an object or nothing' % (cls, f), fa([r_], sel(h, r_) >= 0, sel(h, r_))))
    return out


def listed(ex, st, ref):
    """Visuals and collisions of a link are objects."""
    out = []
    for f, cls in (('visual_array', VIS), ('collision_array', COL)):
        t = T('vec', T('ref', name=cls))
        v = sel(ex.hleaf(st, ('H', LINK, f)), ref)
        out.append(z3.And(acc(t, v, 'len') >= 0, fa([K_], z3.Implies(z3.And(0 <= K_, K_ < acc(t, v, 'len')), sel(acc(t, v, 'arr'), K_) > 0), sel(acc(t, v, 'arr'), K_))))
    return z3.And(*out)


class Building(Export):
    """Functions that add children in loops."""
    def elements(self, L):
        return [(lv, L.ex.read(lv, L.pre)) for lv in L.holes(lambda t: t == T('ref', name=XE), all_frames=True) if not L.modified(lv)]

    def kept(self, L):
        """The loop adds to one element."""
        out = []
        for lv, e in self.elements(L):
            def only(v, k, f, e=e):
                a, b = [x.ex.hleaf(x.st, ('H', XE, f)) for x in (L.view(L.pre), v)]
                return b == z3.Store(a, e, sel(b, e))
            for f in ('$kids', '$first'):
                out.append(('only one element changes (%s)' % f, lambda v, k, f=f, only=only: only(v, k, f)))
            out.append(('a number of children', lambda v, k, e=e: Node(v.ex, v.st, e).n >= Node(v.ex, L.pre, e).n))
        out.append(('objects are not freed', lambda v, k: v.ex.hleaf(v.st, TOP) >= v.ex.hleaf(L.pre, TOP)))
        for x, (lab, _) in enumerate(shapes(L.ex, L.pre)):
            out.append((lab, lambda v, k, x=x: shapes(v.ex, v.st)[x][1]))
        return out


class ExportLink(Building):
    qual, tag, cls = 'urdf::exportLink', 'link', LINK
    says = staticmethod(link_says)

    def requires(self, cx):
        o = self.obj(cx)
        return Export.requires(self, cx) + [('the inertial is an object or nothing', o('inertial') >= 0), ('visuals and collisions are objects', listed(cx.ex, cx.old, o.ref))] + shapes(cx.ex, cx.old)

    def modifies(self, cx):
        return Export.modifies(self, cx) + [('H', c, 'geometry') for c in (VIS, COL)]

    def invariants(self, L):
        out = self.kept(L)
        for lv, e in self.elements(L):
            out.append(('the inertial stays', lambda v, k, e=e: Node(v.ex, v.st, e).first('inertial').ref == Node(v.ex, L.pre, e).first('inertial').ref))
        return out

    def ensures(self, cx):
        return Building.ensures(self, cx) + shapes(cx.ex, cx.post)


# ------------------------------------------------------------------ documents
def model_parts(ex, st, o):
    """What the export relies on (proved of every model the reader returns)."""
    p = PM(ex, st, o)
    l = p.L(n_)
    return p.maps() + p.exportable() + [('inertials are objects or nothing', fa([n_], z3.Implies(sel(p.ldom, n_), sel(p.h(LINK, 'inertial'), l) >= 0), sel(p.ldom, n_), l))] + shapes(ex, st)


class ExportURDF(Building):
    qual, typ = 'urdf::exportURDF', 'const'
    MAPS = (('link', 'ldom', 'L', LINK, link_says), ('joint', 'jdom', 'J', JOINT, joint_says))

    def model(self, cx):
        return cx.args[0]

    def pm(self, cx, st):
        return PM(cx.ex, st, self.model(cx))

    def requires(self, cx):
        return model_parts(cx.ex, cx.old, self.model(cx))

    def modifies(self, cx):
        return [TOP] + [('H', c, 'geometry') for c in (VIS, COL)]

    def lemmas(self, cx, st):
        p = self.pm(cx, cx.old)
        for d in (p.ldom, p.jdom, p.f('materials_', 'dom')):
            cx.ex.mapfacts(d)
        return []

    def part(self, cx, st, e, tag, n0, k):
        """Children n0 .. n0+k-1 are the entries of one map."""
        p = self.pm(cx, cx.old)
        tag, dom, at, cls, says = next(x for x in self.MAPS if x[0] == tag)
        dom = getattr(p, dom)
        i = I_
        key = MKEY(dom, i)
        d = Node(cx.ex, st, e).kid(n0 + i)
        o = Fld(cx.ex, st, cls, getattr(p, at)(key))
        q = lambda g: fa([i], z3.Implies(z3.And(0 <= i, i < k, MIDX(dom, key) == i), g), key)     # (the index of the entry: for the trigger)
        top = cx.ex.hleaf(st, TOP)
        return [('%ss: an element each' % tag, q(d.ref > e)), ('%ss: an allocated element' % tag, q(d.ref < top)), ('%ss: of that name' % tag, q(d.tag == strlit(tag)))] + \
            [('%ss: the element inside (%d)' % (tag, x), q(z3.Implies(g, z3.Or(c.ref == 0, z3.And(c.ref > e, c.ref < top))))) for x, (g, c) in enumerate(nested(tag, d))] + [('%ss: %s' % (tag, lab), q(g)) for lab, g in says(d, o)]

    def invariants(self, L):
        cx = L.cx
        out = self.kept(L)
        iterated = [str(it.c.key) + str(it.c.proj) for it in (L.pre.store.get(m) for m in L.mod) if isinstance(it, It) and isinstance(it.c, LV)]
        for lv, e in self.elements(L):
            n0 = Node(L.ex, L.pre, e).n
            out.append(('one child per entry so far', lambda v, k, e=e, n0=n0: Node(v.ex, v.st, e).n == n0 + k))
            out.append(('the children before stay', lambda v, k, e=e, n0=n0: fa([J_], z3.Implies(z3.And(0 <= J_, J_ < n0), Node(v.ex, v.st, e).kid(J_).ref == Node(v.ex, L.pre, e).kid(J_).ref), Node(v.ex, v.st, e).kid(J_).ref)))
            for tag, *_ in self.MAPS:
                if iterated and not any(tag + 's_' in s for s in iterated):
                    continue
                for x, (lab, _) in enumerate(self.part(cx, L.pre, e, tag, n0, z3.IntVal(0))):
                    out.append((lab, lambda v, k, x=x, tag=tag, e=e, n0=n0: self.part(cx, v.st, e, tag, n0, k)[x][1]))
        return out

    def ensures(self, cx):
        p = self.pm(cx, cx.old)
        doc = Node(cx.ex, cx.post, cx.result, XD)
        robot = doc.kid(z3.IntVal(0))
        nm, nl, nj = MSIZE(p.f('materials_', 'dom')), MSIZE(p.ldom), p.N
        return [('a document with one element', z3.And(cx.result > 0, doc.n == 1, robot.ref > 0, robot.tag == strlit('robot'))),
                ('the name of the robot', robot.says('name', p.f('name_'))),
                ('one element per material, link and joint', robot.n == nm + nl + nj)] + \
            self.part(cx, cx.post, robot.ref, 'link', nm, nl) + self.part(cx, cx.post, robot.ref, 'joint', nm + nl, nj)


class ExportURDFPtr(ExportURDF):
    typ = 'SharedPtr'

    def requires(self, cx):
        return [('there is a model', cx.arg(0) > 0)] + ExportURDF.requires(self, cx)

    def model(self, cx):
        return Obj(MI, cx.arg(0))


CONTRACTS = [ExportPose, ExportDynamics, ExportLimits, ExportSafety, ExportCalibration, ExportMimic, ExportJoint, ExportInertial, ExportMaterial, ExportSphere, ExportBox,
             ExportCylinder, ExportMesh, ExportGeometry, ExportVisual, ExportCollision, ExportLink, ExportURDF, ExportURDFPtr]


# ------------------------------------------------------------------ writing and reading back
def number(ex, x):
    """The text of a number is read back as the number it shows (six significant digits): assumed of the streams."""
    ex.facts += [ISNUM(FMT(x)), FMT(x) != EMPTY, z3.And(NUM(FMT(x)) - x <= real(Fraction(1, 199999)) * z3.If(x < 0, -x, x), x - NUM(FMT(x)) <= real(Fraction(1, 199999)) * z3.If(x < 0, -x, x))]
    return NUM(FMT(x))


def numbers3(ex, v):
    """Three numbers separated by blanks are split into their texts: assumed of the streams."""
    xs = [X(v, f) for f in 'xyz']
    r = [number(ex, x) for x in xs]
    s = text3(xs)
    ex.facts.append(z3.And(NPIECES(s) == 3, *[PIECE(s, z3.IntVal(i)) == FMT(x) for i, x in enumerate(xs)]))
    ex.facts += vec_defs(s)
    for i in range(3):      # the definition for each part
        ex.facts.append(z3.And(CNT(s, z3.IntVal(i + 1)) == CNT(s, z3.IntVal(i)) + 1, VALT(s, CNT(s, z3.IntVal(i))) == NUM(FMT(xs[i]))))
    return vec(*r)


def pose_back(ex, p):
    """The pose an exported pose is read back as."""
    a = numbers3(ex, S.RPY(rot(p)))
    return pose(numbers3(ex, pos(p)), S.FROMRPY(*[X(a, f) for f in 'xyz']))


class RoundTrip(Theorem):
    """An element with the attributes and first children of an exported one is accepted by the reader, which fills in the exported values up to their shown digits."""

    def same(self, ex, st, e, d, tags=()):
        """Element e of a document says what the exported element d says."""
        at = ex.hleaf(st, ('H', XE, '$attr'))
        out = [e > 0, sel(at, e) == sel(at, d.ref)]
        for t in tags:
            c = child(e, t)
            out += [c >= 0, (c == 0) == (d.first(t).ref == 0), z3.Implies(c != 0, sel(at, c) == sel(at, d.first(t).ref))]
        return out

    def reader(self, P, e, ref):
        class At(P):
            def elem(self, cx):
                return e

            def obj(self, cx):
                return Obj(P.cls, ref)
        return At()


class RoundTripJoint(RoundTrip):
    qual = 'theorem: an exported joint is read back'

    def prove(self, cx, st):
        ex = cx.ex
        e, d_, r1, r2 = [ex.fresh(n, Int) for n in ('element', 'exported', 'joint', 'read')]
        d = Node(ex, st, d_)
        o, g = Fld(ex, st, JOINT, r1), Fld(ex, st, JOINT, r2)
        ex.facts += self.same(ex, st, e, d, ('origin', 'axis', 'parent', 'child') + tuple(p[0] for p in PARTS))
        ex.facts += [f for _, f in joint_says(d, o)]
        ex.facts += [z3.And(o('type') >= 1, o('type') <= 6), z3.Implies(z3.Or(o('type') == REVOLUTE, o('type') == PRISMATIC), o('limits') > 0), joint_parts(o)]
        back = pose_back(ex, o('parent_to_joint_origin_transform'))
        axis = numbers3(ex, o('axis'))
        val = lambda r: sel(ex.hleaf(st, ('H', 'double', 'val')), r)
        nums = []
        for _, f, cls, _, _ in PARTS:
            a, b = o.at(cls, f), g.at(cls, f)
            for fn, t in ex.all_heap_fields(cls):
                if t == REAL and fn != 'reference_position':
                    nums.append((f, '%s.%s' % (f, fn), b(fn) == number(ex, a(fn))))
        cal = o.at('urdf::JointCalibration', 'calibration'), g.at('urdf::JointCalibration', 'calibration')
        for f in ('rising', 'falling'):
            nums.append(('calibration', 'calibration.' + f, z3.And((cal[1](f) > 0) == (cal[0](f) > 0), z3.Implies(cal[0](f) > 0, val(cal[1](f)) == number(ex, val(cal[0](f)))))))
        nums.append(('mimic', 'mimic.joint_name', g.at('urdf::JointMimic', 'mimic')('joint_name') == o.at('urdf::JointMimic', 'mimic')('joint_name')))
        x = self.reader(ParseJoint, e, r2)
        yield 'the reader accepts the element', x.ok(cx)
        ex.facts += [f for _, f in x.values(cx)]
        yield 'the name', g('name') == o('name')
        yield 'the type', g('type') == o('type')
        yield 'the parent link', g('parent_link_name') == o('parent_link_name')
        yield 'the child link', g('child_link_name') == o('child_link_name')
        yield 'the origin', g('parent_to_joint_origin_transform') == back
        yield 'the axis', z3.Implies(z3.And(o('type') != FIXED, o('type') != 4), g('axis') == axis)
        for tag, f, cls, _, cond in PARTS:
            there = z3.And(o(f) > 0, cond(o.at(cls, f)))
            yield '%s is present' % f, (g(f) > 0) == there
            for ff, lab, goal in nums:
                if ff == f:
                    yield lab, z3.Implies(there, goal)


class RoundTripLink(RoundTrip):
    qual = 'theorem: an exported link is read back'

    def prove(self, cx, st):
        ex = cx.ex
        e, d_, r1, r2 = [ex.fresh(n, Int) for n in ('element', 'exported', 'link', 'read')]
        d = Node(ex, st, d_)
        o, g = Fld(ex, st, LINK, r1), Fld(ex, st, LINK, r2)
        i1, i2 = o.at(INERT, 'inertial'), g.at(INERT, 'inertial')
        c = child(e, 'inertial')
        ex.facts += self.same(ex, st, e, d, ('inertial',)) + [z3.Implies(c != 0, f) for f in self.same(ex, st, c, d.first('inertial'), ('origin', 'mass', 'inertia'))]
        ex.facts += [f for _, f in link_says(d, o)] + [o('inertial') >= 0]
        back = pose_back(ex, i1('origin'))
        nums = [(a, i2(a) == number(ex, i1(a))) for a in ('mass',) + ParseInertial.SIX]
        x = self.reader(ParseLink, e, r2)
        p = self.reader(ParseInertial, c, g('inertial'))
        yield 'the reader accepts the name', has(cx, e, 'name')
        yield 'the reader accepts the inertial', z3.Implies(o('inertial') > 0, p.ok(cx))
        ex.facts += [f for _, f in x.values(cx)]
        yield 'the name', g('name') == o('name')
        yield 'an inertial exactly if there was one', (g('inertial') > 0) == (o('inertial') > 0)
        yield 'the origin', z3.Implies(o('inertial') > 0, i2('origin') == back)
        for lab, goal in nums:
            yield lab, z3.Implies(o('inertial') > 0, goal)


THEOREMS = [RoundTripJoint, RoundTripLink]
