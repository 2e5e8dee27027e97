// Replay and validation harness: drives the real code of /repo (linked in) against an independent oracle.
// usage: oracle <property> <seed> <first case> <cases> <replay file>
// A case is a pure function of (property, seed, case number).
#include "wrapper.cpp"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <tinyxml.h>
#include <unistd.h>
#include <urdf_parser/urdf_parser.h>

namespace urdf {
bool parseJoint(Joint &joint, TiXmlElement *config);
bool parseInertial(Inertial &i, TiXmlElement *config);
bool parsePose(Pose &pose, TiXmlElement *xml);
bool exportPose(Pose &pose, TiXmlElement *xml);
bool exportInertial(Inertial &i, TiXmlElement *xml);
bool exportJoint(Joint &joint, TiXmlElement *xml);
}
namespace tinyfk {
Vector3 rpy_derivative(const Vector3 &rpy, const Vector3 &axis);
Rotation q_derivative(const Rotation &q, const Vector3 &omega);
}

typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;

// ------------------------------------------------------------------ random numbers and failures
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t u() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(u() % (uint64_t)n); }
  bool p(double q) { return f() < q; }
  double f() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
  double r(double a, double b) { return a + (b - a) * f(); }
};

struct Fail { std::string msg; };
static std::ostringstream *g_log;
static std::string fmt(const char *f, ...) {
  char b[1200];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static void fail(const std::string &m) { throw Fail{m}; }
static void logl(const std::string &m) { *g_log << m << "\n"; }
static void near_(ld got, ld want, ld tol, const std::string &what) {
  ld d = got - want;
  if (!(d <= tol && d >= -tol))
    fail(fmt("%s: got %.15Lg, expected %.15Lg", what.c_str(), got, want));
}

// ------------------------------------------------------------------ oracle mathematics (matrices, long double)
struct V3 { ld v[3]; ld &operator[](int i) { return v[i]; } ld operator[](int i) const { return v[i]; } };
struct M3 { ld a[3][3]; };
struct TF { M3 R; V3 p; };
static V3 v3(ld x, ld y, ld z) { return V3{{x, y, z}}; }
static V3 operator+(V3 a, V3 b) { return v3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
static V3 operator-(V3 a, V3 b) { return v3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
static V3 operator*(ld s, V3 a) { return v3(s * a[0], s * a[1], s * a[2]); }
static ld dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 crs(V3 a, V3 b) { return v3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
static M3 eye() { return M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
static M3 mm(const M3 &a, const M3 &b) {
  M3 c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      c.a[i][j] = 0;
      for (int k = 0; k < 3; k++) c.a[i][j] += a.a[i][k] * b.a[k][j];
    }
  return c;
}
static M3 tr(const M3 &a) {
  M3 c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) c.a[i][j] = a.a[j][i];
  return c;
}
static V3 mv(const M3 &a, V3 b) {
  V3 c;
  for (int i = 0; i < 3; i++) c[i] = a.a[i][0] * b[0] + a.a[i][1] * b[1] + a.a[i][2] * b[2];
  return c;
}
static TF tfid() { return TF{eye(), v3(0, 0, 0)}; }
static TF comp(const TF &a, const TF &b) { return TF{mm(a.R, b.R), mv(a.R, b.p) + a.p}; }
static M3 rx(ld t) { return M3{{{1, 0, 0}, {0, cosl(t), -sinl(t)}, {0, sinl(t), cosl(t)}}}; }
static M3 ry(ld t) { return M3{{{cosl(t), 0, sinl(t)}, {0, 1, 0}, {-sinl(t), 0, cosl(t)}}}; }
static M3 rz(ld t) { return M3{{{cosl(t), -sinl(t), 0}, {sinl(t), cosl(t), 0}, {0, 0, 1}}}; }
static M3 rpyM(V3 e) { return mm(rz(e[2]), mm(ry(e[1]), rx(e[0]))); }
static M3 axang(V3 u, ld t) { // Rodrigues, unit axis
  ld c = cosl(t), s = sinl(t), C = 1 - c, x = u[0], y = u[1], z = u[2];
  return M3{{{c + x * x * C, x * y * C - z * s, x * z * C + y * s},
             {y * x * C + z * s, c + y * y * C, y * z * C - x * s},
             {z * x * C - y * s, z * y * C + x * s, c + z * z * C}}};
}
static V3 rpyOf(const M3 &R) { return v3(atan2l(R.a[2][1], R.a[2][2]), atan2l(-R.a[2][0], sqrtl(R.a[0][0] * R.a[0][0] + R.a[1][0] * R.a[1][0])), atan2l(R.a[1][0], R.a[0][0])); }
static M3 quatM(ld x, ld y, ld z, ld w) {
  ld n = x * x + y * y + z * z + w * w, s = 2 / n;
  return M3{{{1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w)},
             {s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w)},
             {s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)}}};
}
static TF tfOf(const Transform &t) { return TF{quatM(t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w), v3(t.position.x, t.position.y, t.position.z)}; }
static Transform poseOf(V3 xyz, V3 rpy, bool neg = false) { // quaternion composed of half angles, independent of setFromRPY
  Transform t;
  t.position.x = (double)xyz[0]; t.position.y = (double)xyz[1]; t.position.z = (double)xyz[2];
  ld c1 = cosl(rpy[0] / 2), s1 = sinl(rpy[0] / 2), c2 = cosl(rpy[1] / 2), s2 = sinl(rpy[1] / 2), c3 = cosl(rpy[2] / 2), s3 = sinl(rpy[2] / 2);
  ld x = s1 * c2 * c3 - c1 * s2 * s3, y = c1 * s2 * c3 + s1 * c2 * s3, z = c1 * c2 * s3 - s1 * s2 * c3, w = c1 * c2 * c3 + s1 * s2 * s3;
  ld n = neg ? -1 : 1;
  t.rotation = Rotation((double)(n * x), (double)(n * y), (double)(n * z), (double)(n * w));
  return t;
}
static ld wrap(ld a) { return remainderl(a, 2 * PI); }
static ld absl_(ld a) { return a < 0 ? -a : a; }

// ------------------------------------------------------------------ specification of a robot
struct SL { std::string name; int parent; int pj; bool inert; bool iorg; double mass; V3 cxyz, crpy; double I[6]; bool extra; TF off; Transform offT; };
struct SJ { std::string name; int type; int parent, child; V3 xyz, rpy, axis; bool origin, haxis, lim; double lo, up, ef, ve; };
enum { FIX = 0, REV = 1, CON = 2, PRI = 3 };
struct Spec { std::vector<SL> L; std::vector<SJ> J; };

static std::string g17(ld x) { return fmt("%.17g", (double)x); }
static double rnum(Rng &g) {
  switch (g.below(9)) {
  case 0: return 0;
  case 1: return g.below(5) - 2;
  case 2: return g.r(-1e-3, 1e-3);
  case 3: return g.p(0.2) ? g.r(-20, 20) : g.p(0.2) ? g.r(-1e-7, 1e-7) : g.r(-1, 1);
  default: return g.r(-1.5, 1.5);
  }
}
static double rang(Rng &g) {
  switch (g.below(12)) {
  case 10: return (g.below(9) - 4) * (double)(PI / 4) + g.r(-1e-4, 1e-4);
  case 11: return g.p(0.3) ? g.r(-300, 300) : g.r(-1e-5, 1e-5);
  case 0: return 0;
  case 1: return (double)PI;
  case 2: return -(double)PI;
  case 3: return (double)(PI / 2);
  case 4: return g.r(-20, 20);
  default: return g.r(-3.1, 3.1);
  }
}
static V3 raxis(Rng &g) {
  V3 a = v3(0, 0, 0);
  int k = g.below(9);
  if (k < 6) { a[k % 3] = k < 3 ? 1 : -1; return a; }
  ld n = 0;
  do {
    for (int i = 0; i < 3; i++) a[i] = g.r(-1, 1);
    n = sqrtl(dot(a, a));
  } while (n < 0.2);
  for (int i = 0; i < 3; i++) a[i] = (double)(a[i] / n);
  return a;
}
static V3 rv(Rng &g) { return v3(rnum(g), rnum(g), rnum(g)); }
static V3 ra(Rng &g) { return g.p(0.25) ? v3(0, 0, 0) : v3(rang(g), rang(g), rang(g)); }

static Spec gen(Rng &g, int maxn = 9, double pin = 0.6) {
  Spec s;
  int n = 1 + g.below(maxn);
  if (g.p(0.06)) n = 1;
  if (g.p(0.04)) n = maxn + 12 + g.below(20);
  int shape = g.below(4); // chain, star, random, mostly chain
  int inert = g.below(6); // 0: none
  int style = g.below(3);
  double msc = g.p(0.75) ? 1 : pow(10, g.r(-5, 2)); // light and heavy robots
  bool diag = g.p(0.1);
  for (int i = 0; i < n; i++) {
    SL l;
    l.extra = false;
    l.pj = -1;
    l.off = tfid();
    l.name = style == 0 ? fmt("l%03d", i) : style == 1 ? fmt("%c%c_link%d", 'a' + g.below(26), 'a' + g.below(26), i) : fmt("z%03d", n - i);
    l.parent = i == 0 ? -1 : shape == 0 ? i - 1 : shape == 1 ? (g.p(0.7) ? 0 : g.below(i)) : shape == 2 ? g.below(i) : (g.p(0.8) ? i - 1 : g.below(i));
    l.inert = inert != 0 && (inert == 1 || g.p(pin));
    l.iorg = !g.p(0.2);
    l.mass = msc * (g.p(0.08) ? 0.0 : g.p(0.1) ? g.r(0.0001, 0.01) : g.r(0.05, 5));
    l.cxyz = l.iorg ? rv(g) : v3(0, 0, 0);
    l.crpy = l.iorg ? ra(g) : v3(0, 0, 0);
    for (int k = 0; k < 6; k++) l.I[k] = msc * (g.r(-0.5, 0.5) * (diag && k != 0 && k != 3 && k != 5 ? 0 : 1) + (k == 0 || k == 3 || k == 5 ? 1.2 : 0));
    if (g.p(0.05)) for (int k = 0; k < 6; k++) l.I[k] = 0;
    s.L.push_back(l);
  }
  for (int i = 1; i < n; i++) {
    SJ j;
    j.name = style == 0 ? fmt("j%03d", i) : style == 1 ? fmt("%c_joint%d", 'a' + g.below(26), i) : fmt("y%03d", n - i);
    j.type = g.below(5);
    if (j.type == 4) j.type = REV;
    j.parent = s.L[i].parent;
    j.child = i;
    j.origin = !g.p(0.1);
    j.xyz = j.origin ? rv(g) : v3(0, 0, 0);
    j.rpy = j.origin ? ra(g) : v3(0, 0, 0);
    j.haxis = !g.p(0.08);
    j.axis = j.haxis ? raxis(g) : v3(1, 0, 0);
    j.lim = j.type == REV || j.type == PRI || g.p(0.3);
    j.lo = g.r(-4, 0); j.up = g.r(0, 4); j.ef = g.r(0, 100); j.ve = g.r(0, 10);
    switch (g.below(14)) {
    case 0: j.up = j.lo; break;
    case 1: std::swap(j.lo, j.up); break;
    case 2: j.lo = j.up = 0; break;
    case 3: j.lo = g.r(0.1, 1); j.up = j.lo + g.r(0, 1); break;
    case 4: j.up = -g.r(0.1, 1); j.lo = j.up - g.r(0, 1); break;
    case 5: j.ef = 0; break;
    case 6: j.ve = 0; break;
    case 7: j.ef = -1; j.ve = -g.r(0, 3); break;
    case 8: j.lo = -1e9; j.up = 1e9; j.ve = 1e7; j.ef = 1e8; break;
    case 9: j.lo = 0; break;
    case 10: j.up = 0; break;
    default:;
    }
    s.J.push_back(j);
    s.L[i].pj = (int)s.J.size() - 1;
  }
  return s;
}
static std::string v3s(V3 a) { return g17(a[0]) + " " + g17(a[1]) + " " + g17(a[2]); }
static const char *tname(int t) { return t == FIX ? "fixed" : t == REV ? "revolute" : t == CON ? "continuous" : "prismatic"; }
static std::string linkXml(const SL &l) {
  std::ostringstream o;
  if (!l.inert) { o << "<link name=\"" << l.name << "\"/>\n"; return o.str(); }
  o << "<link name=\"" << l.name << "\"><inertial>";
  if (l.iorg) o << "<origin xyz=\"" << v3s(l.cxyz) << "\" rpy=\"" << v3s(l.crpy) << "\"/>";
  o << "<mass value=\"" << g17(l.mass) << "\"/>"
    << "<inertia ixx=\"" << g17(l.I[0]) << "\" ixy=\"" << g17(l.I[1]) << "\" ixz=\"" << g17(l.I[2]) << "\" iyy=\"" << g17(l.I[3])
    << "\" iyz=\"" << g17(l.I[4]) << "\" izz=\"" << g17(l.I[5]) << "\"/></inertial></link>\n";
  return o.str();
}
static std::string jointXml(const SJ &j, const Spec &s) {
  std::ostringstream o;
  o << "<joint name=\"" << j.name << "\" type=\"" << tname(j.type) << "\">";
  if (j.origin) o << "<origin xyz=\"" << v3s(j.xyz) << "\" rpy=\"" << v3s(j.rpy) << "\"/>";
  o << "<parent link=\"" << s.L[j.parent].name << "\"/><child link=\"" << s.L[j.child].name << "\"/>";
  if (j.haxis) o << "<axis xyz=\"" << v3s(j.axis) << "\"/>";
  if (j.lim) o << "<limit lower=\"" << g17(j.lo) << "\" upper=\"" << g17(j.up) << "\" effort=\"" << g17(j.ef) << "\" velocity=\"" << g17(j.ve) << "\"/>";
  o << "</joint>\n";
  return o.str();
}
static std::string xml(const Spec &s, Rng &g) {
  std::vector<std::string> parts;
  for (auto &l : s.L) if (!l.extra) parts.push_back(linkXml(l));
  for (auto &j : s.J) parts.push_back(jointXml(j, s));
  if (g.p(0.5))
    for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[g.below((int)i)]);
  std::string o = "<robot name=\"r\">\n";
  for (auto &p : parts) o += p;
  return o + "</robot>\n";
}

// ------------------------------------------------------------------ a model together with its specification
typedef KinematicsModelPyWrapper PyM;
struct Ctx {
  Spec s;
  std::string text;
  std::unique_ptr<PyM> m;
  std::vector<double> q; // one per spec joint
  TF base;
  V3 bxyz, brpy;
  Transform basePose;
  std::vector<size_t> lid, jid; // ids of spec links / joints (SIZE_MAX for fixed joints)
  std::vector<int> mov;         // spec joints that are movable
  Ctx() : base(tfid()) { bxyz = brpy = v3(0, 0, 0); }

  void build(Rng &g) {
    text = xml(s, g);
    logl("URDF:\n" + text);
    m.reset(new PyM(text));
    q.assign(s.J.size(), 0.0);
    ids();
  }
  void ids() {
    lid.clear(); jid.clear(); mov.clear();
    for (auto &l : s.L) lid.push_back(m->get_link_ids({l.name})[0]);
    for (size_t j = 0; j < s.J.size(); j++) {
      if (s.J[j].type == FIX) { jid.push_back((size_t)-1); continue; }
      jid.push_back(m->get_joint_ids({s.J[j].name})[0]);
      mov.push_back((int)j);
    }
  }
  TF local(int l, const std::vector<ld> &qq) const {
    const SL &L = s.L[l];
    if (L.extra) return L.off;
    const SJ &J = s.J[L.pj];
    TF o{rpyM(J.rpy), J.xyz};
    if (J.type == FIX) return o;
    TF t = tfid();
    if (J.type == PRI) t.p = qq[L.pj] * J.axis;
    else t.R = axang(J.axis, qq[L.pj]);
    return comp(o, t);
  }
  std::vector<ld> ql() const { return std::vector<ld>(q.begin(), q.end()); }
  TF fk(int l, const std::vector<ld> &qq, const TF &b) const {
    std::vector<int> chain;
    for (int i = l; s.L[i].parent >= 0; i = s.L[i].parent) chain.push_back(i);
    TF t = b;
    for (size_t k = chain.size(); k-- > 0;) t = comp(t, local(chain[k], qq));
    return t;
  }
  TF fk(int l) const { return fk(l, ql(), base); }
  bool anc(int a, int l) const {
    for (int i = l; i >= 0; i = s.L[i].parent) if (i == a) return true;
    return false;
  }
  ld scale() const { ld x = 1; for (auto &j : s.J) for (int k = 0; k < 3; k++) x += absl_(j.xyz[k]); for (ld a : q) x += absl_(a); for (auto &l : s.L) for (int k = 0; k < 3; k++) x += absl_(l.off.p[k]) + absl_(l.cxyz[k]); for (int k = 0; k < 3; k++) x += absl_(bxyz[k]); return x; }

  void setAngles(Rng &g) {
    std::vector<size_t> ids;
    std::vector<double> v;
    for (int j : mov) { q[j] = g.p(0.05) ? 0 : rang(g); ids.push_back(jid[j]); v.push_back(q[j]); }
    for (size_t i = ids.size(); i > 1; i--) { int k = g.below((int)i); std::swap(ids[i - 1], ids[k]); std::swap(v[i - 1], v[k]); }
    std::string o = "set_joint_angles";
    for (size_t i = 0; i < ids.size(); i++) o += fmt(" %zu:%.17g", ids[i], v[i]);
    logl(o);
    m->set_joint_angles(ids, v);
  }
  void setBase(V3 xyz, V3 rpy, int how, bool neg = false) {
    bxyz = xyz; brpy = rpy;
    base = TF{rpyM(rpy), xyz};
    basePose = poseOf(xyz, rpy, neg);
    logl(fmt("set_base_pose[%d%s] %s %s", how, neg ? " -q" : "", v3s(xyz).c_str(), v3s(rpy).c_str()));
    if (how == 0) m->KinematicModel::set_base_pose(basePose);
    else {
      std::vector<double> b;
      for (int k = 0; k < 3; k++) b.push_back((double)xyz[k]);
      for (int k = 0; k < 3; k++) b.push_back((double)rpy[k]);
      m->set_base_pose(b);
    }
  }
  void setBase(Rng &g) { setBase(rv(g), ra(g), g.below(2), g.p(0.3)); }
  int addLink(Rng &g, int parent = -1) {
    SL l;
    l.extra = true; l.inert = l.iorg = false; for (int k = 0; k < 6; k++) l.I[k] = 0; l.crpy = v3(0, 0, 0); l.pj = -1; l.cxyz = l.crpy = v3(0, 0, 0); l.mass = 0;
    l.parent = parent >= 0 ? parent : g.below((int)s.L.size());
    l.name = fmt("%cnew%zu", 'a' + g.below(26), s.L.size());
    V3 xyz = rv(g), rpy = ra(g);
    l.off = TF{rpyM(rpy), xyz};
    l.offT = poseOf(xyz, rpy);
    int how = g.below(2);
    logl(fmt("add_new_link[%d] %s under %s %s %s", how, l.name.c_str(), s.L[l.parent].name.c_str(), v3s(xyz).c_str(), v3s(rpy).c_str()));
    size_t pid = lid[l.parent];
    if (how) {
      std::array<double, 3> a{{(double)xyz[0], (double)xyz[1], (double)xyz[2]}}, b{{(double)rpy[0], (double)rpy[1], (double)rpy[2]}};
      m->add_new_link(l.name, pid, a, b);
    } else
      m->KinematicModel::add_new_link(l.name, pid, poseOf(xyz, rpy));
    s.L.push_back(l);
    ids();
    return (int)s.L.size() - 1;
  }
  std::vector<int> jlist(Rng &g, bool dup = true) const {
    std::vector<int> r;
    if (mov.empty()) return r;
    switch (g.below(5)) {
    case 0: return mov;
    case 1: return r;
    default: {
      int n = 1 + g.below((int)mov.size() + 2);
      for (int i = 0; i < n; i++) {
        int j = mov[g.below((int)mov.size())];
        bool in = false;
        for (int k : r) in = in || k == j;
        if (!in || (dup && g.p(0.5))) r.push_back(j);
      }
      return r;
    }
    }
  }
  std::vector<size_t> jids(const std::vector<int> &v) const { std::vector<size_t> r; for (int j : v) r.push_back(jid[j]); return r; }
  Transform pose(size_t id) const { Transform t; m->get_link_pose(id, t); return t; }
  Transform poseL(int l) const { return pose(lid[l]); }
  void checkPose(int l, const std::string &what) const {
    Transform t = poseL(l);
    TF e = fk(l), a = tfOf(t);
    ld tol = 1e-10L * scale() * 10;
    for (int k = 0; k < 3; k++) near_(a.p[k], e.p[k], tol, fmt("%s: position[%d] of link %s", what.c_str(), k, s.L[l].name.c_str()));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(a.R.a[i][j], e.R.a[i][j], 1e-9L * (1 + scale() / 50), fmt("%s: rotation[%d][%d] of link %s", what.c_str(), i, j, s.L[l].name.c_str()));
    ld n = (ld)t.rotation.x * t.rotation.x + (ld)t.rotation.y * t.rotation.y + (ld)t.rotation.z * t.rotation.z + (ld)t.rotation.w * t.rotation.w;
    near_(n, 1, 1e-9L, what + ": quaternion norm of link " + s.L[l].name);
  }
  // fresh model in the same state, built from scratch
  std::unique_ptr<PyM> fresh() const {
    std::unique_ptr<PyM> f(new PyM(text));
    for (auto &l : s.L) if (l.extra) f->KinematicModel::add_new_link(l.name, f->get_link_ids({s.L[l.parent].name})[0], l.offT);
    std::vector<size_t> ids; std::vector<double> v;
    for (int j : mov) { ids.push_back(f->get_joint_ids({s.J[j].name})[0]); v.push_back(q[j]); }
    f->set_joint_angles(ids, v);
    f->KinematicModel::set_base_pose(poseOf(bxyz, brpy));
    return f;
  }
};

static void cmpMat(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, ld tol, const std::string &what) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    fail(fmt("%s: size %ldx%ld, expected %ldx%ld", what.c_str(), (long)a.rows(), (long)a.cols(), (long)b.rows(), (long)b.cols()));
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) near_(a(i, j), b(i, j), tol, fmt("%s (%d,%d)", what.c_str(), i, j));
}
static RotationType rtype(int k) { return k == 0 ? RotationType::IGNORE : k == 1 ? RotationType::RPY : RotationType::XYZW; }

static void mk(Ctx &c, Rng &g, int maxn = 9, double padd = 0.35, double pin = 0.6) {
  c.s = gen(g, maxn, pin);
  c.build(g);
  if (g.p(padd)) { int n = 1 + g.below(3); while (n--) c.addLink(g); }
  if (!g.p(0.05)) c.setAngles(g);
  if (!g.p(0.25)) c.setBase(g);
}

// ------------------------------------------------------------------ C01
static void C01(Rng &g) {
  Ctx c;
  mk(c, g, 12);
  std::vector<int> o;
  for (size_t l = 0; l < c.s.L.size(); l++) o.push_back((int)l);
  if (g.p(0.7)) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.below((int)i)]);
  for (int l : o) c.checkPose(l, "pose");
  for (int l : o) c.checkPose(l, "pose (second query)");
}

// ------------------------------------------------------------------ expected answers from the specification
struct Com { ld mass; V3 com; };
static Com comOf(const Ctx &c) {
  Com r{0, v3(0, 0, 0)};
  for (size_t l = 0; l < c.s.L.size(); l++)
    if (c.s.L[l].inert) {
      TF t = c.fk((int)l);
      r.mass += c.s.L[l].mass;
      r.com = r.com + (ld)c.s.L[l].mass * (mv(t.R, c.s.L[l].cxyz) + t.p);
    }
  r.com = (1 / r.mass) * r.com;
  return r;
}
static bool heavy(const Ctx &c) { ld m = 0; for (auto &l : c.s.L) if (l.inert) m += l.mass; return m > 1e-8L; }
static M3 inertiaOf(const Ctx &c) {
  Com k = comOf(c);
  M3 S{{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}};
  for (size_t l = 0; l < c.s.L.size(); l++)
    if (c.s.L[l].inert) {
      const SL &L = c.s.L[l];
      TF t = comp(c.fk((int)l), TF{rpyM(L.crpy), L.cxyz});
      M3 I{{{L.I[0], L.I[1], L.I[2]}, {L.I[1], L.I[3], L.I[4]}, {L.I[2], L.I[4], L.I[5]}}};
      M3 W = mm(t.R, mm(I, tr(t.R)));
      V3 d = t.p - k.com;
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S.a[i][j] += W.a[i][j] + L.mass * ((i == j ? dot(d, d) : 0) - d[i] * d[j]);
    }
  return S;
}
// derivative of the position of point off in link l w.r.t. spec joint j
static V3 dposOf(const Ctx &c, int l, V3 off, int j) {
  const SJ &J = c.s.J[j];
  if (!c.anc(J.child, l)) return v3(0, 0, 0);
  TF t = c.fk(l), jc = c.fk(J.child);
  V3 ax = mv(jc.R, J.axis), p = mv(t.R, off) + t.p;
  return J.type == PRI ? ax : crs(ax, p - jc.p);
}

static void checkJacPos(const Ctx &c, int l, const std::vector<int> &js, const Eigen::MatrixXd &J, const std::string &what) {
  for (size_t i = 0; i < js.size(); i++) {
    V3 e = dposOf(c, l, v3(0, 0, 0), js[i]);
    for (int k = 0; k < 3; k++) near_(J(k, i), e[k], 1e-9L * c.scale() * 10, fmt("%s: d position[%d] of %s / d %s (column %zu)", what.c_str(), k, c.s.L[l].name.c_str(), c.s.J[js[i]].name.c_str(), i));
  }
}
// ------------------------------------------------------------------ C03
static void C03(Rng &g) {
  Ctx c;
  mk(c, g);
  for (int t = 0; t < 4; t++) {
    int l = g.below((int)c.s.L.size());
    auto js = c.jlist(g);
    int rt = g.below(3);
    bool wb = g.p(0.3);
    Eigen::MatrixXd J = c.m->get_jacobian(c.lid[l], c.jids(js), rtype(rt), wb);
    int rows = rt == 0 ? 3 : rt == 1 ? 6 : 7;
    if (J.rows() != rows || J.cols() != (long)js.size() + (wb ? 6 : 0)) fail(fmt("jacobian has size %ldx%ld", (long)J.rows(), (long)J.cols()));
    checkJacPos(c, l, js, J, "jacobian");
    // direct comparison with finite differences of the oracle
    for (size_t i = 0; i < js.size(); i++) {
      auto qa = c.ql(), qb = qa;
      ld h = 1e-6L;
      qa[js[i]] += h; qb[js[i]] -= h;
      V3 a = c.fk(l, qa, c.base).p, b = c.fk(l, qb, c.base).p;
      for (int k = 0; k < 3; k++) near_(J(k, i), (a[k] - b[k]) / (2 * h), 1e-7L * c.scale(), fmt("finite difference, row %d column %zu", k, i));
    }
  }
}
// ------------------------------------------------------------------ C04
static void C04(Rng &g) {
  Ctx c;
  mk(c, g);
  for (int t = 0; t < 4; t++) {
    int l = g.below((int)c.s.L.size());
    auto js = c.jlist(g);
    bool wb = g.p(0.3);
    TF T = c.fk(l);
    Transform P = c.poseL(l);
    V3 e = rpyOf(T.R);
    Eigen::MatrixXd J0 = c.m->get_jacobian(c.lid[l], c.jids(js), RotationType::IGNORE, wb);
    if (J0.rows() != 3) fail("IGNORE jacobian must have 3 rows");
    Eigen::MatrixXd J1 = c.m->get_jacobian(c.lid[l], c.jids(js), RotationType::RPY, wb);
    if (J1.rows() != 6) fail("RPY jacobian must have 6 rows");
    Eigen::MatrixXd J2 = c.m->get_jacobian(c.lid[l], c.jids(js), RotationType::XYZW, wb);
    if (J2.rows() != 7) fail("XYZW jacobian must have 7 rows");
    for (size_t i = 0; i < js.size(); i++) {
      const SJ &J = c.s.J[js[i]];
      bool rel = c.anc(J.child, l) && J.type != PRI;
      auto qa = c.ql(), qb = qa;
      ld h = 1e-6L;
      qa[js[i]] += h; qb[js[i]] -= h;
      M3 A = c.fk(l, qa, c.base).R, B = c.fk(l, qb, c.base).R;
      if (absl_(e[1]) < 1.4) {
        V3 a = rpyOf(A), b = rpyOf(B);
        for (int k = 0; k < 3; k++) near_(J1(3 + k, i), rel ? wrap(a[k] - b[k]) / (2 * h) : 0, 1e-6L, fmt("d rpy[%d] of %s / d %s", k, c.s.L[l].name.c_str(), J.name.c_str()));
      }
      ld dq[4] = {0, 0, 0, 0};
      if (rel) {
        V3 w = mv(c.fk(J.child).R, J.axis);
        ld x = P.rotation.x, y = P.rotation.y, z = P.rotation.z, q = P.rotation.w;
        dq[0] = (w[0] * q + w[1] * z - w[2] * y) / 2;
        dq[1] = (w[1] * q + w[2] * x - w[0] * z) / 2;
        dq[2] = (w[2] * q + w[0] * y - w[1] * x) / 2;
        dq[3] = -(w[0] * x + w[1] * y + w[2] * z) / 2;
      }
      for (int k = 0; k < 4; k++) near_(J2(3 + k, i), dq[k], 1e-8L, fmt("d quaternion[%d] of %s / d %s", k, c.s.L[l].name.c_str(), J.name.c_str()));
    }
  }
}
// ------------------------------------------------------------------ C05
static void C05(Rng &g) {
  Ctx c;
  mk(c, g, 6, 0.4);
  V3 rpy = v3(g.r(-3.1, 3.1), g.r(-1.35, 1.35), g.r(-3.1, 3.1));
  if (g.p(0.4)) rpy[g.p(0.5) ? 0 : 2] = (g.p(0.5) ? 1 : -1) * (double)(PI - (g.p(0.5) ? 0 : g.r(0, 2e-7)));
  if (g.p(0.15)) rpy[0] = rpy[2] = (double)(PI - 3e-8L);
  if (g.p(0.2)) { rpy[0] = g.below(3) - 1; rpy[1] = 0; }
  c.setBase(rv(g), rpy, g.below(2), g.p(0.4));
  // canonical angles of the base
  for (int t = 0; t < 3; t++) {
    int l = g.below((int)c.s.L.size());
    if (g.p(0.25)) l = 0;
    auto js = c.jlist(g);
    int rt = g.below(3);
    Eigen::MatrixXd J = c.m->get_jacobian(c.lid[l], c.jids(js), rtype(rt), true);
    Eigen::MatrixXd N = c.m->get_jacobian(c.lid[l], c.jids(js), rtype(rt), false);
    if (J.cols() != (long)js.size() + 6) fail("six base columns expected");
    for (int i = 0; i < N.rows(); i++) for (int k = 0; k < N.cols(); k++) near_(J(i, k), N(i, k), 0, "joint columns with and without base");
    TF T = c.fk(l);
    Transform P = c.poseL(l);
    V3 e = rpyOf(T.R);
    V3 cb = rpyOf(c.base.R);
    ld tol = 2e-5L * c.scale();
    for (int k = 0; k < 6; k++) {
      size_t col = js.size() + k;
      ld h = 1e-6L;
      TF a = c.base, b = c.base;
      if (k < 3) { a.p[k] += h; b.p[k] -= h; }
      else {
        V3 ea = cb, eb = cb;
        ea[k - 3] += h; eb[k - 3] -= h;
        a.R = rpyM(ea); b.R = rpyM(eb);
      }
      TF A = c.fk(l, c.ql(), a), B = c.fk(l, c.ql(), b);
      for (int i = 0; i < 3; i++) near_(J(i, col), (A.p[i] - B.p[i]) / (2 * h), tol, fmt("base column %d, position row %d of %s", k, i, c.s.L[l].name.c_str()));
      if (rt == 1 && absl_(e[1]) < 1.4) {
        V3 ra_ = rpyOf(A.R), rb = rpyOf(B.R);
        for (int i = 0; i < 3; i++) near_(J(3 + i, col), wrap(ra_[i] - rb[i]) / (2 * h), 1e-4L, fmt("base column %d, rpy row %d of %s", k, i, c.s.L[l].name.c_str()));
      }
      if (rt == 2) {
        // world angular velocity from the matrices
        M3 D = mm(A.R, tr(B.R));
        V3 w = v3((D.a[2][1] - D.a[1][2]) / (4 * h), (D.a[0][2] - D.a[2][0]) / (4 * h), (D.a[1][0] - D.a[0][1]) / (4 * h));
        ld x = P.rotation.x, y = P.rotation.y, z = P.rotation.z, q = P.rotation.w;
        ld dq[4] = {(w[0] * q + w[1] * z - w[2] * y) / 2, (w[1] * q + w[2] * x - w[0] * z) / 2, (w[2] * q + w[0] * y - w[1] * x) / 2, -(w[0] * x + w[1] * y + w[2] * z) / 2};
        for (int i = 0; i < 4; i++) near_(J(3 + i, col), dq[i], 1e-5L, fmt("base column %d, quaternion row %d of %s", k, i, c.s.L[l].name.c_str()));
      }
    }
  }
}
// ------------------------------------------------------------------ C06
static void checkRel(const Ctx &c) {
  for (size_t l = 0; l < c.s.L.size(); l++)
    for (int j : c.mov)
      if (c.m->rptable_.isRelevant((int)c.lid[l], (int)c.jid[j]) != c.anc(c.s.J[j].child, (int)l))
        fail(fmt("relevance of joint %s for link %s", c.s.J[j].name.c_str(), c.s.L[l].name.c_str()));
}
static void C06(Rng &g) {
  Ctx c;
  mk(c, g, 12, 0.3);
  checkRel(c);
  for (int t = g.below(5); t > 0; t--) { c.addLink(g, g.p(0.4) ? (int)c.s.L.size() - 1 : -1); checkRel(c); }
  for (auto &l : c.s.L) if (l.inert) {
    size_t id = c.m->get_link_ids({l.name + "_com"})[0];
    int me = (int)(&l - &c.s.L[0]);
    for (int j : c.mov) if (c.m->rptable_.isRelevant((int)id, (int)c.jid[j]) != c.anc(c.s.J[j].child, me)) fail("relevance of joint " + c.s.J[j].name + " for the center of mass of " + l.name);
  }
  if (c.mov.empty()) return;
  for (int t = 0; t < 3; t++) {
    int j = c.mov[g.below((int)c.mov.size())];
    std::vector<Transform> before;
    for (size_t l = 0; l < c.s.L.size(); l++) before.push_back(c.poseL((int)l));
    c.q[j] = rang(g);
    c.m->set_joint_angles({c.jid[j]}, {c.q[j]});
    for (size_t l = 0; l < c.s.L.size(); l++) {
      if (c.anc(c.s.J[j].child, (int)l)) continue;
      Transform a = c.poseL((int)l), &b = before[l];
      if (a.position.x != b.position.x || a.position.y != b.position.y || a.position.z != b.position.z || a.rotation.w != b.rotation.w || a.rotation.x != b.rotation.x || a.rotation.y != b.rotation.y || a.rotation.z != b.rotation.z)
        fail("link " + c.s.L[l].name + " moved with irrelevant joint " + c.s.J[j].name);
    }
  }
}
// ------------------------------------------------------------------ C07
static void C07(Rng &g) {
  Ctx c;
  do { c.s = gen(g, 9, 0.7); } while (!heavy(c));
  c.build(g);
  if (g.p(0.4)) { int n = 1 + g.below(3); while (n--) c.addLink(g); }
  for (int rep = 0; rep < 2; rep++) {
    if (!g.p(0.1)) c.setAngles(g);
    if (!g.p(0.2)) c.setBase(g);
    Com k = comOf(c);
    near_(c.m->total_mass_, k.mass, 1e-9L * (1 + k.mass), "total mass");
    Vector3 com = c.m->get_com();
    ld tol = 1e-9L * c.scale() * 10;
    near_(com.x, k.com[0], tol, "com x"); near_(com.y, k.com[1], tol, "com y"); near_(com.z, k.com[2], tol, "com z");
    size_t nin = 0;
    for (size_t l = 0; l < c.s.L.size(); l++) if (c.s.L[l].inert) {
      nin++;
      size_t id = c.m->get_link_ids({c.s.L[l].name + "_com"})[0];
      TF t = comp(c.fk((int)l), TF{rpyM(c.s.L[l].crpy), c.s.L[l].cxyz}), a = tfOf(c.pose(id));
      for (int i = 0; i < 3; i++) near_(a.p[i], t.p[i], tol, "position of the com link of " + c.s.L[l].name);
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(a.R.a[i][j], t.R.a[i][j], 1e-8L, "rotation of the com link of " + c.s.L[l].name);
    }
    if (c.m->com_dummy_links_.size() != nin) fail("number of com links");
    auto js = c.jlist(g);
    bool wb = g.p(0.5);
    Eigen::MatrixXd J = c.m->get_com_jacobian(c.jids(js), wb);
    if (J.rows() != 3 || J.cols() != (long)js.size() + (wb ? 6 : 0)) fail("size of the com jacobian");
    for (size_t i = 0; i < js.size(); i++) {
      V3 e = v3(0, 0, 0);
      for (size_t l = 0; l < c.s.L.size(); l++) if (c.s.L[l].inert) e = e + ((ld)c.s.L[l].mass / k.mass) * dposOf(c, (int)l, c.s.L[l].cxyz, js[i]);
      for (int r = 0; r < 3; r++) near_(J(r, i), e[r], tol, fmt("com jacobian (%d,%zu)", r, i));
    }
    if (wb) {
      // the same weighted average of the jacobians of the com links
      Eigen::MatrixXd A = Eigen::MatrixXd::Zero(3, 6);
      for (size_t l = 0; l < c.s.L.size(); l++) if (c.s.L[l].inert) A += c.s.L[l].mass / (double)k.mass * c.m->get_jacobian(c.m->get_link_ids({c.s.L[l].name + "_com"})[0], {}, RotationType::IGNORE, true);
      Eigen::MatrixXd B = J.rightCols(6);
      cmpMat(B, A, 1e-7L * c.scale(), "base columns of the com jacobian");
    }
  }
}
// ------------------------------------------------------------------ C08
static void C08(Rng &g) {
  Ctx c;
  do { c.s = gen(g, 9, 0.7); } while (!heavy(c));
  c.build(g);
  if (g.p(0.4)) { int n = 1 + g.below(3); while (n--) c.addLink(g); }
  for (int rep = 0; rep < 2; rep++) {
    if (!g.p(0.1)) c.setAngles(g);
    if (!g.p(0.2)) c.setBase(g);
    M3 e = inertiaOf(c);
    Eigen::Matrix3d I = c.m->get_total_inertia_matrix();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(I(i, j), e.a[i][j], 1e-9L * c.scale() * c.scale() * 20, fmt("total inertia (%d,%d)", i, j));
  }
}
// ------------------------------------------------------------------ C09
static void C09(Rng &g) {
  Ctx c;
  mk(c, g, 7, 0.0);
  int n = 1 + g.below(6);
  if (g.p(0.05)) n = 40;
  for (int t = 0; t < n; t++) {
    auto names = c.m->get_link_names();
    auto jn = c.m->get_joint_names();
    auto ang = c.m->joint_angles_;
    std::vector<Transform> before;
    if (g.p(0.5)) for (size_t l = 0; l < c.s.L.size(); l++) c.poseL((int)l);
    for (size_t i = 0; i < names.size(); i++) before.push_back(c.pose(i));
    int l = c.addLink(g, g.p(0.3) ? (int)c.s.L.size() - 1 : -1);
    if (c.lid[l] != names.size()) fail(fmt("new id %zu, expected %zu", c.lid[l], names.size()));
    auto n2 = c.m->get_link_names();
    if (n2.size() != names.size() + 1 || n2.back() != c.s.L[l].name || !std::equal(names.begin(), names.end(), n2.begin())) fail("link names after adding a link");
    if (c.m->get_joint_names() != jn || c.m->joint_angles_ != ang) fail("joints changed by adding a link");
    for (size_t i = 0; i < names.size(); i++) {
      if (c.m->get_link_ids({names[i]})[0] != i) fail("id of " + names[i] + " changed");
      Transform a = c.pose(i);
      near_(a.position.x, before[i].position.x, 1e-9L, "pose of " + names[i]);
      near_(a.position.y, before[i].position.y, 1e-9L, "pose of " + names[i]);
      near_(a.position.z, before[i].position.z, 1e-9L, "pose of " + names[i]);
      near_(a.rotation.w, before[i].rotation.w, 1e-9L, "pose of " + names[i]);
    }
    c.checkPose(l, "pose of the new link");
    // a name that exists
    int k = g.below((int)n2.size());
    bool thrown = false;
    try {
      if (g.p(0.5)) c.m->KinematicModel::add_new_link(n2[k], g.below((int)n2.size()), Transform());
      else c.m->add_new_link(n2[k], g.below((int)n2.size()), std::array<double, 3>{{1, 2, 3}}, std::array<double, 3>{{0, 0, 0}});
    } catch (std::exception &) { thrown = true; }
    if (!thrown) fail("adding a link with the existing name " + n2[k] + " must raise");
    if (c.m->get_link_names() != n2 || c.m->links_.size() != n2.size() || c.m->link_ids_.size() != n2.size()) fail("a rejected link changed the model");
    for (size_t i = 0; i < n2.size(); i++) if (c.m->get_link_ids({n2[i]})[0] != i) fail("a rejected link changed the ids");
    if (g.p(0.4)) c.setAngles(g);
    if (g.p(0.3)) c.setBase(g);
    for (size_t i = 0; i < c.s.L.size(); i++) c.checkPose((int)i, "pose after adding links");
  }
}
// ------------------------------------------------------------------ C10
static std::string mutant(std::string s, Rng &g) {
  switch (g.below(12)) {
  case 0: return "/" + s;
  case 1: return s + "/";
  case 2: return " " + s;
  case 3: return s + " ";
  case 4: for (auto &c : s) c = toupper(c); return s;
  case 5: return s.substr(0, s.size() - 1);
  case 6: return s.substr(1);
  case 7: return s + "_link";
  case 8: return s + "_com";
  case 9: return "robot/" + s;
  case 10: return s + s;
  default: s[g.below((int)s.size())] ^= 1; return s;
  }
}
static void C10(Rng &g) {
  Ctx c;
  mk(c, g, 12, 0.5);
  auto ln = c.m->get_link_names();
  auto jn = c.m->get_joint_names();
  std::set<std::string> a(ln.begin(), ln.end()), b(jn.begin(), jn.end()), ea, eb;
  for (auto &l : c.s.L) { ea.insert(l.name); if (l.inert) ea.insert(l.name + "_com"); }
  for (int j : c.mov) eb.insert(c.s.J[j].name);
  if (a != ea || ln.size() != ea.size()) fail("set of link names");
  if (b != eb || jn.size() != eb.size()) fail("set of joint names");
  for (int links = 0; links < 2; links++) {
    auto &n = links ? ln : jn;
    for (int t = 0; t < 4; t++) {
      std::vector<std::string> qn;
      std::vector<size_t> want;
      int k = n.empty() ? 0 : t == 0 ? (int)n.size() : g.below(6);
      for (int i = 0; i < k; i++) { size_t x = t == 0 ? i : g.below((int)n.size()); qn.push_back(n[x]); want.push_back(x); }
      auto got = links ? c.m->get_link_ids(qn) : c.m->get_joint_ids(qn);
      if (got != want) fail(std::string(links ? "link" : "joint") + " ids of names");
      std::string bad = g.p(0.4) && !n.empty() ? mutant(n[g.below((int)n.size())], g) : g.p(0.3) ? "" : g.p(0.5) && !n.empty() ? n[0] + "x" : links ? (c.s.J.empty() ? "nope" : c.s.J[0].name) : c.s.L[0].name;
      if (std::find(n.begin(), n.end(), bad) != n.end()) continue;
      qn.insert(qn.begin() + g.below((int)qn.size() + 1), bad);
      bool thrown = false;
      try { links ? c.m->get_link_ids(qn) : c.m->get_joint_ids(qn); } catch (std::exception &) { thrown = true; }
      if (!thrown) fail("unknown name '" + bad + "' must raise");
      if ((links ? c.m->get_link_names() : c.m->get_joint_names()) != n) fail("a failed lookup changed the names");
    }
  }
  if (c.m->get_root_link_name() != c.s.L[0].name) fail("root link name");
  for (int j = 0; j < (int)c.s.J.size(); j++) if (c.s.J[j].type == FIX) {
    bool thrown = false;
    try { c.m->get_joint_ids({c.s.J[j].name}); } catch (std::exception &) { thrown = true; }
    if (!thrown) fail("fixed joints have no id");
  }
}
// ------------------------------------------------------------------ C11
static void C11(Rng &g) {
  Ctx c;
  c.s = gen(g, 14);
  c.build(g);
  size_t m = c.mov.size();
  std::vector<size_t> all;
  for (size_t i = 0; i < m; i++) all.push_back(i);
  std::vector<double> q(m, 0.0);
  if (c.m->get_joint_angles(all) != q) fail("angles of a new model must be zero");
  Transform b = c.m->base_pose_;
  if (b.position.x != 0 || b.position.y != 0 || b.position.z != 0 || b.rotation.x != 0 || b.rotation.y != 0 || b.rotation.z != 0 || b.rotation.w != 1) fail("base pose of a new model");
  for (int t = 0; t < 12; t++) {
    switch (g.below(6)) {
    case 0: c.m->set_init_angles(); q.assign(m, 0.0); logl("set_init_angles"); break;
    case 1: if (m) { size_t j = g.below((int)m); q[j] = rang(g); c.m->set_joint_angle(j, q[j]); logl(fmt("set_joint_angle %zu %.17g", j, q[j])); } break;
    case 2: if (g.p(0.5)) { c.addLink(g); } else c.setBase(g); break;
    default: {
      std::vector<size_t> ids;
      std::vector<double> v;
      int n = m ? g.below((int)m + 3) : 0;
      for (int i = 0; i < n; i++) { ids.push_back(g.below((int)m)); v.push_back(rang(g)); }
      std::string o = "set_joint_angles";
      for (int i = 0; i < n; i++) { o += fmt(" %zu:%.17g", ids[i], v[i]); q[ids[i]] = v[i]; }
      logl(o);
      if (g.p(0.3)) c.m->_set_joint_angles(ids, v), c.m->clear_cache(); else c.m->set_joint_angles(ids, v);
    }
    }
    if (c.m->get_joint_angles(all) != q) fail("joint angles read back");
    std::vector<size_t> ids;
    std::vector<double> w;
    for (int i = m ? g.below(5) : 0; i > 0; i--) { ids.push_back(g.below((int)m)); w.push_back(q[ids.back()]); }
    if (c.m->get_joint_angles(ids) != w) fail("joint angles of a list of ids");
    if (c.m->get_joint_angles(all) != q) fail("reading angles changed them");
    if (g.p(0.3) && c.s.L.size()) c.poseL(g.below((int)c.s.L.size()));
  }
}
// ------------------------------------------------------------------ C12
static void C12(Rng &g) {
  Ctx c;
  mk(c, g, 14, 0.2);
  const double inf = std::numeric_limits<double>::infinity();
  for (int t = 0; t < 4; t++) {
    auto js = c.jlist(g);
    auto p = c.m->get_joint_position_limits(c.jids(js));
    auto v = c.m->get_joint_velocity_limits(c.jids(js));
    auto e = c.m->get_joint_effort_limits(c.jids(js));
    if (p.size() != js.size() || v.size() != js.size() || e.size() != js.size()) fail("number of limits");
    for (size_t i = 0; i < js.size(); i++) {
      const SJ &J = c.s.J[js[i]];
      double lo = J.type == CON ? -inf : J.lo, up = J.type == CON ? inf : J.up, ve = J.lim ? J.ve : inf, ef = J.lim ? J.ef : inf;
      if (p[i].first != lo || p[i].second != up) fail(fmt("position limits of %s: %g %g, expected %g %g", J.name.c_str(), p[i].first, p[i].second, lo, up));
      if (v[i] != ve) fail(fmt("velocity limit of %s: %g, expected %g", J.name.c_str(), v[i], ve));
      if (e[i] != ef) fail(fmt("effort limit of %s: %g, expected %g", J.name.c_str(), e[i], ef));
    }
  }
}
// ------------------------------------------------------------------ histories (C02, C13)
static void cmpFresh(Ctx &c, Rng &g, bool all) {
  for (size_t l = 0; l < c.s.L.size(); l++) if (all || g.p(0.4)) c.checkPose((int)l, "pose after this history");
  for (auto &l : c.s.L) if (l.inert && g.p(0.3)) {
    size_t id = c.m->get_link_ids({l.name + "_com"})[0];
    TF a = tfOf(c.pose(id)), e = comp(c.fk((int)(&l - &c.s.L[0])), TF{rpyM(l.crpy), l.cxyz});
    for (int i = 0; i < 3; i++) near_(a.p[i], e.p[i], 1e-9L * c.scale() * 10, "com link of " + l.name + " after this history");
  }
  if (g.p(0.5)) {
    int l = g.below((int)c.s.L.size());
    auto js = c.jlist(g);
    auto f = c.fresh();
    bool wb = g.p(0.5);
    int rt = g.below(3);
    if (rt == 2 && true) rt = 0; // the sign of the base quaternion is part of the state; compared in C04/C05
    Eigen::MatrixXd A = c.m->get_jacobian(c.lid[l], c.jids(js), rtype(rt), wb), B;
    std::vector<size_t> fj;
    for (int j : js) fj.push_back(f->get_joint_ids({c.s.J[j].name})[0]);
    B = f->get_jacobian(f->get_link_ids({c.s.L[l].name})[0], fj, rtype(rt), wb);
    V3 e = rpyOf(c.fk(l).R), eb = rpyOf(c.base.R);
    if ((rt == 0 || absl_(e[1]) < 1.4) && (!wb || absl_(eb[1]) < 1.4)) cmpMat(A, B, 1e-4L * c.scale(), "jacobian after this history");
  }
  if (heavy(c) && g.p(0.5)) {
    Com k = comOf(c);
    Vector3 com = c.m->get_com();
    ld tol = 1e-9L * c.scale() * 10;
    near_(com.x, k.com[0], tol, "com x after this history"); near_(com.y, k.com[1], tol, "com y after this history"); near_(com.z, k.com[2], tol, "com z after this history");
    M3 e = inertiaOf(c);
    Eigen::Matrix3d I = c.m->get_total_inertia_matrix();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(I(i, j), e.a[i][j], 1e-9L * c.scale() * c.scale() * 20, "total inertia after this history");
  }
  std::vector<size_t> ids;
  std::vector<double> w;
  for (int j : c.mov) { ids.push_back(c.jid[j]); w.push_back(c.q[j]); }
  if (c.m->get_joint_angles(ids) != w) fail("joint angles after this history");
}
static std::vector<double> g_lastwp;
static std::vector<double> waypoint(Ctx &c, Rng &g, const std::vector<int> &js, bool wb) {
  // often the previous waypoint again, with one entry changed or none
  std::vector<double> &last = g_lastwp;
  if (last.size() == js.size() + (wb ? 6 : 0) && g.p(0.4)) {
    if (!last.empty() && g.p(0.85)) last[g.below((int)last.size())] = rang(g);
    return last;
  }
  std::vector<double> r;
  for (size_t i = 0; i < js.size(); i++) r.push_back(rang(g));
  if (wb) { V3 a = rv(g), b = ra(g); for (int k = 0; k < 3; k++) r.push_back((double)a[k]); for (int k = 0; k < 3; k++) r.push_back((double)b[k]); }
  last = r;
  return r;
}
static void applyWp(Ctx &c, const std::vector<int> &js, const std::vector<double> &w, bool wb) {
  for (size_t i = 0; i < js.size(); i++) c.q[js[i]] = w[i];
  if (wb) {
    size_t n = w.size();
    c.bxyz = v3(w[n - 6], w[n - 5], w[n - 4]);
    c.brpy = v3(w[n - 3], w[n - 2], w[n - 1]);
    c.base = TF{rpyM(c.brpy), c.bxyz};
  }
}
static std::string wps(const std::vector<std::vector<double>> &w) {
  std::string o;
  for (auto &r : w) { o += "["; for (double x : r) o += fmt(" %.17g", x); o += " ]"; }
  return o;
}
static std::string idl(const std::vector<size_t> &v) { std::string o; for (size_t x : v) o += fmt(" %zu", x); return o; }

static void step(Ctx &c, Rng &g) {
  switch (g.below(16)) {
  case 0: c.setAngles(g); break;
  case 1: case 2: {
    auto js = c.jlist(g, false);
    std::vector<double> v;
    for (int j : js) { c.q[j] = rang(g); v.push_back(c.q[j]); }
    logl("set_joint_angles (subset)" + idl(c.jids(js)) + " " + wps({v}));
    c.m->set_joint_angles(c.jids(js), v);
    break;
  }
  case 3: case 4: if (!c.mov.empty()) { int j = c.mov[g.below((int)c.mov.size())]; c.q[j] = rang(g); logl(fmt("set_joint_angle %s %.17g", c.s.J[j].name.c_str(), c.q[j])); c.m->set_joint_angle(c.jid[j], c.q[j]); } break;
  case 5: c.setBase(g); break;
  case 6: logl("set_init_angles"); c.m->set_init_angles(); for (auto &x : c.q) x = 0; break;
  case 7: logl("clear_cache"); c.m->clear_cache(); break;
  case 8: c.addLink(g, g.p(0.3) ? (int)c.s.L.size() - 1 : -1); break;
  case 9: { int l = g.below((int)c.s.L.size()); logl("get_link_pose " + c.s.L[l].name); c.poseL(l); break; }
  case 10: { int l = g.below((int)c.s.L.size()); auto js = c.jlist(g); logl("get_jacobian " + c.s.L[l].name + idl(c.jids(js))); c.m->get_jacobian(c.lid[l], c.jids(js), rtype(g.below(3)), g.p(0.5)); break; }
  case 11: if (heavy(c)) { logl("get_com, get_com_jacobian, get_total_inertia_matrix"); auto js = c.jlist(g); c.m->get_com(); c.m->get_com_jacobian(c.jids(js), g.p(0.5)); c.m->get_total_inertia_matrix(); } break;
  case 12: {
    auto js = c.jlist(g, false);
    bool wb = g.p(0.5);
    std::vector<std::vector<double>> w;
    for (int i = 1 + g.below(3); i > 0; i--) w.push_back(waypoint(c, g, js, wb));
    std::vector<size_t> ls;
    for (int i = 1 + g.below(3); i > 0; i--) ls.push_back(c.lid[g.below((int)c.s.L.size())]);
    logl(fmt("solve_forward_kinematics base=%d links", wb) + idl(ls) + " joints" + idl(c.jids(js)) + " " + wps(w));
    c.m->solve_forward_kinematics(w, ls, c.jids(js), rtype(g.below(3)), wb, g.p(0.5), false);
    applyWp(c, js, w.back(), wb);
    break;
  }
  case 13: if (heavy(c)) {
    auto js = c.jlist(g, false);
    bool wb = g.p(0.5);
    std::vector<std::vector<double>> w;
    for (int i = 1 + g.below(3); i > 0; i--) w.push_back(waypoint(c, g, js, wb));
    logl(fmt("solve_com_forward_kinematics base=%d joints", wb) + idl(c.jids(js)) + " " + wps(w));
    c.m->solve_com_forward_kinematics(w, c.jids(js), {}, {}, wb, g.p(0.5));
    applyWp(c, js, w.back(), wb);
  } break;
  case 14: if (heavy(c)) {
    auto js = c.jlist(g, false);
    auto w = waypoint(c, g, js, false);
    logl("compute_total_inertia_matrix" + idl(c.jids(js)) + " " + wps({w}));
    c.m->compute_total_inertia_matrix(w, c.jids(js));
    applyWp(c, js, w, false);
  } break;
  default: {
    auto js = c.jlist(g, false);
    bool wb = g.p(0.5);
    std::vector<std::vector<double>> w;
    for (int i = 1 + g.below(3); i > 0; i--) w.push_back(waypoint(c, g, js, wb));
    std::vector<size_t> a, b;
    for (int i = 1 + g.below(3); i > 0; i--) { a.push_back(c.lid[g.below((int)c.s.L.size())]); b.push_back(c.lid[g.below((int)c.s.L.size())]); }
    logl(fmt("compute_inter_link_squared_dists base=%d", wb) + idl(a) + " |" + idl(b) + " joints" + idl(c.jids(js)) + " " + wps(w));
    c.m->compute_inter_link_squared_dists(w, a, b, c.jids(js), wb, g.p(0.5), false);
    applyWp(c, js, w.back(), wb);
  }
  }
}
static void C02(Rng &g) {
  Ctx c;
  c.s = gen(g, 8);
  c.build(g);
  int n = 3 + g.below(14);
  for (int t = 0; t < n; t++) {
    step(c, g);
    if (g.p(0.6)) cmpFresh(c, g, g.p(0.5));
  }
  cmpFresh(c, g, true);
}
// ------------------------------------------------------------------ C13
static void dataStructures(Rng &g) {
  size_t n = 1 + g.below(8);
  SizedStack<int> st(n);
  std::vector<int> ref;
  for (int t = 0; t < 60; t++) {
    if (g.p(0.5) && ref.size() < n) { int x = g.below(1000); st.push(x); ref.push_back(x); }
    else if (!ref.empty() && g.p(0.6)) { if (st.top() != ref.back()) fail("SizedStack::top"); st.pop(); ref.pop_back(); }
    else if (g.p(0.1)) { st.reset(); ref.clear(); }
    if (st.size() != ref.size() || st.empty() != ref.empty()) fail("SizedStack size");
    if (!ref.empty() && st.top() != ref.back()) fail("SizedStack::top");
  }
  n = g.below(6);
  SizedCache<double> ca(n);
  std::map<size_t, double> mp;
  for (int t = 0; t < 60; t++) {
    int k = g.below(12);
    if (k == 0) { ca.extend(); n++; mp.clear(); }
    else if (k == 1) { ca.clear(); mp.clear(); }
    else if (n && k < 8) { size_t i = g.below((int)n); double x = g.f(); ca.set_cache(i, x); mp[i] = x; }
    for (size_t i = 0; i < n; i++) {
      const double *p = ca.get_cache(i);
      auto it = mp.find(i);
      if ((p != nullptr) != (it != mp.end())) fail("SizedCache: presence of an entry");
      if (p && *p != it->second) fail("SizedCache: value of an entry");
    }
  }
}
static void C13(Rng &g) {
  dataStructures(g);
  Ctx c;
  c.s = gen(g, 10);
  c.build(g);
  int n = 3 + g.below(8);
  for (int t = 0; t < n; t++) step(c, g);
  int deep = g.p(0.5) ? 3 + g.below(12) : 0;
  int last = g.below((int)c.s.L.size());
  for (int i = 0; i < deep; i++) last = c.addLink(g, last);
  for (int t = 0; t < 4; t++) step(c, g);
  c.m->clear_cache();
  for (size_t l = c.s.L.size(); l-- > 0;) { c.poseL((int)l); if (g.p(0.3)) c.m->clear_cache(); }
  for (size_t i = 0; i < c.m->links_.size(); i++) { Transform t; c.m->get_link_pose(i, t); c.m->get_jacobian(i, c.jids(c.jlist(g)), rtype(g.below(3)), g.p(0.5)); }
  c.m->get_joint_position_limits(c.jids(c.mov)); c.m->get_joint_velocity_limits(c.jids(c.mov)); c.m->get_joint_effort_limits(c.jids(c.mov));
}
// ------------------------------------------------------------------ C17
static Rotation rquat(Rng &g) {
  ld x[4], n = 0;
  do { n = 0; for (int i = 0; i < 4; i++) { x[i] = g.p(0.2) ? 0 : g.r(-1, 1); n += x[i] * x[i]; } } while (n < 0.05);
  n = sqrtl(n);
  return Rotation((double)(x[0] / n), (double)(x[1] / n), (double)(x[2] / n), (double)(x[3] / n));
}
static void cmpR(const Rotation &a, const Rotation &b, ld tol, const char *w) { near_(a.x, b.x, tol, fmt("%s x", w)); near_(a.y, b.y, tol, fmt("%s y", w)); near_(a.z, b.z, tol, fmt("%s z", w)); near_(a.w, b.w, tol, fmt("%s w", w)); }
static void cmpV(const Vector3 &a, V3 b, ld tol, const char *w) { near_(a.x, b[0], tol, fmt("%s x", w)); near_(a.y, b[1], tol, fmt("%s y", w)); near_(a.z, b[2], tol, fmt("%s z", w)); }
static M3 qM(const Rotation &r) { return quatM(r.x, r.y, r.z, r.w); }
static void cmpM(const M3 &a, const M3 &b, ld tol, const char *w) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(a.a[i][j], b.a[i][j], tol, fmt("%s (%d,%d)", w, i, j)); }
static V3 vv(const Vector3 &a) { return v3(a.x, a.y, a.z); }
static void C17(Rng &g) {
  const ld e = 1e-12L;
  Rotation a = rquat(g), b = rquat(g), c = rquat(g);
  Vector3 v(rnum(g), rnum(g), rnum(g)), u(rnum(g), rnum(g), rnum(g));
  logl(fmt("a %.17g %.17g %.17g %.17g b %.17g %.17g %.17g %.17g v %.17g %.17g %.17g", a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w, v.x, v.y, v.z));
  cmpR((a * b) * c, a * (b * c), e, "associativity");
  cmpM(qM(a * b), mm(qM(a), qM(b)), e * 10, "product of rotations");
  cmpV(a * v, mv(qM(a), vv(v)), e * 10, "rotated vector");
  cmpV((a * b) * v, vv(a * (b * v)), e * 10, "rotation by a product");
  cmpR(a * a.inverse(), Rotation(0, 0, 0, 1), e, "a * inverse");
  cmpR(a.GetInverse() * a, Rotation(0, 0, 0, 1), e, "GetInverse * a");
  Rotation ai = a; ai.inverse_inplace();
  cmpR(ai, a.inverse(), 0, "inverse_inplace");
  Rotation id;
  cmpR(id * a, a, 0, "identity * a"); cmpR(a * id, a, 0, "a * identity");
  Rotation ab = a * b;
  near_((ld)ab.x * ab.x + (ld)ab.y * ab.y + (ld)ab.z * ab.z + (ld)ab.w * ab.w, 1, e, "norm of a product");
  Vector3 av = a * v;
  near_(dot(vv(av), vv(av)), dot(vv(v), vv(v)), e * 20, "length of a rotated vector");
  Vector3 cr; urdf::cross_product(v, u, cr);
  cmpV(cr, crs(vv(v), vv(u)), e * 10, "cross product");
  double sc = g.r(0.1, 9);
  Rotation nq(a.x * sc, a.y * sc, a.z * sc, a.w * sc); nq.normalize();
  cmpR(nq, a, e, "normalize");
  Rotation fq; fq.setFromQuaternion(a.x * sc, a.y * sc, a.z * sc, a.w * sc);
  cmpR(fq, a, e, "setFromQuaternion");
  Rotation zq(0, 0, 0, 0); zq.normalize(); cmpR(zq, Rotation(0, 0, 0, 1), 0, "normalize zero");
  V3 r = v3(rang(g), rang(g), rang(g));
  Rotation fr; fr.setFromRPY((double)r[0], (double)r[1], (double)r[2]);
  logl("rpy " + v3s(r));
  cmpM(qM(fr), rpyM(r), e * 10, "setFromRPY");
  near_((ld)fr.x * fr.x + (ld)fr.y * fr.y + (ld)fr.z * fr.z + (ld)fr.w * fr.w, 1, e, "norm of setFromRPY");
  for (int k = 0; k < 2; k++) {
    const Rotation &t = k ? fr : a;
    V3 p = rpyOf(qM(t));
    if (absl_(p[1]) < 1.56) {
      Vector3 x = t.getRPY();
      double rr, pp, yy; t.getRPY(rr, pp, yy);
      near_(rr, x.x, 0, "getRPY variants"); near_(pp, x.y, 0, "getRPY variants"); near_(yy, x.z, 0, "getRPY variants");
      cmpM(rpyM(vv(x)), qM(t), 1e-9L, "getRPY");
    }
  }
  Transform A, B, C; A.rotation = a; B.rotation = b; C.rotation = c;
  A.position = v; B.position = u; C.position = Vector3(rnum(g), rnum(g), rnum(g));
  Transform l = pose_transform(pose_transform(A, B), C), m = pose_transform(A, pose_transform(B, C));
  cmpR(l.rotation, m.rotation, e, "pose associativity"); cmpV(l.position, vv(m.position), e * 20, "pose associativity");
  TF t = comp(tfOf(A), tfOf(B)), s = tfOf(pose_transform(A, B));
  cmpM(s.R, t.R, e * 10, "pose product"); for (int i = 0; i < 3; i++) near_(s.p[i], t.p[i], e * 20, "pose product position");
  Transform I = pose_transform(A, A.inverse()), K = pose_transform(A.inverse(), A);
  cmpV(I.position, v3(0, 0, 0), e * 20, "pose * inverse"); cmpR(I.rotation, id, e, "pose * inverse");
  cmpV(K.position, v3(0, 0, 0), e * 20, "inverse * pose"); cmpR(K.rotation, id, e, "inverse * pose");
  Transform E;
  l = pose_transform(E, A); cmpR(l.rotation, a, 0, "identity pose"); cmpV(l.position, vv(v), 0, "identity pose");
  l = pose_transform(A, E); cmpR(l.rotation, a, 0, "identity pose"); cmpV(l.position, vv(v), 0, "identity pose");
  // joint motions
  urdf::Joint j; V3 ax = raxis(g); j.axis = Vector3((double)ax[0], (double)ax[1], (double)ax[2]); double th = rang(g);
  j.type = urdf::Joint::REVOLUTE; cmpM(tfOf(j.transform(th)).R, axang(ax, th), e * 10, "revolute motion"); cmpV(j.transform(th).position, v3(0, 0, 0), 0, "revolute motion");
  j.type = urdf::Joint::CONTINUOUS; cmpM(tfOf(j.transform(th)).R, axang(ax, th), e * 10, "continuous motion");
  j.type = urdf::Joint::PRISMATIC; cmpM(tfOf(j.transform(th)).R, eye(), 0, "prismatic motion"); cmpV(j.transform(th).position, (ld)th * ax, e * 30, "prismatic motion");
  // vector operators
  cmpV(v + u, vv(v) + vv(u), e, "vector sum"); cmpV(v - u, vv(v) - vv(u), e, "vector difference"); cmpV(v / 4.0, 0.25L * vv(v), e, "vector / scalar");
  near_(v[0], v.x, 0, "index 0"); near_(v[1], v.y, 0, "index 1"); near_(v[2], v.z, 0, "index 2");
}
// ------------------------------------------------------------------ batch calls
static void setState(Ctx &c, PyM &f, const std::vector<int> &js, const std::vector<double> &w, bool wb) {
  (void)c;
  std::vector<size_t> ids = c.jids(js);
  std::vector<double> v(w.begin(), w.begin() + js.size());
  f.set_joint_angles(ids, v);
  if (wb) { size_t n = w.size(); f.KinematicModel::set_base_pose(poseOf(v3(w[n - 6], w[n - 5], w[n - 4]), v3(w[n - 3], w[n - 2], w[n - 1]))); }
  f.clear_cache();
}
struct Batch { std::vector<int> js; bool wb; std::vector<std::vector<double>> w; std::vector<int> L; };
static Batch batch(Ctx &c, Rng &g) {
  Batch b;
  b.js = c.jlist(g, true);
  b.wb = g.p(0.5);
  int n = g.p(0.08) ? 0 : 1 + g.below(4);
  for (int i = 0; i < n; i++) b.w.push_back(g.p(0.15) && i ? b.w.back() : waypoint(c, g, b.js, b.wb));
  int k = g.p(0.05) ? 0 : 1 + g.below(4);
  for (int i = 0; i < k; i++) b.L.push_back(g.below((int)c.s.L.size()));
  return b;
}
// a second model in the state of c
static std::unique_ptr<PyM> twin(Ctx &c) {
  std::unique_ptr<PyM> f(new PyM(c.text));
  for (auto &l : c.s.L) if (l.extra) f->KinematicModel::add_new_link(l.name, f->get_link_ids({c.s.L[l.parent].name})[0], l.offT);
  std::vector<size_t> ids; std::vector<double> v;
  for (int j : c.mov) { ids.push_back(c.jid[j]); v.push_back(c.q[j]); }
  f->set_joint_angles(ids, v);
  f->KinematicModel::set_base_pose(c.m->base_pose_);
  return f;
}
static void C18(Rng &g) {
  Ctx c;
  mk(c, g, 8, 0.4);
  for (int rep = 0; rep < 3; rep++) {
    Batch b = batch(c, g);
    int rt = g.below(3);
    bool wj = g.p(0.7);
    bool uc = rep == 2 && g.p(0.0);
    std::vector<size_t> ls; for (int l : b.L) ls.push_back(c.lid[l]);
    auto f = twin(c);
    logl(fmt("solve_forward_kinematics rot=%d base=%d jac=%d links", rt, b.wb, wj) + idl(ls) + " joints" + idl(c.jids(b.js)) + " " + wps(b.w));
    auto r = c.m->solve_forward_kinematics(b.w, ls, c.jids(b.js), rtype(rt), b.wb, wj, uc);
    long d = rt == 0 ? 3 : rt == 1 ? 6 : 7, nl = ls.size(), nw = b.w.size();
    if (r[0].rows() != nw * nl || r[0].cols() != d) fail(fmt("size of the pose matrix %ldx%ld", (long)r[0].rows(), (long)r[0].cols()));
    if (r[1].rows() != nw * nl * d || r[1].cols() != (long)b.js.size() + (b.wb ? 6 : 0)) fail("size of the jacobian matrix");
    for (long i = 0; i < nw; i++) {
      setState(c, *f, b.js, b.w[i], b.wb);
      for (long j = 0; j < nl; j++) {
        Transform t; f->get_link_pose(ls[j], t);
        Eigen::MatrixXd e(1, d);
        e(0, 0) = t.position.x; e(0, 1) = t.position.y; e(0, 2) = t.position.z;
        Eigen::MatrixXd row = r[0].row(i * nl + j);
        bool ok = true;
        if (rt == 1) {
          V3 p = rpyOf(quatM(t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w));
          for (int k = 0; k < 3; k++) { e(0, 3 + k) = (double)p[k]; if (k != 1) row(0, 3 + k) = (double)(p[k] + wrap((ld)row(0, 3 + k) - p[k])); }
          ok = absl_(p[1]) < 1.4;
          if (!ok) { e = e.leftCols(3).eval(); row = row.leftCols(3).eval(); }
        }
        if (rt == 2) { e(0, 3) = t.rotation.x; e(0, 4) = t.rotation.y; e(0, 5) = t.rotation.z; e(0, 6) = t.rotation.w; }
        cmpMat(row, e, 1e-9L * c.scale() * 10, fmt("pose of waypoint %ld link %ld", i, j));
        if (!wj) continue;
        Eigen::MatrixXd J = f->get_jacobian(ls[j], c.jids(b.js), rtype(rt), b.wb), R = r[1].block((i * nl + j) * d, 0, d, r[1].cols());
        Rotation br = f->base_pose_.rotation;
        V3 eb = rpyOf(quatM(br.x, br.y, br.z, br.w));
        if ((b.wb && absl_(eb[1]) > 1.4) || !ok) continue;
        cmpMat(R, J, 1e-4L * c.scale(), fmt("jacobian block of waypoint %ld link %ld", i, j));
        Eigen::MatrixXd Ja = J.leftCols(b.js.size()), Ra = R.leftCols(b.js.size());
        cmpMat(Ra, Ja, 1e-8L * c.scale(), fmt("jacobian block of waypoint %ld link %ld", i, j));
      }
    }
    if (nw) { applyWp(c, b.js, b.w.back(), b.wb); c.basePose = c.m->base_pose_; }
    if (g.p(0.4)) c.setAngles(g);
    if (g.p(0.3)) c.setBase(g);
  }
}
static void C19(Rng &g) {
  Ctx c;
  mk(c, g, 8, 0.4);
  for (int rep = 0; rep < 3; rep++) {
    Batch b = batch(c, g);
    std::vector<size_t> l1, l2;
    for (int l : b.L) { l1.push_back(c.lid[l]); l2.push_back(c.lid[g.below((int)c.s.L.size())]); }
    bool wg = g.p(0.7);
    auto f = twin(c);
    logl(fmt("compute_inter_link_squared_dists base=%d grads=%d", b.wb, wg) + idl(l1) + " |" + idl(l2) + " joints" + idl(c.jids(b.js)) + " " + wps(b.w));
    auto r = c.m->compute_inter_link_squared_dists(b.w, l1, l2, c.jids(b.js), b.wb, wg, false);
    long nl = l1.size(), nw = b.w.size();
    if (r.first.size() != nw * nl) fail("number of distances");
    if (wg && (r.second.rows() != nw * nl || r.second.cols() != (long)b.js.size() + (b.wb ? 6 : 0))) fail("size of the gradients");
    for (long i = 0; i < nw; i++) {
      setState(c, *f, b.js, b.w[i], b.wb);
      for (long j = 0; j < nl; j++) {
        Transform t1, t2; f->get_link_pose(l1[j], t1); f->get_link_pose(l2[j], t2);
        V3 d = v3(t1.position.x, t1.position.y, t1.position.z) - v3(t2.position.x, t2.position.y, t2.position.z);
        near_(r.first(i * nl + j), dot(d, d), 1e-9L * c.scale() * c.scale(), fmt("distance of waypoint %ld pair %ld", i, j));
        if (!wg) continue;
        Eigen::MatrixXd J = f->get_jacobian(l1[j], c.jids(b.js), RotationType::IGNORE, b.wb) - f->get_jacobian(l2[j], c.jids(b.js), RotationType::IGNORE, b.wb);
        Rotation br = f->base_pose_.rotation;
        V3 eb = rpyOf(quatM(br.x, br.y, br.z, br.w));
        long ncols = (long)b.js.size() + (b.wb ? 6 : 0);
        if (b.wb && absl_(eb[1]) > 1.4) ncols -= 6;
        for (long k = 0; k < ncols; k++) {
          ld e = 2 * ((ld)J(0, k) * d[0] + (ld)J(1, k) * d[1] + (ld)J(2, k) * d[2]);
          near_(r.second(i * nl + j, k), e, (k < (long)b.js.size() ? 1e-8L : 1e-4L) * c.scale() * c.scale(), fmt("gradient of waypoint %ld pair %ld column %ld", i, j, k));
        }
      }
    }
    if (nw) { applyWp(c, b.js, b.w.back(), b.wb); }
    if (g.p(0.4)) c.setAngles(g);
    if (g.p(0.3)) c.setBase(g);
  }
}
static void C20(Rng &g) {
  Ctx c;
  do { c.s = gen(g, 8, 0.7); } while (!heavy(c));
  c.build(g);
  if (g.p(0.4)) c.addLink(g);
  if (!g.p(0.1)) c.setAngles(g);
  if (!g.p(0.3)) c.setBase(g);
  for (int rep = 0; rep < 3; rep++) {
    Batch b = batch(c, g);
    if (g.p(0.25)) b.L.clear();
    std::vector<size_t> ls; std::vector<double> fo;
    for (int l : b.L) { ls.push_back(c.lid[l]); fo.push_back(g.r(0, 8)); }
    bool wj = g.p(0.7);
    auto f = twin(c);
    logl(fmt("solve_com_forward_kinematics base=%d jac=%d acting", b.wb, wj) + idl(ls) + " forces" + wps({fo}) + " joints" + idl(c.jids(b.js)) + " " + wps(b.w));
    auto r = c.m->solve_com_forward_kinematics(b.w, c.jids(b.js), ls, fo, b.wb, wj);
    long nw = b.w.size(), nc = (long)b.js.size() + (b.wb ? 6 : 0);
    if (r[0].rows() != nw || r[0].cols() != 3 || r[1].rows() != 3 * nw || r[1].cols() != nc) fail("sizes of the result");
    ld tot = 0; for (auto &l : c.s.L) if (l.inert) tot += l.mass;
    for (long i = 0; i < nw; i++) {
      setState(c, *f, b.js, b.w[i], b.wb);
      Vector3 k = f->get_com();
      V3 num = vv(k); ld den = 1;
      Eigen::MatrixXd J = f->get_com_jacobian(c.jids(b.js), b.wb);
      for (size_t j = 0; j < ls.size(); j++) {
        ld w = fo[j] / tot;
        Transform t; f->get_link_pose(ls[j], t);
        num = num + w * v3(t.position.x, t.position.y, t.position.z); den += w;
        J += (double)w * f->get_jacobian(ls[j], c.jids(b.js), RotationType::IGNORE, b.wb);
      }
      J /= (double)den;
      for (int x = 0; x < 3; x++) near_(r[0](i, x), num[x] / den, 1e-9L * c.scale() * 10, fmt("com of waypoint %ld [%d]", i, x));
      if (!wj) continue;
      Rotation br = f->base_pose_.rotation;
      V3 eb = rpyOf(quatM(br.x, br.y, br.z, br.w));
      for (int x = 0; x < 3; x++) for (long y = 0; y < nc; y++) {
        bool bc = y >= (long)b.js.size();
        if (bc && absl_(eb[1]) > 1.4) continue;
        near_(r[1](3 * i + x, y), J(x, y), (bc ? 1e-4L : 1e-8L) * c.scale(), fmt("com jacobian of waypoint %ld (%d,%ld)", i, x, y));
      }
    }
    if (nw) applyWp(c, b.js, b.w.back(), b.wb);
    auto js = c.jlist(g, true);
    auto w = waypoint(c, g, js, false);
    auto f2 = twin(c);
    Eigen::Matrix3d I = c.m->compute_total_inertia_matrix(w, c.jids(js));
    logl("compute_total_inertia_matrix" + idl(c.jids(js)) + " " + wps({w}));
    setState(c, *f2, js, w, false);
    Eigen::Matrix3d E = f2->get_total_inertia_matrix();
    for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) near_(I(x, y), E(x, y), 1e-9L * c.scale() * c.scale() * 20, fmt("inertia (%d,%d)", x, y));
    applyWp(c, js, w, false);
  }
}
#include "urdf_cases.inc"

// the inputs of the known finding of C15: elements of a link that are malformed must make the link rejected
static void F12(Rng &) {
  const char *x[] = {"<robot name=\"r\"><link name=\"a\"><inertial><mass value=\"1x\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial></link></robot>",
                     "<robot name=\"r\"><link name=\"a\"><inertial><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\"/></inertial></link></robot>",
                     "<robot name=\"r\"><link/></robot>"};
  for (auto t : x)
    if (urdf::parseURDF(t)) throw Fail{"accepted although a link is malformed: " + std::string(t)};
}

// ------------------------------------------------------------------ driver
typedef void (*Case)(Rng &);
static const std::map<std::string, Case> CASES = {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C16", C16}, {"C17", C17}, {"C18", C18}, {"C19", C19}, {"C20", C20}, {"F12", F12}};

static bool run_case(const std::string &p, uint64_t seed, long i, std::string &msg, std::string &log) {
  std::ostringstream o;
  g_log = &o;
  g_lastwp.clear();
  Rng g(seed * 1000003ULL + (uint64_t)i * 7919ULL + std::hash<std::string>()(p) % 1000);
  for (int k = 0; k < 3; k++) g.u();
  try {
    CASES.at(p)(g);
  } catch (Fail &f) {
    msg = f.msg; log = o.str(); return false;
  } catch (std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what(); log = o.str(); return false;
  }
  log = o.str();
  return true;
}

static char *g_shared; // progress and log of the running case, readable after a crash
static const size_t SH = 1 << 20;

int main(int argc, char **argv) {
  if (argc < 6) { fprintf(stderr, "usage: oracle property seed first cases replay-file\n"); return 2; }
  std::string p = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  long first = atol(argv[3]), n = atol(argv[4]);
  if (!CASES.count(p)) { fprintf(stderr, "unknown property\n"); return 2; }
  g_shared = (char *)mmap(nullptr, SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile long *prog = (volatile long *)g_shared;
  prog[0] = first;
  prog[1] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    for (long i = first; i < first + n; i++) {
      prog[0] = i;
      alarm(20);
      std::string msg, log;
      if (!run_case(p, seed, i, msg, log)) {
        std::string t = "property " + p + "\nseed " + std::to_string(seed) + "\ncase " + std::to_string(i) + "\nfailure " + msg + "\n" + log;
        if (t.size() > SH - 64) t.resize(SH - 64);
        memcpy(g_shared + 32, t.c_str(), t.size() + 1);
        prog[1] = 1;
        _exit(1);
      }
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("OK %ld cases\n", n); return 0; }
  std::string t;
  if (prog[1] == 1) t = g_shared + 32;
  else {
    std::string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "no termination within 20 s" : fmt("crash (signal %d)", WTERMSIG(st))) : fmt("abnormal end (status %d, memory or undefined-behaviour error)", WEXITSTATUS(st));
    t = "property " + p + "\nseed " + std::to_string(seed) + "\ncase " + std::to_string(prog[0]) + "\nfailure " + how + "\n";
  }
  FILE *f = fopen(argv[5], "w");
  if (f) { fputs(t.c_str(), f); fclose(f); }
  std::string line = t.substr(t.find("failure ") + 8);
  printf("FAIL case=%ld %s\n", (long)prog[0], line.substr(0, line.find('\n')).c_str());
  return 1;
}
