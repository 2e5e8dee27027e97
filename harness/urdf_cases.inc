// Cases for C14, C15, C16: acceptance of robots, attributes and fields, export and reparse.

// ------------------------------------------------------------------ C14
struct LinkT { std::string name, body; };
struct JointT { std::string name, type, parent, child, rest; };
struct RobotT { std::string head = "<robot name=\"r\">", tail = "</robot>"; std::vector<LinkT> L; std::vector<JointT> J; std::string extra; };
static std::string robotXml(const RobotT &r, Rng &g, bool shuffle = true) {
  std::vector<std::string> parts;
  for (auto &l : r.L) parts.push_back("<link name=\"" + l.name + "\">" + l.body + "</link>\n");
  for (auto &j : r.J) {
    std::string s = "<joint";
    if (j.name != "-") s += " name=\"" + j.name + "\"";
    if (j.type != "-") s += " type=\"" + j.type + "\"";
    s += ">";
    if (j.parent != "-") s += "<parent link=\"" + j.parent + "\"/>";
    if (j.child != "-") s += "<child link=\"" + j.child + "\"/>";
    parts.push_back(s + j.rest + "</joint>\n");
  }
  if (shuffle) for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[g.below((int)i)]);
  std::string o = r.head + "\n" + r.extra;
  for (auto &p : parts) o += p;
  return o + r.tail + "\n";
}
static const char *LIM = "<limit lower=\"-1\" upper=\"1\" effort=\"2\" velocity=\"3\"/>";
static RobotT goodRobot(Rng &g, std::vector<int> *par = nullptr) {
  RobotT r;
  int n = 1 + g.below(9);
  int style = g.below(3);
  auto ln = [&](int i) { return style == 0 ? fmt("l%d", i) : style == 1 ? fmt("z%02d", 40 - i) : fmt("%c%d", 'a' + (i * 7) % 26, i); };
  for (int i = 0; i < n; i++) {
    r.L.push_back({ln(i), ""});
    if (!i) continue;
    int p = g.p(0.4) ? i - 1 : g.below(i);
    if (par) par->push_back(p);
    const char *t[] = {"revolute", "continuous", "prismatic", "fixed"};
    r.J.push_back({style == 0 ? fmt("j%d", i) : fmt("%c_%d", 'a' + g.below(26), i), t[g.below(4)], ln(p), ln(i), LIM});
  }
  if (g.p(0.2)) r.head = "<robot name=\"r\" version=\"1.0\">";
  if (g.p(0.2)) r.extra = "<material name=\"m1\"><color rgba=\"0 0 0 1\"/></material>\n<material name=\"m2\"><color rgba=\"0 0 1 1\"/></material>\n";
  return r;
}
// one tree over all links, with consistent pointers
static void checkTree(const urdf::ModelInterface &m) {
  if (!m.root_link_) fail("accepted model has no root");
  if (m.links_.empty()) fail("accepted model has no link");
  size_t roots = 0;
  for (auto &kv : m.links_) {
    auto &l = kv.second;
    if (l->name != kv.first) fail("link stored under another name");
    auto p = l->getParent();
    if (!p) {
      roots++;
      if (l != m.root_link_) fail("link " + l->name + " has no parent and is not the root");
      if (l->parent_joint) fail("root has a parent joint");
    } else {
      if (!l->parent_joint) fail("link " + l->name + " has a parent link and no parent joint");
      if (l->parent_joint->child_link_name != l->name || l->parent_joint->parent_link_name != p->name) fail("parent joint of " + l->name + " names other links");
      if (std::count(p->child_links.begin(), p->child_links.end(), l) != 1) fail("parent of " + l->name + " does not list it exactly once");
      if (std::count(p->child_joints.begin(), p->child_joints.end(), l->parent_joint) != 1) fail("parent of " + l->name + " does not list its joint exactly once");
    }
    if (l->child_links.size() != l->child_joints.size()) fail("link " + l->name + " has different numbers of child links and joints");
    size_t d = 0;
    for (auto x = l; x != m.root_link_; x = x->getParent()) {
      if (!x || d++ > m.links_.size()) fail("link " + l->name + " is not reachable from the root");
    }
    size_t pj = 0;
    for (auto &jv : m.joints_) if (jv.second->child_link_name == l->name) pj++;
    if (pj != (p ? 1u : 0u)) fail(fmt("link %s is the child of %zu joints", l->name.c_str(), pj));
  }
  if (roots != 1) fail(fmt("%zu roots", roots));
  for (auto &jv : m.joints_) {
    if (jv.second->name != jv.first) fail("joint stored under another name");
    if (!m.links_.count(jv.second->parent_link_name) || !m.links_.count(jv.second->child_link_name)) fail("joint " + jv.first + " refers to a link that does not exist");
  }
  if (m.joints_.size() + 1 != m.links_.size()) fail("number of joints and links do not fit a tree");
}
// true: accepted (and checked)
static bool construct(const std::string &x) {
  logl("URDF:\n" + x);
  std::unique_ptr<KinematicModel> m;
  try {
    m.reset(new KinematicModel(x));
  } catch (std::exception &e) {
    logl(std::string("rejected: ") + e.what());
    return false;
  } catch (...) {
    fail("an exception that is not a std::exception");
  }
  auto u = urdf::parseURDF(x);
  if (!u) fail("constructor accepted what the parser rejects");
  checkTree(*u);
  for (auto &j : m->joints_) {
    if (j->type != urdf::Joint::REVOLUTE && j->type != urdf::Joint::CONTINUOUS && j->type != urdf::Joint::PRISMATIC) fail("movable joint " + j->name + " of unsupported type");
    auto cl = j->getChildLink();
    if (!cl) fail("movable joint " + j->name + " without child link");
    if (cl->name != j->child_link_name) fail("movable joint " + j->name + " has the child link " + cl->name);
  }
  size_t movable = 0;
  for (auto &jv : u->joints_) {
    auto t = jv.second->type;
    if (t == urdf::Joint::FIXED) continue;
    movable++;
    if (t != urdf::Joint::REVOLUTE && t != urdf::Joint::CONTINUOUS && t != urdf::Joint::PRISMATIC) fail("accepted joint of unsupported type");
    if (!m->joint_ids_.count(jv.first)) fail("movable joint " + jv.first + " is not in the model");
  }
  if (movable != m->joints_.size()) fail("number of movable joints");
  if (m->links_.size() != u->links_.size()) fail("number of links");
  return true;
}
static void C14(Rng &g) {
  int k = g.below(34);
  RobotT r = goodRobot(g);
  size_t n = r.L.size();
  auto anyL = [&]() { return g.below((int)n); };
  std::string what;
  bool raw = false;
  std::string x;
  while (r.J.empty() && k >= 2 && k < 28 && !(k >= 3 && k <= 8)) { r = goodRobot(g); n = r.L.size(); }
  size_t j = r.J.empty() ? 0 : g.below((int)r.J.size());
  switch (k) {
  case 0: case 1: {
    if (!construct(robotXml(r, g))) fail("a well-formed robot is rejected");
    return;
  }
  case 2: what = "malformed XML (missing end tag)"; r.tail = g.p(0.5) ? "" : "</robo>"; break;
  case 3: what = "no robot element"; r.head = "<robots name=\"r\">"; r.tail = "</robots>"; break;
  case 4: what = "robot without a name"; r.head = "<robot>"; break;
  case 5: { const char *v[] = {"2.0", "1.1", "0.9", "1", "1.0.0", "a.b", "", "1.x", "257.0", "1.256", "-1.0", "65537.0", "4294967297.0", "1.0 ", "01.00x", ".", "1."};
    int q = g.below(17); what = std::string("version ") + v[q]; r.head = std::string("<robot name=\"r\" version=\"") + v[q] + "\">"; break; }
  case 6: what = "no link"; r.L.clear(); r.J.clear(); break;
  case 7: what = "empty text"; raw = true; x = g.p(0.5) ? "" : "   \n"; break;
  case 8: what = "not XML"; raw = true; x = g.p(0.5) ? "robot.urdf" : "<robot name=\"r\"><link name=\"a\"/>"; break;
  case 9: what = "duplicate link name"; r.L.push_back(r.L[anyL()]); break;
  case 10: { what = "duplicate joint name"; RobotT q = r; int a = (int)n; JointT d = r.J[j]; r.L.push_back({fmt("extra%d", a), ""}); d.child = fmt("extra%d", a); r.J.push_back(d); break; }
  case 11: what = "parent link does not exist"; r.J[j].parent = "nowhere"; break;
  case 12: what = "child link does not exist"; r.J[j].child = "nowhere"; break;
  case 13: what = "joint without parent"; r.J[j].parent = "-"; break;
  case 14: what = "joint without child"; r.J[j].child = "-"; break;
  case 15: what = "two roots"; r.J.erase(r.J.begin() + j); break;
  case 16: what = "two roots (a lone link)"; r.L.push_back({g.p(0.5) ? "aaa" : "zzz", ""}); break;
  case 17: { what = "two parent joints"; JointT d = r.J[j]; d.name = g.p(0.5) ? "aa" : "zz"; d.parent = r.L[anyL()].name; r.J.push_back(d); break; }
  case 18: { what = "cycle apart from the root"; int c = 1 + g.below(4); bool first = g.p(0.5);
    auto cn = [&](int i) { return fmt("%s%d", first ? "AA" : "zzc", i); };
    for (int i = 0; i < c; i++) { r.L.push_back({cn(i), ""}); r.J.push_back({fmt("%s%d", g.p(0.5) ? "AAj" : "zzj", i), "fixed", cn(i), cn((i + 1) % c), ""}); } break; }
  case 19: { what = "cycle through the root"; r.J.push_back({g.p(0.5) ? "AAj" : "zzj", "fixed", r.L[anyL()].name, r.L[0].name, ""}); break; }
  case 20: { const char *t[] = {"floating", "planar"}; r.J[j].type = t[g.below(2)]; what = r.J[j].type + " joint"; break; }
  case 21: { const char *t[] = {"hinge", "", "Revolute", "revolute ", "fixe", "-"}; r.J[j].type = t[g.below(6)]; what = "joint type '" + r.J[j].type + "'"; break; }
  case 22: what = "joint without a name"; r.J[j].name = "-"; break;
  case 23: r.J[j].type = g.p(0.5) ? "revolute" : "prismatic"; r.J[j].rest = ""; what = "no limit element on a " + r.J[j].type + " joint"; break;
  case 24: { const char *t[] = {"<origin xyz=\"0 0\"/>", "<origin xyz=\"0 0 0 0\"/>", "<origin xyz=\"a 0 0\"/>", "<origin rpy=\"0 0\"/>", "<origin rpy=\"0 0 1x\"/>", "<origin xyz=\"\"/>", "<origin rpy=\"0,0,0\"/>"}; int q = g.below(7); r.J[j].rest += t[q]; what = std::string("malformed ") + t[q]; break; }
  case 25: { const char *t[] = {"<limit lower=\"x\" upper=\"1\" effort=\"1\" velocity=\"1\"/>", "<limit lower=\"0\" upper=\"1x\" effort=\"1\" velocity=\"1\"/>", "<limit lower=\"0\" upper=\"1\" effort=\"\" velocity=\"1\"/>", "<limit lower=\"0\" upper=\"1\" effort=\"1\" velocity=\"1e\"/>", "<limit lower=\"0\" upper=\"1\" velocity=\"1\"/>", "<limit lower=\"0\" upper=\"1\" effort=\"1\"/>"}; int q = g.below(6); r.J[j].rest = t[q]; what = std::string("malformed ") + t[q]; break; }
  case 26: { const char *t[] = {"<axis xyz=\"0 0\"/>", "<axis xyz=\"0 0 1 1\"/>", "<axis xyz=\"z\"/>"}; int q = g.below(3); if (r.J[j].type == "fixed") r.J[j].type = "continuous"; r.J[j].rest += t[q]; what = std::string("malformed ") + t[q]; break; }
  case 27: { const char *t[] = {"<dynamics/>", "<dynamics damping=\"x\"/>", "<safety_controller k_position=\"1\"/>", "<mimic/>", "<mimic joint=\"a\" multiplier=\"q\"/>", "<calibration rising=\"u\"/>", "<mimic multiplier=\"2\" offset=\"1\"/>", "<safety_controller k_velocity=\"?\"/>", "<calibration falling=\"1 2\"/>", "<dynamics friction=\"\"/>"}; int q = g.below(10); r.J[j].rest += t[q]; what = std::string("malformed ") + t[q]; break; }
  case 28: what = "duplicate material"; r.extra = "<material name=\"m\"><color rgba=\"0 0 0 1\"/></material>\n<material name=\"m\"><color rgba=\"0 0 1 1\"/></material>\n"; break;
  default: { // random edits of the text: reject with an exception or accept a tree
    std::string t = robotXml(r, g);
    int m = 1 + g.below(4);
    for (int i = 0; i < m; i++) {
      size_t a = g.below((int)t.size() + 1), b = g.below((int)t.size() + 1);
      if (a > b) std::swap(a, b);
      if (b - a > 60) b = a + g.below(60);
      switch (g.below(5)) {
      case 0: t.erase(a, b - a); break;
      case 1: t.insert(g.below((int)t.size() + 1), t.substr(a, b - a)); break;
      case 2: if (a < t.size()) t[a] = (char)(1 + g.below(255)); break;
      case 3: t = t.substr(0, b); break;
      default: { const char *w[] = {"link", "joint", "name", "type", "fixed", "parent", "<", ">", "/", "\"", "&#", "<!--", "-->", "<![CDATA[", "<?xml", "1e400", "nan"}; t.insert(a, w[g.below(17)]); }
      }
    }
    construct(t);
    return;
  }
  }
  if (!raw) x = robotXml(r, g);
  if (construct(x)) fail("accepted: " + what);
}

// ------------------------------------------------------------------ C15
struct Num { std::string text; double v; bool ok; };
static Num rndNum(Rng &g, double pbad = 0.02) {
  if (g.p(pbad)) {
    const char *b[] = {"", "x", "1x", "1e", "--1", "1 ", "0x10", "1,5", "nan", "inf", "1.2.3", "1e999", "-", "1 2", "1;", "\t"};
    return {b[g.below(16)], 0, false};
  }
  double v = rnum(g);
  std::string t;
  switch (g.below(7)) {
  case 0: t = fmt("%.17g", v); break;
  case 1: t = fmt("%.3e", v); break;
  case 2: t = fmt("%d", g.below(2000) - 1000); break;
  case 3: t = fmt("%.2f", v); break;
  case 4: t = fmt("+%.4f", v < 0 ? -v : v); break;
  case 5: t = fmt(" %.5f", v); break;
  default: t = fmt("%.6E", v * 1e7);
  }
  return {t, strtod(t.c_str(), nullptr), true};
}
struct Vec { std::string text; double v[3]; bool ok; };
static Vec rndVec(Rng &g, double pbad = 0.03) {
  Vec r;
  r.ok = true;
  bool badLen = g.p(pbad);
  int n = badLen ? (g.p(0.5) ? g.below(3) : 4 + g.below(2)) : 3;
  if (badLen) r.ok = false;
  int spaces = g.below(3);
  for (int i = 0; i < n; i++) {
    Num k = rndNum(g, pbad / 4);
    if (!k.ok) k.text = g.p(0.5) ? "x" : "1e";
    while (k.ok && k.text[0] == ' ') k.text.erase(0, 1);
    if (!k.ok) r.ok = false;
    if (i < 3) r.v[i] = k.v;
    r.text += std::string(i || spaces == 2 ? (spaces ? 2 : 1) : 0, ' ') + k.text;
  }
  if (g.p(0.1)) r.text += " ";
  return r;
}
struct Want {
  std::string xml;
  bool ok = true;
  std::string why; // first reason for rejection
  std::map<std::string, double> num;
  void rej(const std::string &w) { if (ok) why = w; ok = false; }
};
// an optional numeric attribute; required: missing means rejection
static bool attr(Rng &g, Want &w, std::string &tag, const char *name, const std::string &key, double dflt, bool required = false, double ppresent = 0.7) {
  if (!(g.p(required ? 0.97 : ppresent))) {
    if (required) w.rej(std::string("missing ") + name);
    w.num[key] = dflt;
    return false;
  }
  Num k = rndNum(g);
  if (!k.ok) w.rej(std::string("malformed ") + name + "='" + k.text + "'");
  tag += std::string(" ") + name + "=\"" + k.text + "\"";
  w.num[key] = k.v;
  return true;
}
static void origin(Rng &g, Want &w, const std::string &key, std::vector<std::string> &parts) {
  double p[3] = {0, 0, 0}, e[3] = {0, 0, 0};
  if (g.p(0.8)) {
    std::string t = "<origin";
    if (g.p(0.85)) { Vec v = rndVec(g); t += " xyz=\"" + v.text + "\""; if (!v.ok) w.rej("malformed xyz '" + v.text + "'"); for (int i = 0; i < 3 && v.ok; i++) p[i] = v.v[i]; }
    if (g.p(0.85)) { Vec v = rndVec(g); t += " rpy=\"" + v.text + "\""; if (!v.ok) w.rej("malformed rpy '" + v.text + "'"); for (int i = 0; i < 3 && v.ok; i++) e[i] = v.v[i]; }
    parts.push_back(t + "/>");
  }
  for (int i = 0; i < 3; i++) { w.num[key + fmt("p%d", i)] = p[i]; w.num[key + fmt("e%d", i)] = e[i]; }
}
static void poseEq(const Want &w, const std::string &key, urdf::Pose p, ld tol, const std::string &what) {
  auto n = [&](const std::string &s) { return (ld)w.num.at(key + s); };
  for (int i = 0; i < 3; i++) near_(p.position[i], n(fmt("p%d", i)), tol * (1 + absl_(n(fmt("p%d", i)))), what + fmt(" origin xyz[%d]", i));
  M3 R = rpyM(v3(n("e0"), n("e1"), n("e2"))), Q = quatM(p.rotation.x, p.rotation.y, p.rotation.z, p.rotation.w);
  ld et = tol * (1 + absl_(n("e0")) + absl_(n("e1")) + absl_(n("e2")));
  ld nn = (ld)p.rotation.x * p.rotation.x + (ld)p.rotation.y * p.rotation.y + (ld)p.rotation.z * p.rotation.z + (ld)p.rotation.w * p.rotation.w;
  near_(nn, 1, 1e-12L, what + " rotation is not a unit quaternion");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(Q.a[i][j], R.a[i][j], et, what + fmt(" rotation (%d,%d)", i, j));
}
struct JW { Want w; std::string name, type, parent, child, mimic; bool lim, saf, cal, mim, dyn, rising, falling; int types; };
static void finish(Rng &g, std::string &o, std::vector<std::string> &parts, const char *end) {
  for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[g.below((int)i)]);
  for (auto &p : parts) o += p;
  o += end;
}
static JW rndJoint(Rng &g, bool valid, const std::string &name, const std::string &parent, const std::string &child) {
  JW r;
  Want &w = r.w;
  std::vector<std::string> parts;
  r.name = name;
  std::string o = "<joint";
  if (valid || g.p(0.97)) o += " name=\"" + name + "\""; else w.rej("no name");
  const char *t[] = {"revolute", "continuous", "prismatic", "floating", "planar", "fixed"};
  int q = g.below(6);
  if (!valid && g.p(0.04)) { if (g.p(0.5)) { o += " type=\"screw\""; } w.rej("no known type"); r.type = "?"; }
  else { r.type = t[q]; o += std::string(" type=\"") + t[q] + "\""; }
  r.types = q;
  o += ">";
  origin(g, w, "o", parts);
  if (valid || g.p(0.9)) { r.parent = parent; parts.push_back("<parent link=\"" + parent + "\"/>"); }
  if (valid || g.p(0.9)) { r.child = child; parts.push_back("<child link=\"" + child + "\"/>"); }
  bool readAxis = r.type != "floating" && r.type != "fixed";
  double ax[3] = {0, 0, 0};
  int ak = g.below(10);
  if (ak < 2) { if (readAxis) ax[0] = 1; }
  else if (ak == 2) parts.push_back("<axis/>"); // element without xyz: zero axis
  else {
    Vec v = rndVec(g);
    parts.push_back("<axis xyz=\"" + v.text + "\"/>");
    if (readAxis) { if (!v.ok) w.rej("malformed axis '" + v.text + "'"); else for (int i = 0; i < 3; i++) ax[i] = v.v[i]; }
  }
  for (int i = 0; i < 3; i++) w.num[fmt("axis%d", i)] = ax[i];
  bool need = r.type == "revolute" || r.type == "prismatic";
  r.lim = g.p(need ? (valid ? 1 : 0.96) : 0.5);
  if (!r.lim && need) w.rej("no limit on " + r.type);
  if (r.lim) { std::string s = "<limit"; attr(g, w, s, "lower", "lower", 0); attr(g, w, s, "upper", "upper", 0); attr(g, w, s, "effort", "effort", 0, true); attr(g, w, s, "velocity", "velocity", 0, true); parts.push_back(s + "/>"); }
  r.saf = g.p(0.4);
  if (r.saf) { std::string s = "<safety_controller"; attr(g, w, s, "soft_lower_limit", "slo", 0); attr(g, w, s, "soft_upper_limit", "sup", 0); attr(g, w, s, "k_position", "kp", 0); attr(g, w, s, "k_velocity", "kv", 0, true); parts.push_back(s + "/>"); }
  r.cal = g.p(0.4); r.rising = r.falling = false;
  if (r.cal) { std::string s = "<calibration"; r.rising = attr(g, w, s, "rising", "rising", 0); r.falling = attr(g, w, s, "falling", "falling", 0); parts.push_back(s + "/>"); }
  r.mim = g.p(0.4);
  if (r.mim) { std::string s = "<mimic"; if (valid || g.p(0.95)) { r.mimic = "other"; s += " joint=\"other\""; } else w.rej("mimic without joint"); attr(g, w, s, "multiplier", "mul", 1); attr(g, w, s, "offset", "off", 0); parts.push_back(s + "/>"); }
  r.dyn = g.p(0.4);
  if (r.dyn) { std::string s = "<dynamics"; bool a = attr(g, w, s, "damping", "damp", 0), b = attr(g, w, s, "friction", "fric", 0); if (!a && !b) w.rej("dynamics without attributes"); parts.push_back(s + "/>"); }
  finish(g, o, parts, "</joint>\n");
  w.xml = o;
  return r;
}
static void jointEq(const JW &r, const urdf::Joint &j, ld tol) {
  std::string wh = "joint " + r.name;
  if (j.name != r.name) fail(wh + ": name " + j.name);
  static const int T[] = {urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FLOATING, urdf::Joint::PLANAR, urdf::Joint::FIXED};
  if ((int)j.type != T[r.types]) fail(wh + fmt(": type %d for ", (int)j.type) + r.type);
  if (j.parent_link_name != r.parent) fail(wh + ": parent " + j.parent_link_name);
  if (j.child_link_name != r.child) fail(wh + ": child " + j.child_link_name);
  auto eq = [&](ld got, const char *k) { ld v = r.w.num.at(k); near_(got, v, tol * (1e-9L + absl_(v)), wh + " " + k); };
  eq(j.axis.x, "axis0"); eq(j.axis.y, "axis1"); eq(j.axis.z, "axis2");
  poseEq(r.w, "o", j.parent_to_joint_origin_transform, tol > 0 ? tol * 4 : 1e-14L, wh);
  if ((bool)j.limits != r.lim || (bool)j.safety != r.saf || (bool)j.mimic != r.mim || (bool)j.dynamics != r.dyn) fail(wh + ": presence of limit, safety, mimic or dynamics");
  if (r.lim) { eq(j.limits->lower, "lower"); eq(j.limits->upper, "upper"); eq(j.limits->effort, "effort"); eq(j.limits->velocity, "velocity"); }
  if (r.saf) { eq(j.safety->soft_lower_limit, "slo"); eq(j.safety->soft_upper_limit, "sup"); eq(j.safety->k_position, "kp"); eq(j.safety->k_velocity, "kv"); }
  bool cal = r.rising || r.falling;
  if (cal && !j.calibration) fail(wh + ": calibration lost");
  if (j.calibration) {
    if ((bool)j.calibration->rising != r.rising || (bool)j.calibration->falling != r.falling) fail(wh + ": presence of rising or falling");
    if (r.rising) eq(*j.calibration->rising, "rising");
    if (r.falling) eq(*j.calibration->falling, "falling");
  }
  if (r.mim) { if (j.mimic->joint_name != r.mimic) fail(wh + ": mimic joint " + j.mimic->joint_name); eq(j.mimic->multiplier, "mul"); eq(j.mimic->offset, "off"); }
  if (r.dyn) { eq(j.dynamics->damping, "damp"); eq(j.dynamics->friction, "fric"); }
}
struct IW { Want w; };
static const char *IN[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
static IW rndInertial(Rng &g) {
  IW r;
  Want &w = r.w;
  std::vector<std::string> parts;
  origin(g, w, "o", parts);
  if (g.p(0.97)) { std::string s = "<mass"; attr(g, w, s, "value", "mass", 0, true); parts.push_back(s + "/>"); } else w.rej("no mass");
  if (g.p(0.97)) { std::string s = "<inertia"; for (int i = 0; i < 6; i++) attr(g, w, s, IN[i], IN[i], 0, true); parts.push_back(s + "/>"); } else w.rej("no inertia");
  w.xml = "<inertial>";
  finish(g, w.xml, parts, "</inertial>");
  return r;
}
static void inertialEq(const IW &r, const urdf::Inertial &i, ld tol, const std::string &wh) {
  auto eq = [&](ld got, const char *k) { ld v = r.w.num.at(k); near_(got, v, tol * (1e-9L + absl_(v)), wh + " " + k); };
  eq(i.mass, "mass"); eq(i.ixx, "ixx"); eq(i.ixy, "ixy"); eq(i.ixz, "ixz"); eq(i.iyy, "iyy"); eq(i.iyz, "iyz"); eq(i.izz, "izz");
  poseEq(r.w, "o", i.origin, tol > 0 ? tol * 4 : 1e-14L, wh + " inertial");
}
static TiXmlElement *element(TiXmlDocument &d, const std::string &x) {
  d.Parse(x.c_str());
  TiXmlElement *e = d.RootElement();
  if (!e) fail("harness: generated text does not parse");
  return e;
}
static void C15(Rng &g) {
  for (int k = 0; k < 12; k++) {
    if (g.p(0.65)) {
      JW r = rndJoint(g, false, "jo", "pa", "ch");
      logl("parseJoint of\n" + r.w.xml);
      TiXmlDocument d;
      urdf::Joint j;
      if (g.p(0.5)) { // stale contents must not survive
        j.name = "stale"; j.axis = urdf::Vector3(7, 8, 9); j.type = urdf::Joint::PRISMATIC; j.parent_link_name = j.child_link_name = "stale";
        j.parent_to_joint_origin_transform.position.x = 5; j.limits.reset(new urdf::JointLimits()); j.mimic.reset(new urdf::JointMimic()); j.safety.reset(new urdf::JointSafety()); j.dynamics.reset(new urdf::JointDynamics());
      }
      bool ok = urdf::parseJoint(j, element(d, r.w.xml));
      if (ok != r.w.ok) fail(ok ? "joint accepted: " + r.w.why : std::string("well-formed joint rejected"));
      if (ok) jointEq(r, j, 0);
    } else {
      IW r = rndInertial(g);
      logl("parseInertial of\n" + r.w.xml);
      TiXmlDocument d;
      urdf::Inertial i;
      if (g.p(0.5)) { i.mass = 77; i.ixx = i.iyz = 5; i.origin.position.y = 3; i.origin.rotation = urdf::Rotation(1, 0, 0, 0); }
      bool ok = urdf::parseInertial(i, element(d, r.w.xml));
      if (ok != r.w.ok) fail(ok ? "inertial accepted: " + r.w.why : std::string("well-formed inertial rejected"));
      if (ok) inertialEq(r, i, 0, "link");
    }
  }
  // through the whole parser
  int n = 1 + g.below(5);
  std::vector<JW> js;
  std::vector<IW> is;
  std::vector<int> has;
  std::string x = "<robot name=\"rr\">\n";
  bool ok = true;
  for (int i = 0; i < n; i++) {
    IW w;
    do w = rndInertial(g); while (!w.w.ok); // a malformed inertial inside a link: known finding F12
    is.push_back(w);
    has.push_back(g.p(0.7));
    x += fmt("<link name=\"l%d\">", i) + (has[i] ? w.w.xml : "") + "</link>\n";
    if (i) { js.push_back(rndJoint(g, g.p(0.9), fmt("j%d", i), fmt("l%d", g.below(i)), fmt("l%d", i))); x += js.back().w.xml; ok = ok && js.back().w.ok && js.back().parent != "" && js.back().child != ""; }
  }
  x += "</robot>";
  logl("parseURDF of\n" + x);
  auto m = urdf::parseURDF(x);
  if ((bool)m != ok) fail(ok ? "well-formed robot rejected" : "robot with a malformed joint accepted");
  if (!m) return;
  if (m->name_ != "rr") fail("robot name");
  for (auto &j : js) { if (!m->joints_.count(j.name)) fail("joint " + j.name + " lost"); jointEq(j, *m->joints_[j.name], 0); }
  for (int i = 0; i < n; i++) {
    if (!m->links_.count(fmt("l%d", i))) fail("link lost");
    auto l = m->links_[fmt("l%d", i)];
    if ((bool)l->inertial != (bool)has[i]) fail(fmt("presence of the inertial of l%d", i));
    if (has[i]) inertialEq(is[i], *l->inertial, 0, fmt("l%d", i));
  }
}

// ------------------------------------------------------------------ C16
static ld pitchOf(const Want &w) { M3 R = rpyM(v3(w.num.at("oe0"), w.num.at("oe1"), w.num.at("oe2"))); return R.a[2][0]; }
static void C16(Rng &g) {
  int n = 1 + g.below(6);
  std::vector<JW> js;
  std::vector<IW> is;
  std::vector<int> has;
  const char *sfx[] = {"", " b", "&amp;", "&lt;x&gt;", "&quot;", "'", "\xc3\xa9", "_long_name_0123456789"};
  const char *raw[] = {"", " b", "&", "<x>", "\"", "'", "\xc3\xa9", "_long_name_0123456789"};
  int sf = g.below(8);
  std::string x = "<robot name=\"rr\">\n";
  for (int i = 0; i < n; i++) {
    IW w;
    do w = rndInertial(g); while (!w.w.ok || absl_(pitchOf(w.w)) > 0.99998L);
    is.push_back(w);
    has.push_back(g.p(0.7));
    x += fmt("<link name=\"l%d%s\">", i, sfx[sf]) + (has[i] ? w.w.xml : "") + (g.p(0.2) ? "<visual><geometry><box size=\"1 2 3\"/></geometry><material name=\"\"/></visual>" : "") + (g.p(0.2) ? "<collision><origin xyz=\"1 2 3\"/><geometry><cylinder radius=\"1\" length=\"2\"/></geometry></collision>" : "") + "</link>\n";
    if (!i) continue;
    JW j;
    int pi = g.below(i);
    do j = rndJoint(g, true, fmt("j%d%s", i, sfx[sf]), fmt("l%d%s", pi, sfx[sf]), fmt("l%d%s", i, sfx[sf])); while (!j.w.ok || absl_(pitchOf(j.w)) > 0.99998L);
    x += j.w.xml;
    j.name = fmt("j%d%s", i, raw[sf]); j.parent = fmt("l%d%s", pi, raw[sf]); j.child = fmt("l%d%s", i, raw[sf]);
    js.push_back(j);
  }
  x += "</robot>";
  logl("URDF:\n" + x);
  auto m = urdf::parseURDF(x);
  if (!m) fail("harness: robot rejected");
  TiXmlDocument *d = urdf::exportURDF(*m);
  TiXmlPrinter pr;
  d->Accept(&pr);
  std::string y = pr.CStr();
  delete d;
  logl("exported:\n" + y);
  auto e = urdf::parseURDF(y);
  if (!e) fail("the exported robot is rejected");
  if (e->name_ != m->name_) fail("robot name " + e->name_);
  checkTree(*e);
  if (e->root_link_->name != m->root_link_->name) fail("another root");
  if (e->links_.size() != (size_t)n || e->joints_.size() != js.size()) fail("number of links or joints");
  for (auto &j : js) { if (!e->joints_.count(j.name)) fail("joint " + j.name + " lost"); jointEq(j, *e->joints_[j.name], 6e-6L); }
  for (int i = 0; i < n; i++) {
    std::string nm = fmt("l%d%s", i, raw[sf]);
    if (!e->links_.count(nm)) fail("link " + nm + " lost");
    auto l = e->links_[nm];
    if ((bool)l->inertial != (bool)has[i]) fail("presence of the inertial of " + nm);
    if (has[i]) inertialEq(is[i], *l->inertial, 6e-6L, nm);
  }
}
