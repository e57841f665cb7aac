#include "model.h"
#include <algorithm>
#include <numeric>
namespace mdl {
using sim::draw; using sim::chance; using sim::range; using sim::real; using sim::fmt;

void (*hookPoint)(const char*) = nullptr;
long HElem::live = 0; long Obs::live = 0;

std::string str(const DofId& d) { return fmt("%c%d:%s", d.e ? 'E' : 'N', d.ent + 1, Dof::dofTypeLabels[d.type]); }
bool close(double a, double b, double rel, double scale) { return std::fabs(a - b) <= rel * std::max(scale, std::max(std::fabs(a), std::fabs(b))); }

std::vector<DofId> El::dofs(int self) const {
  std::vector<DofId> r;
  std::vector<int> types = nd;
  if (kind == TRUSS || kind == TET0 || kind == SOLID || kind == INT0 || kind == INT3) types = {Dof::UX, Dof::UY, Dof::UZ};
  if (kind == PLANE || kind == TRI4) types = {Dof::UX, Dof::UY};
  if (kind == QUADT || kind == LINET || kind == TET1) types = {Dof::TEMP};
  for (int n : nodes) for (int t : types) r.push_back({0, n, t});
  std::vector<int> e2 = ed;
  if (kind == SOLID || kind == PLANE) e2 = {Dof::HYDRO_PRESSURE};
  for (int t : e2) r.push_back({1, self, t});
  return r;
}
std::vector<DofId> Model::dofs() const {
  std::set<DofId> s;
  for (size_t i = 0; i < el.size(); i++) for (auto& d : el[i].dofs((int)i)) s.insert(d);
  for (auto& b : rigid()) for (int t = Dof::UX; t <= Dof::ROTZ; t++) s.insert({0, b.master, t});
  return std::vector<DofId>(s.begin(), s.end());
}
std::string Model::str() const {
  std::string s = fmt("%zu nodes, %zu elements (", pos.size(), el.size());
  for (auto& e : el) { static const char* kn[] = {"gen", "truss3", "quadth", "linet", "tetra0", "solid81", "plane41", "triangle4", "tetra1", "inter0", "inter3"}; s += kn[e.kind]; s += fmt("/%d ", (int)e.nodes.size()); }
  s += fmt("), %zu fixes, %zu loads, %zu mpc", fix.size(), load.size(), mpc.size());
  for (auto& b : rigid()) s += fmt(", rigid body %d<-%zu", b.master + 1, b.slaves.size());
  return s;
}

static Dense spd(int n, double lo, double hi) {
  Dense B(n, std::vector<double>(n)), K(n, std::vector<double>(n, 0));
  for (auto& r : B) for (auto& v : r) v = real(-1, 1, 16);
  double s = real(lo, hi, 8);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double a = 0; for (int k = 0; k < n; k++) a += B[i][k] * B[j][k]; K[i][j] = s * (a / n + (i == j ? 1.0 : 0.0)); }
  return K;
}

Model genModel(const GenOpt& o) {
  Model m;
  int nn = range(1, o.maxNodes);
  for (int i = 0; i < nn; i++) m.pos.push_back({real(-4, 4, 64) + i * 1.25, real(-4, 4, 64), real(-4, 4, 64)});
  int ne = range(1, o.maxElems);
  static const struct { ElementShape s; int n; } shp[] = {{ElementShape::LINE, 2}, {ElementShape::VERTEX, 1}, {ElementShape::TWIN_VERTEX, 2}, {ElementShape::TRIANGLE, 3}, {ElementShape::QUAD, 4}, {ElementShape::TETRA, 4}};
  std::set<int> needGround, groundT;
  for (int i = 0; i < ne; i++) {
    El e;
    int lib = (o.libElems && !o.nonlinear) ? (int)draw(o.moreElems ? 10 : 6) : 0;   // 0..2 generic
    if (o.transient && (lib == 3 || lib >= 5)) lib = 0;          // those have no C/M
    if (lib == 3 && nn >= 2) {
      e.kind = TRUSS; e.shape = ElementShape::LINE; int a = (int)draw(nn), b = (int)draw(nn - 1); if (b >= a) b++;
      e.nodes = {a, b}; e.p1 = real(1, 100, 32); e.p2 = real(0.5, 3, 8); needGround.insert(a); needGround.insert(b);
    } else if (lib == 4) {
      // a quadrilateral of its own in the xy plane (needs proper geometry), plus a surface
      int base = (int)m.pos.size(); double x = real(-3, 3, 16), y = real(-3, 3, 16), a = real(0.5, 2, 8), b = real(0.5, 2, 8), sk = real(0, 0.4, 8);
      m.pos.push_back({x, y, 0}); m.pos.push_back({x + a, y, 0}); m.pos.push_back({x + a + sk, y + b, 0}); m.pos.push_back({x + sk, y + b, 0});
      e.kind = QUADT; e.shape = ElementShape::QUAD; e.nodes = {base, base + 1, base + 2, base + 3}; e.p1 = real(0.5, 5, 16); e.p2 = real(0.5, 5, 16); e.p3 = chance(1, 2) ? real(-4, 4, 16) : 0;
      m.el.push_back(e);
      El s; s.kind = LINET; s.shape = ElementShape::LINE; s.nodes = {base + 1, base}; if (chance(1, 2)) std::swap(s.nodes[0], s.nodes[1]);
      s.p1 = chance(1, 2) ? real(-3, 3, 16) : 0; s.p2 = real(0.5, 3, 16); s.p3 = real(1, 9, 16); m.el.push_back(s);
      continue;
    } else if (lib == 5) {
      int base = (int)m.pos.size(); double x = real(-3, 3, 16), h = real(0.75, 2, 8), w = real(-0.2, 0.2, 8);
      m.pos.push_back({x, 0, 0}); m.pos.push_back({x + h, w, 0}); m.pos.push_back({x + w, h, 0}); m.pos.push_back({x, w, h});
      e.kind = TET0; e.shape = ElementShape::TETRA; e.nodes = {base, base + 1, base + 2, base + 3}; e.p1 = real(1, 50, 16); e.p2 = real(0, 0.4, 8); if (chance(1, 3)) e.p3 = real(-0.3, 0.3, 12);
      for (int k = 0; k < 4; k++) needGround.insert(base + k);
    } else if (lib == 6) {
      int base = (int)m.pos.size(); double x = real(-3, 3, 16), y = real(-3, 3, 16), h = real(0.75, 2, 8), w = real(-0.2, 0.2, 8);
      m.pos.push_back({x, y, 0}); m.pos.push_back({x + h, y + w, 0}); m.pos.push_back({x + w, y + h, 0});
      e.kind = TRI4; e.shape = ElementShape::TRIANGLE; e.nodes = {base, base + 1, base + 2}; e.p1 = real(1, 50, 16); e.p2 = real(0, 0.4, 8); e.p3 = (double)draw(2);
      for (int k = 0; k < 3; k++) needGround.insert(base + k);
    } else if (lib == 7) {
      int base = (int)m.pos.size(); double x = real(-3, 3, 16), h = real(0.75, 2, 8), w = real(-0.2, 0.2, 8);
      m.pos.push_back({x, 0, 0}); m.pos.push_back({x + h, w, 0}); m.pos.push_back({x + w, h, 0}); m.pos.push_back({x, w, h});
      e.kind = TET1; e.shape = ElementShape::TETRA; e.nodes = {base, base + 1, base + 2, base + 3}; e.p1 = real(0.01, 0.1, 8);
      for (int k = 0; k < 4; k++) groundT.insert(base + k);
    } else if (lib == 8 && nn >= 2) {
      e.kind = INT0; e.shape = ElementShape::TWIN_VERTEX; int a = (int)draw(nn), b = (int)draw(nn - 1); if (b >= a) b++;
      e.nodes = {a, b}; e.p1 = real(1, 100, 32); e.p2 = real(0.5, 30, 8); e.p3 = real(0.25, 2, 7); needGround.insert(a); needGround.insert(b);
    } else if (lib == 9) {
      int base = (int)m.pos.size(); double x = real(-3, 3, 16), y = real(-3, 3, 16), h = real(0.75, 2, 8), w = real(-0.2, 0.2, 8);
      for (int q = 0; q < 2; q++) { m.pos.push_back({x, y, w}); m.pos.push_back({x + h, y + w, -w}); m.pos.push_back({x + w, y + h, 0.5}); }
      e.kind = INT3; e.shape = ElementShape::WEDGE; for (int k = 0; k < 6; k++) { e.nodes.push_back(base + k); needGround.insert(base + k); } e.p1 = real(1, 100, 32); e.p2 = real(0.5, 30, 8);
    } else {
      int k = (int)draw(6); while (shp[k].n > nn) k = (k + 1) % 6;
      e.shape = shp[k].s;
      std::vector<int> all(nn); std::iota(all.begin(), all.end(), 0); sim::shuffle(all); e.nodes.assign(all.begin(), all.begin() + shp[k].n);
      int nd = range(0, 3);
      static const std::vector<std::vector<int>> sets = {{Dof::UX}, {Dof::UX, Dof::UY, Dof::UZ}, {Dof::TEMP}, {Dof::UZ, Dof::UX}};
      e.nd = sets[nd];
      if (chance(1, 6)) e.nd = {Dof::ROTY, Dof::TEMP};
      if (o.elemDofs && chance(1, 3)) { e.ed = {Dof::HYDRO_PRESSURE}; if (chance(1, 3)) e.ed.push_back(Dof::UY); }
      int n = (int)(e.nd.size() * e.nodes.size() + e.ed.size());
      e.K = spd(n, 1, 9);
      e.F.assign(n, 0); if (chance(1, 2)) for (auto& f : e.F) f = real(-2, 2, 16);
      if (o.transient) { e.C = spd(n, 0, 4); e.M = spd(n, 0, 4); }
      if (o.nonlinear && chance(2, 3)) e.c3 = real(0, 2, 16);
      e.nl = o.nonlinear;
      e.path = (int)draw(3);
    }
    m.el.push_back(e);
  }
  if (o.hub) {
    int base = (int)m.pos.size(); bool byMpc = chance(1, 2); int k = byMpc ? range(90, 130) : range(33, 50); std::vector<int> t = {Dof::UX, Dof::UY, Dof::UZ}; if (byMpc) t = {chance(1, 2) ? Dof::UY : Dof::TEMP};
    for (int i = 0; i <= k; i++) m.pos.push_back({real(-4, 4, 64) + i, real(-4, 4, 64), 0}); int h = base + (int)draw(k + 1), ed = o.elemDofs && !byMpc && chance(1, 2) ? range(1, 2) : 0;
    for (int i = 0; i <= k; i++) if (byMpc || base + i != h) { El e; e.shape = byMpc ? ElementShape::VERTEX : ElementShape::LINE; e.nodes = {base + i}; if (!byMpc) e.nodes.insert(e.nodes.begin() + draw(2), h); e.nd = t; int n = (int)(t.size() * e.nodes.size()); if (ed) { e.ed = {Dof::HYDRO_PRESSURE}; if (ed > 1) e.ed.push_back(Dof::UY); n += ed; } e.K = spd(n, 1, 9); e.F.assign(n, 0); for (auto& f : e.F) f = real(-2, 2, 16); e.path = (int)draw(3); m.el.push_back(e); }
    if (!byMpc && chance(1, 2)) { for (int x : t) if (chance(2, 3)) m.fix.push_back({h, x, real(-1, 1, 32)}); }
    if (byMpc && chance(1, 2)) m.fix.push_back({h, t[0], real(-1, 1, 32)});
    if (byMpc) for (int i = 0; i <= k; i++) if (base + i != h) { MpcS c; c.t = {{base + i, t[0], 1.0}, {h, t[0], real(-1, 1, 9)}}; if (o.mpcRhs) c.b = real(-1, 1, 16); m.mpc.push_back(c); }
  }
  for (int g : needGround) {
    El e; e.shape = ElementShape::VERTEX; e.nodes = {g}; e.nd = {Dof::UX, Dof::UY, Dof::UZ}; e.K = spd(3, 1, 5); e.F.assign(3, 0); e.path = (int)draw(3);
    if (o.transient) { e.C = spd(3, 0, 2); e.M = spd(3, 0, 2); }
    m.el.push_back(e);
  }
  for (int g : groundT) { El e; e.shape = ElementShape::VERTEX; e.nodes = {g}; e.nd = {Dof::TEMP}; e.K = spd(1, 1, 5); e.F.assign(1, 0); e.path = (int)draw(3); m.el.push_back(e); }
  std::vector<DofId> nd; for (auto& d : m.dofs()) if (!d.e) nd.push_back(d);
  if (o.rigid && nn >= 2) {
    // master: a node of its own; slaves: nodes with all three displacements
    m.rbMaster = (int)m.pos.size(); m.pos.push_back({real(-2, 2, 16), real(-2, 2, 16), real(-2, 2, 16)});
    for (int i = 0; i < nn; i++) { int c = 0; for (auto& d : nd) if (d.ent == i && d.type <= Dof::UZ) c++; if (c == 3 && m.rbSlaves.size() < (size_t)(o.maxNodes > 8 ? 12 : 3)) m.rbSlaves.push_back(i); }
    if (m.rbSlaves.empty()) { m.rbMaster = -1; m.pos.pop_back(); }
    else {
      m.rbDofs = {Dof::UX, Dof::UY, Dof::UZ}; if (chance(1, 3)) { sim::shuffle(m.rbDofs); m.rbDofs.resize(range(1, 3)); }
      // prescribed motion of the master so that the problem stays well posed
      for (int t = Dof::UX; t <= Dof::ROTZ; t++) m.fix.push_back({m.rbMaster, t, chance(2, 3) ? real(-0.6, 0.6, 32) : 0.0});
      if (m.rbSlaves.size() > 1 && chance(1, 2)) {     // some of the slaves belong to another body (or to another coupling of the same master)
        Model::Rb b; size_t k = 1 + draw(m.rbSlaves.size() - 1); b.slaves.assign(m.rbSlaves.begin() + k, m.rbSlaves.end()); m.rbSlaves.resize(k); b.master = m.rbMaster; b.dofs = {Dof::UX, Dof::UY, Dof::UZ}; if (chance(1, 3)) { sim::shuffle(b.dofs); b.dofs.resize(range(1, 3)); }
        if (chance(3, 4)) { b.master = (int)m.pos.size(); m.pos.push_back({real(-2, 2, 16), real(-2, 2, 16), real(-2, 2, 16)}); for (int t = Dof::UX; t <= Dof::ROTZ; t++) m.fix.push_back({b.master, t, chance(2, 3) ? real(-0.6, 0.6, 32) : 0.0}); }
        m.rbMore.push_back(b);
      }
    }
  }
  std::set<DofId> fixed, slave;
  for (auto& f : m.fix) if (o.hub) fixed.insert({0, f.node, f.type});
  std::vector<DofId> order = nd; sim::shuffle(order);
  std::set<int> rbS, rbM; for (auto& b : m.rigid()) { rbS.insert(b.slaves.begin(), b.slaves.end()); rbM.insert(b.master); }
  size_t total = m.dofs().size();
  if (o.fixes && !order.empty() && m.mpc.empty()) {
    int nf = range(0, (int)std::min<size_t>(order.size(), 5));
    for (int i = 0; i < nf && fixed.size() + 1 + 6 * rbM.size() < total; i++) {
      if (rbS.count(order[i].ent) || fixed.count(order[i])) continue;
      fixed.insert(order[i]); m.fix.push_back({order[i].ent, order[i].type, chance(1, 2) ? real(-1, 1, 32) : 0.0});
    }
  }
  if (!nd.empty()) { int nl = range(0, 5); for (int i = 0; i < nl; i++) { DofId d = nd[draw(nd.size())]; if (fixed.count(d)) continue; m.load.push_back({d.ent, d.type, real(-5, 5, 64)}); } }
  if (o.mpc && nd.size() > 2) {
    int nm = range(0, 2);
    for (int k = 0; k < nm; k++) {
      MpcS c; bool haveSlave = false;
      for (size_t i = 0; i < order.size() && !haveSlave; i++) {
        size_t j = (i + k) % order.size();
        if (fixed.count(order[j]) || slave.count(order[j]) || rbS.count(order[j].ent) || rbM.count(order[j].ent)) continue;
        slave.insert(order[j]); c.t.push_back({order[j].ent, order[j].type, chance(1, 2) ? 1.0 : real(0.5, 2, 8)}); haveSlave = true;
      }
      if (!haveSlave) break;
      std::set<DofId> mine; mine.insert({0, c.t[0].node, c.t[0].type});
      int more = range(0, 3);
      for (int q = 0; q < more; q++) {
        DofId d = nd[draw(nd.size())];
        if (mine.count(d) || rbS.count(d.ent)) continue;
        bool isSlave = slave.count(d) > 0; if (isSlave) continue;
        mine.insert(d); c.t.push_back({d.ent, d.type, real(-2, 2, 16)});
      }
      if (o.mpcRhs && chance(1, 2)) c.b = real(-1, 1, 16);
      if (chance(1, 8)) { Term q = c.t[draw(c.t.size())]; double part = real(-2, 2, 16); for (auto& x : c.t) if (x.node == q.node && x.type == q.type) x.c -= part; q.c = part; c.t.push_back(q); }   // a DoF named twice
      sim::shuffle(c.t);
      m.mpc.push_back(c);
    }
    if (m.mpc.size() == 2 && !o.hub) {
      // linear independence test on the free columns
      auto col = [&](const MpcS& c) { std::map<DofId, double> r; for (auto& t : c.t) if (!fixed.count({0, t.node, t.type})) r[{0, t.node, t.type}] += t.c; return r; };
      auto a = col(m.mpc[0]), b = col(m.mpc[1]); double aa = 0, bb = 0, ab = 0;
      for (auto& x : a) { aa += x.second * x.second; auto i = b.find(x.first); if (i != b.end()) ab += x.second * i->second; }
      for (auto& x : b) bb += x.second * x.second;
      if (ab * ab > 0.5 * aa * bb) m.mpc.pop_back();
    }
  }
  m.initValue = o.transient && chance(1, 2) ? real(-1, 1, 16) : 0.0;
  // at least one unknown dof
  size_t nfree = total - m.fix.size();
  while (nfree < 1 || nfree < 1 + m.mpc.size()) {
    if (!m.mpc.empty()) { m.mpc.pop_back(); continue; }
    if (m.fix.empty()) break;
    m.fix.pop_back(); nfree++;
  }
  return m;
}

void scaleModel(Model& m, double f, double g) {
  for (auto& e : m.el) {
    for (auto& x : e.F) x *= f * g; for (auto* D : {&e.K, &e.C, &e.M}) for (auto& r : *D) for (auto& x : r) x *= g;
    switch (e.kind) {
      case TRUSS: case TRI4: case TET1: e.p1 *= g; break;
      case TET0: e.p1 *= g; e.p3 *= f; break;
      case QUADT: e.p1 *= g; e.p2 *= g; e.p3 *= f * g; break;
      case LINET: e.p1 *= f * g; e.p2 *= g; e.p3 *= f; break;
      case INT0: case INT3: e.p1 *= g; e.p2 *= g; break;
      default: break;
    }
  }
  for (auto& x : m.fix) x.v *= f; for (auto& x : m.load) x.v *= f * g; for (auto& x : m.mpc) x.b *= f; m.initValue *= f;
}
Model genSolid(int kind) {
  Model m; m.needMaterial = true;
  if (kind == 0) {       // PLANE41 strip
    int nx = range(1, 2), ny = 1;
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) m.pos.push_back({(double)i, (double)j, 0});
    for (int i = 0; i < nx; i++) { El e; e.kind = PLANE; e.shape = ElementShape::QUAD; int w = nx + 1; e.nodes = {i, i + 1, i + 1 + w, i + w}; m.el.push_back(e); }
    double u = real(0.05, 0.3, 16);
    for (size_t n = 0; n < m.pos.size(); n++) { if (m.pos[n][0] == 0) { m.fix.push_back({(int)n, Dof::UX, 0}); } if (m.pos[n][0] == nx) m.fix.push_back({(int)n, Dof::UX, u}); if (m.pos[n][1] == 0) m.fix.push_back({(int)n, Dof::UY, 0}); }
  } else {               // SOLID81 block
    int nx = range(1, 2);
    for (int i = 0; i <= nx; i++) for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) m.pos.push_back({(double)i, (double)j, (double)k});
    auto id = [&](int i, int j, int k) { return i * 4 + k * 2 + j; };
    for (int i = 0; i < nx; i++) { El e; e.kind = SOLID; e.shape = ElementShape::HEXAHEDRON; e.nodes = {id(i, 0, 0), id(i + 1, 0, 0), id(i + 1, 1, 0), id(i, 1, 0), id(i, 0, 1), id(i + 1, 0, 1), id(i + 1, 1, 1), id(i, 1, 1)}; m.el.push_back(e); }
    double u = real(0.05, 0.25, 16);
    for (size_t n = 0; n < m.pos.size(); n++) {
      if (m.pos[n][0] == 0) m.fix.push_back({(int)n, Dof::UX, 0});
      if (m.pos[n][0] == nx) m.fix.push_back({(int)n, Dof::UX, u});
      if (m.pos[n][1] == 0) m.fix.push_back({(int)n, Dof::UY, 0});
      if (m.pos[n][2] == 0) m.fix.push_back({(int)n, Dof::UZ, 0});
    }
  }
  m.matKind = (int)draw(2);
  return m;
}

// ---- element matrices from the description -------------------------------------------------------
void elemMatrices(const Model& m, const El& e, Dense& K, Dense& C, Dense& M, std::vector<double>& F) {
  auto zero = [](int n) { return Dense(n, std::vector<double>(n, 0.0)); };
  auto P = [&](int i) { return m.pos[e.nodes[i]]; };
  if (e.kind == GEN) { int n = (int)e.K.size(); K = e.K; F = e.F; C = e.C.empty() ? zero(n) : e.C; M = e.M.empty() ? zero(n) : e.M; return; }
  if (e.kind == TRUSS) {
    K = C = M = zero(6); F.assign(6, 0); double d[3], L = 0;
    for (int i = 0; i < 3; i++) { d[i] = P(1)[i] - P(0)[i]; L += d[i] * d[i]; } L = std::sqrt(L); for (double& x : d) x /= L;
    double k = e.p1 * e.p2 / L;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = k * d[i] * d[j]; K[i][j] += v; K[i + 3][j + 3] += v; K[i][j + 3] -= v; K[i + 3][j] -= v; }
    return;
  }
  if (e.kind == QUADT) {
    K = C = M = zero(4); F.assign(4, 0); const double g = 1 / std::sqrt(3.0); const double sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1};
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
      double r = a ? g : -g, s = b ? g : -g, N[4], dr[4], ds[4], J[2][2] = {{0, 0}, {0, 0}};
      for (int i = 0; i < 4; i++) { N[i] = .25 * (1 + sx[i] * r) * (1 + sy[i] * s); dr[i] = .25 * sx[i] * (1 + sy[i] * s); ds[i] = .25 * sy[i] * (1 + sx[i] * r);
        J[0][0] += dr[i] * P(i)[0]; J[0][1] += dr[i] * P(i)[1]; J[1][0] += ds[i] * P(i)[0]; J[1][1] += ds[i] * P(i)[1]; }
      double det = J[0][0] * J[1][1] - J[0][1] * J[1][0], bx[4], by[4];
      for (int i = 0; i < 4; i++) { bx[i] = (J[1][1] * dr[i] - J[0][1] * ds[i]) / det; by[i] = (-J[1][0] * dr[i] + J[0][0] * ds[i]) / det; }
      for (int i = 0; i < 4; i++) { F[i] += N[i] * e.p3 * det; for (int j = 0; j < 4; j++) { K[i][j] += e.p1 * (bx[i] * bx[j] + by[i] * by[j]) * det; C[i][j] += e.p2 * N[i] * N[j] * det; } }
    }
    return;
  }
  if (e.kind == LINET) {
    K = C = M = zero(2); double L = std::hypot(P(1)[0] - P(0)[0], P(1)[1] - P(0)[1]);
    K[0][0] = K[1][1] = e.p2 * L / 3; K[0][1] = K[1][0] = e.p2 * L / 6;
    F.assign(2, e.p1 * L / 2 + e.p2 * e.p3 * L / 2);
    return;
  }
  if (e.kind == TET0 || e.kind == TET1) {
    K = C = M = zero(12); F.assign(12, 0);
    // gradients of the barycentric coordinates
    double A[4][4]; for (int i = 0; i < 4; i++) { A[i][0] = 1; for (int k = 0; k < 3; k++) A[i][k + 1] = P(i)[k]; }
    double I[4][4]; double T[4][8]; for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) T[i][j] = j < 4 ? A[i][j] : (j - 4 == i);
    double det = 1;
    for (int c = 0; c < 4; c++) { int p = c; for (int r = c; r < 4; r++) if (std::fabs(T[r][c]) > std::fabs(T[p][c])) p = r; if (p != c) { det = -det; for (int j = 0; j < 8; j++) std::swap(T[p][j], T[c][j]); } det *= T[c][c]; double v = T[c][c]; for (int j = 0; j < 8; j++) T[c][j] /= v; for (int r = 0; r < 4; r++) if (r != c) { double f = T[r][c]; for (int j = 0; j < 8; j++) T[r][j] -= f * T[c][j]; } }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) I[i][j] = T[i][j + 4];
    double V = std::fabs(det) / 6, nu = e.p2, lam = e.p1 * nu / ((1 + nu) * (1 - 2 * nu)), mu = e.p1 / (2 * (1 + nu));
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
      double ga[3], gb[3], dot = 0; for (int k = 0; k < 3; k++) { ga[k] = I[k + 1][a]; gb[k] = I[k + 1][b]; dot += ga[k] * gb[k]; }
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K[a * 3 + i][b * 3 + j] += V * (lam * ga[i] * gb[j] + mu * ga[j] * gb[i] + (i == j ? mu * dot : 0));
    }
    if (e.p3 != 0) for (int a = 0; a < 4; a++) for (int i = 0; i < 3; i++) F[a * 3 + i] += V * (3 * lam + 2 * mu) * e.p3 * I[i + 1][a];
    if (e.kind == TET1) { Dense H = zero(4); for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int k = 0; k < 3; k++) H[a][b] -= e.p1 * V * I[k + 1][a] * I[k + 1][b]; K = H; C = M = zero(4); F.assign(4, 0); }
    return;
  }
  if (e.kind == TRI4) {
    K = C = M = zero(6); F.assign(6, 0);
    double x1 = P(1)[0] - P(0)[0], y1 = P(1)[1] - P(0)[1], x2 = P(2)[0] - P(0)[0], y2 = P(2)[1] - P(0)[1], det = x1 * y2 - x2 * y1, A = det / 2;
    double g[3][2] = {{0, 0}, {y2 / det, -x2 / det}, {-y1 / det, x1 / det}}; for (int k = 0; k < 2; k++) g[0][k] = -g[1][k] - g[2][k];
    double nu = e.p2, lam = e.p1 * nu / ((1 + nu) * (1 - 2 * nu)), mu = e.p1 / (2 * (1 + nu)); if (e.p3 != 0) lam = e.p1 * nu / (1 - nu * nu);     // plane strain or plane stress
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double dot = g[a][0] * g[b][0] + g[a][1] * g[b][1]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) K[a * 2 + i][b * 2 + j] += A * (lam * g[a][i] * g[b][j] + mu * g[a][j] * g[b][i] + (i == j ? mu * dot : 0)); }
    return;
  }
  if (e.kind == INT0) {
    K = C = M = zero(6); F.assign(6, 0); double n[3] = {1, e.p3, 0.5}, q = 0; for (double v : n) q += v * v;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = e.p2 * (i == j) + (e.p1 - e.p2) * n[i] * n[j] / q; K[i][j] += v; K[i + 3][j + 3] += v; K[i][j + 3] -= v; K[i + 3][j] -= v; }
    return;
  }
  if (e.kind == INT3) {
    K = C = M = zero(18); F.assign(18, 0); double a[3], b[3]; for (int k = 0; k < 3; k++) { a[k] = P(1)[k] - P(0)[k]; b[k] = P(2)[k] - P(0)[k]; }
    double n[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}, q = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), A = q / 2;
    for (int I = 0; I < 6; I++) for (int J = 0; J < 6; J++) { double w = A / 12 * (I % 3 == J % 3 ? 2 : 1) * ((I < 3) == (J < 3) ? 1 : -1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K[I * 3 + i][J * 3 + j] += w * (e.p2 * (i == j) + (e.p1 - e.p2) * n[i] * n[j] / q / q); }
    return;
  }
}

bool denseSolve(std::vector<std::vector<long double>> A, std::vector<long double> b, std::vector<long double>& x) {
  int n = (int)b.size(); x.assign(n, 0);
  std::vector<int> cp(n); std::iota(cp.begin(), cp.end(), 0);
  for (int c = 0; c < n; c++) {
    int pr = c, pc = c; for (int r = c; r < n; r++) for (int k = c; k < n; k++) if (fabsl(A[r][k]) > fabsl(A[pr][pc])) { pr = r; pc = k; }
    if (fabsl(A[pr][pc]) < 1e-12L) return false;
    std::swap(A[pr], A[c]); std::swap(b[pr], b[c]); if (pc != c) { for (int r = 0; r < n; r++) std::swap(A[r][pc], A[r][c]); std::swap(cp[pc], cp[c]); }
    for (int r = c + 1; r < n; r++) { long double f = A[r][c] / A[c][c]; if (f == 0) continue; for (int k = c; k < n; k++) A[r][k] -= f * A[c][k]; b[r] -= f * b[c]; }
  }
  std::vector<long double> y(n);
  for (int r = n - 1; r >= 0; r--) { long double s = b[r]; for (int k = r + 1; k < n; k++) s -= A[r][k] * y[k]; y[r] = s / A[r][r]; }
  for (int i = 0; i < n; i++) x[cp[i]] = y[i];
  return true;
}

struct Sys { std::vector<DofId> ids; std::map<DofId, int> ix; Dense K, C, M; std::vector<double> F, R; std::vector<char> fixed; std::vector<double> uc; };
static Sys assemble(const Model& m) {
  Sys s; s.ids = m.dofs(); int n = (int)s.ids.size(); for (int i = 0; i < n; i++) s.ix[s.ids[i]] = i;
  s.K = s.C = s.M = Dense(n, std::vector<double>(n, 0)); s.F.assign(n, 0); s.R.assign(n, 0); s.fixed.assign(n, 0); s.uc.assign(n, 0);
  for (size_t k = 0; k < m.el.size(); k++) {
    Dense Ke, Ce, Me; std::vector<double> Fe; elemMatrices(m, m.el[k], Ke, Ce, Me, Fe); auto d = m.el[k].dofs((int)k);
    for (size_t i = 0; i < d.size(); i++) { int a = s.ix[d[i]]; s.F[a] += Fe[i]; for (size_t j = 0; j < d.size(); j++) { int b = s.ix[d[j]]; s.K[a][b] += Ke[i][j]; s.C[a][b] += Ce[i][j]; s.M[a][b] += Me[i][j]; } }
  }
  for (auto& f : m.fix) { int i = s.ix[{0, f.node, f.type}]; s.fixed[i] = 1; s.uc[i] = f.v; }
  for (auto& l : m.load) s.R[s.ix[{0, l.node, l.type}]] += l.v;
  return s;
}
Ref solveLinear(const Model& m) {
  Ref r; Sys s = assemble(m); int n = (int)s.ids.size(); std::vector<int> fr; for (int i = 0; i < n; i++) if (!s.fixed[i]) fr.push_back(i);
  int nf = (int)fr.size(), nm = (int)m.mpc.size(), N = nf + nm;
  std::vector<std::vector<long double>> A(N, std::vector<long double>(N, 0)); std::vector<long double> b(N, 0), x;
  for (int i = 0; i < nf; i++) { b[i] = (long double)s.F[fr[i]] + s.R[fr[i]]; for (int j = 0; j < nf; j++) A[i][j] = s.K[fr[i]][fr[j]]; for (int j = 0; j < n; j++) if (s.fixed[j]) b[i] -= (long double)s.K[fr[i]][j] * s.uc[j]; }
  Dense G(nm, std::vector<double>(n, 0));
  for (int k = 0; k < nm; k++) {
    for (auto& t : m.mpc[k].t) G[k][s.ix[{0, t.node, t.type}]] += t.c;
    b[nf + k] = m.mpc[k].b;
    for (int j = 0; j < n; j++) if (s.fixed[j]) b[nf + k] -= (long double)G[k][j] * s.uc[j];
    for (int i = 0; i < nf; i++) A[i][nf + k] = A[nf + k][i] = G[k][fr[i]];
  }
  r.ok = denseSolve(A, b, x);
  if (!r.ok) return r;
  std::vector<long double> u(n, 0); for (int j = 0; j < n; j++) if (s.fixed[j]) u[j] = s.uc[j]; for (int i = 0; i < nf; i++) u[fr[i]] = x[i];
  for (int k = 0; k < nm; k++) r.lambda.push_back((double)x[nf + k]);
  for (int i = 0; i < n; i++) {
    r.U[s.ids[i]] = (double)u[i]; r.scale = std::max(r.scale, (double)fabsl(u[i]));
    if (s.fixed[i]) { long double q = -(long double)s.F[i]; for (int j = 0; j < n; j++) q += (long double)s.K[i][j] * u[j]; for (int k = 0; k < nm; k++) q += (long double)G[k][i] * x[nf + k]; r.R[s.ids[i]] = (double)q; }
    else r.R[s.ids[i]] = s.R[i];
  }
  return r;
}
std::vector<TState> solveNewmark(const Model& m, double t0, double t1, int nst, double alpha, double delta) {
  std::vector<TState> out; Sys s = assemble(m); int n = (int)s.ids.size(); std::vector<int> fr; for (int i = 0; i < n; i++) if (!s.fixed[i]) fr.push_back(i);
  int nf = (int)fr.size(), nm = (int)m.mpc.size(), N = nf + nm; long double dt = ((long double)t1 - t0) / nst;
  Dense G(nm, std::vector<double>(n, 0)); for (int k = 0; k < nm; k++) for (auto& t : m.mpc[k].t) G[k][s.ix[{0, t.node, t.type}]] += t.c;
  std::vector<long double> U(n, m.initValue), V(n, 0), W(n, 0);
  for (int j = 0; j < n; j++) if (s.fixed[j]) U[j] = s.uc[j];
  // textbook form: unknown acceleration; u1 = u + dt v + dt^2((.5-alpha) a + alpha a1), v1 = v + dt((1-delta) a + delta a1)
  for (int st = 0; st < nst; st++) {
    std::vector<long double> up(n), vp(n);
    for (int i = 0; i < n; i++) { up[i] = U[i] + dt * V[i] + dt * dt * (0.5L - alpha) * W[i]; vp[i] = V[i] + dt * (1 - (long double)delta) * W[i]; }
    std::vector<std::vector<long double>> A(N, std::vector<long double>(N, 0)); std::vector<long double> b(N, 0), x;
    // unknown: displacement of the free dofs, a1 = (u1 - up)/(alpha dt^2), v1 = vp + delta dt a1
    long double ca = 1 / (alpha * dt * dt);
    for (int i = 0; i < nf; i++) {
      int I = fr[i]; b[i] = (long double)s.F[I] + s.R[I];
      for (int j = 0; j < nf; j++) { int J = fr[j]; A[i][j] = s.K[I][J] + ca * s.M[I][J] + ca * delta * dt * s.C[I][J]; b[i] += (ca * s.M[I][J] + ca * delta * dt * s.C[I][J]) * up[J] - s.C[I][J] * vp[J]; }
      for (int j = 0; j < n; j++) if (s.fixed[j]) b[i] -= (long double)s.K[I][j] * s.uc[j];
    }
    for (int k = 0; k < nm; k++) { b[nf + k] = m.mpc[k].b; for (int j = 0; j < n; j++) if (s.fixed[j]) b[nf + k] -= (long double)G[k][j] * s.uc[j]; for (int i = 0; i < nf; i++) A[i][nf + k] = A[nf + k][i] = G[k][fr[i]]; }
    if (!denseSolve(A, b, x)) return out;
    std::vector<long double> u1(n), a1(n), v1(n);
    for (int j = 0; j < n; j++) if (s.fixed[j]) u1[j] = s.uc[j]; for (int i = 0; i < nf; i++) u1[fr[i]] = x[i];
    for (int i = 0; i < n; i++) { a1[i] = ca * (u1[i] - up[i]); v1[i] = vp[i] + delta * dt * a1[i]; }
    U = u1; V = v1; W = a1;
    TState T; for (int i = 0; i < n; i++) { T.U[s.ids[i]] = (double)U[i]; T.V[s.ids[i]] = (double)V[i]; T.A[s.ids[i]] = (double)W[i]; }
    out.push_back(T);
  }
  return out;
}
std::map<DofId, double> internalForce(const Model& m, const std::map<DofId, double>& u) {
  std::map<DofId, double> f;
  for (size_t k = 0; k < m.el.size(); k++) {
    const El& e = m.el[k]; Dense Ke, Ce, Me; std::vector<double> Fe; elemMatrices(m, e, Ke, Ce, Me, Fe); auto d = e.dofs((int)k);
    for (size_t i = 0; i < d.size(); i++) { double v = 0; for (size_t j = 0; j < d.size(); j++) v += Ke[i][j] * u.at(d[j]); double ui = u.at(d[i]); f[d[i]] += v + e.c3 * ui * ui * ui - Fe[i]; }
  }
  return f;
}

// ---- user element ----------------------------------------------------------------------------------
HElem::HElem(const El& e, const std::vector<u32>& nodeNo) : d(&e) {
  shape = e.shape; nodes = new uint32[getNNodes()]; live++;
  for (size_t i = 0; i < e.nodes.size(); i++) nodes[i] = nodeNo[e.nodes[i]];
}
HElem::~HElem() { live--; }
size_t HElem::n() const { return d->K.size(); }
void HElem::pre() {
  hook("pre"); acc = 0; updates = 0;
  for (uint16 i = 0; i < getNNodes(); i++) for (int t : d->nd) storage->addNodeDof(getNodeNumber(i), {(Dof::dofType)t});
  for (int t : d->ed) storage->addElementDof(getElNum(), {(Dof::dofType)t});
}
double HElem::dofValue(size_t i) {
  size_t k = d->nd.size();
  if (i < k * getNNodes()) return storage->getNodeDofSolution(getNodeNumber(i / k), (Dof::dofType)d->nd[i % k]);
  return storage->getElementDofSolution(getElNum(), (Dof::dofType)d->ed[i - k * getNNodes()]);
}
template <uint16 D> static void asmK(HElem* e, const Dense& K, const std::vector<double>& F, bool withF, std::initializer_list<Dof::dofType> l) {
  math::MatSym<D> m; math::Vec<D> f; for (int i = 0; i < D; i++) { f[i] = F[i]; for (int j = i; j < D; j++) m.comp(i, j) = K[i][j]; }
  if (withF) e->assembleK(m, f, l); else e->assembleK(m, l);
}
template <uint16 D> static void asmX(HElem* e, const Dense& K, bool mass, std::initializer_list<Dof::dofType> l) {
  math::MatSym<D> m; for (int i = 0; i < D; i++) for (int j = i; j < D; j++) m.comp(i, j) = K[i][j];
  if (mass) e->assembleM(m, l); else e->assembleC(m, l);
}
static u32 eqOf(FEStorage* s, HElem* e, size_t i) {
  const El* d = e->d; size_t k = d->nd.size();
  if (i < k * e->getNNodes()) return s->getNodeDofEqNumber(e->getNodeNumber(i / k), (Dof::dofType)d->nd[i % k]);
  return s->getElementDofEqNumber(e->getElNum(), (Dof::dofType)d->ed[i - k * e->getNNodes()]);
}
// 0 when no template instance fits
static int tmplDim(const El* d) { if (!d->ed.empty()) return 0; if (d->nd == std::vector<int>{Dof::UX} || d->nd == std::vector<int>{Dof::TEMP}) return (int)d->nodes.size(); if (d->nd == std::vector<int>{Dof::UX, Dof::UY, Dof::UZ} && d->nodes.size() <= 4) return (int)d->nodes.size() * 3; return 0; }
void HElem::buildK() {
  hook("buildK");
  size_t N = n(); Dense K = d->K; std::vector<double> F = d->F;
  if (d->nl) {
    std::vector<double> u(N); for (size_t i = 0; i < N; i++) u[i] = dofValue(i);
    for (size_t i = 0; i < N; i++) { for (size_t j = 0; j < N; j++) F[i] -= d->K[i][j] * u[j]; F[i] -= d->c3 * u[i] * u[i] * u[i]; K[i][i] += 3 * d->c3 * u[i] * u[i]; }
  }
  int td = d->path == 1 ? tmplDim(d) : 0; bool three = d->nd.size() == 3; Dof::dofType t0 = (Dof::dofType)d->nd[0];
  if (td && !three) { switch (td) { case 1: asmK<1>(this, K, F, true, {t0}); return; case 2: asmK<2>(this, K, F, true, {t0}); return; case 3: asmK<3>(this, K, F, true, {t0}); return; case 4: asmK<4>(this, K, F, true, {t0}); return; } }
  if (td && three) { switch (td) { case 3: asmK<3>(this, K, F, true, {Dof::UX, Dof::UY, Dof::UZ}); return; case 6: asmK<6>(this, K, F, true, {Dof::UX, Dof::UY, Dof::UZ}); return; case 9: asmK<9>(this, K, F, true, {Dof::UX, Dof::UY, Dof::UZ}); return; case 12: asmK<12>(this, K, F, true, {Dof::UX, Dof::UY, Dof::UZ}); return; } }
  if (d->path == 2 && d->ed.empty()) {
    Eigen::MatrixXd E(N, N); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) E(i, j) = K[i][j];
    if (d->nd.size() == 1) assembleK(E, {t0}); else if (d->nd.size() == 2) assembleK(E, {t0, (Dof::dofType)d->nd[1]}); else assembleK(E, {t0, (Dof::dofType)d->nd[1], (Dof::dofType)d->nd[2]});
    for (uint16 i = 0; i < getNNodes(); i++) for (size_t k = 0; k < d->nd.size(); k++) storage->addValueF(getNodeNumber(i), (Dof::dofType)d->nd[k], F[i * d->nd.size() + k]);
    return;
  }
  for (size_t i = 0; i < N; i++) {
    for (size_t j = i; j < N; j++) storage->addValueK(eqOf(storage, this, i), eqOf(storage, this, j), K[i][j]);
    storage->addValueF(eqOf(storage, this, i), F[i]);
  }
}
static void buildX(HElem* e, FEStorage* st, const Dense& X, bool mass) {
  const El* d = e->d; size_t N = X.size();
  int td = d->path == 1 ? tmplDim(d) : 0; bool three = d->nd.size() == 3; Dof::dofType t0 = (Dof::dofType)d->nd[0];
  if (td && !three) { switch (td) { case 1: asmX<1>(e, X, mass, {t0}); return; case 2: asmX<2>(e, X, mass, {t0}); return; case 3: asmX<3>(e, X, mass, {t0}); return; case 4: asmX<4>(e, X, mass, {t0}); return; } }
  if (td && three) { switch (td) { case 3: asmX<3>(e, X, mass, {Dof::UX, Dof::UY, Dof::UZ}); return; case 6: asmX<6>(e, X, mass, {Dof::UX, Dof::UY, Dof::UZ}); return; case 9: asmX<9>(e, X, mass, {Dof::UX, Dof::UY, Dof::UZ}); return; case 12: asmX<12>(e, X, mass, {Dof::UX, Dof::UY, Dof::UZ}); return; } }
  for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) { u32 a = eqOf(st, e, i), b = eqOf(st, e, j); if (mass) st->addValueM(a, b, X[i][j]); else st->addValueC(a, b, X[i][j]); }
}
void HElem::buildC() { hook("buildC"); if (!d->C.empty()) buildX(this, storage, d->C, false); }
void HElem::buildM() { hook("buildM"); if (!d->M.empty()) buildX(this, storage, d->M, true); }
void HElem::update() { hook("update"); updates++; acc = 0; for (size_t i = 0; i < n(); i++) acc += (i + 1) * dofValue(i); }
bool HElem::getScalar(double* s, scalarQuery q, uint16 gp, const double sc0) { const double gf = gp == GP_MEAN ? 1.0 : gp + 3.0, sc = sc0 * gf; hook("scalar"); if (q == scalarQuery::W || (q == scalarQuery::VOL && d->nodes.size() > 2)) { *s += acc * sc * (q == scalarQuery::W ? 1 : 2); return true; } return false; }
bool HElem::getVector(math::Vec<3>* v, vectorQuery q, uint16 gp, const double sc0) { const double gf = gp == GP_MEAN ? 1.0 : gp + 3.0, sc = sc0 * gf; if (q == vectorQuery::FLUX) { (*v)[0] += acc * gf; (*v)[1] += 2 * acc * gf; (*v)[2] -= acc * sc; return true; } return false; }
bool HElem::getTensor(math::MatSym<3>* t, tensorQuery q, uint16 gp, const double sc0) { const double gf = gp == GP_MEAN ? 1.0 : gp + 3.0, sc = sc0 * gf; if (q == tensorQuery::E) { for (int i = 0; i < 6; i++) t->data[i] += (i + 1) * acc * sc; return true; } return false; }

// ---- instances ----------------------------------------------------------------------------------
template <class T> static std::vector<int> iot(const std::vector<T>& v) { std::vector<int> r(v.size()); std::iota(r.begin(), r.end(), 0); return r; }
Perm identity(const Model& m) { Perm p; p.node = iot(m.pos); p.el = iot(m.el); p.fix = iot(m.fix); p.load = iot(m.load); p.mpc = iot(m.mpc); return p; }
Perm randomPerm(const Model& m) { Perm p = identity(m); sim::shuffle(p.node); sim::shuffle(p.el); sim::shuffle(p.fix); sim::shuffle(p.load); sim::shuffle(p.mpc); p.addMode = chance(1, 2); return p; }

void addNodes(const Model& m, const Perm& p, FEStorage* st, std::vector<u32>& nodeNo) {
  nodeNo.assign(m.pos.size(), 0);
  if (p.addMode) { for (size_t i = 0; i < m.pos.size(); i++) { st->addNode(new Node); nodeNo[p.node[i]] = st->nNodes(); } }
  else { auto v = st->createNodes((u32)m.pos.size()); for (size_t i = 0; i < m.pos.size(); i++) nodeNo[p.node[i]] = v[i]; }
  for (size_t i = 0; i < m.pos.size(); i++) for (int k = 0; k < 3; k++) st->getNode(nodeNo[i]).pos[k] = m.pos[i][k];
}
void addElems(const Model& m, const Perm& p, FEStorage* st, const std::vector<u32>& nodeNo, std::vector<u32>& elNo) {
  elNo.assign(m.el.size(), 0);
  for (size_t q = 0; q < m.el.size(); q++) {
    int i = p.el[q]; const El& e = m.el[i]; Element* x = nullptr;
    switch (e.kind) {
      case GEN: x = new HElem(e, nodeNo); st->addElement(x); break;
      case TRUSS: { auto v = st->createElements(1, ElementType::TRUSS3); auto& t = st->getElement<ElementTRUSS3>(v[0]); t.E = e.p1; t.A = e.p2; x = &t; break; }
      case QUADT: { auto v = st->createElements(1, ElementType::QUADTH); auto& t = st->getElement<ElementQUADTH>(v[0]); t.k = e.p1; t.rho = e.p2; t.c = 1; t.volFlux = e.p3; x = &t; break; }
      case LINET: { SurfaceLINETH* t = new SurfaceLINETH; t->flux = e.p1; t->htc = e.p2; t->etemp[0] = e.p3; t->etemp[1] = e.p3; st->addElement(t); x = t; break; }
      case TET0: { auto v = st->createElements(1, ElementType::TETRA0); auto& t = st->getElement<ElementTETRA0>(v[0]); t.E = e.p1; t.my = e.p2; if (e.p3 != 0) { t.alpha = e.p3 / 2; t.T = 2; } x = &t; break; }
      case TRI4: { auto v = st->createElements(1, ElementType::TRIANGLE4); auto& t = st->getElement<ElementTRIANGLE4>(v[0]); t.E = e.p1; t.my = e.p2; t.state = e.p3 != 0 ? PlaneState::Stress : PlaneState::Strain; x = &t; break; }
      case TET1: { auto v = st->createElements(1, ElementType::TETRA1); auto& t = st->getElement<ElementTETRA1>(v[0]); t.k = e.p1; x = &t; break; }
      case INT0: { auto v = st->createElements(1, ElementType::INTER0); auto& t = st->getElement<ElementINTER0>(v[0]); t.kn = e.p1; t.ks = e.p2; t.n[0] = 1; t.n[1] = e.p3; t.n[2] = 0.5; x = &t; break; }
      case INT3: { auto v = st->createElements(1, ElementType::INTER3); auto& t = st->getElement<ElementINTER3>(v[0]); t.kn = e.p1; t.ks = e.p2; x = &t; break; }
      case SOLID: { auto v = st->createElements(1, ElementType::SOLID81); x = &st->getElement(v[0]); break; }
      case PLANE: { auto v = st->createElements(1, ElementType::PLANE41); x = &st->getElement(v[0]); break; }
    }
    elNo[i] = st->nElements();
    if (e.kind != GEN) for (size_t k = 0; k < e.nodes.size(); k++) x->getNodeNumber((uint16)k) = nodeNo[e.nodes[k]];
  }
}
void addMpcs(const Model& m, const Perm& p, FEStorage* st, const std::vector<u32>& nodeNo) {
  for (int i : p.mpc) { Mpc* c = new Mpc; c->b = m.mpc[i].b; for (auto& t : m.mpc[i].t) c->eq.push_back(MpcTerm(nodeNo[t.node], (Dof::dofType)t.type, t.c)); st->addMpc(c); }
}
void addRigid(const Model& m, FEStorage* st, const std::vector<u32>& nodeNo) {
  for (auto& b : m.rigid()) {
    RigidBodyMpc* r = new RigidBodyMpc; r->storage = st; r->masterNode = nodeNo[b.master];
    for (int s : b.slaves) r->slaveNodes.push_back(nodeNo[s]); for (int t : b.dofs) r->dofs.push_back((Dof::dofType)t);
    st->addMpcCollection(r);
  }
}
void addMesh(const Model& m, const Perm& p, FEStorage* st, std::vector<u32>& nodeNo, std::vector<u32>& elNo) { addNodes(m, p, st, nodeNo); addElems(m, p, st, nodeNo, elNo); addMpcs(m, p, st, nodeNo); addRigid(m, st, nodeNo); }
void Inst::build(const Model& model, const Perm& p, FEStorage* storage, FESolver* solver) {
  m = &model; st = storage; so = solver; { sim::Host h; ids = model.dofs(); }
  { addMesh(model, p, st, nodeNo, elNo); }
  if (model.needMaterial && !st->material) {
    Material* mat = MaterialFactory::createMaterial(model.matKind ? "Mooney-Rivlin" : "Neo-Hookean");
    if (model.matKind) { mat->Ci(0) = 0.4; mat->Ci(1) = 0.1; mat->Ci(2) = 500; } else { mat->Ci(0) = 1; mat->Ci(1) = 500; }
    st->material = mat;
  }
  if (so) {
    so->attachFEStorage(st);
    for (int i : p.load) so->addLoad(nodeNo[model.load[i].node], (Dof::dofType)model.load[i].type, model.load[i].v);
    for (int i : p.fix) so->addFix(nodeNo[model.fix[i].node], (Dof::dofType)model.fix[i].type, model.fix[i].v);
  }
}
u32 Inst::eq(const DofId& d) { return d.e ? st->getElementDofEqNumber(elNo[d.ent], (Dof::dofType)d.type) : st->getNodeDofEqNumber(nodeNo[d.ent], (Dof::dofType)d.type); }
bool Inst::used(const DofId& d) { return d.e ? st->isElementDofUsed(elNo[d.ent], (Dof::dofType)d.type) : st->isNodeDofUsed(nodeNo[d.ent], (Dof::dofType)d.type); }
double Inst::U(const DofId& d) { return d.e ? st->getElementDofSolution(elNo[d.ent], (Dof::dofType)d.type) : st->getNodeDofSolution(nodeNo[d.ent], (Dof::dofType)d.type); }
double Inst::R(const DofId& d) { return d.e ? st->getReaction(eq(d)) : st->getReaction(nodeNo[d.ent], (Dof::dofType)d.type); }
Snap Inst::snap(char t, int s) {
  Snap x; x.type = t; x.step = s;
  for (auto& d : ids) { x.U.push_back(U(d)); x.R.push_back(R(d)); if (deriv) { x.V.push_back((*st->getDU())[eq(d) - 1]); x.A.push_back((*st->getDDU())[eq(d) - 1]); } }
  if (t != 'p') x.stale = staleElement();
  return x;
}
int Inst::staleElement() {
  for (size_t i = 0; i < m->el.size(); i++) if (m->el[i].kind == GEN) {
    HElem& e = static_cast<HElem&>(st->getElement(elNo[i])); double a = 0; int k = 0;
    for (auto& d : m->el[i].dofs((int)i)) a += (++k) * U(d);
    if (!(e.acc == a)) return (int)i;
  }
  return -1;
}
void Inst::hashState() { for (auto& d : ids) { sim::hashD(U(d)); sim::hashD(R(d)); } }
void Obs::pre() { { sim::Host h; in->snaps.push_back(in->snap('p', 0)); sim::ev("T%d pre", in->task); } hook("pp-pre"); }
void Obs::process(uint16 s) { { sim::Host h; in->snaps.push_back(in->snap('s', s)); sim::ev("T%d step %d", in->task, (int)s); for (double v : in->snaps.back().U) sim::hashD(v); } hook("pp-process"); }
void Obs::post(uint16 s) { { sim::Host h; in->snaps.push_back(in->snap('e', s)); sim::ev("T%d post", in->task); } hook("pp-post"); }
}  // namespace mdl
