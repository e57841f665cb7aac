#include "nonlin.h"
namespace mdl {
// rigid body: u_s = u_m + (C(theta) - I)(x_s - x_m), Rodrigues
static void rot(const LD th[3], const LD x[3], LD y[3]) {
  LD a = sqrtl(th[0] * th[0] + th[1] * th[1] + th[2] * th[2]); if (a < 1e-30L) { for (int i = 0; i < 3; i++) y[i] = x[i]; return; }
  LD k[3] = {th[0] / a, th[1] / a, th[2] / a}, c = cosl(a), s = sinl(a), kx = k[0] * x[0] + k[1] * x[1] + k[2] * x[2];
  LD cr[3] = {k[1] * x[2] - k[2] * x[1], k[2] * x[0] - k[0] * x[2], k[0] * x[1] - k[1] * x[0]};
  for (int i = 0; i < 3; i++) y[i] = x[i] * c + cr[i] * s + k[i] * kx * (1 - c);
}
static LD rbG(const Model& m, int ma, const std::map<DofId, LD>& u, int s, int t) {
  LD th[3], x[3], y[3]; for (int i = 0; i < 3; i++) { th[i] = u.at({0, ma, Dof::ROTX + i}); x[i] = (LD)m.pos[s][i] - m.pos[ma][i]; }
  rot(th, x, y); return u.at({0, s, t}) - u.at({0, ma, t}) - (y[t] - x[t]);
}
std::vector<LD> constraints(const Model& m, const std::map<DofId, LD>& u, double) {
  std::vector<LD> g;
  for (auto& c : m.mpc) { LD v = -(LD)c.b; for (auto& t : c.t) v += (LD)t.c * u.at({0, t.node, t.type}); g.push_back(v); }
  for (auto& b : m.rigid()) for (int s : b.slaves) for (int t : b.dofs) g.push_back(rbG(m, b.master, u, s, t));
  return g;
}
std::vector<std::map<DofId, LD>> constraintRows(const Model& m, const std::map<DofId, LD>& u) {
  std::vector<std::map<DofId, LD>> G;
  for (auto& c : m.mpc) { std::map<DofId, LD> r; for (auto& t : c.t) r[{0, t.node, t.type}] += t.c; G.push_back(r); }
  for (auto& body : m.rigid()) for (int s : body.slaves) for (int t : body.dofs) {
    std::map<DofId, LD> r; r[{0, s, t}] += 1; r[{0, body.master, t}] -= 1;
    for (int k = 0; k < 3; k++) { auto v = u; DofId d{0, body.master, Dof::ROTX + k}; const LD h = 1e-5L; v[d] = u.at(d) + h; LD a = rbG(m, body.master, v, s, t); v[d] = u.at(d) - h; LD b = rbG(m, body.master, v, s, t); r[d] += (a - b) / (2 * h); }
    G.push_back(r);
  }
  return G;
}
NlRef solveNewton(const Model& m, int steps, double crit, int maxIter) {
  NlRef R; auto ids = m.dofs(); int n = (int)ids.size(); std::map<DofId, int> ix; for (int i = 0; i < n; i++) ix[ids[i]] = i;
  std::vector<char> fixed(n, 0); std::vector<double> fv(n, 0), ld(n, 0);
  for (auto& f : m.fix) { fixed[ix[{0, f.node, f.type}]] = 1; fv[ix[{0, f.node, f.type}]] = f.v; } for (auto& l : m.load) ld[ix[{0, l.node, l.type}]] += l.v;
  std::vector<int> fr; for (int i = 0; i < n; i++) if (!fixed[i]) fr.push_back(i); int nf = (int)fr.size();
  std::map<DofId, LD> u; for (auto& d : ids) u[d] = 0;
  for (int s = 1; s <= steps; s++) {
    LD t = (LD)s / steps; bool conv = false; int it = 0;
    for (it = 1; it <= maxIter && !conv; it++) {
      std::vector<std::vector<LD>> K(n, std::vector<LD>(n, 0)); std::vector<LD> F(n, 0);
      for (size_t k = 0; k < m.el.size(); k++) {
        const El& e = m.el[k]; auto d = e.dofs((int)k);
        for (size_t i = 0; i < d.size(); i++) { int a = ix[d[i]]; LD ui = u[d[i]], f = e.F[i] - (LD)e.c3 * ui * ui * ui; for (size_t j = 0; j < d.size(); j++) { K[a][ix[d[j]]] += e.K[i][j]; f -= (LD)e.K[i][j] * u[d[j]]; } K[a][a] += 3 * (LD)e.c3 * ui * ui; F[a] += f; }
      }
      for (int i = 0; i < n; i++) R.stiff = std::max(R.stiff, (double)fabsl(K[i][i]));
      auto g = constraints(m, u, 1); auto G = constraintRows(m, u); int nm = (int)g.size(), N = nf + nm;
      std::vector<LD> dc(n, 0); for (int i = 0; i < n; i++) if (fixed[i]) dc[i] = fv[i] * t - u[ids[i]];
      std::vector<std::vector<LD>> A(N, std::vector<LD>(N, 0)); std::vector<LD> b(N, 0), x;
      for (int i = 0; i < nf; i++) { int I = fr[i]; b[i] = F[I] + ld[I] * t; for (int j = 0; j < nf; j++) A[i][j] = K[I][fr[j]]; for (int j = 0; j < n; j++) if (fixed[j]) b[i] -= K[I][j] * dc[j]; }
      for (int k = 0; k < nm; k++) { b[nf + k] = -g[k]; for (auto& q : G[k]) { int j = ix[q.first]; if (fixed[j]) b[nf + k] -= q.second * dc[j]; } for (int i = 0; i < nf; i++) { auto q = G[k].find(ids[fr[i]]); if (q != G[k].end()) A[i][nf + k] = A[nf + k][i] = q->second; } }
      if (!denseSolve(A, b, x)) return R;
      LD sum = 0; for (int i = 0; i < nf; i++) { u[ids[fr[i]]] += x[i]; sum += fabsl(x[i]); if (fabsl(u[ids[fr[i]]]) > 1e4) return R; } for (int i = 0; i < n; i++) if (fixed[i]) u[ids[i]] = fv[i] * t;
      conv = sum / nf < (LD)crit * crit;
      if (conv) break;
    }
    if (!conv) return R;
    R.iters.push_back(it); std::map<DofId, double> q; for (auto& x : u) { q[x.first] = (double)x.second; R.scale = std::max(R.scale, std::fabs((double)x.second)); } R.U.push_back(q);
  }
  R.ok = true; return R;
}
}
