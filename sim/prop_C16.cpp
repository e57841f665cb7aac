// C16: the nla3d program as a whole: exit status, termination, damaged files, bad options.
#include "model.h"
#include "vfs.h"
#include "FESolver.h"
#include "ReactionProcessor.h"
using namespace sim;
using namespace mdl;
int nla3d_cli_main(int argc, char** argv);
namespace {
const char* const MODEL = "job.v1.cdb"; const char* const CURVE = "curve.txt";
struct Cmd { char kind; int idx; size_t beg, end; };   // D/F command of the deck
struct Job {
  Model m; std::vector<u32> no; int steps = 2, iters = 15; std::vector<double> matC; bool reaction = false, rigid = false, rbDefault = false; std::vector<int> rNodes; std::vector<int> rDofs; std::string rName, rbName;
  std::string deck; size_t tablesEnd = 0, mpcEnd = 0; std::vector<Cmd> cmds;
};
struct Truth { bool ok = false; std::vector<double> curve; int maxIter = 0; };

std::string num(double v) { return fmt("%.17g", v); }
void writeDeck(Job& j) {
  std::string& t = j.deck; std::string e = chance(1, 4) ? "\r\n" : "\n"; auto line = [&](const std::string& s) { t += s + e; };
  line("/COM,ANSYS RELEASE 12.1"); line("/PREP7"); line(fmt("NUMOFF,NODE, %zu", j.no.size())); line("ET,        1,185");
  line(fmt("NBLOCK,6,SOLID,%10zu,%10zu", j.no.size(), j.no.size())); line("(3i9,6e21.13e3)");
  for (size_t i = 0; i < j.no.size(); i++) { std::string s = fmt("%9u%9d%9d", j.no[i], 0, 0); for (int k = 0; k < 3; k++) { char b[40]; double v = j.m.pos[i][k]; snprintf(b, sizeof b, "%.13E", v); std::string q = b; size_t p = q.find('E'); int x = atoi(q.c_str() + p + 1); s += fmt("%21s", (q.substr(0, p) + fmt("E%c%03d", x < 0 ? '-' : '+', abs(x))).c_str()); } line(s); }
  line("N,R5.3,LOC,       -1,");
  std::vector<int> rows; for (size_t i = 0; i < j.m.el.size(); i++) rows.push_back((int)i);
  if (chance(1, 3)) for (int q = range(1, 3); q; q--) rows.insert(rows.begin() + draw(rows.size() + 1), -1);   // elements of another type belong to the file but not to the job
  line(fmt("EBLOCK,19,SOLID,%10zu,%10zu", rows.size(), rows.size())); line("(19i9)");
  for (size_t i = 0; i < rows.size(); i++) { std::vector<int> nn; if (rows[i] >= 0) nn = j.m.el[rows[i]].nodes; else { static const int k[] = {1, 2, 4, 8}; int c = k[draw(4)]; for (int q = 0; q < c; q++) nn.push_back((int)draw(j.no.size())); } int ty = rows[i] >= 0 ? 1 : range(2, 5);
    std::string s = fmt("%9d%9d%9d%9d%9d%9d%9d%9d%9zu%9d%9zu", 1, ty, ty, 1, 0, 0, 0, 0, nn.size(), 0, i + 1); for (int n : nn) s += fmt("%9u", j.no[n]); line(s); }
  line("       -1");
  auto comp = [&](const std::string& nm, std::vector<u32> l) { std::sort(l.begin(), l.end()); std::vector<long> tk; for (size_t i = 0; i < l.size();) { size_t q = i; while (q + 1 < l.size() && l[q + 1] == l[q] + 1) q++; tk.push_back(l[i]); if (q > i) tk.push_back(-(long)l[q]); i = q + 1; } line(fmt("CMBLOCK,%s,NODE,%8zu  ! users node component definition", nm.c_str(), tk.size())); line("(8i10)"); std::string s; for (size_t i = 0; i < tk.size(); i++) { s += fmt("%10ld", tk[i]); if (i % 8 == 7 || i + 1 == tk.size()) { line(s); s.clear(); } } };
  auto nums = [&](const std::vector<int>& v) { std::vector<u32> r; for (int n : v) r.push_back(j.no[n]); return r; };
  if (j.reaction) comp(j.rName, nums(j.rNodes)); if (j.rigid) comp(j.rbName, nums(j.m.rbSlaves));
  j.tablesEnd = t.size();
  for (auto& c : j.m.mpc) { line(fmt("CE,R5.0,DEFI,%8zu,%8d,  0.00000000", c.t.size(), 1)); std::string s; for (size_t k = 0; k < c.t.size(); k++) { if (k % 2 == 0) s = "CE,R5.0,NODE"; s += fmt(",%10u,%s  ,%s", j.no[c.t[k].node], Dof::dofTypeLabels[c.t[k].type], num(c.t[k].c).c_str()); if (k % 2 || k + 1 == c.t.size()) line(s); } }
  j.mpcEnd = t.size();
  std::vector<std::pair<char, int>> o; for (size_t i = 0; i < j.m.fix.size(); i++) o.push_back({'D', (int)i}); for (size_t i = 0; i < j.m.load.size(); i++) o.push_back({'F', (int)i}); if (chance(1, 2)) shuffle(o);
  std::vector<FixS> nf; std::vector<LoadS> nl;     // the library keeps the order of the deck
  for (auto& p : o) { Cmd c; c.kind = p.first; c.beg = t.size(); if (p.first == 'D') { auto& f = j.m.fix[p.second]; line(fmt("D,%7u,%s,%s", j.no[f.node], Dof::dofTypeLabels[f.type], num(f.v).c_str())); c.idx = (int)nf.size(); nf.push_back(f); } else { auto& f = j.m.load[p.second]; static const char* const l[] = {"FX", "FY", "FZ"}; line(fmt("F,%7u,%s  ,%s", j.no[f.node], l[f.type], num(f.v).c_str())); c.idx = (int)nl.size(); nl.push_back(f); } c.end = t.size(); j.cmds.push_back(c); }
  j.m.fix = nf; j.m.load = nl; line("FINISH");
}
// the same analysis through the library with plenty of iterations; pristine process
Truth truth(const Job& j, const Model& m) {
  std::string s = isolated([&] {
    std::vector<double> curve; int mx = 0; bool ok = false;
    struct Watch : PostProcessor { NonlinearFESolver* so; int* mx; Watch(FEStorage* s, NonlinearFESolver* n, int* m) : PostProcessor(s), so(n), mx(m) { name = "Watch"; } void pre() override {} void process(uint16) override { *mx = std::max(*mx, (int)so->timeControl.getCurrentEquilibriumStep()); } void post(uint16) override {} };
    Outcome o = attempt([&] {
      FEStorage* st = new FEStorage; NonlinearFESolver* so = new NonlinearFESolver; Inst* in = new Inst; so->numberOfLoadsteps = j.steps; so->numberOfIterations = 60;
      Material* mat = MaterialFactory::createMaterial(m.matKind ? "Mooney-Rivlin" : "Neo-Hookean"); for (size_t i = 0; i < j.matC.size(); i++) mat->Ci(i) = j.matC[i]; st->material = mat;
      in->build(m, identity(m), st, so); ReactionProcessor* rp = nullptr; so->addPostProcessor(new Watch(st, so, &mx));
      if (j.reaction) { rp = new ReactionProcessor(st); for (int n : j.rNodes) rp->nodes.push_back(in->nodeNo[n]); for (int d : j.rDofs) rp->dofs.push_back((Dof::dofType)d); so->addPostProcessor(rp); }
      so->solve(); if (rp) curve = rp->getReactions(rp->dofs[0]); ok = true; });
    std::string r = fmt("%d %d", (int)(ok && o.kind == OK), mx); for (double d : curve) r += " " + num(d); return r; });
  Truth t; char* p = (char*)s.c_str(); t.ok = strtol(p, &p, 10); t.maxIter = (int)strtol(p, &p, 10); for (;;) { char* e; double v = strtod(p, &e); if (e == p) break; t.curve.push_back(v); p = e; } return t;
}
// what a complete reference file says; false: not a complete curve
bool parseCurve(const std::string& s, std::vector<double>& c) {
  std::vector<std::string> tk; size_t p = 0; const char* ws = " \t\r\n\v\f"; while ((p = s.find_first_not_of(ws, p)) != std::string::npos) { size_t q = s.find_first_of(ws, p); if (q == std::string::npos) q = s.size(); tk.push_back(s.substr(p, q - p)); p = q; }
  if (tk.size() < 3 || tk[2] != "force" || tk.size() % 3) return false;
  for (size_t i = 5; i < tk.size(); i += 3) { char* e; double v = strtod(tk[i].c_str(), &e); if (*e || !std::isfinite(v)) return false; c.push_back(v); } return !c.empty();
}
void run() {
  setStepBudget(20000000); vfs::reset(); static const int fills[] = {-1, 0x00, 0xff, 0x41}; int f0 = fills[draw(4)]; clk::on(1);
  Job j; int kind = (int)draw(2); j.m = genSolid(kind); Model& m = j.m; j.steps = range(1, 4); j.iters = chance(1, 3) ? range(1, 6) : 15;
  double k = chance(1, 2) ? 500 : real(5, 100, 19); if (m.matKind) j.matC = {0.4, 0.1, k}; else j.matC = {real(0.5, 2, 6), k};
  double xmax = 0; for (auto& p : m.pos) xmax = std::max(xmax, p[0]);
  if (kind == 1 && chance(1, 4)) {          // the loaded face is driven by a rigid body
    j.rigid = true; j.rbName = "TOP"; j.rbDefault = chance(1, 2); m.rbMaster = (int)m.pos.size(); m.pos.push_back({xmax + 0.5, 0.5, 0.5}); for (size_t n = 0; n + 1 < m.pos.size(); n++) if (m.pos[n][0] == xmax) m.rbSlaves.push_back((int)n); m.rbDofs = {Dof::UX, Dof::UY, Dof::UZ};
    std::vector<FixS> f; for (auto& x : m.fix) if (m.pos[x.node][0] != xmax) f.push_back(x); for (size_t n = 0; n + 1 < m.pos.size(); n++) if (m.pos[n][0] == 0) { for (int t : {Dof::UY, Dof::UZ}) { bool have = false; for (auto& x : f) have |= x.node == (int)n && x.type == t; if (!have) f.push_back({(int)n, t, 0}); } }
    f.push_back({m.rbMaster, Dof::UX, real(0.02, 0.1, 8)}); f.push_back({m.rbMaster, Dof::UY, 0}); f.push_back({m.rbMaster, Dof::UZ, 0}); f.push_back({m.rbMaster, Dof::ROTX, chance(1, 2) ? real(0.05, 0.2, 8) : 0}); f.push_back({m.rbMaster, Dof::ROTY, 0}); f.push_back({m.rbMaster, Dof::ROTZ, 0}); m.fix = f;
  }
  if (chance(1, 3)) {                        // nodal loads and constraint equations of the deck
    std::set<int> held; for (int q = 0, nq = range(1, 3); q < nq; q++) {
      int t = (int)draw(kind ? 3 : 2); std::vector<int> c; for (size_t n = 0; n < m.pos.size(); n++) { bool fixed = m.rbMaster == (int)n; for (int s : m.rbSlaves) fixed |= s == (int)n; for (auto& f : m.fix) fixed |= f.node == (int)n && f.type == t; if (!fixed) c.push_back((int)n); }
      if (c.size() < 2) continue;
      if (chance(1, 2) && held.insert(t).second) { MpcS e; if (chance(1, 3)) e.t = {{c[draw(c.size())], t, chance(1, 2) ? 1.0 : -2.0}}; else e.t = {{c[0], t, 1}, {c[1], t, -1}}; m.mpc.push_back(e); } else m.load.push_back({c[draw(c.size())], t, real(-0.05, 0.05, 10)}); } }
  // node numbers of the deck and their order in the table
  u32 b = 1; bool gaps = chance(1, 2); for (size_t i = 0; i < m.pos.size(); i++) { j.no.push_back(b); b += gaps && chance(1, 2) ? (u32)range(1, 300) : 1; } if (gaps && chance(1, 3)) shuffle(j.no);
  j.reaction = chance(3, 4);
  if (j.reaction) { j.rName = "DISP_BC"; if (j.rigid && chance(1, 2)) { j.rNodes = {m.rbMaster}; j.rDofs = {chance(1, 2) ? Dof::UX : Dof::ROTX}; } else { double face = j.rigid || chance(1, 2) ? 0 : xmax; for (size_t n = 0; n < m.pos.size(); n++) if (m.pos[n][0] == face && (int)n != m.rbMaster) j.rNodes.push_back((int)n); j.rDofs = {Dof::UX}; if (chance(1, 4)) j.rDofs.push_back(Dof::UY); if (chance(1, 6) && j.rNodes.size() > 1) j.rNodes.pop_back(); } }
  writeDeck(j);
  Truth t0 = truth(j, m); bool converges = t0.ok && t0.maxIter <= j.iters;
  // the curve
  bool curve = j.reaction && t0.ok && chance(3, 4), thr = curve && chance(5, 6); double dev = 0, threshold = 0; std::string ct; std::vector<double> rc;
  if (curve) {
    bool far = chance(1, 4); rc = t0.curve; double sc = 1e-6; for (double v : rc) sc = std::max(sc, std::fabs(v)); int how = (int)draw(4);
    if (how == 1) for (double& v : rc) v += sc * real(-0.1, 0.1, 64); else if (how == 2) rc[draw(rc.size())] += sc * real(0.01, 1, 33); else if (how == 3) for (double& v : rc) v = v * (1 + real(-0.2, 0.2, 32)); 
    auto text = [&] { ct = "time    disp      force   "; std::string e = chance(1, 4) ? "\r\n" : "\n"; ct += e; for (size_t i = 0; i < rc.size(); i++) { char bb[40]; snprintf(bb, sizeof bb, chance(1, 2) ? "%.17g" : "%20.12e", rc[i]); rc[i] = strtod(bb, nullptr); ct += fmt("%7d.%8.2f %s%s", (int)i * 5, 0.1 * (double)i, bb, i + 1 < rc.size() || !chance(1, 3) ? e.c_str() : ""); } if (chance(1, 5)) ct += e; };
    text(); for (size_t i = 0; i < rc.size(); i++) dev += std::fabs(rc[i] - t0.curve[i]) / rc.size();
    threshold = far && dev > 1e-5 * sc ? dev * real(0.05, 0.9, 17) : dev * (1 + real(0.1, 3, 29)) + 1e-7 * sc; vfs::put(CURVE, ct);
  }
  // options
  std::vector<std::vector<std::string>> opt; std::vector<std::string> args;
  if (kind == 0 || chance(1, 2)) opt.push_back({"-element", kind ? "SOLID81" : "PLANE41"});
  { std::vector<std::string> v = {"-material", m.matKind ? "Mooney-Rivlin" : "Neo-Hookean"}; for (double c : j.matC) v.push_back(num(c)); opt.push_back(v); }
  if (j.iters != 15 || chance(1, 3)) opt.push_back({"-iterations", fmt("%d", j.iters)}); opt.push_back({"-loadsteps", fmt("%d", j.steps)}); bool vtk = chance(1, 3); if (!vtk) opt.push_back({"-novtk"});
  if (curve) opt.push_back({"-refcurve", CURVE}); if (thr) opt.push_back({"-threshold", num(threshold)}); else if (curve && chance(1, 3)) opt.push_back({"-threshold", "0"});
  if (j.reaction) { std::vector<std::string> v = {"-reaction", j.rName}; for (int d : j.rDofs) v.push_back(Dof::dofTypeLabels[d]); opt.push_back(v); }
  if (j.rigid) { std::vector<std::string> v = {"-rigidbody", fmt("%u", j.no[m.rbMaster]), j.rbName}; if (!j.rbDefault) for (int d : m.rbDofs) v.push_back(Dof::dofTypeLabels[d]); opt.push_back(v); }
  if (chance(1, 2)) shuffle(opt);
  // faults
  bool mustFail = !converges || (thr && !(dev <= threshold)), mayEither = false; std::string what = "intact"; u64 chunk = 0; switch (draw(3)) { case 0: break; case 1: chunk = (u64)range(1, 40); break; default: chunk = (u64)range(40, 800); }
  vfs::put(MODEL, j.deck); int act = (int)draw(12); u64 allocAt = 0; bool eio = false, damaged = true; int argMode = 0, noArgs = 0;
  auto setArg = [&](const char* o, std::vector<std::string> v) { for (auto& x : opt) if (x[0] == o) { x.resize(1); x.insert(x.end(), v.begin(), v.end()); return true; } return false; };
  switch (act) {
    case 0: case 1: damaged = false; break;
    case 2: case 3: {     // model cut
      size_t p = act == 2 ? draw(j.tablesEnd + 1) : j.tablesEnd + draw(j.deck.size() - j.tablesEnd + 1); if (chance(1, 3)) { p = j.deck.find('\n', p); p = p == std::string::npos ? j.deck.size() : p + 1; }
      vfs::put(MODEL, j.deck.substr(0, p)); stat("fault.cut-model"); what = fmt("model cut at byte %zu of %zu", p, j.deck.size());
      if (p < j.tablesEnd) { size_t e = j.deck.find("EBLOCK"), q = j.deck.find_last_not_of("\r\n", j.tablesEnd - 1); 
        // a table that misses rows; a cut inside the last number of the last component, or after it, leaves a well-formed shorter deck
        size_t lastField = j.reaction || j.rigid ? q - 9 : q - 1; (void)e; if (p <= lastField && !(p > j.deck.find("       -1", j.deck.find("EBLOCK")) && j.deck[p - 1] == '\n')) mustFail = true; else mayEither = true; 
      } else if (p < j.mpcEnd) mayEither = !m.mpc.empty();
      else { Model c = m; c.fix.clear(); c.load.clear(); bool inside = false; for (auto& x : j.cmds) { size_t e = j.deck.find_first_of("\r\n", x.beg); if (p >= e) { if (x.kind == 'D') c.fix.push_back(m.fix[x.idx]); else c.load.push_back(m.load[x.idx]); } else if (p > x.beg) inside = true; }
        if (inside) mayEither = true; else if (c.fix.size() + c.load.size() != m.fix.size() + m.load.size()) { Truth t = truth(j, c); bool good = t.ok && t.maxIter <= j.iters; if (good && thr) { double d = 0; if (t.curve.size() != rc.size()) good = false; for (size_t i = 0; good && i < rc.size(); i++) d += std::fabs(rc[i] - t.curve[i]) / rc.size(); if (good && std::fabs(d - threshold) < 1e-9 * (1 + threshold)) mayEither = true; good = good && d <= threshold; } mustFail = !good; if (!t.ok) { mustFail = false; mayEither = true; } } }
      if (mayEither) mustFail = false;
      break; }
    case 4: eio = true; what = "read error on the model"; vfs::addFault({vfs::READ_EIO, 1 + draw(chunk ? j.deck.size() / chunk + 2 : 2), 0, MODEL, false}); break;
    case 5: mustFail = true; if (chance(1, 2)) { what = "model is absent"; vfs::erase(MODEL); } else { what = "model cannot be opened"; vfs::addFault({vfs::OPEN_FAIL, 1, 0, MODEL, false}); } break;
    case 6: if (curve) { size_t p = draw(ct.size() + 1); if (chance(1, 3)) { p = ct.find('\n', p); p = p == std::string::npos ? ct.size() : p + 1; } std::string s = ct.substr(0, p); vfs::put(CURVE, s); stat("fault.cut-curve"); what = fmt("curve cut at byte %zu of %zu", p, ct.size()); std::vector<double> c; bool ok = parseCurve(s, c) && c.size() == t0.curve.size(); double d = 0; for (size_t i = 0; ok && i < c.size(); i++) d += std::fabs(c[i] - t0.curve[i]) / c.size(); if (!thr) mayEither = !ok; else if (!ok || !(d <= threshold)) { mustFail = true; if (ok && std::fabs(d - threshold) < 1e-9 * (1 + threshold)) { mustFail = false; mayEither = true; } } } break;
    case 7: if (curve) { int h = (int)draw(3); if (h == 0) { what = "curve is absent"; vfs::erase(CURVE); } else if (h == 1) { what = "curve cannot be opened"; vfs::addFault({vfs::OPEN_FAIL, 1, 0, CURVE, false}); } if (h < 2) { if (thr) mustFail = true; else mayEither = true; } else { what = "read error on the curve"; eio = true; vfs::addFault({vfs::READ_EIO, 1 + draw(chunk ? ct.size() / chunk + 2 : 2), 0, CURVE, false}); } } break;
    case 8: if (curve) {   // damaged curve
      std::string s = ct; size_t hdr = s.find('\n') + 1; static const char* const tok[] = {"nan", "inf", "1e999", "abc", "1,5", "1.5abc", "--1", "0x", ".", "1e", "-"};
      switch (draw(5)) { case 0: { size_t row = draw(rc.size()); size_t p = hdr; for (size_t i = 0; i < row; i++) p = s.find('\n', p) + 1; size_t q = s.find_first_of("\r\n", p); if (q == std::string::npos) q = s.size(); size_t a = s.find_last_of(' ', q - 1) + 1; s.replace(a, q - a, tok[draw(11)]); what = "token of the curve replaced"; break; }
        case 1: { size_t p = s.find("force"); s.replace(p, 5, draw(2) ? "Force" : "time"); what = "wrong heading of the curve"; break; }
        case 2: { size_t p = s.find('\n', hdr); if (p != std::string::npos) s.erase(hdr, p + 1 - hdr); what = "row of the curve is lost"; break; }
        case 3: { size_t p = s.find('\n', hdr); if (p != std::string::npos) s.insert(hdr, s.substr(hdr, p + 1 - hdr)); what = "row of the curve is doubled"; break; }
        default: { size_t p = hdr + draw(s.size() - hdr); s.insert(p, draw(2) ? " " : "x"); what = "character inserted into the curve"; } }
      stat("fault.damaged-curve"); vfs::put(CURVE, s); std::vector<double> c; bool ok = parseCurve(s, c) && c.size() == t0.curve.size(); double d = 0; for (size_t i = 0; ok && i < c.size(); i++) d += std::fabs(c[i] - t0.curve[i]) / c.size(); if (!thr) mayEither = !ok; else if (!ok || !(d <= threshold)) mustFail = true; if (thr && ok && std::fabs(d - threshold) < 1e-9 * (1 + threshold)) { mustFail = false; mayEither = true; } }
      break;
    case 9: { argMode = range(1, 21); static const char* const bad[] = {"abc", "", "1e999", "nan", "0.1x", "-5", "--", "9999999999999999999999"}; std::string v = bad[draw(8)]; stat("fault.bad-option"); what = "option spoiled: ";
      switch (argMode) {
        case 1: if (thr && v != "-5" && v[0] != '9') { setArg("-threshold", {v}); mustFail = true; what += "-threshold " + v; } else mayEither = true; break;
        case 2: if (thr) { setArg("-threshold", {}); mustFail = true; what += "-threshold without a number"; for (size_t i = 0; i < opt.size(); i++) if (opt[i][0] == "-threshold" && i + 1 == opt.size() && draw(2)) {} } break;
        case 3: if (v == "-5" || v == "nan" || v == "abc" || v == "" || v == "0.1x" || v == "--" || v == "9999999999999999999999" || v == "1e999") { setArg("-loadsteps", {v}); mustFail = true; what += "-loadsteps " + v; } break;
        case 4: if (setArg("-iterations", {v})) mayEither = true; what += "-iterations " + v; break;
        case 5: { std::vector<std::string> w = {m.matKind ? "Mooney-Rivlin" : "Neo-Hookean"}; for (size_t i = 0; i + 1 < j.matC.size(); i++) w.push_back(num(j.matC[i])); setArg("-material", w); mustFail = true; what += "a constant is missing"; break; }
        case 6: { std::vector<std::string> w = {m.matKind ? "Mooney-Rivlin" : "Neo-Hookean"}; for (size_t i = 0; i < j.matC.size(); i++) w.push_back(i ? num(j.matC[i]) : v); setArg("-material", w); mustFail = v != "-5" && v[0] != '9'; mayEither = !mustFail; what += "constant " + v; break; }
        case 7: setArg("-material", {"Steel", "1", "2"}); mustFail = true; what += "unknown material"; break;
        case 8: if (setArg("-element", {"SOLID99"})) mustFail = true; what += "unknown element"; break;
        case 9: if (j.reaction) { setArg("-reaction", {"NOBODY", "UX"}); mustFail = true; what += "unknown reaction component"; } break;
        case 10: if (j.rigid) { setArg("-rigidbody", {fmt("%u", j.no[m.rbMaster]), draw(2) ? "NOBODY" : ""}); mustFail = true; what += "unknown rigid component"; } break;
        case 11: if (j.rigid) { setArg("-rigidbody", {draw(2) ? "4000000" : "x", j.rbName}); mustFail = true; what += "unknown master node"; } break;
        case 12: if (j.rigid) { setArg("-rigidbody", {fmt("%u", j.no[m.rbMaster]), j.rbName, "UX", "UQ"}); mustFail = true; what += "unknown rigid DoF"; } break;
        case 13: if (j.reaction) { setArg("-reaction", {j.rName}); mayEither = true; mustFail = mustFail && !thr; what += "no reaction DoF"; } break;   // recorded DoFs are chosen by the program
        case 14: { size_t k = draw(opt.size()); while (opt[k].size() < 2) k = (k + 1) % opt.size(); std::string n = opt[k][0]; opt[k].resize(1); if (chance(2, 3)) std::swap(opt[k], opt.back()); mustFail = true; what += n + " without its value"; break; }
        case 15: for (size_t k = 0; k < opt.size(); k++) if (opt[k][0] == "-material") { opt.erase(opt.begin() + (long)k); break; } mustFail = true; what += "no material"; break;
        case 16: if (j.rigid) { setArg("-rigidbody", {fmt("%u", j.no[m.rbMaster])}); mustFail = true; what += "rigid body without slaves"; } break;
        case 17: noArgs = range(1, 3); mustFail = true; what += noArgs == 1 ? "no arguments" : noArgs == 2 ? "only the model" : "no model"; break;
        case 18: if (thr) { for (size_t k = 0; k < opt.size(); k++) if (opt[k][0] == "-reaction") { opt.erase(opt.begin() + (long)k); break; } mustFail = true; what += "reference curve without reactions"; } break;
        case 19: if (thr && j.rigid) { bool held = false; for (auto& f : m.fix) for (int sl : m.rbSlaves) held |= f.node == sl; if (!held) { setArg("-reaction", {j.rbName}); mustFail = true; what += "nodes with nothing to react"; } } break;
        default: if (j.reaction && curve) { setArg("-reaction", {j.rName, "UW"}); mayEither = !mustFail; if (thr) mustFail = true; what += "unknown reaction DoF"; } break;
      } break; }
    case 10: if (vtk) { what = "output fault"; vfs::FaultKind ks[] = {vfs::OPEN_FAIL, vfs::WRITE_EIO, vfs::WRITE_TORN, vfs::DISK_FULL, vfs::CLOSE_FAIL}; vfs::addFault({ks[draw(5)], 1 + draw(12), 1 + draw(60), fmt("job.v1%d.vtk", (int)draw(j.steps + 1)), false}); mayEither = true; } else damaged = false; break;
    default: allocAt = 1 + draw(chance(1, 2) ? 400 : 6000); mayEither = true; what = fmt("allocation %llu fails", (unsigned long long)allocAt); break;
  }
  if (act != 10 && chance(1, 3)) vfs::addFault({chance(1, 2) ? vfs::READ_EINTR : vfs::READ_SHORT, 1 + draw(20), 1 + draw(40), chance(1, 2) ? MODEL : CURVE, false});
  args = {"nla3d", MODEL}; for (auto& o : opt) for (auto& s : o) args.push_back(s);
  if (noArgs == 1) args = {"nla3d"}; else if (noArgs == 2) args.resize(2); else if (noArgs == 3) args.erase(args.begin() + 1);
  std::string line; for (auto& a : args) line += a + " ";
  sample(line + fmt("| %zu nodes, %zu elements, needs %d iterations, deviation %.3g | ", m.pos.size(), m.el.size(), t0.maxIter, dev) + what);
  std::vector<char*> av; for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  mem::fill(f0); vfs::readChunk(chunk); vfs::enable(true); u64 fired0 = vfs::firedFaults(); mem::resetCount(); if (allocAt) mem::failAt(allocAt, chance(1, 2)); int rc0 = -1;
  Outcome o = attempt([&] { rc0 = nla3d_cli_main((int)args.size(), av.data()); });
  bool af = allocAt && mem::fired(); mem::failAt(0, false); vfs::enable(false); bool anyFired = vfs::firedFaults() > fired0; vfs::clearFaults(); mem::fill(-1);
  if (af) stat("fault.allocation"); if (eio) { bool got = false; for (auto& h : vfs::history()) got |= h.type == 'r' && !h.ok; if (anyFired && got) { if (what.find("curve") != std::string::npos && !thr) mayEither = true; else mustFail = true; } }
  bool zero = (o.kind == OK && rc0 == 0) || (o.kind == EXIT && o.code == 0);
  ev("end %s %d", kindName(o.kind), o.kind == EXIT ? o.code : rc0);
  stat(zero ? "exit.success" : o.kind == ABORT ? "exit.abort" : o.kind == EXC ? "exit.exception" : "exit.status"); simtime(j.steps); if (damaged || mustFail) nontrivial(); if (!converges) stat("jobs.not-converging"); if (thr && dev > threshold) stat("jobs.deviating");
  if (zero && vtk && act != 10 && !allocAt) for (int i = 0; i <= j.steps; i++) SIM_CHECK(vfs::get(fmt("job.v1%d.vtk", i)).size() > 200, "output-missing", "the program exits with status 0 but the snapshot of step %d is not written: %s", i, line.c_str());
  SIM_CHECK(o.kind != CRASH, "ended", "the program crashed");
  if (mustFail) SIM_CHECK(!zero, "false-success", "the program exits with status 0 (%s; needs %d of %d iterations, deviation %.6g of %.6g): %s", what.c_str(), t0.ok ? t0.maxIter : 999, j.iters, dev, threshold, line.c_str());
  else if (!mayEither) SIM_CHECK(zero, "false-failure", "the program ends with %s %d %s although its job is done (%s; deviation %.6g of %.6g): %s", kindName(o.kind), o.kind == EXIT ? o.code : rc0, o.what.c_str(), what.c_str(), dev, threshold, line.c_str());
}
Register reg({"C16", run, 4000000, 40000000,
  "whole runs of the command line program on generated jobs (SOLID81/PLANE41 blocks, both materials, constraints, rigid bodies, reference curves, option orders, renumbered decks) with cut, absent, unopenable and failing model and curve files, damaged curves, spoiled options, output faults, failing allocations; the exit status is compared with an independent verdict: what was delivered, a library solution with unlimited iterations, an independent reader of the curve; endless loops exceed the step budget; nontrivial: the job is damaged or must fail",
  "real: main.cpp, option parsing, readers, nonlinear solver, elements, recorders; simulated: files, allocator, clock, process exit"});
}
