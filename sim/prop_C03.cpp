// C03: Netgen neutral meshes: intact, cut, damaged, unreadable.
#include "deck.h"
#include "vfs.h"
#include <sstream>
#include <array>
using namespace sim;
namespace {
struct Tok { std::string s; size_t beg, end; char kind; };    // kind: i integer, f float, w any word
struct Neu { std::string text; std::vector<Tok> tok; std::vector<std::array<double, 3>> pos; std::vector<std::pair<int, std::vector<u32>>> vol; std::vector<std::pair<std::string, std::vector<u32>>> surf; };
Neu gen() {
  Neu f; static const char* const eols[] = {"\n", "\r\n", " \n", "\n\n"}; const char* eol = eols[draw(4)]; bool first = true;
  auto put = [&](const std::string& s, char k, bool newline) { if (first) { if (chance(1, 8)) f.text += " "; first = false; } else if (newline) f.text += eol; else f.text += chance(1, 5) ? "\t" : std::string(1 + draw(3), ' '); if (newline && chance(1, 6)) f.text += "  "; size_t b = f.text.size(); f.text += s; f.tok.push_back({s, b, f.text.size(), k}); };
  auto num = [&] { double v; switch (draw(6)) { case 0: v = 0; break; case 1: v = range(-50, 50); break; case 2: v = real(-1, 1, 997) / 3; break; case 3: v = 1e8 * real(-1, 1, 997) / 7; break; case 4: v = 1e-7 * real(-1, 1, 997) / 7; break; default: v = real(-3, 3, 500); } static const char* const fm[] = {"%.10g", "%.17g", "%.6f", "%.9e"}; return fmt(fm[draw(4)], v); };
  int nn = range(0, chance(1, 5) ? 60 : 8), nv = nn ? range(0, chance(1, 5) ? 40 : 6) : 0, ns = nn ? range(0, chance(1, 5) ? 30 : 6) : 0;
  put(fmt("%d", nn), 'i', true); for (int i = 0; i < nn; i++) { std::array<double, 3> p; for (int c = 0; c < 3; c++) { std::string s = num(); p[c] = strtod(s.c_str(), nullptr); put(s, 'f', c == 0); } f.pos.push_back(p); }
  put(fmt("%d", nv), 'i', true); for (int i = 0; i < nv; i++) { int m = chance(1, 6) ? range(0, 500) : range(1, 5); put(fmt("%d", m), 'i', true); std::vector<u32> v; for (int c = 0; c < 4; c++) { v.push_back((u32)range(1, nn)); put(fmt("%u", v.back()), 'i', false); } f.vol.push_back({m, v}); }
  put(fmt("%d", ns), 'i', true); for (int i = 0; i < ns; i++) { std::string nm = fmt("%d", range(1, 4)); put(nm, 'w', true); std::vector<u32> v; for (int c = 0; c < 3; c++) { v.push_back((u32)range(1, nn)); put(fmt("%u", v.back()), 'i', false); } f.surf.push_back({nm, v}); }
  if (!chance(1, 4)) f.text += eol; return f;
}
void compare(const Neu& f, MeshData& md) {
  SIM_CHECK(md.nodesPos.size() == f.pos.size() && md.nodesNumbers.size() == f.pos.size(), "nodes", "%zu positions and %zu numbers for %zu nodes", md.nodesPos.size(), md.nodesNumbers.size(), f.pos.size());
  for (size_t i = 0; i < f.pos.size(); i++) { SIM_CHECK(md.nodesNumbers[i] == i + 1, "nodes", "node %zu got number %u", i + 1, md.nodesNumbers[i]); for (int c = 0; c < 3; c++) SIM_CHECK(md.nodesPos[i][c] == f.pos[i][c], "nodes", "node %zu coordinate %d is %.17g, in the file %.17g", i + 1, c, md.nodesPos[i][c], f.pos[i][c]); }
  SIM_CHECK(md.cellNumbers.size() == f.vol.size() && md.cellNodes.size() == f.vol.size(), "cells", "%zu cells with %zu node lists for %zu volumes", md.cellNumbers.size(), md.cellNodes.size(), f.vol.size());
  for (auto& p : md.cellIntData) SIM_CHECK(p.second.size() == f.vol.size(), "cells", "attribute %s has %zu values for %zu cells", p.first.c_str(), p.second.size(), f.vol.size());
  if (!f.vol.empty()) SIM_CHECK(md.cellIntData.count("MAT"), "cells", "no material numbers");
  SIM_CHECK(md.cellDoubleData.empty() && md.cellStringData.empty() && md.mpcs.empty() && md.fixBcs.empty() && md.loadBcs.empty(), "leftovers", "data of the previous mesh are still there");
  for (size_t i = 0; i < f.vol.size(); i++) { SIM_CHECK(md.cellNumbers[i] == i + 1 && md.cellNodes[i] == f.vol[i].second, "cells", "cell %zu has number %u or wrong nodes", i + 1, md.cellNumbers[i]); SIM_CHECK((int)md.cellIntData["MAT"][i] == f.vol[i].first, "cells", "cell %zu has material %u, in the file %d", i + 1, md.cellIntData["MAT"][i], f.vol[i].first); }
  std::map<std::string, std::vector<u32>> s; for (auto& x : f.surf) { auto& l = s[x.first]; l.insert(l.end(), x.second.begin(), x.second.end()); }
  SIM_CHECK(md.feComps.size() == s.size(), "surfaces", "%zu components for %zu surfaces", md.feComps.size(), s.size());
  for (auto& x : s) { auto it = md.feComps.find(x.first); SIM_CHECK(it != md.feComps.end() && it->second.name == x.first && it->second.list == x.second, "surfaces", "component of surface %s differs from the file", x.first.c_str()); }
}
void run() {
  setStepBudget(3000000); vfs::reset(); static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  Neu f = gen(); const char* P = "mesh.neu"; MeshData* md = nullptr; Outcome o; bool ok = false; attempt([&] { md = new MeshData; });
  if (chance(1, 3)) { deck::Opt o2; deck::Deck d2 = deck::genDeck(o2); vfs::put("old.cdb", d2.text); vfs::enable(true); o = attempt([&] { readCdbFile("old.cdb", *md); md->cellDoubleData["T"].push_back(1); md->cellStringData["T"].push_back("a"); }); vfs::enable(false); auto m = md->mpcs; for (auto* x : m) delete x; }
  u64 chunk = 0; switch (draw(3)) { case 0: break; case 1: chunk = (u64)range(1, 30); break; default: chunk = (u64)range(30, 500); }
  int nf = range(0, 3); auto benign = [&] { for (int i = 0; i < nf; i++) vfs::addFault({chance(1, 2) ? vfs::READ_EINTR : vfs::READ_SHORT, 1 + draw(chunk ? f.text.size() / chunk + 1 : 2), 1 + draw(40), P, false}); };
  auto import = [&] { vfs::readChunk(chunk); vfs::enable(true); ok = false; o = attempt([&] { ok = readNeuFile(P, *md); }); vfs::enable(false); vfs::clearFaults(); };
  auto accepted = [&] { return o.kind == OK && ok; }; std::string what; int act = (int)draw(6); bool intact = false;
  switch (act) {
    case 0: case 1: vfs::put(P, f.text); benign(); import(); what = "intact"; intact = true; if (chunk || nf) nontrivial(); break;
    case 2: { size_t p = draw(f.text.size() + 1); if (chance(1, 2)) { auto& t = f.tok[draw(f.tok.size())]; p = chance(1, 2) ? t.beg : t.end; if (chance(1, 3)) p = t.beg + draw(t.end - t.beg + 1); } vfs::put(P, f.text.substr(0, p)); benign(); stat("fault.cut-file"); import(); what = fmt("cut at byte %zu of %zu", p, f.text.size()); nontrivial();
      // the last number may be shortened; a shortened final count of surfaces may announce fewer of them only when no surface follows
      if (p >= f.tok.back().end) intact = true;
      else SIM_CHECK(!accepted() || p > f.tok.back().beg, "cut-accepted", "%s: the import reports success", what.c_str());
      break; }
    case 3: { size_t i = draw(f.tok.size()); auto& t = f.tok[i]; if (t.kind == 'w') { what = "surface name kept"; break; } static const char* const junk[] = {"abc", "x", "--", "*", "n/a", ","}; std::string r = junk[draw(6)]; int w = (int)draw(3); if (w == 1) r = t.s + (t.kind == 'f' ? "x" : "z"); if (w == 2) r = "q" + t.s;
      std::string c = f.text; c.replace(t.beg, t.end - t.beg, r); vfs::put(P, c); stat("fault.damaged-token"); benign(); import(); what = fmt("token %zu '%s' replaced by '%s'", i, t.s.c_str(), r.c_str()); nontrivial(); 
      SIM_CHECK(!accepted(), "damage-accepted", "%s: the import reports success", what.c_str()); break; }
    case 4: { vfs::put(P, f.text); u64 n = 1 + draw(chunk ? f.text.size() / chunk + 2 : 2), f0 = vfs::firedFaults(); vfs::addFault({vfs::READ_EIO, n, 0, P, false}); import(); bool fired = vfs::firedFaults() > f0; what = fmt("read error on read %llu", (unsigned long long)n);
      if (fired) { nontrivial(); SIM_CHECK(!accepted(), "read-error-accepted", "%s (pieces of %llu): the import reports success", what.c_str(), (unsigned long long)chunk); } else intact = true; break; }
    default: if (chance(1, 2)) what = "absent file"; else { vfs::put(P, f.text); vfs::addFault({vfs::OPEN_FAIL, 1, 0, P, false}); what = "file cannot be opened"; } import(); nontrivial(); SIM_CHECK(!accepted(), "absent-accepted", "%s: the import reports success", what.c_str());
  }
  SIM_CHECK(o.kind == OK || o.loud(), "ended", "%s: the import ended with %s", what.c_str(), kindName(o.kind));
  if (intact) { SIM_CHECK(accepted(), "rejected", "%s: a well-formed file was not imported (%s)", what.c_str(), o.kind == OK ? "false result" : kindName(o.kind)); compare(f, *md); }
  stat(accepted() ? "outcome.success" : "outcome.refused"); sample(fmt("%zu bytes, %zu nodes, %zu volumes, %zu surfaces, pieces of %llu, ", f.text.size(), f.pos.size(), f.vol.size(), f.surf.size(), (unsigned long long)chunk) + what);
  if (o.kind != ABORT && chance(1, 3)) { vfs::put(P, f.text); chunk = 0; if (intact || act >= 2) { import(); SIM_CHECK(accepted(), "rejected", "after the previous import the intact file is not imported"); compare(f, *md); stat("reimports"); } }
}
Register reg({"C03", run, 4000000, 40000000,
  "random neutral meshes (number formats, separators, line ends) delivered in pieces with interrupted reads into a mesh object with a history; cut at any byte, one token replaced by a non-number, read error at any read, absent file: success only when everything up to the last number was delivered and the data equal the generator's; nontrivial: reads split or file damaged",
  "real: readNeuFile, MeshData, iostreams; simulated: disk, cuts, read errors and sizes, memory contents"});
}
