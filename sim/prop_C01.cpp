// C01: cdb decks through a simulated device that splits and interrupts reads, into mesh objects with a history.
#include "deck.h"
#include "vfs.h"
using namespace sim;
using namespace deck;
namespace {
void compareAll(const Deck& d, MeshData& md, const char* when) {
  std::string e = consistent(md); SIM_CHECK(e.empty(), "inconsistent", "%s: %s", when, e.c_str());
  for (int c = 0; c < NCAT; c++) {
    std::vector<std::string> n1, n2; auto exp = expected(d, (Cat)c, &n1), got = flat(md, (Cat)c, &n2);
    SIM_CHECK(exp.size() == got.size(), "count", "%s: %zu %ss imported, the deck has %zu", when, got.size(), catName[c], exp.size());
    for (size_t i = 0; i < exp.size(); i++) SIM_CHECK(exp[i] == got[i], "content", "%s: %s %zu of the deck is %s, imported as %s", when, catName[c], i + 1, itemStr(exp[i]).c_str(), itemStr(got[i]).c_str());
    SIM_CHECK(n1 == n2, "component-names", "%s: component names differ from the deck", when);
  }
}
// reference renumbering: the i-th node gets number i+1
void renumbered(Deck& d) {
  std::map<double, double> m; double k = 0; for (auto& r : d.recs) if (r.cat == NODE) m[r.item[0]] = ++k;
  for (auto& r : d.recs) switch (r.cat) {
    case NODE: case FIX: case LOAD: r.item[0] = m[r.item[0]]; break;
    case CELL: for (size_t i = 7; i < r.item.size(); i++) r.item[i] = m[r.item[i]]; break;
    case MPC: for (size_t i = 1; i < r.item.size(); i += 3) r.item[i] = m[r.item[i]]; break;
    default: if (r.item[0] == 2) for (size_t i = 1; i < r.item.size(); i++) r.item[i] = m[r.item[i]]; }
}
void run() {
  setStepBudget(8000000); vfs::reset(); static const int fills[] = {-1, 0x00, 0xff, 0x41};
  int imports = range(1, 3); MeshData* md = nullptr; std::string what; Outcome o;
  mem::fill(fills[draw(4)]); o = attempt([&] { md = new MeshData; }); std::vector<nla3d::Mpc*> own;
  if (chance(1, 3)) attempt([&] {   // a mesh object that was filled by hand
    for (int i = 0, n = range(1, 4); i < n; i++) { md->nodesNumbers.push_back(i + 5); md->nodesPos.push_back(nla3d::math::Vec<3>(1, 2, 3)); md->cellNumbers.push_back(i); md->cellNodes.push_back({1, 2}); md->cellIntData["MAT"].push_back(7); md->cellIntData["MINE"].push_back(7); md->cellDoubleData["T"].push_back(1); md->cellStringData["S"].push_back("x"); }
    md->fixBcs.push_back(fixBC(1, Dof::UX, 5)); md->loadBcs.push_back(loadBC(1, Dof::UX, 5)); FEComponent c; c.name = "NSET1"; c.type = FEComponent::ELEMENTS; c.list.push_back(3); md->feComps["NSET1"] = c; });
  for (int k = 0; k < imports; k++) {
    Opt op; op.maxNodes = chance(1, 4) ? 30 : 6; op.maxCells = chance(1, 4) ? 20 : 5; op.big = chance(1, 500); Deck d = genDeck(op);
    std::string path = fmt("mesh%d.cdb", k); vfs::put(path, d.text); vfs::enable(true);
    u64 chunk = 0; if (!op.big) switch (draw(4)) { case 0: break; case 1: chunk = (u64)range(1, 3); break; case 2: chunk = (u64)range(4, 100); break; default: chunk = (u64)range(100, 3000); } vfs::readChunk(chunk);
    int nf = range(0, 4); for (int i = 0; i < nf; i++) { u64 nr = chunk ? d.text.size() / chunk + 1 : 2; vfs::addFault({chance(1, 2) ? vfs::READ_EINTR : vfs::READ_SHORT, 1 + draw(nr), 1 + draw(40), path, false}); }
    bool ok = false; own = md->mpcs; o = attempt([&] { ok = readCdbFile(path, *md); }); vfs::enable(false); vfs::clearFaults(); if (chunk || nf) nontrivial(); stat("imports");
    for (auto* m : own) delete m;
    what += (k ? "; then " : "") + d.describe() + fmt(", read in pieces of %llu, %d interruptions", (unsigned long long)chunk, nf); sample(what);
    SIM_CHECK(o.kind == OK && ok, "rejected", "a well-formed deck was not imported (%s %s)", o.kind == OK ? "false result" : kindName(o.kind), o.what.c_str());
    compareAll(d, *md, k ? "import over a previous mesh" : "import");
    // cells by attribute and degenerated cells
    auto cells = expected(d, CELL); static const char* const at[] = {"TYPE", "MAT", "REAL", "SECT", "CS", "SHAPE"}; int ai = (int)draw(6); u32 av = (u32)draw(6); std::vector<u32> e1, e2, g1, g2;
    for (size_t i = 0; i < cells.size(); i++) { if (cells[i][1 + ai] == av) e1.push_back((u32)i); std::vector<double> s(cells[i].begin() + 7, cells[i].end()); std::sort(s.begin(), s.end()); if (std::adjacent_find(s.begin(), s.end()) != s.end()) e2.push_back((u32)i); }
    o = attempt([&] { g1 = md->getCellsByAttribute(at[ai], av); g2 = md->getDegeneratedCells(); });
    SIM_CHECK(o.kind == OK && e1 == g1, "by-attribute", "cells with %s = %u: %zu reported, %zu in the deck", at[ai], av, g1.size(), e1.size());
    SIM_CHECK(e2 == g2, "degenerated", "%zu degenerated cells reported, %zu in the deck", g2.size(), e2.size());
    int times = range(0, 2); if (times) renumbered(d);
    for (int i = 0; i < times; i++) { o = attempt([&] { md->compressNumbers(); }); SIM_CHECK(o.kind == OK, "renumber-failed", "renumbering ended with %s %s", kindName(o.kind), o.what.c_str()); compareAll(d, *md, i ? "renumbering again" : "renumbering"); stat("renumberings"); }
  }
  attempt([&] { freeMpcs(*md); delete md; });
}
Register reg({"C01", run, 4000000, 40000000,
  "random decks in all supported dialects (block formats, SOLID or not, omitted coordinates, odd constraint rows, ranges, skipped commands, LF/CRLF/CR/mixed line ends, with and without final newline) delivered in pieces of 1..3000 bytes with interrupted and short reads into a mesh object that already held another mesh; imported data compared field by field with the generator's records, then renumbered once or twice and compared with a reference renumbering; nontrivial: reads were split or interrupted",
  "real: readers, tokenizer, MeshData, components, iostreams, std::regex; simulated: disk, read sizes and interruptions, memory contents"});
}
