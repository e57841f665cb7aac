// C02: cut, unreadable and corrupted cdb decks.
#include "deck.h"
#include "vfs.h"
using namespace sim;
using namespace deck;
namespace {
bool parseNum(const std::string& t, bool integer, double& v) { char* e; const char* s = t.c_str(); v = integer ? (double)strtol(s, &e, 10) : strtod(s, &e); return e != s; }
// the record as it may look when its last number is cut to `t`
bool shortened(const Rec& r, const std::string& t, Item& out) {
  double v; if (!parseNum(t, r.cat == COMP || r.cat == CELL || (r.cat == NODE && r.lastIdx == 0), v)) return false;
  out = r.item; if (r.cat != COMP) { out[r.lastIdx] = v; return true; }
  out.resize(r.lastIdx); if (v >= 0) out.push_back(v); else for (double q = out.back() + 1; q <= -v; q++) out.push_back(q); return true;
}
void checkPrefix(const Deck& d, MeshData& md, size_t p, const std::string& what) {
  std::string e = consistent(md); SIM_CHECK(e.empty(), "inconsistent", "%s: %s", what.c_str(), e.c_str());
  for (int c = 0; c < NCAT; c++) {
    std::vector<const Rec*> full; const Rec* cut = nullptr; for (auto& r : d.recs) if (r.cat == c) { if (r.end <= p) full.push_back(&r); else if (r.beg < p && r.lastBeg < p && !cut) cut = &r; }
    std::vector<std::string> names; auto got = flat(md, (Cat)c, &names);
    if (c == COMP) {
      std::map<std::string, Item> g; for (size_t i = 0; i < got.size(); i++) g[names[i]] = got[i];
      for (auto* r : full) { auto it = g.find(r->name); SIM_CHECK(it != g.end(), "lost", "%s: component %s was delivered completely and is missing", what.c_str(), r->name.c_str()); SIM_CHECK(it->second == r->item, "torn", "%s: component %s of the deck is %s, imported as %s", what.c_str(), r->name.c_str(), itemStr(r->item).c_str(), itemStr(it->second).c_str()); g.erase(it); }
      for (auto& x : g) { Item s; SIM_CHECK(cut && x.first == cut->name && shortened(*cut, d.text.substr(cut->lastBeg, p - cut->lastBeg), s) && s == x.second, "invented", "%s: component %s is imported although the file ends before it does", what.c_str(), x.first.c_str()); }
      continue;
    }
    SIM_CHECK(got.size() >= full.size(), "lost", "%s: %zu %ss were delivered completely, %zu imported", what.c_str(), full.size(), catName[c], got.size());
    for (size_t i = 0; i < full.size(); i++) SIM_CHECK(got[i] == full[i]->item, "torn", "%s: %s %zu of the deck is %s, imported as %s", what.c_str(), catName[c], i + 1, itemStr(full[i]->item).c_str(), itemStr(got[i]).c_str());
    if (got.size() > full.size()) { Item s; SIM_CHECK(got.size() == full.size() + 1 && cut && shortened(*cut, d.text.substr(cut->lastBeg, p - cut->lastBeg), s) && s == got.back(), "invented", "%s: %s imported as %s, which the delivered part of the deck does not hold", what.c_str(), catName[c], itemStr(got.back()).c_str()); }
  }
}
void run() {
  setStepBudget(3000000); vfs::reset(); static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  Opt op; op.maxNodes = 5; op.maxCells = 4; Deck d = genDeck(op); const char* P = "mesh.cdb"; MeshData* md = nullptr; Outcome o; bool ok = false;
  attempt([&] { md = new MeshData; });
  if (chance(1, 4)) { Opt o2; Deck d2 = genDeck(o2); vfs::put("old.cdb", d2.text); vfs::enable(true); o = attempt([&] { readCdbFile("old.cdb", *md); }); vfs::enable(false); SIM_CHECK(o.kind == OK, "rejected", "a well-formed deck ended the import with %s", kindName(o.kind)); freeMpcs(*md); }
  u64 chunk = 0; switch (draw(3)) { case 0: break; case 1: chunk = (u64)range(1, 40); break; default: chunk = (u64)range(40, 800); } 
  int nf = range(0, 2); for (int i = 0; i < nf; i++) vfs::addFault({chance(1, 2) ? vfs::READ_EINTR : vfs::READ_SHORT, 1 + draw(chunk ? d.text.size() / chunk + 1 : 2), 1 + draw(40), P, false});
  auto import = [&] { vfs::readChunk(chunk); vfs::enable(true); ok = false; o = attempt([&] { ok = readCdbFile(P, *md); }); vfs::enable(false); vfs::clearFaults(); };
  std::string what; int act = (int)draw(8); bool dead = false;
  if (act <= 4) {
    size_t p = chance(2, 3) && !d.marks.empty() ? d.marks[draw(d.marks.size())] : draw(d.text.size() + 1); if (chance(1, 6) && p > 0) p--; if (chance(1, 6) && p < d.text.size()) p++;
    if (chance(1, 5) && !d.recs.empty()) { auto& r = d.recs[draw(d.recs.size())]; p = r.lastBeg + draw(r.lastEnd - r.lastBeg + 1); }
    vfs::put(P, d.text.substr(0, p)); stat("fault.cut-file"); import(); what = fmt("cut at byte %zu of %zu", p, d.text.size()); nontrivial();
    SIM_CHECK(o.kind == OK || o.loud(), "ended", "%s: the import ended with %s %s", what.c_str(), kindName(o.kind), o.what.c_str());
    if (o.kind == OK && ok) { checkPrefix(d, *md, p, what); stat("outcome.success"); } else stat(o.kind == OK ? "outcome.false" : "outcome.stopped");
    dead = o.kind == ABORT;
  } else if (act == 5) {
    u64 n = 1 + draw(chunk ? d.text.size() / chunk + 2 : 2); vfs::put(P, d.text); u64 f0 = vfs::firedFaults(); vfs::clearFaults(); vfs::addFault({vfs::READ_EIO, n, 0, P, false}); import(); what = fmt("read error on read %llu", (unsigned long long)n);
    bool fired = vfs::firedFaults() > f0; if (fired) { nontrivial(); SIM_CHECK(!(o.kind == OK && ok), "read-error-accepted", "%s (pieces of %llu): the import reports success", what.c_str(), (unsigned long long)chunk); } 
    else SIM_CHECK(o.kind == OK && ok, "rejected", "a well-formed deck was not imported (%s)", o.kind == OK ? "false" : kindName(o.kind)); dead = o.kind == ABORT;
  } else if (act == 6) {
    if (chance(1, 2)) what = "absent file"; else { what = "file cannot be opened"; vfs::put(P, d.text); vfs::addFault({vfs::OPEN_FAIL, 1, 0, P, false}); } nontrivial(); import(); SIM_CHECK(!(o.kind == OK && ok), "absent-accepted", "%s: the import reports success", what.c_str()); dead = o.kind == ABORT;
  } else {
    std::string t = d.text; int n = range(1, 4); what = "corrupted:"; static const char junk[] = " ,-NxE.:\n\r\t\"(!/_\xff";
    for (int i = 0; i < n && !t.empty(); i++) { size_t p = draw(t.size()); switch (draw(4)) { case 0: t[p] = junk[draw(sizeof junk - 1)]; break; case 1: if (t[p] != '\n' && t[p] != '\r') t.erase(p, 1 + draw(3)); break; case 2: t.insert(p, 1, junk[draw(sizeof junk - 1)]); break; default: { size_t q = t.find_first_of("\r\n", p); if (q == std::string::npos) q = t.size(); size_t b = t.find_last_of("\r\n", p); b = b == std::string::npos ? 0 : b; if (q > b) t.erase(b, q - b); } } what += fmt(" %zu", p); }
    vfs::put(P, t); stat("fault.corrupt-file"); import(); nontrivial(); SIM_CHECK(o.kind == OK || o.loud(), "ended", "corrupted deck: the import ended with %s", kindName(o.kind)); dead = o.kind == ABORT;
  }
  sample(d.describe() + fmt(", pieces of %llu, ", (unsigned long long)chunk) + what);
  // afterwards the same mesh object takes an intact deck
  if (!dead && chance(1, 3)) { attempt([&] { freeMpcs(*md); }); vfs::put(P, d.text); chunk = 0; import(); SIM_CHECK(o.kind == OK && ok, "rejected", "after the damaged file the intact deck is not imported"); checkPrefix(d, *md, d.text.size() + 1, "intact deck after a damaged one"); stat("reimports"); }
}
Register reg({"C02", run, 4000000, 40000000,
  "random decks cut at any byte (biased to field and line boundaries and to the inside of last numbers), device read errors at any read, absent and unopenable files, corrupted bytes; on success the mesh must hold exactly the records whose bytes were delivered, plus at most the one record cut inside its last number; corrupted decks: no memory error, no endless loop; nontrivial: the deck was damaged or the device failed",
  "real: readers, tokenizer, MeshData, iostreams; simulated: disk, cuts, read errors and sizes, memory contents"});
}
