#include "deck.h"
#include <algorithm>
using namespace sim;
namespace deck {
const char* const catName[NCAT] = {"node", "cell", "fixation", "load", "constraint equation", "component"};
namespace {
const char* const dofLabel[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"};
const char* const eols[] = {"\n", "\r\n", "\r"};
struct W {
  Deck& d; int eol;
  void put(const std::string& s) { d.text += s; }
  void mark() { d.marks.push_back(d.text.size()); }
  void nl() { mark(); int e = eol == 3 ? (int)draw(3) : eol; put(eols[e]); mark(); }
};
std::string sci(double v, int digits, int expDigits) {     // Fortran style number
  std::string s = fmt("%.*E", digits, v); size_t e = s.find('E'); int x = atoi(s.c_str() + e + 1); return s.substr(0, e) + fmt("E%c%0*d", x < 0 ? '-' : '+', expDigits, x < 0 ? -x : x);
}
std::string padL(const std::string& s, int w) { return s.size() >= (size_t)w ? s : std::string(w - s.size(), ' ') + s; }
double anyValue() {
  switch (draw(8)) { case 0: return 0; case 1: return 1; case 2: return -real(0, 100); case 3: return real(-1, 1, 1000) / 3; case 4: return 1e10 * real(-1, 1, 999) / 7; case 5: return 1e-9 * real(-1, 1, 999) / 7; case 6: return range(-1000, 1000); default: return real(-5, 5, 977) / 9; }
}
std::string freeNumber() {                                 // number in a comma separated command
  double v = anyValue(); switch (draw(6)) { case 0: return fmt("%.8f", v); case 1: return padL(sci(v, 9, 2), 16) + "    "; case 2: return sci(v, 9, 3); case 3: return fmt("%d.", (int)v); case 4: return fmt("%.15g", v); default: return fmt("%d", (int)v); }
}
std::string kase(const char* s, bool lower) { std::string r = s; if (lower) for (auto& c : r) c = tolower(c); if (chance(1, 12)) for (auto& c : r) if (chance(1, 2)) c = islower(c) ? toupper(c) : tolower(c); return r; }
std::string gap() { std::string r; for (int n = draw(3); n > 0; n--) r += chance(1, 6) ? '\t' : ' '; return r; }
std::string lead() { return chance(1, 10) ? gap() : std::string(); }
void trimExtent(const std::string& t, size_t& b, size_t& e) { while (b < e && t[b] == ' ') b++; while (e > b && t[e - 1] == ' ') e--; }
}
Deck genDeck(const Opt& o) {
  Deck d; d.eol = (int)draw(o.big ? 3 : 4); W w{d, d.eol}; d.finalEol = !chance(1, 4);
  bool many = o.big && chance(1, 2);       // more nodes than 16 bits can count
  int nn = many ? 65530 + (int)draw(40) : range(1, o.maxNodes); bool perm = chance(1, 2); u32 base = chance(1, 2) ? 1 : (u32)range(1, 70000);
  std::vector<u32> no; for (int i = 0; i < nn; i++) { no.push_back(base); base += many ? 1 + i % 2 : chance(1, 3) ? (u32)range(1, 40) : 1; } if (perm && !many) shuffle(no); if (perm && many) std::reverse(no.begin(), no.end());
  std::vector<u32> elNo; int used = 0; d.nodeNo = no; int compCount = 0;
  // node tables may be split in several blocks
  std::vector<char> plan; int nb = nn > 1 && chance(1, 6) ? 2 : 1; for (int i = 0; i < nb; i++) plan.push_back('N');
  int ne = range(0, 2); for (int i = 0; i < ne; i++) plan.push_back('E');
  int nx = range(0, 8); static const char ks[] = {'D', 'F', 'C', 'K', '!', '/', 'X', ' ', 'U'}; for (int i = 0; i < nx; i++) plan.push_back(ks[draw(9)]);
  if (o.big && !many) plan.push_back('B'); if (chance(1, 2)) shuffle(plan);
  int nbLeft = nb; bool lower = chance(1, 4);
  auto node = [&] { return no[draw(no.size())]; };
  auto rec = [&](Cat c) -> Rec& { d.recs.emplace_back(); d.recs.back().cat = c; d.recs.back().beg = d.text.size(); return d.recs.back(); };
  auto num = [&](Rec& r, const std::string& t, bool integer) {  // writes a number, which becomes the last one of the record
    r.lastBeg = d.text.size(); w.put(t); r.lastEnd = d.text.size(); trimExtent(d.text, r.lastBeg, r.lastEnd); r.end = r.lastEnd; r.lastIdx = (int)r.item.size(); r.item.push_back(integer ? (double)strtol(t.c_str(), nullptr, 10) : strtod(t.c_str(), nullptr)); };
  auto sep = [&] { w.mark(); w.put(","); if (chance(1, 6)) w.put(" "); };
  auto widthInt = [&](u32 v) { return chance(1, 2) ? padL(fmt("%u", v), 10) : fmt("%u", v); };
  for (char p : plan) switch (p) {
    case 'N': {
      static const struct { const char* f; int ni, iw, fw, dg, ex; } fm[] = {{"(3i9,6e20.13)", 3, 9, 20, 13, 2}, {"(3i9,6e21.13e3)", 3, 9, 21, 13, 3}, {"(1i9,3e20.9e3)", 1, 9, 20, 9, 3}, {"(3i8,6e20.13)", 3, 8, 20, 13, 2}, {"(3i10,6e21.13e3)", 3, 10, 21, 13, 3}};
      auto& F = fm[draw(5)]; int cnt = --nbLeft == 0 ? nn - used : range(0, nn - used);
      w.put(kase(F.ni == 1 ? "NBLOCK,3" : "NBLOCK,6,SOLID", lower)); if (F.ni == 3) w.put(fmt(",%10d,%10d", cnt, cnt)); w.nl(); w.put(kase(F.f, !chance(1, 5))); if (d.text.back() == ')' && chance(1, 8)) w.put("  "); w.nl();
      for (int k = 0; k < cnt; k++) {
        Rec& r = rec(NODE); num(r, padL(fmt("%u", no[used + k]), F.iw), true); for (int j = 1; j < F.ni; j++) { w.mark(); w.put(padL("0", F.iw)); }
        int nc = many ? 1 : chance(1, 3) ? range(0, 3) : 3; r.item.resize(4, 0.0); int last = 0;
        for (int c = 0; c < nc; c++) { w.mark(); std::string t = padL(sci(many ? k % 100 : anyValue(), F.dg, F.ex), F.fw); r.lastBeg = d.text.size(); w.put(t); r.lastEnd = d.text.size(); trimExtent(d.text, r.lastBeg, r.lastEnd); r.item[1 + c] = strtod(t.c_str(), nullptr); last = 1 + c; }
        r.lastIdx = last; if (nc == 3 && F.ni == 3 && chance(1, 5)) for (int c = 0, n2 = range(1, 3); c < n2; c++) { w.mark(); w.put(padL(sci(real(-90, 90), F.dg, F.ex), F.fw)); }
        r.end = d.text.size(); w.nl();
      }
      used += cnt; w.put(chance(1, 2) ? "N,R5.3,LOC,       -1," : F.ni == 1 ? "-1" : "       -1"); w.nl(); break; }
    case 'E': {
      bool solid = chance(2, 3); int iw = chance(1, 4) ? 8 : 9; static const int nns[] = {4, 8, 2, 3, 6, 1}; int cnt = range(0, o.maxCells);
      if (chance(1, 5)) iw = 10;
      w.put(kase(solid ? "EBLOCK,19,SOLID" : "EBLOCK,10", lower)); if (solid && !chance(1, 4)) w.put(fmt(",%10d,%10d", cnt, cnt)); w.nl(); w.put(fmt("(%di%d)", solid ? 19 : 15, iw)); w.nl();
      for (int k = 0; k < cnt; k++) {
        Rec& r = rec(CELL); int n = nns[draw(6)]; u32 el = chance(1, 2) ? (u32)(elNo.size() + 1) : (u32)(elNo.size() + 1 + range(0, 5000)); elNo.push_back(el); std::vector<u32> a; for (int j = 0; j < 10; j++) a.push_back((u32)range(0, chance(1, 4) ? 900 : 5));
        auto field = [&](u32 v) { w.mark(); w.put(padL(fmt("%u", v), iw)); };
        // item: number, TYPE, MAT, REAL, SECT, CS, SHAPE, nodes
        if (solid) { field(a[0]); field(a[1]); field(a[2]); field(a[3]); field(a[4]); field(0); field(a[6]); field(a[7]); field(n); field(0); field(el); r.item = {(double)el, (double)a[1], (double)a[0], (double)a[2], (double)a[3], (double)a[4], (double)a[7]}; }
        else { field(el); field(a[1]); field(a[2]); field(a[0]); field(a[4]); r.item = {(double)el, (double)a[1], (double)a[0], (double)a[2], 0, (double)a[4], 0}; }
        for (int j = 0; j < n; j++) { w.mark(); num(r, padL(fmt("%u", node()), iw), true); }
        r.end = d.text.size(); w.nl();
      }
      w.put(padL("-1", iw)); w.nl(); break; }
    case 'D': case 'F': {
      bool load = p == 'F'; Rec& r = rec(load ? LOAD : FIX); int dof = (int)draw(8); u32 n = node(); w.put(lead() + kase(load ? "F" : "D", lower || chance(1, 6)) + lead()); sep(); w.put(widthInt(n)); sep();
      if (load) { static const char* const fl[] = {"FX", "FY", "FZ", "HEAT"}; if (chance(3, 4)) { int k = (int)draw(4); w.put(kase(fl[k], chance(1, 4))); dof = k == 3 ? 7 : k; } else w.put(dofLabel[dof]); } else w.put(dofLabel[dof]);
      w.put(gap()); sep(); r.item = {(double)n, (double)dof}; num(r, freeNumber(), false);
      if (chance(1, 2)) { sep(); w.put(chance(1, 2) ? "  0.00000000    " : "0"); } w.nl(); break; }
    case 'U': {   // records that name no single node or number are skipped
      static const char* const ig[] = {"D,all,UX,0", "D,12,UX,%tab%", "F,all,HEAT,80.", "F,PILOT,FX,1.", "D,1,TEMP,par1", "D", "F,3,FX", "d,_nd,ux,1."}; w.put(ig[draw(8)]); w.nl(); break; }
    case 'C': {
      Rec& r = rec(MPC); int n = range(1, 7); std::string b = freeNumber(); w.put(lead() + fmt("%s,R5.0,DEFI,%8d,%8d,", lower ? "ce" : "CE", n, range(1, 99)) + b); r.item = {strtod(b.c_str(), nullptr)}; w.nl();
      for (int k = 0; k < n; k += 2) { w.put(lead() + "CE,R5.0,NODE" + lead()); for (int j = k; j < std::min(n, k + 2); j++) { u32 nd = node(); int dof = (int)draw(8); sep(); w.put(widthInt(nd)); sep(); w.put(dofLabel[dof]); w.put(gap()); sep(); r.item.push_back(nd); r.item.push_back(dof); num(r, freeNumber(), false); } if (chance(1, 4)) w.put(","); w.nl(); }
      break; }
    case 'K': case 'B': {
      bool hidden = p == 'K' && chance(1, 6), nodes = chance(1, 2); static const char* const stem[] = {"SIDE_", "A_B", "_x", "Face-"}; std::string nm = fmt("%s%s%d", hidden ? "_" : "", chance(1, 3) ? stem[hidden ? draw(4) : (int[]){0, 1, 3}[draw(3)]] : nodes ? "NSET" : "eset", ++compCount); std::vector<long> tok; std::vector<double> list; size_t lastFrom = 0;
      if (p == 'B') { u32 cnt = 65530 + (u32)draw(40); for (u32 i = 0; i < cnt; i++) { lastFrom = list.size(); u32 v = nodes ? node() : i + 1; tok.push_back(v); list.push_back(v); } }
      else if (nodes) { std::vector<u32> s = no; if (many) s.resize(50); std::sort(s.begin(), s.end()); for (size_t i = 0; i < s.size();) { size_t j = i; while (j + 1 < s.size() && s[j + 1] == s[j] + 1) j++; if (chance(1, 4)) { i++; continue; } lastFrom = list.size(); tok.push_back(s[i]); list.push_back(s[i]); if (j > i && chance(2, 3)) { j = i + 1 + draw(j - i); lastFrom = list.size(); tok.push_back(-(long)s[j]); for (size_t q = i + 1; q <= j; q++) list.push_back(s[q]); i = j + 1; } else i++; } }
      else { u32 v = 1; int cnt = range(1, 20); for (int i = 0; i < cnt; i++) { v += (u32)range(1, 30); lastFrom = list.size(); tok.push_back(v); list.push_back(v); if (chance(1, 3)) { u32 e = v + (u32)range(1, 12); lastFrom = list.size(); tok.push_back(-(long)e); for (u32 q = v + 1; q <= e; q++) list.push_back(q); v = e; } } }
      if (tok.empty()) { tok.push_back(no[0]); list.push_back(no[0]); lastFrom = 0; }
      int per = chance(1, 3) ? range(1, 10) : 8, iw = chance(1, 4) ? 9 : 10; Rec r; r.cat = COMP; r.name = nm; r.beg = d.text.size(); r.item.push_back(nodes ? 2 : 1);
      std::string g1 = lead(), g2 = lead(), g3 = lead(); w.put(g1 + fmt("%s,%s%s,%s%s,%8zu", lower ? "cmblock" : "CMBLOCK", nm.c_str(), g2.c_str(), g3.c_str(), kase(nodes ? "NODE" : "ELEM", chance(1, 4)).c_str(), tok.size())); if (chance(1, 2)) w.put("  ! users component definition"); w.nl(); w.put(fmt("(%di%d)", per, iw)); w.nl();
      for (size_t i = 0; i < tok.size(); i++) { if (i && i % per == 0) w.nl(); if (p == 'K') w.mark(); r.lastBeg = d.text.size(); w.put(padL(fmt("%ld", tok[i]), iw)); r.lastEnd = d.text.size(); trimExtent(d.text, r.lastBeg, r.lastEnd); }
      r.end = d.text.size(); w.nl(); r.lastIdx = 1 + (int)lastFrom; r.item.insert(r.item.end(), list.begin(), list.end()); if (!hidden) d.recs.push_back(r); break; }
    case '!': { static const char* const c[] = {"! comment, D,1,UX,5", "!", "! \xff\xfe bytes", "!D,1,UX,0"}; w.put(c[draw(4)]); w.nl(); break; }
    case '/': { static const char* const c[] = {"/PREP7", "/COM,ANSYS RELEASE 12.1, D,1,UX,0", "/", "/batch"}; w.put(c[draw(4)]); w.nl(); break; }
    case ' ': { static const char* const c[] = {"", "   ", "\t", " \t "}; w.put(c[draw(4)]); w.nl(); break; }
    default: { static const char* const c[] = {"ET,        1,185", "ET,par,185", "TYPE,1", "TYPE,x", "*SET,_BUTTON  ,  0.000000000000    ", "*SET,AA,'text'", "*set,a", "KEYOP,        1, 2,        3", "DOF,DELETE", "FINISH", "MPTEMP,R5.0, 1, 1,  0.00000000    ,", "MPDATA,R5.0, 1,EX  ,    1, 1,  200000.000    ,", "NUMOFF,NODE,    9355", "EXTOPT,ATTR,      0,      0,      0", "FLST,5,1", "CECMOD,ALL", "DDELE,ALL", "EBLOCKX,19,SOLID", "SFE,1,1,PRES,0,5.", "ETABLE,1,2", "NBLOCKX,1", "esel,all", ",D,1,UX,2", "LSCLEAR,ALL"}; w.put(c[draw(24)]); w.nl(); break; }
  }
  if (!d.finalEol) { while (!d.text.empty() && (d.text.back() == '\n' || d.text.back() == '\r')) d.text.pop_back(); }
  while (!d.marks.empty() && d.marks.back() > d.text.size()) d.marks.pop_back();
  return d;
}
std::string Deck::describe() const { int n[NCAT] = {}; for (auto& r : recs) n[r.cat]++; static const char* const e[] = {"LF", "CRLF", "CR", "mixed"}; return fmt("deck of %zu bytes (%s%s): %d nodes, %d cells, %d D, %d F, %d CE, %d CMBLOCK", text.size(), e[eol], finalEol ? "" : ", no final newline", n[0], n[1], n[2], n[3], n[4], n[5]); }
std::vector<Item> flat(MeshData& md, Cat c, std::vector<std::string>* names) {
  std::vector<Item> v; auto at = [&](const char* k, size_t i) { auto it = md.cellIntData.find(k); return it != md.cellIntData.end() && i < it->second.size() ? (double)it->second[i] : -1.0; };
  switch (c) {
    case NODE: for (size_t i = 0; i < md.nodesNumbers.size(); i++) v.push_back({(double)md.nodesNumbers[i], md.nodesPos[i][0], md.nodesPos[i][1], md.nodesPos[i][2]}); break;
    case CELL: for (size_t i = 0; i < md.cellNumbers.size(); i++) { v.push_back({(double)md.cellNumbers[i], at("TYPE", i), at("MAT", i), at("REAL", i), at("SECT", i), at("CS", i), at("SHAPE", i)}); if (i < md.cellNodes.size()) for (u32 n : md.cellNodes[i]) v.back().push_back(n); } break;
    case FIX: for (auto& b : md.fixBcs) v.push_back({(double)b.node, (double)b.node_dof, b.value}); break;
    case LOAD: for (auto& b : md.loadBcs) v.push_back({(double)b.node, (double)b.node_dof, b.value}); break;
    case MPC: for (auto* m : md.mpcs) { v.push_back({m->b}); for (auto& t : m->eq) { v.back().push_back(t.node); v.back().push_back(t.node_dof); v.back().push_back(t.coef); } } break;
    default: for (auto& p : md.feComps) { v.push_back({(double)p.second.type}); for (u32 n : p.second.list) v.back().push_back(n); if (names) names->push_back(p.first == p.second.name ? p.first : p.first + "/" + p.second.name); }
  }
  return v;
}
std::vector<Item> expected(const Deck& d, Cat c, std::vector<std::string>* names) {
  std::vector<const Rec*> r; for (auto& x : d.recs) if (x.cat == c) r.push_back(&x); if (c == COMP) std::sort(r.begin(), r.end(), [](const Rec* a, const Rec* b) { return a->name < b->name; });
  std::vector<Item> v; for (auto* x : r) { v.push_back(x->item); if (names && c == COMP) names->push_back(x->name); } return v;
}
std::string itemStr(const Item& i) { std::string s = "["; for (size_t k = 0; k < i.size() && k < 14; k++) s += fmt("%s%.12g", k ? " " : "", i[k]); return s + (i.size() > 14 ? " ...]" : "]"); }
std::string consistent(MeshData& md) {
  size_t n = md.cellNumbers.size(); if (md.cellNodes.size() != n) return fmt("%zu cells but %zu node lists", n, md.cellNodes.size());
  if (md.nodesPos.size() != md.nodesNumbers.size()) return fmt("%zu node numbers but %zu positions", md.nodesNumbers.size(), md.nodesPos.size());
  for (auto& p : md.cellIntData) if (p.second.size() != n) return fmt("%zu cells but %zu values of attribute %s", n, p.second.size(), p.first.c_str());
  if (!md.cellDoubleData.empty() || !md.cellStringData.empty()) return "attributes of the previous mesh are still there";
  return "";
}
void freeMpcs(MeshData& md) { for (auto* m : md.mpcs) delete m; md.mpcs.clear(); }
}
