// Generator and reference model of Ansys cdb decks.
#pragma once
#include "core.h"
#include "FEReaders.h"
namespace deck {
using sim::u64; using sim::u32;
enum Cat { NODE, CELL, FIX, LOAD, MPC, COMP, NCAT };
extern const char* const catName[NCAT];
typedef std::vector<double> Item;          // one imported record, flattened
struct Rec {
  Cat cat; Item item; std::string name;    // name: components
  size_t beg = 0, end = 0;                 // bytes of the record; it is fully delivered when the file has `end` bytes
  size_t lastBeg = 0, lastEnd = 0;         // bytes of its last number
  int lastIdx = 0;                         // place of the last number in item (components: first entry that comes from it)
};
struct Deck {
  std::string text; std::vector<Rec> recs; std::vector<size_t> marks;   // marks: line and field boundaries
  std::vector<u32> nodeNo; int eol = 0; bool finalEol = true;
  std::string describe() const;
};
struct Opt { int maxNodes = 6, maxCells = 5; bool big = false; };
Deck genDeck(const Opt& o);
// what was imported, per category (components in map order)
std::vector<Item> flat(MeshData& md, Cat c, std::vector<std::string>* names = nullptr);
std::vector<Item> expected(const Deck& d, Cat c, std::vector<std::string>* names = nullptr);
std::string itemStr(const Item& i);
// side conditions that hold for every mesh object after an import; returns an error text or ""
std::string consistent(MeshData& md);
void freeMpcs(MeshData& md);
}
