// Hash-consed bit-vector expressions (width 1..64) with an eager simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

enum EOp : uint8_t {
  E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT
};

struct Expr {
  uint8_t op; uint8_t w; uint8_t uninit; // uninit: (for SYM) comes from uninitialised memory; (else) contains such a symbol
  uint32_t id; uint32_t hash;
  uint64_t c;              // CONST value, SYM ordinal, EXTRACT low bit
  Expr *k[3];
  std::vector<uint32_t> *syms; // sorted symbol ordinals
  uint64_t ev; uint32_t epoch;
  void *z3;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprPool {
  std::vector<Expr *> table; size_t count = 0; uint32_t nextId = 1;
  char *arena = nullptr; size_t left = 0; uint32_t epoch = 1;
  std::vector<uint32_t> emptySyms;
  ExprPool() : table(1 << 16, nullptr) {}
  Expr *alloc() {
    if (left < sizeof(Expr)) { left = 1 << 20; arena = (char *)malloc(left); }
    Expr *e = (Expr *)arena; arena += sizeof(Expr); left -= sizeof(Expr); return e;
  }
  Expr *get(uint8_t op, uint8_t w, uint64_t c, Expr *a = 0, Expr *b = 0, Expr *d = 0, uint8_t uninit = 0) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull;
    h ^= (a ? a->id : 0) * 0x85EBCA77C2B2AE63ull; h = (h << 13) | (h >> 51);
    h ^= (b ? b->id : 0) * 0x27D4EB2F165667C5ull; h = (h << 17) | (h >> 47);
    h ^= (d ? d->id : 0) * 0x9E3779B185EBCA87ull; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    if (op == E_SYM) h += uninit * 77777;
    uint32_t hh = (uint32_t)h; size_t m = table.size() - 1, i = hh & m;
    while (table[i]) {
      Expr *e = table[i];
      if (e->hash == hh && e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d &&
          (op != E_SYM || e->uninit == uninit)) return e;
      i = (i + 1) & m;
    }
    Expr *e = alloc(); e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->hash = hh;
    e->id = nextId++; e->epoch = 0; e->ev = 0; e->z3 = nullptr; e->uninit = uninit;
    if (op == E_CONST) e->syms = &emptySyms;
    else if (op == E_SYM) { e->syms = new std::vector<uint32_t>{(uint32_t)c}; }
    else {
      std::vector<uint32_t> *s = nullptr;
      for (int j = 0; j < 3; j++) if (e->k[j]) {
        if (e->k[j]->uninit) e->uninit = 1;
        auto *t = e->k[j]->syms;
        if (!s || s->empty()) s = t;
        else if (t->empty() || t == s) {}
        else if (std::includes(s->begin(), s->end(), t->begin(), t->end())) {}
        else if (std::includes(t->begin(), t->end(), s->begin(), s->end())) s = t;
        else { auto *u = new std::vector<uint32_t>; std::set_union(s->begin(), s->end(), t->begin(), t->end(), std::back_inserter(*u)); s = u; }
      }
      e->syms = s;
    }
    table[i] = e;
    if (++count * 2 > table.size()) {
      std::vector<Expr *> o(table.size() * 2, nullptr); o.swap(table); size_t mm = table.size() - 1;
      for (Expr *x : o) if (x) { size_t j = x->hash & mm; while (table[j]) j = (j + 1) & mm; table[j] = x; }
    }
    return e;
  }
};
extern ExprPool EP;

static inline Expr *eC(unsigned w, uint64_t v) { return EP.get(E_CONST, w, v & maskw(w)); }
static inline bool isC(Expr *e) { return e->op == E_CONST; }
Expr *eBin(uint8_t op, Expr *a, Expr *b);
Expr *eIte(Expr *c, Expr *a, Expr *b);
Expr *eExtract(Expr *a, unsigned lo, unsigned w);
Expr *eConcat(Expr *hi, Expr *lo);
Expr *eZext(Expr *a, unsigned w);
Expr *eSext(Expr *a, unsigned w);
Expr *eNot(Expr *a); // width-1 logical not
uint64_t foldBin(uint8_t op, unsigned w, uint64_t a, uint64_t b);
uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &model);
std::string exprStr(Expr *e, int depth = 6);
