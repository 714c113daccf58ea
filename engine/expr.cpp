#include "expr.h"
ExprPool EP;

uint64_t foldBin(uint8_t op, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? (a / b) & m : m;
  case E_SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case E_UREM: return b ? a % b : a;
  case E_SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << b) & m;
  case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: return (uint64_t)(sext64(a, w) >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sext64(a, w) < sext64(b, w);
  case E_SLE: return sext64(a, w) <= sext64(b, w);
  }
  abort();
}

static bool isCmp(uint8_t op) { return op >= E_EQ && op <= E_SLE; }
static bool constTree(Expr *e, int d) { // ITE tree whose leaves are constants (bounded depth)
  if (e->op == E_CONST) return true;
  if (e->op == E_ITE && d > 0) return constTree(e->k[1], d - 1) && constTree(e->k[2], d - 1);
  return false;
}
Expr *eNot(Expr *a) {
  if (a->op == E_CONST) return eC(1, !a->c);
  if (a->op == E_EQ && a->w == 1 && isC(a->k[1]) && a->k[0]->w == 1 && a->k[1]->c == 0) return a->k[0];
  if (a->op == E_ULT) return EP.get(E_ULE, 1, 0, a->k[1], a->k[0]);
  if (a->op == E_ULE) return EP.get(E_ULT, 1, 0, a->k[1], a->k[0]);
  if (a->op == E_SLT) return EP.get(E_SLE, 1, 0, a->k[1], a->k[0]);
  if (a->op == E_SLE) return EP.get(E_SLT, 1, 0, a->k[1], a->k[0]);
  return EP.get(E_EQ, 1, 0, a, eC(1, 0));
}

static uint64_t umax(Expr *e, int depth = 12) { // an upper bound of the unsigned value
  uint64_t M = maskw(e->w); if (isC(e)) return e->c; if (depth == 0) return M;
  auto k = [&](int i) { return umax(e->k[i], depth - 1); };
  switch (e->op) {
  case E_ZEXT: return k(0);
  case E_CONCAT: { uint64_t h = k(0); return (h << e->k[1]->w) | maskw(e->k[1]->w); }
  case E_ADD: { uint64_t a = k(0), b = k(1); return a > M - b ? M : a + b; }
  case E_MUL: { uint64_t a = k(0), b = k(1), r; return __builtin_mul_overflow(a, b, &r) || r > M ? M : r; }
  case E_AND: return std::min(k(0), k(1));
  case E_UDIV: return isC(e->k[1]) && e->k[1]->c ? k(0) / e->k[1]->c : M;
  case E_UREM: return isC(e->k[1]) && e->k[1]->c ? std::min(k(0), e->k[1]->c - 1) : M;
  case E_ITE: return std::max(k(1), k(2));
  }
  return M;
}
Expr *eExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
  case E_CONST: return eC(w, a->c >> lo);
  case E_EXTRACT: return eExtract(a->k[0], lo + a->c, w);
  case E_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return eExtract(a->k[1], lo, w);
    return eConcat(eExtract(a->k[0], 0, lo + w - lw), eExtract(a->k[1], lo, lw - lo));
  }
  case E_ZEXT: {
    unsigned sw = a->k[0]->w;
    if (lo >= sw) return eC(w, 0);
    if (lo + w <= sw) return eExtract(a->k[0], lo, w);
    return eZext(eExtract(a->k[0], lo, sw - lo), w);
  }
  case E_SEXT: {
    unsigned sw = a->k[0]->w;
    if (lo + w <= sw) return eExtract(a->k[0], lo, w);
    break;
  }
  case E_ITE:
    if (constTree(a, 16)) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
    break;
  case E_AND: case E_OR: case E_XOR:
    return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w));
  case E_ADD: case E_SUB: case E_MUL:
    if (lo == 0) return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w));
    break;
  case E_SHL:
    if (isC(a->k[1]) && a->k[1]->c < a->w) {
      unsigned s = a->k[1]->c;
      if (lo >= s) return eExtract(a->k[0], lo - s, w);
      if (lo + w <= s) return eC(w, 0);
    }
    break;
  case E_LSHR:
    if (isC(a->k[1]) && a->k[1]->c < a->w) {
      unsigned s = a->k[1]->c;
      if (lo + s + w <= a->w) return eExtract(a->k[0], lo + s, w);
    }
    break;
  }
  return EP.get(E_EXTRACT, w, lo, a);
}
Expr *eConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return eC(w, (hi->c << lo->w) | lo->c);
  if (isC(hi) && hi->c == 0) return eZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return eExtract(hi->k[0], lo->c, w);
  if (hi->op == E_EXTRACT && lo->op == E_CONCAT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
    return eConcat(eExtract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == E_EXTRACT && hi->c == lo->w && hi->k[0]->op >= E_ADD && hi->k[0]->op <= E_XOR && (lo->op == hi->k[0]->op || lo->op == E_ZEXT || lo->op == E_CONCAT || lo->op == E_SYM || lo->op == E_EXTRACT || isC(lo)) && eExtract(hi->k[0], 0, lo->w) == lo) return eExtract(hi->k[0], 0, w);
  if (hi->op == E_ZEXT && lo->op == E_EXTRACT && hi->k[0]->op == E_EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->c == lo->c + lo->w)
    return eZext(eExtract(lo->k[0], lo->c, lo->w + hi->k[0]->w), w);
  return EP.get(E_CONCAT, w, 0, hi, lo);
}
Expr *eZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eC(w, a->c);
  if (a->op == E_ZEXT) return EP.get(E_ZEXT, w, 0, a->k[0]);
  if (a->op == E_ITE && constTree(a, 16)) return eIte(a->k[0], eZext(a->k[1], w), eZext(a->k[2], w));
  return EP.get(E_ZEXT, w, 0, a);
}
Expr *eSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eC(w, (uint64_t)sext64(a->c, a->w));
  if (a->op == E_ZEXT) return EP.get(E_ZEXT, w, 0, a->k[0]);
  if (a->op == E_SEXT) return EP.get(E_SEXT, w, 0, a->k[0]);
  if (a->op == E_ITE && constTree(a, 16)) return eIte(a->k[0], eSext(a->k[1], w), eSext(a->k[2], w));
  return EP.get(E_SEXT, w, 0, a);
}
Expr *eIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a)) return a->c ? eBin(E_OR, c, b) : eBin(E_AND, eNot(c), b);
    if (isC(b)) return b->c ? eBin(E_OR, eNot(c), a) : eBin(E_AND, c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (c->op == E_EQ && c->k[0]->w == 1 && isC(c->k[1]) && c->k[1]->c == 0) return eIte(c->k[0], b, a);
  return EP.get(E_ITE, a->w, 0, c, a, b);
}

static inline bool isBoolNotOf(Expr *a, Expr *b) { return a->w == 1 && b->w == 1 && eNot(a) == b; }

Expr *eBin(uint8_t op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return eC(isCmp(op) ? 1 : w, foldBin(op, w, a->c, b->c));
  // comparison / op against constants distributes over constant ITE trees
  if (isC(b) && a->op == E_ITE && constTree(a, 16)) return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
  if (isC(a) && b->op == E_ITE && constTree(b, 16)) return eIte(b->k[0], eBin(op, a, b->k[1]), eBin(op, a, b->k[2]));
  // canonical: constant on the right for commutative
  switch (op) {
  case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ:
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  bool bc = isC(b); uint64_t bv = b->c; uint64_t M = maskw(w);
  switch (op) {
  case E_ADD:
    if (bc && bv == 0) return a;
    if (bc && a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, a->k[0], eC(w, a->k[1]->c + bv));
    if (bc && a->op == E_SUB && isC(a->k[0])) return eBin(E_SUB, eC(w, a->k[0]->c + bv), a->k[1]);
    break;
  case E_SUB:
    if (a == b) return eC(w, 0);
    if (bc) return eBin(E_ADD, a, eC(w, 0 - bv));
    if (a->op == E_ADD && isC(a->k[1]) && a->k[0] == b) return a->k[1];
    if (a->op == E_ADD && b->op == E_ADD && a->k[0] == b->k[0]) return eBin(E_SUB, a->k[1], b->k[1]);
    if (b->op == E_ADD && b->k[0] == a && isC(b->k[1])) return eC(w, 0 - b->k[1]->c);
    break;
  case E_MUL:
    if (bc && bv == 0) return b;
    if (bc && bv == 1) return a;
    if (bc && (bv & (bv - 1)) == 0) return eBin(E_SHL, a, eC(w, __builtin_ctzll(bv)));
    break;
  case E_SDIV: case E_SREM:
    if (bc && bv && w > 8 && bv <= M >> 1 && umax(a) <= M >> 1) return eBin(op == E_SDIV ? E_UDIV : E_UREM, a, b);
    break;
  case E_UDIV:
    if (bc && bv && umax(a) < bv) return eC(w, 0);
    if (bc && bv == 1) return a;
    if (bc && bv && (bv & (bv - 1)) == 0) return eBin(E_LSHR, a, eC(w, __builtin_ctzll(bv)));
    break;
  case E_UREM:
    if (bc && bv && umax(a) < bv) return a;
    if (bc && bv == 1) return eC(w, 0);
    if (bc && bv && (bv & (bv - 1)) == 0) return eBin(E_AND, a, eC(w, bv - 1));
    break;
  case E_AND:
    if (a == b) return a;
    if (bc && bv == 0) return b;
    if (bc && bv == M) return a;
    if (w == 1 && isBoolNotOf(a, b)) return eC(1, 0);
    if (bc && a->op == E_AND && isC(a->k[1])) return eBin(E_AND, a->k[0], eC(w, a->k[1]->c & bv));
    if (bc && a->op == E_ZEXT) { if ((bv & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
      return eZext(eBin(E_AND, a->k[0], eC(a->k[0]->w, bv)), w); }
    if (bc && bv && ((bv + 1) & bv) == 0) { unsigned n = __builtin_popcountll(bv); return eZext(eExtract(a, 0, n), w); }
    if (bc && a->op == E_CONCAT) return eConcat(eBin(E_AND, a->k[0], eC(a->k[0]->w, bv >> a->k[1]->w)), eBin(E_AND, a->k[1], eC(a->k[1]->w, bv)));
    break;
  case E_OR:
    if (a == b) return a;
    if (bc && bv == 0) return a;
    if (bc && bv == M) return b;
    if (w == 1 && isBoolNotOf(a, b)) return eC(1, 1);
    break;
  case E_XOR:
    if (a == b) return eC(w, 0);
    if (bc && bv == 0) return a;
    if (w == 1 && bc) return eNot(a);
    if (bc && a->op == E_XOR && isC(a->k[1])) return eBin(E_XOR, a->k[0], eC(w, a->k[1]->c ^ bv));
    break;
  case E_SHL:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) return eC(w, 0);
    if (bc) return eConcat(eExtract(a, 0, w - bv), eC(bv, 0));
    break;
  case E_LSHR:
    if (bc && bv == 0) return a;
    if (bc && bv >= w) return eC(w, 0);
    if (bc) return eZext(eExtract(a, bv, w - bv), w);
    break;
  case E_ASHR:
    if (bc && bv == 0) return a;
    if (bc) { if (bv >= w) bv = w - 1; return eSext(eExtract(a, bv, w - bv), w); }
    break;
  case E_EQ:
    if (a == b) return eC(1, 1);
    if (w == 1) {
      if (bc) return bv ? a : eNot(a);
      if (isBoolNotOf(a, b)) return eC(1, 0);
    }
    if (bc) {
      if (a->op == E_ZEXT) { unsigned sw = a->k[0]->w; if (bv >> sw) return eC(1, 0); return eBin(E_EQ, a->k[0], eC(sw, bv)); }
      if (a->op == E_SEXT) { unsigned sw = a->k[0]->w; if ((uint64_t)(sext64(bv & maskw(sw), sw)) % 1 == 0 && ((uint64_t)sext64(bv & maskw(sw), sw) & M) != bv) return eC(1, 0); return eBin(E_EQ, a->k[0], eC(sw, bv)); }
      if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return eBin(E_AND, eBin(E_EQ, a->k[0], eC(a->k[0]->w, bv >> lw)), eBin(E_EQ, a->k[1], eC(lw, bv))); }
      if (a->op == E_ADD && isC(a->k[1])) return eBin(E_EQ, a->k[0], eC(w, bv - a->k[1]->c));
      if (a->op == E_SUB && isC(a->k[0])) return eBin(E_EQ, a->k[1], eC(w, a->k[0]->c - bv));
      if (a->op == E_XOR && isC(a->k[1])) return eBin(E_EQ, a->k[0], eC(w, a->k[1]->c ^ bv));
      if (a->op == E_SUB && bv == 0) return eBin(E_EQ, a->k[0], a->k[1]);
      if (a->op == E_XOR && bv == 0) return eBin(E_EQ, a->k[0], a->k[1]);
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eBin(E_EQ, a->k[0], b->k[0]);
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
      return eBin(E_AND, eBin(E_EQ, a->k[0], b->k[0]), eBin(E_EQ, a->k[1], b->k[1]));
    break;
  case E_ULT:
    if (a == b) return eC(1, 0);
    if (bc && bv == 0) return eC(1, 0);
    if (bc && bv == 1) return eBin(E_EQ, a, eC(w, 0));
    if (isC(a) && a->c == M) return eC(1, 0);
    if (bc && a->op == E_ZEXT) { unsigned sw = a->k[0]->w; if (bv > maskw(sw)) return eC(1, 1); return eBin(E_ULT, a->k[0], eC(sw, bv)); }
    if (isC(a) && b->op == E_ZEXT) { unsigned sw = b->k[0]->w; if (a->c >= maskw(sw)) return eC(1, 0); return eBin(E_ULT, eC(sw, a->c), b->k[0]); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eBin(E_ULT, a->k[0], b->k[0]);
    if (w == 1) return eBin(E_AND, eNot(a), b);
    break;
  case E_ULE:
    return eNot(eBin(E_ULT, b, a));
  case E_SLT:
    if (a == b) return eC(1, 0);
    if (a->op == E_ZEXT && b->op == E_ZEXT) return eBin(E_ULT, a, b);
    if (bc && a->op == E_ZEXT) { if (sext64(bv, w) <= 0) return eC(1, 0); return eBin(E_ULT, a, b); }
    if (isC(a) && b->op == E_ZEXT) { if (sext64(a->c, w) < 0) return eC(1, 1); return eBin(E_ULT, a, b); }
    if (a->op == E_SEXT && bc) { unsigned sw = a->k[0]->w; int64_t v = sext64(bv, w), lo = sext64(1ull << (sw - 1), sw), hi = (int64_t)maskw(sw - 1);
      if (v > hi) return eC(1, 1); if (v <= lo) return eC(1, 0); return eBin(E_SLT, a->k[0], eC(sw, (uint64_t)v)); }
    if (b->op == E_SEXT && isC(a)) { unsigned sw = b->k[0]->w; int64_t v = sext64(a->c, w), lo = sext64(1ull << (sw - 1), sw), hi = (int64_t)maskw(sw - 1);
      if (v >= hi) return eC(1, 0); if (v < lo) return eC(1, 1); return eBin(E_SLT, eC(sw, (uint64_t)v), b->k[0]); }
    break;
  case E_SLE:
    return eNot(eBin(E_SLT, b, a));
  }
  return EP.get(op, isCmp(op) ? 1 : w, 0, a, b);
}

static uint64_t evalRec(Expr *e, const std::vector<uint64_t> &m) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_SYM) return e->c < m.size() ? (m[e->c] & maskw(e->w)) : 0;
  if (e->epoch == EP.epoch) return e->ev;
  uint64_t r;
  switch (e->op) {
  case E_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
  case E_CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
  case E_EXTRACT: r = (evalRec(e->k[0], m) >> e->c) & maskw(e->w); break;
  case E_ZEXT: r = evalRec(e->k[0], m); break;
  case E_SEXT: r = (uint64_t)sext64(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  default: r = foldBin(e->op, e->k[0]->w, evalRec(e->k[0], m), evalRec(e->k[1], m));
  }
  e->epoch = EP.epoch; e->ev = r;
  return r;
}
uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &model) {
  if (e->op == E_CONST) return e->c;
  EP.epoch++;
  return evalRec(e, model);
}
std::string exprStr(Expr *e, int d) {
  static const char *N[] = {"c", "s", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx"};
  if (e->op == E_CONST) return std::to_string(e->c);
  if (e->op == E_SYM) return "v" + std::to_string(e->c) + (e->uninit ? "?" : "");
  if (d == 0) return "...";
  std::string s = std::string("(") + N[e->op];
  if (e->op == E_EXTRACT) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
