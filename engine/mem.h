// Copy-on-write guest memory: objects made of chunks, kept in a persistent radix tree keyed by 64 KiB slot.
#pragma once
#include "expr.h"

struct Chunk { // up to CHUNK bytes
  int rc; uint32_t n; uint8_t *data; uint8_t *init; /* null: all initialised */ Expr **sym; /* null: no symbolic byte */
};
enum { CHUNK = 4096 };
enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC, OK_TLS };

struct ShadowCell { uint32_t wclk; uint32_t rclk[6]; uint32_t aw[6]; uint32_t ar[6]; uint8_t wtid; uint32_t wsite; uint32_t rsite; };
struct Shadow { int rc; std::vector<ShadowCell> c; };

struct Obj {
  int rc; uint8_t kind; bool freed, ro, owner /* allocated by repo code */; bool modelFreed;
  uint32_t slot, nslots; uint64_t base, size; uint64_t allocId; uint32_t site, freeSite;
  std::vector<Chunk *> ch; Shadow *sh; const char *name; uint8_t akind; // akind: 0 malloc 1 new 2 new[]
};

static Chunk *newChunk(uint32_t n) {
  Chunk *c = (Chunk *)malloc(sizeof(Chunk)); c->rc = 1; c->n = n; c->data = (uint8_t *)calloc(1, n); c->init = nullptr; c->sym = nullptr; return c;
}
static void unrefChunk(Chunk *c) { if (--c->rc == 0) { free(c->data); free(c->init); free(c->sym); free(c); } }
static Chunk *cloneChunk(Chunk *c) {
  Chunk *d = (Chunk *)malloc(sizeof(Chunk)); d->rc = 1; d->n = c->n; d->data = (uint8_t *)malloc(c->n); memcpy(d->data, c->data, c->n);
  d->init = nullptr; if (c->init) { d->init = (uint8_t *)malloc(c->n); memcpy(d->init, c->init, c->n); }
  d->sym = nullptr; if (c->sym) { d->sym = (Expr **)malloc(sizeof(Expr *) * c->n); memcpy(d->sym, c->sym, sizeof(Expr *) * c->n); }
  return d;
}
static void unrefShadow(Shadow *s) { if (s && --s->rc == 0) delete s; }
static void unrefObj(Obj *o) { if (--o->rc == 0) { for (Chunk *c : o->ch) unrefChunk(c); unrefShadow(o->sh); delete o; } }
static Obj *cloneObj(Obj *o) { Obj *n = new Obj(*o); n->rc = 1; for (Chunk *c : n->ch) c->rc++; if (n->sh) n->sh->rc++; return n; }

struct TNode { int rc; void *ch[32]; };
struct Trie { // persistent map slot -> Obj*
  TNode *root = nullptr; int levels = 1; // capacity 32^levels
  static void unref(TNode *n, int lv) {
    if (!n || --n->rc) return;
    for (int i = 0; i < 32; i++) if (n->ch[i]) { if (lv > 1) unref((TNode *)n->ch[i], lv - 1); else unrefObj((Obj *)n->ch[i]); }
    free(n);
  }
  Trie() {}
  Trie(const Trie &o) : root(o.root), levels(o.levels) { if (root) root->rc++; }
  Trie &operator=(const Trie &) = delete;
  ~Trie() { unref(root, levels); }
  Obj *get(uint32_t slot) const {
    if (levels < 7 && (slot >> (5 * levels))) return nullptr;
    void *p = root;
    for (int l = levels - 1; l >= 0 && p; l--) p = ((TNode *)p)->ch[(slot >> (5 * l)) & 31];
    return (Obj *)p;
  }
  static TNode *own(TNode *n, int lv) { // returns a node with rc==1
    if (!n) { n = (TNode *)calloc(1, sizeof(TNode)); n->rc = 1; return n; }
    if (n->rc == 1) return n;
    TNode *m = (TNode *)malloc(sizeof(TNode)); *m = *n; m->rc = 1; n->rc--;
    for (int i = 0; i < 32; i++) if (m->ch[i]) { if (lv > 1) ((TNode *)m->ch[i])->rc++; else ((Obj *)m->ch[i])->rc++; }
    return m;
  }
  void **leaf(uint32_t slot) { // owned path
    while (slot >> (5 * levels)) { TNode *n = (TNode *)calloc(1, sizeof(TNode)); n->rc = 1; n->ch[0] = root; root = n; levels++; }
    void **pp = (void **)&root;
    for (int l = levels - 1; l >= 0; l--) {
      TNode *n = own((TNode *)*pp, l + 1); *pp = n; pp = &n->ch[(slot >> (5 * l)) & 31];
    }
    return pp;
  }
  void set(uint32_t slot, Obj *o) { // takes a reference
    void **p = leaf(slot); if (*p) unrefObj((Obj *)*p); *p = o;
  }
  Obj *own(uint32_t slot) { // object with rc==1, single-slot view (multi-slot handled by caller)
    void **p = leaf(slot); Obj *o = (Obj *)*p; if (!o) return nullptr;
    if (o->rc == 1) return o;
    Obj *n = cloneObj(o); o->rc--; *p = n; return n;
  }
};
