// symx: hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <bitset>
#include <memory>

namespace symx {

typedef uint64_t u64t;

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_NOT /*1 bit*/, K_EQ, K_ULT, K_SLT, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  K_ITE, K_TABLE, K_SI2FP, K_UI2FP, K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FP2SI, K_FP2UI,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO
};

struct VarSet { std::vector<uint32_t> v; };
typedef std::bitset<256> Dom;

// GF(2)-affine form: out bit i = konst[i] ^ XOR of the input bits listed in rows[i]
struct Lin { std::vector<std::vector<uint32_t>> rows; u64t konst = 0; };

struct Expr {
  Kind kind; uint8_t w; uint8_t flags;
  uint32_t id; u64t k;                 // const value / var id / extract lo / table id
  const Expr *a, *b, *c;
  size_t hash;
  const VarSet *vars;
  mutable u64t evVal; mutable uint32_t evEpoch;
  mutable const Expr *canon1;          // single-variable expression renamed to variable 0
  mutable const Dom *dom;              // satisfying values of a single-variable condition
  mutable const Lin *lin; mutable bool linTried;
  mutable void *z3;
  mutable u64t zeros; mutable bool zerosDone; // bits known to be zero
};
typedef const Expr *E;

enum { F_UNINIT = 1, F_XOR = 2, F_FP = 4 };

static const uint32_t UNINIT_BASE = 0x40000000u;

struct Table { int w; std::vector<u64t> v; bool linear; };

struct ExprDB {
  std::unordered_map<size_t, std::vector<Expr *>> tab;
  uint32_t nextId = 1;
  std::vector<Table> tables;
  std::unordered_map<std::string, int> tableIx;
  std::unordered_map<size_t, std::vector<VarSet *>> vsTab;
  const VarSet *emptyVs = nullptr;
  uint32_t epoch = 1;
  const std::vector<uint8_t> *model = nullptr;

  static u64t mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
  static int64_t sx(u64t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

  const VarSet *internVs(const std::vector<uint32_t> &v) {
    size_t h = 1469598103934665603ull;
    for (auto x : v) h = (h ^ x) * 1099511628211ull;
    auto &b = vsTab[h];
    for (auto p : b) if (p->v == v) return p;
    auto p = new VarSet{v}; b.push_back(p); return p;
  }
  std::unordered_map<u64t, const VarSet *> vsUnion;
  std::unordered_map<const VarSet *, uint32_t> vsId;
  const VarSet *uni(const VarSet *x, const VarSet *y) {
    if (x == y || y->v.empty()) return x;
    if (x->v.empty()) return y;
    auto idOf = [&](const VarSet *p) { auto it = vsId.find(p); if (it != vsId.end()) return it->second; uint32_t n = vsId.size(); vsId[p] = n; return n; };
    uint32_t i = idOf(x), j = idOf(y); if (i > j) std::swap(i, j);
    u64t key = ((u64t)i << 32) | j;
    auto it = vsUnion.find(key); if (it != vsUnion.end()) return it->second;
    std::vector<uint32_t> r; r.reserve(x->v.size() + y->v.size());
    std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    auto p = internVs(r); vsUnion[key] = p; return p;
  }

  E node(Kind kind, int w, u64t k, E a = nullptr, E b = nullptr, E c = nullptr) {
    size_t h = (size_t)kind * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](size_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(k); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0);
    auto &bk = tab[h];
    for (auto p : bk) if (p->kind == kind && p->w == w && p->k == k && p->a == a && p->b == b && p->c == c) return p;
    Expr *e = new Expr();
    e->kind = kind; e->w = (uint8_t)w; e->k = k; e->a = a; e->b = b; e->c = c; e->hash = h; e->id = nextId++;
    e->evEpoch = 0; e->canon1 = nullptr; e->dom = nullptr; e->lin = nullptr; e->linTried = false; e->z3 = nullptr; e->zerosDone = false;
    e->flags = 0;
    if (!emptyVs) emptyVs = internVs({});
    if (kind == K_VAR) {
      e->vars = internVs({(uint32_t)k});
      if (k >= UNINIT_BASE) e->flags |= F_UNINIT;
    } else {
      e->vars = emptyVs;
      for (E x : {a, b, c}) if (x) { e->vars = uni(e->vars, x->vars); e->flags |= x->flags; }
      if (kind == K_XOR || kind == K_TABLE) e->flags |= F_XOR;
      if (kind >= K_SI2FP) e->flags |= F_FP;
    }
    bk.push_back(e);
    return e;
  }

  E cst(int w, u64t v) { return node(K_CONST, w, v & mask(w)); }
  E var(uint32_t id) { return node(K_VAR, 8, id); }
  E tru() { return cst(1, 1); }
  E fls() { return cst(1, 0); }
  static bool isC(E e) { return e->kind == K_CONST; }
  static bool isC(E e, u64t v) { return e->kind == K_CONST && e->k == v; }

  // ---- pieces: decomposition of a value into (expr,width) from LSB up
  typedef std::vector<E> Pieces;
  void pieces(E e, Pieces &out) {
    if (e->kind == K_CONCAT) { pieces(e->b, out); pieces(e->a, out); }
    else if (e->kind == K_ZEXT) { pieces(e->a, out); out.push_back(cst(e->w - e->a->w, 0)); }
    else out.push_back(e);
  }
  E fromPieces(const Pieces &p) {
    E r = p[0];
    for (size_t i = 1; i < p.size(); i++) r = concat(p[i], r);
    return r;
  }
  static bool structured(E e) { return e->kind == K_CONCAT || e->kind == K_ZEXT; }

  // piecewise bit operation; returns null if that does not simplify
  E piecewise(Kind op, E a, E b) {
    if (!structured(a) && !structured(b) && !isC(a) && !isC(b)) return nullptr;
    Pieces pa, pb; pieces(a, pa); pieces(b, pb);
    // cut points
    std::vector<int> cuts; int o = 0;
    for (E x : pa) { o += x->w; cuts.push_back(o); }
    o = 0; for (E x : pb) { o += x->w; cuts.push_back(o); }
    // constant runs also give cut points
    auto constCuts = [&](const Pieces &p) {
      int off = 0;
      for (E x : p) { if (isC(x)) for (int i = 1; i < x->w; i++) if (((x->k >> i) & 1) != ((x->k >> (i - 1)) & 1)) cuts.push_back(off + i); off += x->w; }
    };
    if (op != K_XOR) { constCuts(pa); constCuts(pb); }
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    if (cuts.size() > 9) return nullptr;
    Pieces r; int lo = 0;
    if (cuts.size() == 1) return nullptr;
    for (int hi : cuts) {
      E x = extract(a, lo, hi - lo), y = extract(b, lo, hi - lo), z;
      int w = hi - lo;
      if (op == K_AND) {
        if (isC(x, 0) || isC(y, 0)) z = cst(w, 0);
        else if (isC(x, mask(w))) z = y; else if (isC(y, mask(w))) z = x;
        else if (x == y) z = x; else if (isC(x) && isC(y)) z = cst(w, x->k & y->k); else z = node2(K_AND, x, y);
      } else if (op == K_OR) {
        if (isC(x, 0)) z = y; else if (isC(y, 0)) z = x;
        else if (isC(x, mask(w)) || isC(y, mask(w))) z = cst(w, mask(w));
        else if (x == y) z = x; else if (isC(x) && isC(y)) z = cst(w, x->k | y->k); else z = node2(K_OR, x, y);
      } else {
        if (isC(x, 0)) z = y; else if (isC(y, 0)) z = x;
        else if (x == y) z = cst(w, 0); else if (isC(x) && isC(y)) z = cst(w, x->k ^ y->k); else z = node2(K_XOR, x, y);
      }
      r.push_back(z); lo = hi;
    }
    return fromPieces(r);
  }
  // commutative node, ordered
  E node2(Kind k, E a, E b) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (a->w == 1) {
      if (k == K_AND || k == K_OR) { if (a == b) return a; if (not1(a) == b) return cst(1, k == K_OR); if (isC(b)) return k == K_AND ? (b->k ? a : b) : (b->k ? b : a); }
      if (k == K_XOR) { if (isC(b)) return b->k ? not1(a) : a; }
    }
    return node(k, a->w, 0, a, b);
  }
  E not1(E x) {
    if (isC(x)) return cst(1, !x->k);
    if (x->kind == K_NOT) return x->a;
    return node(K_NOT, 1, 0, x);
  }
  E bnot(E x) { return x->w == 1 ? not1(x) : bxor(x, cst(x->w, mask(x->w))); }

  E band(E a, E b) {
    if (isC(a) && isC(b)) return cst(a->w, a->k & b->k);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return b;
    if (isC(b, mask(a->w))) return a;
    if (a == b) return a;
    if (a->w == 1) return node2(K_AND, a, b);
    if (isC(b) && a->kind == K_AND && isC(a->b)) return band(a->a, cst(a->w, a->b->k & b->k));
    if (isC(b)) { // one run of ones: a piece of a
      int lo = __builtin_ctzll(b->k), n = 64 - __builtin_clzll(b->k) - lo;
      if (b->k >> lo == mask(n)) { E x = extract(a, lo, n); if (lo) x = concat(x, cst(lo, 0)); return zext(x, a->w); }
    }
    if (E r = piecewise(K_AND, a, b)) return r;
    return node2(K_AND, a, b);
  }
  E bor(E a, E b) {
    if (isC(a) && isC(b)) return cst(a->w, a->k | b->k);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (isC(b, mask(a->w))) return b;
    if (a == b) return a;
    if (a->w == 1) return node2(K_OR, a, b);
    if (E r = piecewise(K_OR, a, b)) return r;
    return node2(K_OR, a, b);
  }
  E bxor(E a, E b) {
    if (isC(a) && isC(b)) return cst(a->w, a->k ^ b->k);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (a == b) return cst(a->w, 0);
    if (a->w == 1) return node2(K_XOR, a, b);
    if (a->kind == K_XOR && isC(a->b) && isC(b)) return bxor(a->a, cst(a->w, a->b->k ^ b->k));
    if (E r = piecewise(K_XOR, a, b)) return r;
    return node2(K_XOR, a, b);
  }
  u64t zeros(E e) {
    if (e->zerosDone) return e->zeros;
    u64t z = 0;
    switch (e->kind) {
    case K_CONST: z = ~e->k; break;
    case K_ZEXT: z = zeros(e->a) | ~mask(e->a->w); break;
    case K_CONCAT: z = zeros(e->b) | zeros(e->a) << e->b->w; break;
    case K_AND: z = zeros(e->a) | zeros(e->b); break;
    case K_OR: case K_XOR: z = zeros(e->a) & zeros(e->b); break;
    case K_ITE: z = zeros(e->b) & zeros(e->c); break;
    case K_EXTRACT: z = zeros(e->a) >> e->k; break;
    default: break;
    }
    z &= mask(e->w); e->zeros = z; e->zerosDone = true; return z;
  }
  E add(E a, E b) {
    if (isC(a) && isC(b)) return cst(a->w, a->k + b->k);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (a->w == 1) return bxor(a, b);
    if ((structured(a) || structured(b)) && (!isC(b) || b->k >> (b->w - 1)) && (zeros(a) | zeros(b)) == mask(a->w)) return bor(a, b); // no bit in common
    if (isC(b) && a->kind == K_ADD && isC(a->b)) return add(a->a, cst(a->w, a->b->k + b->k));
    if (isC(b) && a->kind == K_SUB && isC(a->a)) return node(K_SUB, a->w, 0, cst(a->w, a->a->k + b->k), a->b);
    if (a->kind == K_ADD && isC(a->b)) return add(add(a->a, b), a->b);
    if (b->kind == K_ADD && isC(b->b)) return add(add(a, b->a), b->b);
    return node2(K_ADD, a, b);
  }
  E sub(E a, E b) {
    if (isC(a) && isC(b)) return cst(a->w, a->k - b->k);
    if (isC(b)) return add(a, cst(a->w, 0 - b->k));
    if (a == b) return cst(a->w, 0);
    if (a->w == 1) return bxor(a, b);
    if (isC(a, 0) && b->kind == K_ZEXT && b->a->w == 1) return sext(b->a, a->w);
    if (a->kind == K_ADD && a->a == b) return a->b;
    if (a->kind == K_ADD && a->b == b) return a->a;
    return node(K_SUB, a->w, 0, a, b);
  }
  E mul(E a, E b) {
    if (isC(a) && isC(b)) return cst(a->w, a->k * b->k);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isC(b) && a->kind == K_ZEXT && a->a->w == 1) return band(sext(a->a, a->w), b);
    if (isC(b) && (b->k & (b->k - 1)) == 0) return shl(a, cst(a->w, __builtin_ctzll(b->k)));
    return node2(K_MUL, a, b);
  }
  E shl(E a, E b) {
    if (isC(b)) {
      if (b->k >= a->w) return cst(a->w, 0);
      if (b->k == 0) return a;
      if (isC(a)) return cst(a->w, a->k << b->k);
      return concat(extract(a, 0, a->w - b->k), cst(b->k, 0));
    }
    return node(K_SHL, a->w, 0, a, b);
  }
  E lshr(E a, E b) {
    if (isC(b)) {
      if (b->k >= a->w) return cst(a->w, 0);
      if (b->k == 0) return a;
      if (isC(a)) return cst(a->w, a->k >> b->k);
      return zext(extract(a, b->k, a->w - b->k), a->w);
    }
    return node(K_LSHR, a->w, 0, a, b);
  }
  E ashr(E a, E b) {
    if (isC(b)) {
      u64t s = b->k >= a->w ? a->w - 1 : b->k;
      if (s == 0) return a;
      if (isC(a)) return cst(a->w, (u64t)(sx(a->k, a->w) >> s));
      return sext(extract(a, s, a->w - s), a->w);
    }
    return node(K_ASHR, a->w, 0, a, b);
  }
  E divrem(Kind k, E a, E b) {
    int w = a->w;
    if (isC(b) && b->k != 0) {
      if (isC(a)) {
        int64_t x = sx(a->k, w), y = sx(b->k, w);
        switch (k) {
        case K_UDIV: return cst(w, a->k / b->k);
        case K_UREM: return cst(w, a->k % b->k);
        case K_SDIV: return cst(w, y == -1 ? (u64t)0 - (u64t)x : (u64t)(x / y));
        default: return cst(w, y == -1 ? 0 : (u64t)(x % y));
        }
      }
      bool nonneg = a->kind == K_ZEXT && sx(b->k, w) > 0;
      if ((k == K_UDIV || (k == K_SDIV && nonneg)) && (b->k & (b->k - 1)) == 0) return lshr(a, cst(w, __builtin_ctzll(b->k)));
      if ((k == K_UREM || (k == K_SREM && nonneg)) && (b->k & (b->k - 1)) == 0) return band(a, cst(w, b->k - 1));
      if (k == K_SDIV && nonneg) k = K_UDIV;
      if (k == K_SREM && nonneg) k = K_UREM;
    }
    return node(k, w, 0, a, b);
  }
  E zext(E a, int w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(w, a->k);
    if (a->kind == K_ZEXT) return zext(a->a, w);
    if (a->kind == K_CONCAT && isC(a->a, 0)) return zext(a->b, w);
    return node(K_ZEXT, w, 0, a);
  }
  E sext(E a, int w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(w, (u64t)sx(a->k, a->w));
    if (a->kind == K_SEXT) return sext(a->a, w);
    if (a->kind == K_ZEXT) return zext(a->a, w);
    return node(K_SEXT, w, 0, a);
  }
  E extract(E a, int lo, int w) {
    if (lo == 0 && w == a->w) return a->kind == K_CONCAT && isC(a->a, 0) ? zext(a->b, w) : a;
    switch (a->kind) {
    case K_CONST: return cst(w, a->k >> lo);
    case K_EXTRACT: return extract(a->a, a->k + lo, w);
    case K_CONCAT: {
      int lw = a->b->w;
      if (lo >= lw) return extract(a->a, lo - lw, w);
      if (lo + w <= lw) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo));
    }
    case K_ZEXT: {
      int lw = a->a->w;
      if (lo >= lw) return cst(w, 0);
      if (lo + w <= lw) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, lw - lo), w);
    }
    case K_SEXT: {
      int lw = a->a->w;
      if (lo + w <= lw) return extract(a->a, lo, w);
      if (lo >= lw) return sext(extract(a->a, lw - 1, 1), w);
      return sext(extract(a->a, lo, lw - lo), w);
    }
    case K_AND: return band(extract(a->a, lo, w), extract(a->b, lo, w));
    case K_OR: return bor(extract(a->a, lo, w), extract(a->b, lo, w));
    case K_XOR: return bxor(extract(a->a, lo, w), extract(a->b, lo, w));
    case K_ADD: if (lo == 0) return add(extract(a->a, 0, w), extract(a->b, 0, w)); break;
    case K_SUB: if (lo == 0) return sub(extract(a->a, 0, w), extract(a->b, 0, w)); break;
    case K_ITE: return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
    default: break;
    }
    return node(K_EXTRACT, w, lo, a);
  }
  E concat(E h, E l) {
    int w = h->w + l->w;
    if (isC(h) && isC(l)) return cst(w, (h->k << l->w) | l->k);
    if (isC(h, 0)) return zext(l, w);
    if (h->kind == K_ZEXT) return zext(concat(h->a, l), w);
    if (h->kind == K_CONCAT) return concat(h->a, concat(h->b, l));
    if (l->kind == K_ZEXT) {
      // keep the zero gap explicit: h . 0 . x
      E z = cst(l->w - l->a->w, 0);
      if (isC(h)) return concat(cst(h->w + z->w, h->k << z->w), l->a);
      return node(K_CONCAT, w, 0, h, node(K_CONCAT, l->w, 0, z, l->a));
    }
    E nx = l->kind == K_CONCAT ? l->a : l; // the piece next to h
    E j = nullptr;
    if (isC(h) && isC(nx)) j = cst(h->w + nx->w, (h->k << nx->w) | nx->k);
    else {
      E hb = h, nb = nx; int hlo = 0, nlo = 0;
      if (h->kind == K_EXTRACT) { hb = h->a; hlo = h->k; }
      if (nx->kind == K_EXTRACT) { nb = nx->a; nlo = nx->k; }
      if (hb == nb && hlo == nlo + nx->w) j = extract(hb, nlo, nx->w + h->w);
    }
    if (j) return l->kind == K_CONCAT ? concat(j, l->b) : j;
    return node(K_CONCAT, w, 0, h, l);
  }
  E ite(E c, E a, E b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->kind == K_NOT) { c = c->a; std::swap(a, b); }
    if (a->w == 1) {
      if (isC(a)) return a->k ? bor(c, b) : band(not1(c), b);
      if (isC(b)) return b->k ? bor(not1(c), a) : band(c, a);
      if (a == c) return bor(c, b);
      if (b == c) return band(c, a);
      if (a == not1(c)) return band(not1(c), b);
      if (b == not1(c)) return bor(not1(c), a);
    }
    if (a->kind == K_ITE && a->a == c) a = a->b;
    if (b->kind == K_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    u64t d; // c ? x ^ K : x is x ^ (K if c): keeps checksum code free of nested selections
    if (a->w > 1 && ((a->flags | b->flags) & F_XOR) && xorDiff(a, b, d)) return bxor(b, band(sext(c, a->w), cst(a->w, d)));
    return node(K_ITE, a->w, 0, c, a, b);
  }
  // do a and b differ by a constant?
  bool xorDiff(E a, E b, u64t &d) {
    if (a == b) { d = 0; return true; }
    if (isC(a) && isC(b)) { d = a->k ^ b->k; return true; }
    u64t ka = 0, kb = 0; E x = a, y = b;
    if (x->kind == K_XOR && isC(x->b)) { ka = x->b->k; x = x->a; } else if (x->kind == K_NOT) { ka = 1; x = x->a; }
    if (y->kind == K_XOR && isC(y->b)) { kb = y->b->k; y = y->a; } else if (y->kind == K_NOT) { kb = 1; y = y->a; }
    if (x == y) { d = ka ^ kb; return true; }
    if (!structured(a) && !structured(b)) return false;
    Pieces pa, pb; pieces(a, pa); pieces(b, pb); std::vector<int> cuts; int o = 0;
    for (E q : pa) { o += q->w; cuts.push_back(o); }
    o = 0; for (E q : pb) { o += q->w; cuts.push_back(o); }
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    if (cuts.size() < 2) return false;
    d = 0; int lo = 0;
    for (int hi : cuts) { u64t p; if (!xorDiff(extract(a, lo, hi - lo), extract(b, lo, hi - lo), p)) return false; d |= p << lo; lo = hi; }
    return true;
  }
  E eq(E a, E b) {
    if (a == b) return tru();
    if (isC(a) && isC(b)) return cst(1, a->k == b->k);
    if (isC(a)) std::swap(a, b);
    int w = a->w;
    if (w == 1) { if (isC(b)) return b->k ? a : not1(a); return not1(node2(K_XOR, a, b)); }
    if (isC(b)) {
      switch (a->kind) {
      case K_ZEXT:
        if (b->k >> a->a->w) return fls();
        return eq(a->a, cst(a->a->w, b->k));
      case K_SEXT: {
        u64t lo = b->k & mask(a->a->w);
        if (((u64t)sx(lo, a->a->w) & mask(w)) != b->k) return fls();
        return eq(a->a, cst(a->a->w, lo));
      }
      case K_CONCAT: {
        E l = eq(a->b, cst(a->b->w, b->k)); if (isC(l, 0)) return l;
        return band(eq(a->a, cst(a->a->w, b->k >> a->b->w)), l);
      }
      case K_ADD: if (isC(a->b)) return eq(a->a, cst(w, b->k - a->b->k)); break;
      case K_XOR: if (isC(a->b)) return eq(a->a, cst(w, b->k ^ a->b->k)); break;
      case K_SUB: if (b->k == 0) return eq(a->a, a->b); if (isC(a->a)) return eq(a->b, cst(w, a->a->k - b->k)); break;
      case K_ITE: if (isC(a->b) || isC(a->c) || a->b->kind == K_ITE || a->c->kind == K_ITE || b->k == 0) return ite(a->a, eq(a->b, b), eq(a->c, b)); break;
      default: break;
      }
    } else {
      if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
        int m = std::max(a->a->w, b->a->w);
        return eq(zext(a->a, m), zext(b->a, m));
      }
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->w == b->b->w) {
        E l = eq(a->b, b->b); if (isC(l, 0)) return l;
        return band(eq(a->a, b->a), l);
      }
      if ((a->kind == K_ZEXT || b->kind == K_ZEXT) && (a->kind == K_CONCAT || b->kind == K_CONCAT)) {
        E z = a->kind == K_ZEXT ? a : b, o = z == a ? b : a; int lw = z->a->w;
        return band(eq(extract(o, lw, w - lw), cst(w - lw, 0)), eq(extract(o, 0, lw), z->a));
      }
      if (a->kind == K_ADD && b->kind == K_ADD && isC(a->b) && isC(b->b)) return eq(a->a, add(b->a, cst(w, b->b->k - a->b->k)));
    }
    if ((a->flags | b->flags) & F_XOR) {
      const Lin *la = lin(a), *lb = lin(b);
      if (la && lb) {
        bool all = true;
        for (int i = 0; i < w; i++) {
          if (la->rows[i] != lb->rows[i]) { all = false; continue; }
          if (((la->konst >> i) & 1) != ((lb->konst >> i) & 1)) return fls();
        }
        if (all) return tru();
      }
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return node(K_EQ, 1, 0, a, b);
  }
  static bool nonneg(E e) { return (isC(e) && !((e->k >> (e->w - 1)) & 1)) || e->kind == K_ZEXT; }
  E ult(E a, E b) {
    if (a == b) return fls();
    if (isC(a) && isC(b)) return cst(1, a->k < b->k);
    if (isC(b, 0)) return fls();
    if (isC(b, 1)) return eq(a, cst(a->w, 0));
    if (isC(a, mask(a->w))) return fls();
    if (isC(a, 0)) return not1(eq(b, a));
    if (isC(a, mask(a->w) - 1)) return eq(b, cst(a->w, mask(a->w)));
    if (isC(b, mask(a->w))) return not1(eq(a, b));
    if (a->w == 1) return band(not1(a), b);
    if (a->kind == K_ZEXT && isC(b)) {
      if (b->k > mask(a->a->w)) return tru();
      return ult(a->a, cst(a->a->w, b->k));
    }
    if (b->kind == K_ZEXT && isC(a)) {
      if (a->k >= mask(b->a->w)) return fls();
      return ult(cst(b->a->w, a->k), b->a);
    }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
      int m = std::max(a->a->w, b->a->w);
      return ult(zext(a->a, m), zext(b->a, m));
    }
    return node(K_ULT, 1, 0, a, b);
  }
  E ule(E a, E b) { return not1(ult(b, a)); }
  E slt(E a, E b) {
    if (a == b) return fls();
    int w = a->w;
    if (isC(a) && isC(b)) return cst(1, sx(a->k, w) < sx(b->k, w));
    if (nonneg(a) && nonneg(b)) return ult(a, b);
    if (nonneg(a) && isC(b)) return fls();
    if (isC(a) && nonneg(b)) return tru();
    if (isC(b, 0)) return extract(a, w - 1, 1);
    if (isC(a, mask(w))) return not1(extract(b, w - 1, 1));
    if (a->kind == K_SEXT && isC(b)) {
      int n = a->a->w; int64_t v = sx(b->k, w);
      if (v > (int64_t)(mask(n) >> 1)) return tru();
      if (v <= -(int64_t)(1ull << (n - 1))) return fls();
      return slt(a->a, cst(n, (u64t)v));
    }
    if (b->kind == K_SEXT && isC(a)) {
      int n = b->a->w; int64_t v = sx(a->k, w);
      if (v >= (int64_t)(mask(n) >> 1)) return fls();
      if (v < -(int64_t)(1ull << (n - 1))) return tru();
      return slt(cst(n, (u64t)v), b->a);
    }
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->w == b->a->w) return slt(a->a, b->a);
    return node(K_SLT, 1, 0, a, b);
  }
  E sle(E a, E b) { return not1(slt(b, a)); }
  E un(Kind k, int w, E a) { return node(k, w, 0, a); }
  E bin(Kind k, int w, E a, E b) { return node(k, w, 0, a, b); }

  int internTable(int w, const std::vector<u64t> &v) {
    std::string key((const char *)v.data(), v.size() * 8); key += char(w);
    auto it = tableIx.find(key); if (it != tableIx.end()) return it->second;
    Table t; t.w = w; t.v = v; int lg = 0; while ((1ull << lg) < v.size()) lg++;
    t.linear = lg && lg <= 12 && v.size() == (1ull << lg);
    if (t.linear) for (int i = 0; i < (1 << lg) && t.linear; i++) {
      u64t x = v[0];
      for (int j = 0; j < lg; j++) if (i >> j & 1) x ^= v[1 << j] ^ v[0];
      if (x != v[i]) t.linear = false;
    }
    int n = tables.size(); tables.push_back(t); tableIx[key] = n; return n;
  }
  // idx must be known to be < table size; its width may be anything
  E table(int t, E idx) {
    const Table &T = tables[t];
    int need = 1; while ((1ull << need) < T.v.size()) need++;
    if (idx->w > need) idx = extract(idx, 0, need);
    if (isC(idx)) return cst(T.w, idx->k < T.v.size() ? T.v[idx->k] : 0);
    return node(K_TABLE, T.w, t, idx);
  }

  // ---- linear forms over input bits (var*8+bit)
  static std::vector<uint32_t> xorRows(const std::vector<uint32_t> &x, const std::vector<uint32_t> &y) {
    std::vector<uint32_t> r; r.reserve(x.size() + y.size());
    std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(r));
    return r;
  }
  const Lin *lin(E e) {
    if (e->linTried) return e->lin;
    e->linTried = true;
    Lin L; L.rows.resize(e->w);
    switch (e->kind) {
    case K_CONST: L.konst = e->k; break;
    case K_VAR: for (int i = 0; i < 8; i++) L.rows[i] = {(uint32_t)(e->k * 8 + i)}; break;
    case K_XOR: {
      auto a = lin(e->a), b = lin(e->b); if (!a || !b) return nullptr;
      for (int i = 0; i < e->w; i++) L.rows[i] = xorRows(a->rows[i], b->rows[i]);
      L.konst = a->konst ^ b->konst; break;
    }
    case K_OR: { // of values that never have a bit in common, or with constant bits
      auto a = lin(e->a), b = lin(e->b); if (!a || !b) return nullptr;
      for (int i = 0; i < e->w; i++) {
        const Lin *p = a, *q = b; if (!q->rows[i].empty()) std::swap(p, q);
        if (!q->rows[i].empty()) return nullptr;
        if (q->konst >> i & 1) L.konst |= 1ull << i; else { L.rows[i] = p->rows[i]; L.konst |= p->konst & (1ull << i); }
      }
      break;
    }
    case K_SUB: case K_MUL: { // 0 - bit, bit * constant
      E x = e->kind == K_SUB ? e->b : e->a, c = e->kind == K_SUB ? e->a : e->b;
      if (!isC(c) || (e->kind == K_SUB && c->k)) return nullptr;
      auto p = lin(x); if (!p || p->konst > 1) return nullptr;
      for (int i = 1; i < e->w; i++) if (!p->rows[i].empty()) return nullptr;
      u64t m = e->kind == K_SUB ? mask(e->w) : c->k;
      for (int i = 0; i < e->w; i++) if (m >> i & 1) L.rows[i] = p->rows[0];
      L.konst = p->konst ? m : 0; break;
    }
    case K_NOT: { auto a = lin(e->a); if (!a) return nullptr; L = *a; L.konst ^= 1; break; }
    case K_AND: {
      if (!isC(e->b)) return nullptr;
      auto a = lin(e->a); if (!a) return nullptr;
      for (int i = 0; i < e->w; i++) if (e->b->k >> i & 1) L.rows[i] = a->rows[i];
      L.konst = a->konst & e->b->k; break;
    }
    case K_EXTRACT: {
      auto a = lin(e->a); if (!a) return nullptr;
      for (int i = 0; i < e->w; i++) L.rows[i] = a->rows[i + e->k];
      L.konst = (a->konst >> e->k) & mask(e->w); break;
    }
    case K_ZEXT: case K_SEXT: {
      auto a = lin(e->a); if (!a) return nullptr;
      for (int i = 0; i < e->a->w; i++) L.rows[i] = a->rows[i];
      L.konst = a->konst;
      if (e->kind == K_SEXT) for (int i = e->a->w; i < e->w; i++) { L.rows[i] = a->rows[e->a->w - 1]; L.konst |= ((a->konst >> (e->a->w - 1)) & 1) << i; }
      break;
    }
    case K_CONCAT: {
      auto h = lin(e->a), l = lin(e->b); if (!h || !l) return nullptr;
      for (int i = 0; i < e->b->w; i++) L.rows[i] = l->rows[i];
      for (int i = 0; i < e->a->w; i++) L.rows[i + e->b->w] = h->rows[i];
      L.konst = l->konst | (h->konst << e->b->w); break;
    }
    case K_ITE: { // c ? a : b with constant arms: b ^ (c & (a^b))
      if (!isC(e->b) || !isC(e->c)) {
        // c ? x^k : x
        auto c = lin(e->a), x = lin(e->b), y = lin(e->c);
        if (!c || !x || !y || x->rows != y->rows) return nullptr;
        u64t d = x->konst ^ y->konst;
        for (int i = 0; i < e->w; i++) { L.rows[i] = y->rows[i]; if (d >> i & 1) { L.rows[i] = xorRows(L.rows[i], c->rows[0]); } }
        L.konst = y->konst ^ ((c->konst & 1) ? d : 0);
        break;
      }
      auto c = lin(e->a); if (!c) return nullptr;
      u64t d = e->b->k ^ e->c->k;
      for (int i = 0; i < e->w; i++) if (d >> i & 1) L.rows[i] = c->rows[0];
      L.konst = e->c->k ^ ((c->konst & 1) ? d : 0); break;
    }
    case K_TABLE: {
      const Table &T = tables[e->k]; if (!T.linear) return nullptr;
      auto a = lin(e->a); if (!a) return nullptr;
      L.konst = T.v[0];
      for (int j = 0; j < (int)e->a->w; j++) {
        u64t d = T.v[1 << j] ^ T.v[0];
        for (int i = 0; i < e->w; i++) if (d >> i & 1) { L.rows[i] = xorRows(L.rows[i], a->rows[j]); if (a->konst >> j & 1) L.konst ^= 1ull << i; }
      }
      break;
    }
    default: return nullptr;
    }
    e->lin = new Lin(std::move(L));
    return e->lin;
  }

  // ---- evaluation under the current model
  static double asD(u64t v) { double d; memcpy(&d, &v, 8); return d; }
  static u64t fromD(double d) { u64t v; memcpy(&v, &d, 8); return v; }
  void setModel(const std::vector<uint8_t> *m) { model = m; epoch++; }
  u64t eval(E e) {
    if (e->kind == K_CONST) return e->k;
    if (e->evEpoch == epoch) return e->evVal;
    u64t r = evalNode(e, [&](E x) { return eval(x); }, [&](uint32_t id) -> u64t { return id < model->size() ? (*model)[id] : (id >= UNINIT_BASE ? 0xAA : 0); });
    e->evEpoch = epoch; e->evVal = r; return r;
  }
  template <class R, class V> u64t evalNode(E e, R rec, V varv) {
    u64t m = mask(e->w);
    switch (e->kind) {
    case K_CONST: return e->k;
    case K_VAR: return varv((uint32_t)e->k);
    case K_ADD: return (rec(e->a) + rec(e->b)) & m;
    case K_SUB: return (rec(e->a) - rec(e->b)) & m;
    case K_MUL: return (rec(e->a) * rec(e->b)) & m;
    case K_UDIV: { u64t y = rec(e->b); return y ? rec(e->a) / y : m; }
    case K_UREM: { u64t y = rec(e->b); return y ? rec(e->a) % y : rec(e->a); }
    case K_SDIV: { int64_t x = sx(rec(e->a), e->w), y = sx(rec(e->b), e->w); if (!y) return x < 0 ? 1 : m; return (y == -1 ? (u64t)0 - (u64t)x : (u64t)(x / y)) & m; }
    case K_SREM: { int64_t x = sx(rec(e->a), e->w), y = sx(rec(e->b), e->w); if (!y) return (u64t)x & m; return (y == -1 ? 0 : (u64t)(x % y)) & m; }
    case K_AND: return rec(e->a) & rec(e->b);
    case K_OR: return rec(e->a) | rec(e->b);
    case K_XOR: return rec(e->a) ^ rec(e->b);
    case K_SHL: { u64t s = rec(e->b); return s >= e->w ? 0 : (rec(e->a) << s) & m; }
    case K_LSHR: { u64t s = rec(e->b); return s >= e->w ? 0 : rec(e->a) >> s; }
    case K_ASHR: { u64t s = rec(e->b); if (s >= e->w) s = e->w - 1; return (u64t)(sx(rec(e->a), e->w) >> s) & m; }
    case K_NOT: return !rec(e->a);
    case K_EQ: return rec(e->a) == rec(e->b);
    case K_ULT: return rec(e->a) < rec(e->b);
    case K_SLT: return sx(rec(e->a), e->a->w) < sx(rec(e->b), e->a->w);
    case K_ZEXT: return rec(e->a);
    case K_SEXT: return (u64t)sx(rec(e->a), e->a->w) & m;
    case K_EXTRACT: return (rec(e->a) >> e->k) & m;
    case K_CONCAT: return (rec(e->a) << e->b->w) | rec(e->b);
    case K_ITE: return rec(e->a) ? rec(e->b) : rec(e->c);
    case K_TABLE: { u64t i = rec(e->a); return i < tables[e->k].v.size() ? tables[e->k].v[i] : 0; }
    case K_SI2FP: return fromD((double)sx(rec(e->a), e->a->w));
    case K_UI2FP: return fromD((double)rec(e->a));
    case K_FADD: return fromD(asD(rec(e->a)) + asD(rec(e->b)));
    case K_FSUB: return fromD(asD(rec(e->a)) - asD(rec(e->b)));
    case K_FMUL: return fromD(asD(rec(e->a)) * asD(rec(e->b)));
    case K_FDIV: return fromD(asD(rec(e->a)) / asD(rec(e->b)));
    case K_FNEG: return rec(e->a) ^ (1ull << 63);
    case K_FP2SI: return (u64t)(int64_t)asD(rec(e->a)) & m;
    case K_FP2UI: return (u64t)asD(rec(e->a)) & m;
    case K_FOEQ: return asD(rec(e->a)) == asD(rec(e->b));
    case K_FOLT: return asD(rec(e->a)) < asD(rec(e->b));
    case K_FOLE: return asD(rec(e->a)) <= asD(rec(e->b));
    case K_FUNO: { double x = asD(rec(e->a)), y = asD(rec(e->b)); return x != x || y != y; }
    }
    return 0;
  }

  // ---- renaming
  template <class M> E rename(E e, M &map, std::unordered_map<E, E> &memo) {
    if (e->vars->v.empty()) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    E r;
    if (e->kind == K_VAR) r = var(map.at((uint32_t)e->k));
    else {
      E a = e->a ? rename(e->a, map, memo) : nullptr, b = e->b ? rename(e->b, map, memo) : nullptr, c = e->c ? rename(e->c, map, memo) : nullptr;
      r = node(e->kind, e->w, e->k, a, b, c); // structure kept as is: renaming is one to one
    }
    memo[e] = r; return r;
  }
  E canonUnary(E e) {
    if (e->canon1) return e->canon1;
    std::unordered_map<uint32_t, uint32_t> m; m[e->vars->v[0]] = 0;
    std::unordered_map<E, E> memo;
    e->canon1 = rename(e, m, memo); return e->canon1;
  }
  // satisfying byte values of a single-variable condition
  const Dom &domOf(E e) {
    E c = canonUnary(e);
    if (!c->dom) {
      Dom *d = new Dom(); std::vector<uint8_t> mm(1);
      auto saved = model; 
      for (int v = 0; v < 256; v++) { mm[0] = v; setModel(&mm); if (eval(c)) d->set(v); }
      setModel(saved);
      c->dom = d;
    }
    return *c->dom;
  }
  std::string str(E e, int depth = 6) {
    static const char *nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","not","eq","ult","slt","zext","sext","extract","concat","ite","table","si2fp","ui2fp","fadd","fsub","fmul","fdiv","fneg","fp2si","fp2ui","foeq","folt","fole","funo"};
    char buf[64];
    if (e->kind == K_CONST) { snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)e->k, e->w); return buf; }
    if (e->kind == K_VAR) { snprintf(buf, sizeof buf, "b%u", (unsigned)e->k); return buf; }
    if (!depth) return "...";
    std::string s = std::string("(") + nm[e->kind] + ":" + std::to_string(e->w);
    if (e->kind == K_EXTRACT || e->kind == K_TABLE) s += "@" + std::to_string(e->k);
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + str(x, depth - 1);
    return s + ")";
  }
};

} // namespace symx
