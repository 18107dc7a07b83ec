// Hash-consed bit-vector expressions (width 1..128) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_set>
#include <vector>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_SLT, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

static const int MAXVARS = 256;
struct VarMask {
  u64 m[MAXVARS / 64];
  VarMask() { memset(m, 0, sizeof m); }
  void set(int i) { m[i >> 6] |= 1ull << (i & 63); }
  bool has(int i) const { return m[i >> 6] >> (i & 63) & 1; }
  void orWith(const VarMask &o) { for (int i = 0; i < MAXVARS / 64; i++) m[i] |= o.m[i]; }
  bool intersects(const VarMask &o) const { for (int i = 0; i < MAXVARS / 64; i++) if (m[i] & o.m[i]) return true; return false; }
  bool subsetOf(const VarMask &o) const { for (int i = 0; i < MAXVARS / 64; i++) if (m[i] & ~o.m[i]) return false; return true; }
  int count() const { int n = 0; for (int i = 0; i < MAXVARS / 64; i++) n += __builtin_popcountll(m[i]); return n; }
  int first() const { for (int i = 0; i < MAXVARS / 64; i++) if (m[i]) return i * 64 + __builtin_ctzll(m[i]); return -1; }
};

struct Expr {
  Op op; u8 w; u32 id; u32 hash;
  u128 c;              // O_CONST value, O_VAR index, O_EXTRACT low bit
  Expr *a, *b, *d;
  VarMask vars;
  // evaluation memo
  u32 epoch; u128 val;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s) - s);
}

struct ExprKeyHash { size_t operator()(const Expr *e) const { return e->hash; } };
struct ExprKeyEq {
  bool operator()(const Expr *x, const Expr *y) const {
    return x->op == y->op && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
  }
};

struct Exprs {
  std::unordered_set<Expr *, ExprKeyHash, ExprKeyEq> table;
  u32 nextId = 1;
  u32 epoch = 0;
  std::vector<Expr *> varCache;
  // arena
  std::vector<char *> blocks; size_t used = 0, cap = 0;
  Expr *alloc() {
    if (used + sizeof(Expr) > cap) { cap = 1 << 20; used = 0; blocks.push_back((char *)malloc(cap)); }
    Expr *e = (Expr *)(blocks.back() + used); used += sizeof(Expr); return e;
  }
  Expr *mk(Op op, unsigned w, u128 c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
    Expr k; k.op = op; k.w = w; k.c = c; k.a = a; k.b = b; k.d = d;
    u64 h = op * 0x9E3779B97F4A7C15ull + w; h ^= (u64)c + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h ^= (u64)(c >> 64) * 31;
    if (a) h = (h ^ a->id) * 0xff51afd7ed558ccdull; if (b) h = (h ^ b->id) * 0xc4ceb9fe1a85ec53ull;
    if (d) h = (h ^ d->id) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    k.hash = (u32)h;
    auto it = table.find(&k);
    if (it != table.end()) return *it;
    Expr *e = alloc(); *e = k; e->id = nextId++; e->epoch = 0;
    e->vars = VarMask();
    if (op == O_VAR) e->vars.set((int)c);
    if (a) e->vars.orWith(a->vars); if (b) e->vars.orWith(b->vars); if (d) e->vars.orWith(d->vars);
    table.insert(e);
    return e;
  }
  Expr *cst(u128 v, unsigned w) { return mk(O_CONST, w, v & maskw(w)); }
  Expr *var(int i) {
    if (i >= MAXVARS) throw Unsupported("too many symbolic bytes");
    while ((int)varCache.size() <= i) varCache.push_back(mk(O_VAR, 8, varCache.size()));
    return varCache[i];
  }
  static bool isC(Expr *e) { return e->op == O_CONST; }
  static u128 fold(Op op, unsigned w, u128 x, u128 y) {
    u128 m = maskw(w);
    switch (op) {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? (x / y) & m : m;
    case O_UREM: return y ? (x % y) & m : x;
    case O_SDIV: { if (!y) return sx(x, w) < 0 ? 1 : m; __int128 a = sx(x, w), b = sx(y, w); if (b == -1) return (0 - (u128)a) & m; return (u128)(a / b) & m; }
    case O_SREM: { if (!y) return x; __int128 a = sx(x, w), b = sx(y, w); if (b == -1) return 0; return (u128)(a % b) & m; }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
    case O_LSHR: return y >= w ? 0 : (x >> (unsigned)y) & m;
    case O_ASHR: { unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(sx(x, w) >> s) & m; }
    default: throw Unsupported("fold");
    }
  }
  Expr *notE(Expr *x) {
    if (isC(x)) return cst(x->c ^ 1, 1);
    if (x->op == O_XOR && x->w == 1 && isC(x->b)) return x->a;
    return mk(O_XOR, 1, 0, x, cst(1, 1));
  }
  static bool isNot(Expr *x) { return x->op == O_XOR && x->w == 1 && isC(x->b) && x->b->c == 1; }
  static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR; }
  Expr *bin(Op op, Expr *x, Expr *y) {
    unsigned w = x->w; u128 m = maskw(w);
    if (isC(x) && isC(y)) return cst(fold(op, w, x->c, y->c), w);
    if (commut(op)) {
      if (isC(x) || (!isC(y) && x->id > y->id)) std::swap(x, y);
    }
    switch (op) {
    case O_ADD:
      if (isC(y)) {
        if (y->c == 0) return x;
        if (x->op == O_ADD && isC(x->b)) return bin(O_ADD, x->a, cst(x->b->c + y->c, w));
        if (x->op == O_ITE && isC(x->b) && isC(x->d)) return ite(x->a, cst(x->b->c + y->c, w), cst(x->d->c + y->c, w));
      }
      if (w == 1) return bin(O_XOR, x, y);
      break;
    case O_SUB:
      if (x == y) return cst(0, w);
      if (isC(y)) return bin(O_ADD, x, cst((0 - y->c), w));
      if (w == 1) return bin(O_XOR, x, y);
      break;
    case O_MUL:
      if (isC(y)) {
        if (y->c == 0) return y;
        if (y->c == 1) return x;
        if ((y->c & (y->c - 1)) == 0) { int k = 0; u128 t = y->c; while (t > 1) { t >>= 1; k++; } return bin(O_SHL, x, cst(k, w)); }
      }
      if (w == 1) return bin(O_AND, x, y);
      break;
    case O_AND:
      if (x == y) return x;
      if (isC(y)) {
        if (y->c == 0) return y;
        if (y->c == m) return x;
        if (x->op == O_AND && isC(x->b)) return bin(O_AND, x->a, cst(x->b->c & y->c, w));
        if (x->op == O_ZEXT) { Expr *n = x->a; return zext(bin(O_AND, n, cst(y->c & maskw(n->w), n->w)), w); }
        // low mask -> zext(extract)
        if ((y->c & (y->c + 1)) == 0) { unsigned k = 0; u128 t = y->c; while (t) { t >>= 1; k++; } return zext(extract(x, 0, k), w); }
      }
      if (w == 1) { if (isNot(x) && x->a == y) return cst(0, 1); if (isNot(y) && y->a == x) return cst(0, 1); }
      break;
    case O_OR:
      if (x == y) return x;
      if (isC(y)) {
        if (y->c == 0) return x;
        if (y->c == m) return y;
        if (x->op == O_OR && isC(x->b)) return bin(O_OR, x->a, cst(x->b->c | y->c, w));
      }
      if (w == 1) { if (isNot(x) && x->a == y) return cst(1, 1); if (isNot(y) && y->a == x) return cst(1, 1); }
      break;
    case O_XOR:
      if (x == y) return cst(0, w);
      if (isC(y)) {
        if (y->c == 0) return x;
        if (w == 1) return notE(x);
        if (x->op == O_XOR && isC(x->b)) return bin(O_XOR, x->a, cst(x->b->c ^ y->c, w));
      }
      break;
    case O_SHL:
      if (isC(y)) {
        if (y->c == 0) return x;
        if (y->c >= w) return cst(0, w);
        unsigned k = (unsigned)y->c;
        return concat(extract(x, 0, w - k), cst(0, k));
      }
      if (isC(x) && x->c == 0) return x;
      break;
    case O_LSHR:
      if (isC(y)) {
        if (y->c == 0) return x;
        if (y->c >= w) return cst(0, w);
        unsigned k = (unsigned)y->c;
        return zext(extract(x, k, w - k), w);
      }
      if (isC(x) && x->c == 0) return x;
      break;
    case O_ASHR:
      if (isC(y)) {
        if (y->c == 0) return x;
        unsigned k = y->c >= w ? w - 1 : (unsigned)y->c;
        return sext(extract(x, k, w - k), w);
      }
      break;
    case O_UDIV: if (isC(y) && y->c == 1) return x; break;
    case O_UREM: if (isC(y) && y->c == 1) return cst(0, w); break;
    default: break;
    }
    return mk(op, w, 0, x, y);
  }
  Expr *eq(Expr *x, Expr *y) {
    unsigned w = x->w;
    if (x == y) return cst(1, 1);
    if (isC(x) && isC(y)) return cst(x->c == y->c, 1);
    if (isC(x) || (!isC(y) && x->id > y->id)) std::swap(x, y);
    if (isC(y)) {
      u128 c = y->c;
      if (w == 1) return c ? x : notE(x);
      switch (x->op) {
      case O_ZEXT: { unsigned n = x->a->w; if (c >> n) return cst(0, 1); return eq(x->a, cst(c, n)); }
      case O_SEXT: { unsigned n = x->a->w; u128 t = c & maskw(n); if (((u128)sx(t, n) & maskw(w)) != c) return cst(0, 1); return eq(x->a, cst(t, n)); }
      case O_CONCAT: { unsigned lw = x->b->w; return bin(O_AND, eq(x->a, cst(c >> lw, x->a->w)), eq(x->b, cst(c & maskw(lw), lw))); }
      case O_ADD: if (isC(x->b)) return eq(x->a, cst(c - x->b->c, w)); break;
      case O_SUB: if (c == 0) return eq(x->a, x->b); break;
      case O_XOR: if (isC(x->b)) return eq(x->a, cst(c ^ x->b->c, w)); if (c == 0) return eq(x->a, x->b); break;
      case O_OR: if (c == 0) return bin(O_AND, eq(x->a, cst(0, w)), eq(x->b, cst(0, w))); if (isC(x->b) && (x->b->c & ~c)) return cst(0, 1); break;
      case O_AND: if (isC(x->b) && (c & ~x->b->c)) return cst(0, 1); break;
      case O_ITE:
        if (isC(x->b) && isC(x->d)) {
          bool t = x->b->c == c, f = x->d->c == c;
          if (t && f) return cst(1, 1); if (t) return x->a; if (f) return notE(x->a); return cst(0, 1);
        }
        if (isC(x->b)) { if (x->b->c == c) return bin(O_OR, x->a, eq(x->d, y)); return bin(O_AND, notE(x->a), eq(x->d, y)); }
        if (isC(x->d)) { if (x->d->c == c) return bin(O_OR, notE(x->a), eq(x->b, y)); return bin(O_AND, x->a, eq(x->b, y)); }
        break;
      default: break;
      }
    }
    if (x->op == O_ZEXT && y->op == O_ZEXT && x->a->w == y->a->w) return eq(x->a, y->a);
    if (w == 1) return notE(bin(O_XOR, x, y));
    return mk(O_EQ, 1, 0, x, y);
  }
  Expr *ult(Expr *x, Expr *y) {
    unsigned w = x->w; u128 m = maskw(w);
    if (x == y) return cst(0, 1);
    if (isC(x) && isC(y)) return cst(x->c < y->c, 1);
    if (isC(y)) {
      u128 c = y->c;
      if (c == 0) return cst(0, 1);
      if (c == 1) return eq(x, cst(0, w));
      if (c == m) return notE(eq(x, y));
      if (x->op == O_ZEXT) { unsigned n = x->a->w; if (c > maskw(n)) return cst(1, 1); return ult(x->a, cst(c, n)); }
      if (x->op == O_ITE && isC(x->b) && isC(x->d)) return ite(x->a, cst(x->b->c < c, 1), cst(x->d->c < c, 1));
      return mk(O_ULT, 1, 0, x, y);
    }
    if (isC(x)) {
      if (x->c == m) return cst(0, 1);
      return notE(ult(y, cst(x->c + 1, w)));
    }
    if (x->op == O_ZEXT && y->op == O_ZEXT && x->a->w == y->a->w) return ult(x->a, y->a);
    return mk(O_ULT, 1, 0, x, y);
  }
  Expr *ule(Expr *x, Expr *y) { return notE(ult(y, x)); }
  static bool topZero(Expr *x) { return (x->op == O_ZEXT && x->a->w < x->w) || (x->op == O_CONST && !(x->c >> (x->w - 1))); }
  Expr *slt(Expr *x, Expr *y) {
    unsigned w = x->w;
    if (x == y) return cst(0, 1);
    if (isC(x) && isC(y)) return cst(sx(x->c, w) < sx(y->c, w), 1);
    if (topZero(x) && topZero(y)) return ult(x, y);
    if (isC(y) && !topZero(y) && topZero(x)) return cst(0, 1);
    if (isC(x) && !topZero(x) && topZero(y)) return cst(1, 1);
    // sign test: x < 0  <=> top bit ; x > -1 <=> !top bit
    if (isC(y) && y->c == 0) return extract(x, w - 1, 1);
    if (isC(x) && x->c == maskw(w)) return notE(extract(y, w - 1, 1));
    return mk(O_SLT, 1, 0, x, y);
  }
  Expr *sle(Expr *x, Expr *y) { return notE(slt(y, x)); }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (isNot(c)) return ite(c->a, f, t);
    if (t->w == 1) {
      if (isC(t)) return t->c ? bin(O_OR, c, f) : bin(O_AND, notE(c), f);
      if (isC(f)) return f->c ? bin(O_OR, notE(c), t) : bin(O_AND, c, t);
    }
    if (t->op == O_ITE && t->a == c) t = t->b;
    if (f->op == O_ITE && f->a == c) f = f->d;
    if (t == f) return t;
    return mk(O_ITE, t->w, 0, c, t, f);
  }
  Expr *zext(Expr *x, unsigned w) {
    if (x->w == w) return x;
    if (isC(x)) return cst(x->c, w);
    if (x->op == O_ZEXT) return zext(x->a, w);
    return mk(O_ZEXT, w, 0, x);
  }
  Expr *sext(Expr *x, unsigned w) {
    if (x->w == w) return x;
    if (isC(x)) return cst((u128)sx(x->c, x->w), w);
    if (x->op == O_ZEXT && x->a->w < x->w) return zext(x->a, w);
    if (x->op == O_SEXT) return sext(x->a, w);
    return mk(O_SEXT, w, 0, x);
  }
  Expr *extract(Expr *x, unsigned lo, unsigned w) {
    if (lo == 0 && w == x->w) return x;
    switch (x->op) {
    case O_CONST: return cst(x->c >> lo, w);
    case O_EXTRACT: return extract(x->a, lo + (unsigned)x->c, w);
    case O_ZEXT: {
      unsigned n = x->a->w;
      if (lo >= n) return cst(0, w);
      if (lo + w <= n) return extract(x->a, lo, w);
      return zext(extract(x->a, lo, n - lo), w);
    }
    case O_SEXT: {
      unsigned n = x->a->w;
      if (lo + w <= n) return extract(x->a, lo, w);
      if (lo < n) return sext(extract(x->a, lo, n - lo), w);
      return sext(extract(x->a, n - 1, 1), w);
    }
    case O_CONCAT: {
      unsigned lw = x->b->w;
      if (lo + w <= lw) return extract(x->b, lo, w);
      if (lo >= lw) return extract(x->a, lo - lw, w);
      return concat(extract(x->a, 0, lo + w - lw), extract(x->b, lo, lw - lo));
    }
    case O_ITE:
      if (isC(x->b) || isC(x->d)) return ite(x->a, extract(x->b, lo, w), extract(x->d, lo, w));
      break;
    case O_AND: case O_OR: case O_XOR:
      if (isC(x->b) ) return bin(x->op, extract(x->a, lo, w), extract(x->b, lo, w));
      break;
    case O_ADD:
      if (lo == 0 && isC(x->b)) return bin(O_ADD, extract(x->a, 0, w), extract(x->b, 0, w));
      break;
    default: break;
    }
    return mk(O_EXTRACT, w, lo, x);
  }
  // h is the high part, l the low part
  Expr *concat(Expr *h, Expr *l) {
    unsigned w = h->w + l->w;
    if (w > 128) throw Unsupported("concat too wide");
    if (isC(h) && isC(l)) return cst((h->c << l->w) | l->c, w);
    if (isC(h) && h->c == 0) return zext(l, w);
    if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->a == l->a && h->c == l->c + l->w) return extract(h->a, (unsigned)l->c, w);
    // h = extract(e,k,..), l = trunc handled by extract(e,0,k)
    if (h->op == O_EXTRACT && l->op == O_CONCAT && l->a->op == O_EXTRACT && h->a == l->a->a && h->c == l->a->c + l->a->w)
      return concat(extract(h->a, (unsigned)l->a->c, h->w + l->a->w), l->b);
    if (h->op == O_ZEXT && h->a->w < h->w) return zext(concat(h->a, l), w);
    // ite over the same condition with constants on one side
    if (h->op == O_ITE && l->op == O_ITE && h->a == l->a) return ite(h->a, concat(h->b, l->b), concat(h->d, l->d));
    if (isC(h) && l->op == O_ITE && isC(l->b) && isC(l->d)) return ite(l->a, concat(h, l->b), concat(h, l->d));
    return mk(O_CONCAT, w, 0, h, l);
  }
  // ---- evaluation under a total byte assignment
  u128 eval(Expr *e, const u8 *model, size_t n) { epoch++; return ev(e, model, n); }
  u128 ev(Expr *e, const u8 *m, size_t n) {
    if (e->op == O_CONST) return e->c;
    if (e->op == O_VAR) return (size_t)e->c < n ? m[(size_t)e->c] : 0;
    if (e->epoch == epoch) return e->val;
    u128 r = 0;
    switch (e->op) {
    case O_EQ: r = ev(e->a, m, n) == ev(e->b, m, n); break;
    case O_ULT: r = ev(e->a, m, n) < ev(e->b, m, n); break;
    case O_SLT: r = sx(ev(e->a, m, n), e->a->w) < sx(ev(e->b, m, n), e->b->w); break;
    case O_ITE: r = ev(e->a, m, n) ? ev(e->b, m, n) : ev(e->d, m, n); break;
    case O_ZEXT: r = ev(e->a, m, n); break;
    case O_SEXT: r = (u128)sx(ev(e->a, m, n), e->a->w) & maskw(e->w); break;
    case O_EXTRACT: r = (ev(e->a, m, n) >> (unsigned)e->c) & maskw(e->w); break;
    case O_CONCAT: r = (ev(e->a, m, n) << e->b->w) | ev(e->b, m, n); break;
    default: r = fold(e->op, e->w, ev(e->a, m, n), ev(e->b, m, n)); break;
    }
    e->epoch = epoch; e->val = r;
    return r;
  }
};
