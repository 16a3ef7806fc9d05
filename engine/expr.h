// Hash-consed bit-vector expressions with interval analysis (one pool per worker thread).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <cassert>
#include <z3.h>

namespace bsx {
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_ZEXT, E_SEXT, E_EXTRACT /*imm=lo bit*/, E_CONCAT /*a=high b=low*/,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE,
  E_I2D /* double holding exactly the signed 64-bit integer a */
};

struct Expr {
  Op op; uint8_t w; bool uninit; // depends on uninitialised memory
  u64 um; // bits that may be undefined
  uint32_t id;
  const Expr *a, *b, *c;
  u64 imm;          // const value / extract lo / var index
  u64 umin, umax;   // unsigned bounds
  i64 smin, smax;   // signed bounds
  // z3 cache: value represented in zw bits, zsigned tells the extension
  mutable Z3_ast z; mutable uint8_t zw; mutable bool zsigned;
  mutable Z3_ast zb; // boolean form
  mutable u64 ev; mutable uint32_t evgen; // evaluation cache
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }
static inline i64 sminw(unsigned w) { return w >= 64 ? INT64_MIN : -(i64)(1ull << (w - 1)); }
static inline i64 smaxw(unsigned w) { return w >= 64 ? INT64_MAX : (i64)((1ull << (w - 1)) - 1); }

struct VarInfo { std::string name; i64 lo, hi; unsigned w; bool uninit; };

struct Pool {
  std::vector<Expr*> blocks; size_t used = 0; static const size_t BS = 4096;
  std::vector<Expr*> table; size_t tcount = 0;
  uint32_t nextid = 1;
  std::unordered_map<std::string, const Expr*> vars;
  std::vector<VarInfo*> varinfo;
  Pool() { table.assign(1 << 16, nullptr); }
  ~Pool() { for (auto b : blocks) ::free(b); for (auto v : varinfo) delete v; }
  size_t size() const { return nextid; }
  Expr* alloc() {
    if (blocks.empty() || used == BS) { blocks.push_back((Expr*)calloc(BS, sizeof(Expr))); used = 0; }
    return &blocks.back()[used++];
  }
  static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
  static u64 hash(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, u64 imm) {
    u64 h = op * 131 + w; h = hmix(h, (u64)(a ? a->id : 0)); h = hmix(h, (u64)(b ? b->id : 0)); h = hmix(h, (u64)(c ? c->id : 0)); h = hmix(h, imm);
    return h ^ (h >> 29);
  }
  void grow() {
    std::vector<Expr*> old; old.swap(table); table.assign(old.size() * 2, nullptr);
    for (auto e : old) if (e) { u64 h = hash(e->op, e->w, e->a, e->b, e->c, e->imm); size_t i = h & (table.size() - 1); while (table[i]) i = (i + 1) & (table.size() - 1); table[i] = e; }
  }
  const Expr* mk(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, u64 imm) {
    u64 h = hash(op, w, a, b, c, imm); size_t i = h & (table.size() - 1);
    while (table[i]) { Expr* e = table[i]; if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->imm == imm) return e; i = (i + 1) & (table.size() - 1); }
    Expr* e = alloc(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->imm = imm; e->id = nextid++;
    e->um = ((a && a->uninit) || (b && b->uninit) || (c && c->uninit)) ? undef(op, w, a, b, c, imm) : 0; e->uninit = e->um != 0;
    bounds(e);
    table[i] = e; if (++tcount * 2 > table.size()) grow();
    return e;
  }
  static u64 undef(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, u64 imm) {
    u64 M = maskw(w);
    switch (op) {
    case E_AND: return ((a->um | b->um) & ~(b->op == E_CONST ? ~b->imm : 0) & ~(a->op == E_CONST ? ~a->imm : 0)) & M;
    case E_OR: return ((a->um | b->um) & ~(b->op == E_CONST ? b->imm : 0) & ~(a->op == E_CONST ? a->imm : 0)) & M;
    case E_XOR: return (a->um | b->um) & M;
    case E_SHL: if (b->op == E_CONST && b->imm < w) return (a->um << b->imm) & M; return M;
    case E_LSHR: if (b->op == E_CONST && b->imm < w) return (a->um & maskw(a->w)) >> b->imm; return M;
    case E_ZEXT: return a->um;
    case E_EXTRACT: return (a->um >> imm) & M;
    case E_CONCAT: return ((a->um << b->w) | b->um) & M;
    case E_ITE: if (a->um) return M; return (b->um | c->um) & M;
    default: return M;
    }
  }
  void setfull(Expr* e) { e->umin = 0; e->umax = maskw(e->w); e->smin = sminw(e->w); e->smax = smaxw(e->w); }
  // given exact mathematical interval (as i128) of the un-wrapped result in either interpretation, refine
  static void fromU(Expr* e, u64 lo, u64 hi) { // unsigned interval known
    if (lo > e->umin) e->umin = lo; if (hi < e->umax) e->umax = hi;
    cross(e);
  }
  static void fromS(Expr* e, i64 lo, i64 hi) { if (lo > e->smin) e->smin = lo; if (hi < e->smax) e->smax = hi; cross(e); }
  static void cross(Expr* e) {
    unsigned w = e->w; u64 half = w >= 64 ? (1ull << 63) : (1ull << (w - 1));
    if (e->umax < half) { if (e->smin < (i64)e->umin) e->smin = (i64)e->umin; if (e->smax > (i64)e->umax) e->smax = (i64)e->umax; }
    else if (e->umin >= half) { i64 l = sx(e->umin, w), h = sx(e->umax, w); if (e->smin < l) e->smin = l; if (e->smax > h) e->smax = h; }
    if (e->smin >= 0) { if (e->umin < (u64)e->smin) e->umin = (u64)e->smin; if (e->umax > (u64)e->smax) e->umax = (u64)e->smax; }
    else if (e->smax < 0) { u64 l = (u64)e->smin & maskw(w), h = (u64)e->smax & maskw(w); if (e->umin < l) e->umin = l; if (e->umax > h) e->umax = h; }
  }
  void bounds(Expr* e) {
    setfull(e); const Expr *a = e->a, *b = e->b; unsigned w = e->w;
    switch (e->op) {
    case E_CONST: e->umin = e->umax = e->imm; e->smin = e->smax = sx(e->imm, w); break;
    case E_ADD: { u128 lo = (u128)a->umin + b->umin, hi = (u128)a->umax + b->umax; if (hi <= maskw(w)) fromU(e, (u64)lo, (u64)hi);
      i128 l = (i128)a->smin + b->smin, h = (i128)a->smax + b->smax; if (l >= sminw(w) && h <= smaxw(w)) fromS(e, (i64)l, (i64)h); break; }
    case E_SUB: { if (a->umin >= b->umax) fromU(e, a->umin - b->umax, a->umax - b->umin);
      i128 l = (i128)a->smin - b->smax, h = (i128)a->smax - b->smin; if (l >= sminw(w) && h <= smaxw(w)) fromS(e, (i64)l, (i64)h); break; }
    case E_MUL: { u128 hi = (u128)a->umax * b->umax; if (hi <= maskw(w)) fromU(e, a->umin * b->umin, (u64)hi);
      i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
      i128 l = p[0], h = p[0]; for (auto x : p) { if (x < l) l = x; if (x > h) h = x; }
      if (l >= sminw(w) && h <= smaxw(w)) fromS(e, (i64)l, (i64)h); break; }
    case E_UDIV: if (b->umin > 0) fromU(e, a->umin / b->umax, a->umax / b->umin); break;
    case E_UREM: if (b->umin > 0) { u64 h = b->umax - 1; if (a->umax < h) h = a->umax; fromU(e, 0, h); } break;
    case E_SDIV: if (b->smin > 0) { i64 l = a->smin < 0 ? a->smin / b->smin : a->smin / b->smax; i64 h = a->smax < 0 ? a->smax / b->smax : a->smax / b->smin; fromS(e, l, h); } break;
    case E_SREM: if (b->smin > 0) { i64 m = b->smax - 1; i64 l = a->smin >= 0 ? 0 : (a->smin < -m ? -m : a->smin); i64 h = a->smax <= 0 ? 0 : (a->smax < m ? a->smax : m); fromS(e, l, h); } break;
    case E_AND: fromU(e, 0, a->umax < b->umax ? a->umax : b->umax); break;
    case E_OR: case E_XOR: { u64 m = a->umax | b->umax; unsigned k = 0; while (k < 64 && (m >> k)) k++; fromU(e, e->op == E_OR ? (a->umin > b->umin ? a->umin : b->umin) : 0, maskw(k) & maskw(w));
      if (e->op == E_XOR && a->smin >= -1 && a->smax <= 0 && b->op == E_CONST) { /* sign masks */ } break; }
    case E_SHL: if (b->op == E_CONST && b->imm < w) { u128 h = (u128)a->umax << b->imm; if (h <= maskw(w)) fromU(e, a->umin << b->imm, (u64)h);
        i128 l = (i128)a->smin * ((i128)1 << b->imm), hh = (i128)a->smax * ((i128)1 << b->imm); if (l >= sminw(w) && hh <= smaxw(w)) fromS(e, (i64)l, (i64)hh); } break;
    case E_LSHR: if (b->op == E_CONST && b->imm < w) fromU(e, a->umin >> b->imm, a->umax >> b->imm); else fromU(e, 0, a->umax); break;
    case E_ASHR: if (b->op == E_CONST && b->imm < w) fromS(e, a->smin >> b->imm, a->smax >> b->imm); break;
    case E_ZEXT: fromU(e, a->umin, a->umax); break;
    case E_SEXT: fromS(e, a->smin, a->smax); break;
    case E_EXTRACT: if (e->imm == 0) { if (a->umax <= maskw(w)) fromU(e, a->umin, a->umax); if (a->smin >= sminw(w) && a->smax <= smaxw(w)) fromS(e, a->smin, a->smax); }
      else { u64 l = a->umin >> e->imm, h = a->umax >> e->imm; if (h <= maskw(w)) fromU(e, l, h); } break;
    case E_CONCAT: fromU(e, (a->umin << b->w) | b->umin, (a->umax << b->w) | b->umax); break;
    case E_ITE: fromU(e, b->umin < e->c->umin ? b->umin : e->c->umin, b->umax > e->c->umax ? b->umax : e->c->umax);
      fromS(e, b->smin < e->c->smin ? b->smin : e->c->smin, b->smax > e->c->smax ? b->smax : e->c->smax); break;
    default: break;
    }
  }
  const Expr* cst(u64 v, unsigned w) { return mk(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  const Expr* var(unsigned index, const std::string& name, i64 lo, i64 hi, unsigned w, bool uninit = false) {
    std::string key = std::to_string(index) + "!" + name + "!" + std::to_string(lo) + "!" + std::to_string(hi) + "!" + std::to_string(w);
    auto it = vars.find(key); if (it != vars.end()) return it->second;
    VarInfo* vi = new VarInfo{name, lo, hi, w, uninit}; varinfo.push_back(vi);
    Expr* e = alloc(); e->op = E_VAR; e->w = w; e->a = e->b = e->c = nullptr; e->imm = index; e->id = nextid++; e->uninit = uninit; e->um = uninit ? maskw(w) : 0;
    setfull(e); fromS(e, lo, hi);
    e->z = nullptr; e->zb = nullptr;
    // stash index of varinfo in ev until used
    e->evgen = 0; vidx[e] = varinfo.size() - 1;
    vars[key] = e; return e;
  }
  std::unordered_map<const Expr*, size_t> vidx;
  const VarInfo& info(const Expr* e) { return *varinfo[vidx[e]]; }

  static bool isc(const Expr* e) { return e->op == E_CONST; }
  static u64 cbin(Op op, u64 a, u64 b, unsigned w, bool& ok) {
    u64 m = maskw(w); ok = true;
    switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: if (!b) { ok = false; return 0; } return a / b;
    case E_UREM: if (!b) { ok = false; return 0; } return a % b;
    case E_SDIV: if (!b || (sx(b, w) == -1 && sx(a, w) == sminw(w))) { ok = false; return 0; } return (u64)(sx(a, w) / sx(b, w)) & m;
    case E_SREM: if (!b) { ok = false; return 0; } if (sx(b, w) == -1) return 0; return (u64)(sx(a, w) % sx(b, w)) & m;
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
    default: ok = false; return 0;
    }
  }
  const Expr* tru() { return cst(1, 1); }
  const Expr* fls() { return cst(0, 1); }
  const Expr* lnot(const Expr* a) {
    if (isc(a)) return cst(!a->imm, 1);
    switch (a->op) {
    case E_ULT: return cmp(E_ULE, a->b, a->a);
    case E_ULE: return cmp(E_ULT, a->b, a->a);
    case E_SLT: return cmp(E_SLE, a->b, a->a);
    case E_SLE: return cmp(E_SLT, a->b, a->a);
    case E_XOR: if (isc(a->b) && a->b->imm == 1) return a->a; break;
    default: break;
    }
    return mk(E_XOR, 1, a, cst(1, 1), nullptr, 0);
  }
  const Expr* bin(Op op, const Expr* a, const Expr* b) {
    unsigned w = a->w;
    if (isc(a) && isc(b)) { bool ok; u64 v = cbin(op, a->imm, b->imm, w, ok); if (ok) return cst(v, w); }
    switch (op) {
    case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR:
      if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); break;
    default: break;
    }
    switch (op) {
    case E_ADD:
      if (isc(b)) { if (!b->imm) return a; if (a->op == E_ADD && isc(a->b)) return bin(E_ADD, a->a, cst(a->b->imm + b->imm, w)); }
      if (a->op==E_SUB && a->b==b) return a->a;
      if (b->op==E_SUB && b->b==a) return b->a;
      break;
    case E_SUB:
      if (isc(b)) return b->imm ? bin(E_ADD, a, cst(-b->imm, w)) : a;
      if (a == b) return cst(0, w);
      if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      break;
    case E_MUL: if (isc(b)) { if (!b->imm) return b; if (b->imm == 1) return a; } break;
    case E_UDIV: if (isc(b)) { if (b->imm == 1) return a; if (a->umax < b->imm) return cst(0, w);
        if (a->op == E_MUL && isc(a->b) && a->b->imm == b->imm && (u128)a->a->umax * b->imm <= maskw(w)) return a->a; } break;
    case E_SDIV: if (a->smin >= 0 && b->smin >= 0) return bin(E_UDIV, a, b); 
      if (isc(b)) { if (b->imm==1) return a;
        if (a->op == E_MUL && isc(a->b) && a->b->imm == b->imm && b->smin>0) { i128 l=(i128)a->a->smin*b->smin,h=(i128)a->a->smax*b->smin; if (l>=sminw(w)&&h<=smaxw(w)) return a->a; } 
        if (a->op == E_SHL && isc(a->b) && a->b->imm<63 && b->imm==(1ull<<a->b->imm) && b->smin>0) { i128 l=(i128)a->a->smin*b->smin,h=(i128)a->a->smax*b->smin; if (l>=sminw(w)&&h<=smaxw(w)) return a->a; } }
      break;
    case E_SREM: if (a->smin >= 0 && b->smin >= 0) return bin(E_UREM, a, b); break;
    case E_UREM:
      if (a->umax < b->umin) return a;
      if (isc(b)) {
        u64 P = b->imm; if (P == 1) return cst(0, w);
        if ((P & (P - 1)) == 0) return bin(E_AND, a, cst(P - 1, w));
        // (x + kP) mod P, no wrap -> x mod P
        if (a->op == E_ADD && isc(a->b) && a->b->imm % P == 0 && (u128)a->a->umax + a->b->imm <= maskw(w)) return bin(E_UREM, a->a, b);
        if (a->op == E_UREM && a->b == b) return a;
        // (x%P * y) , (x%P + y) with no wrap
        if ((a->op == E_ADD || a->op == E_MUL)) {
          u128 h = a->op == E_ADD ? (u128)a->a->umax + a->b->umax : (u128)a->a->umax * a->b->umax;
          if (h <= maskw(w)) {
            const Expr *x = a->a, *y = a->b; bool ch = false;
            if (x->op == E_UREM && x->b == b) { u128 h2 = a->op == E_ADD ? (u128)x->a->umax + y->umax : (u128)x->a->umax * y->umax; if (h2 <= maskw(w) && h2 < 4096) { x = x->a; ch = true; } }
            if (y->op == E_UREM && y->b == b) { u128 h2 = a->op == E_ADD ? (u128)x->umax + y->a->umax : (u128)x->umax * y->a->umax; if (h2 <= maskw(w) && h2 < 4096) { y = y->a; ch = true; } }
            if (ch) return bin(E_UREM, bin(a->op, x, y), b);
          }
        }
      }
      break;
    case E_AND:
      if (isc(b)) { if (!b->imm) return b; if (b->imm == maskw(w)) return a; 
        if ((b->imm & (b->imm + 1)) == 0 && a->umax <= b->imm) return a;
        // low mask: extract/zext
        if ((b->imm & (b->imm + 1)) == 0) { unsigned k = __builtin_popcountll(b->imm); return zext(extract(a, 0, k), w); }
      }
      if (isc(b) && a->op == E_AND && isc(a->b)) return bin(E_AND, a->a, cst(a->b->imm & b->imm, w));
      if (isc(b) && (b->imm & (b->imm - 1)) == 0 && w > 1) { unsigned k = __builtin_ctzll(b->imm); const Expr* x = extract(a, k, 1); if (isc(x)) return cst(x->imm << k, w); }
      if (a == b) return a; break;
    case E_OR: if (isc(b)) { if (!b->imm) return a; if (a->op == E_OR && isc(a->b)) return bin(E_OR, a->a, cst(a->b->imm | b->imm, w)); if (b->imm == maskw(w)) return b; } if (a == b) return a; break;
    case E_XOR: if (isc(b)) { if (!b->imm) return a; if (w == 1) return lnot(a); if (a->op == E_XOR && isc(a->b)) return bin(E_XOR, a->a, cst(a->b->imm ^ b->imm, w)); } if (a == b) return cst(0, w); break;
    case E_SHL: if (isc(b)) { if (!b->imm) return a; if (b->imm >= w) return cst(0, w); } break;
    case E_LSHR: if (isc(b)) { if (!b->imm) return a; if (b->imm >= w) return cst(0, w); if (a->op == E_SHL && a->b == b && ((u128)a->a->umax << b->imm) <= maskw(w)) return a->a; } break;
    case E_ASHR: if (isc(b)) { if (!b->imm) return a; if (a->smin >= 0) return bin(E_LSHR, a, b); 
        if (a->op == E_SHL && a->b == b) { i128 l=(i128)a->a->smin<<b->imm,h=(i128)a->a->smax<<b->imm; if (l>=sminw(w)&&h<=smaxw(w)) return a->a; } } break;
    default: break;
    }
    return mk(op, w, a, b, nullptr, 0);
  }
  const Expr* zext(const Expr* a, unsigned w) {
    if (a->w == w) return a; if (isc(a)) return cst(a->imm, w);
    if (a->op == E_ZEXT) a = a->a;
    if (a->op == E_EXTRACT && a->imm == 0 && a->a->w == w && a->a->umax <= maskw(a->w)) return a->a;
    return mk(E_ZEXT, w, a, nullptr, nullptr, 0);
  }
  const Expr* sext(const Expr* a, unsigned w) {
    if (a->w == w) return a; if (isc(a)) return cst((u64)sx(a->imm, a->w), w);
    if (a->smin >= 0) return zext(a, w);
    if (a->op == E_SEXT) a = a->a;
    if (a->op == E_EXTRACT && a->imm == 0 && a->a->w == w && a->a->smin >= sminw(a->w) && a->a->smax <= smaxw(a->w)) return a->a;
    return mk(E_SEXT, w, a, nullptr, nullptr, 0);
  }
  const Expr* extract(const Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isc(a)) return cst(a->imm >> lo, w);
    if (a->op == E_EXTRACT) return extract(a->a, lo + a->imm, w);
    if (a->op == E_ZEXT || a->op == E_SEXT) {
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo == 0) return a->op == E_ZEXT ? zext(a->a, w) : sext(a->a, w);
      if (a->op == E_ZEXT) { if (lo >= a->a->w) return cst(0, w); return zext(extract(a->a, lo, a->a->w - lo), w); }
    }
    if (a->op == E_CONCAT) {
      if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
      if (lo + w <= a->b->w) return extract(a->b, lo, w);
    }
    if (a->umax <= maskw(lo) && lo) return cst(0, w);
    if (a->op == E_ITE && isc(a->b) && isc(a->c)) return ite(a->a, cst(a->b->imm >> lo, w), cst(a->c->imm >> lo, w));
    if (lo && (a->op == E_AND || a->op == E_OR || a->op == E_XOR)) { const Expr *x = extract(a->a, lo, w), *y = extract(a->b, lo, w); if (isc(x) || isc(y)) return bin(a->op, x, y); }
    if (lo == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL || a->op == E_AND || a->op == E_OR || a->op == E_XOR))
      return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    return mk(E_EXTRACT, w, a, nullptr, nullptr, lo);
  }
  const Expr* concat(const Expr* hi, const Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo)) return cst((hi->imm << lo->w) | lo->imm, w);
    if (isc(hi) && hi->imm == 0) return zext(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->w) return extract(hi->a, lo->imm, w);
    if (hi->op == E_EXTRACT && hi->a == lo && hi->imm == lo->w) return extract(lo, 0, w);
    return mk(E_CONCAT, w, hi, lo, nullptr, 0);
  }
  const Expr* cmp(Op op, const Expr* a, const Expr* b) {
    unsigned w = a->w;
    if (isc(a) && isc(b)) { bool ok; return cst(cbin(op, a->imm, b->imm, w, ok), 1); }
    switch (op) {
    case E_EQ:
      if (a == b) return tru();
      if (isc(a)) std::swap(a, b);
      if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return fls();
      if (w == 1 && isc(b)) return b->imm ? a : lnot(a);
      if (isc(b)) {
        if (a->op == E_ZEXT) return b->imm > maskw(a->a->w) ? fls() : cmp(E_EQ, a->a, cst(b->imm, a->a->w));
        if (a->op == E_SEXT) { u64 t = b->imm & maskw(a->a->w); return ((u64)sx(t, a->a->w) & maskw(w)) == b->imm ? cmp(E_EQ, a->a, cst(t, a->a->w)) : fls(); }
        if (a->op == E_ADD && isc(a->b)) return cmp(E_EQ, a->a, cst(b->imm - a->b->imm, w));
        if (a->op == E_SUB && b->imm == 0) return cmp(E_EQ, a->a, a->b);
        if (a->op == E_XOR && isc(a->b)) return cmp(E_EQ, a->a, cst(b->imm ^ a->b->imm, w));
        if (a->op == E_XOR && b->imm == 0) return cmp(E_EQ, a->a, a->b);
        if (a->op == E_ITE) {
          if (isc(a->b) && isc(a->c)) { bool x = a->b->imm == b->imm, y = a->c->imm == b->imm; if (x && y) return tru(); if (!x && !y) return fls(); return x ? a->a : lnot(a->a); }
        }
        if (a->op == E_MUL && isc(a->b) && b->imm == 0 && (u128)a->a->umax * a->b->imm <= maskw(w)) return cmp(E_EQ, a->a, cst(0, w));
        if (a->op == E_SHL && isc(a->b) && b->imm == 0 && ((u128)a->a->umax << a->b->imm) <= maskw(w)) return cmp(E_EQ, a->a, cst(0, w));
        if (a->op == E_OR && b->imm == 0) return bin(E_AND, cmp(E_EQ, a->a, b), cmp(E_EQ, a->b, b));
      } else if ((a->op == E_ZEXT && b->op == E_ZEXT) || (a->op == E_SEXT && b->op == E_SEXT)) {
        if (a->a->w == b->a->w) return cmp(E_EQ, a->a, b->a);
      }
      if (a->id > b->id && !isc(b)) std::swap(a, b);
      break;
    case E_ULT: if (a == b) return fls(); if (a->umax < b->umin) return tru(); if (a->umin >= b->umax) return fls();
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return cmp(op, a->a, b->a);
      if (isc(b) && b->imm == 1) return cmp(E_EQ, a, cst(0, w));
      break;
    case E_ULE: if (a == b) return tru(); if (a->umax <= b->umin) return tru(); if (a->umin > b->umax) return fls();
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return cmp(op, a->a, b->a);
      break;
    case E_SLT: if (a == b) return fls(); if (a->smax < b->smin) return tru(); if (a->smin >= b->smax) return fls();
      if (a->smin >= 0 && b->smin >= 0) return cmp(E_ULT, a, b);
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return cmp(op, a->a, b->a);
      break;
    case E_SLE: if (a == b) return tru(); if (a->smax <= b->smin) return tru(); if (a->smin > b->smax) return fls();
      if (a->smin >= 0 && b->smin >= 0) return cmp(E_ULE, a, b);
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return cmp(op, a->a, b->a);
      break;
    default: break;
    }
    return mk(op, 1, a, b, nullptr, 0);
  }
  const Expr* ite(const Expr* c, const Expr* t, const Expr* f) {
    if (isc(c)) return c->imm ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
      if (isc(t) && isc(f)) return t->imm ? c : lnot(c);
      if (isc(t)) return t->imm ? bin(E_OR, c, f) : bin(E_AND, lnot(c), f);
      if (isc(f)) return f->imm ? bin(E_OR, lnot(c), t) : bin(E_AND, c, t);
    }
    if (c->op == E_XOR && isc(c->b)) return ite(c->a, f, t);
    return mk(E_ITE, t->w, c, t, f, 0);
  }
};
} // namespace bsx
