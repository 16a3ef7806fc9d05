// part of struct Exec: main loop and builtins
std::vector<Val> retv;
void doReturn(const std::vector<Val>& rv, const DI* cs) { // value delivered to current top frame's call instruction cs
  Frame& f = fr.back(); if (cs->dst >= 0) for (size_t i = 0; i < rv.size() && i < cs->n; i++) R[f.rb + cs->dst + i] = rv[i];
  if (cs->x->isinvoke) edge(cs->x->e0, f); else f.pc++;
}
// call a function from native code and run it to completion
void callNested(DFunc* f, const std::vector<Val>& args) {
  push(f, args, nullptr, nullptr, true); size_t base = fr.size();
  run(base);
}
#define OPD(i) ((i) >= 0 ? r[i] : K[~(i)])
void run(size_t base) {
  const Val* K = P.K.data();
  while (true) {
    Frame& f = fr.back(); Val* r = &R[f.rb]; const DI& d = f.f->code[f.pc];
    if (++icount > ilimit) violate("nontermination", "instruction limit exceeded");
    if ((icount & 0xffff) == 0) tick();
    switch (d.op) {
    case D_BIN: if (d.n == 1) { r[d.dst] = binop((Op)d.sub, OPD(d.a), OPD(d.b), d.w); }
      else for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = binop((Op)d.sub, OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i), OPD(d.b >= 0 ? d.b + (int)i : d.b - (int)i), d.w);
      f.pc++; break;
    case D_ICMP: if (d.n == 1) { r[d.dst] = icmp(d.sub, OPD(d.a), OPD(d.b), d.w2); } else for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = icmp(d.sub, OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i), OPD(d.b >= 0 ? d.b + (int)i : d.b - (int)i), d.w2);
      f.pc++; break;
    case D_FBIN: for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = fbin(d.sub, OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i), OPD(d.b >= 0 ? d.b + (int)i : d.b - (int)i), d.w); f.pc++; break;
    case D_FNEG: { Val a = OPD(d.a); const Expr* ie; if (a.e && intOf(a, d.w, ie)) { r[d.dst] = i2d(pool.bin(E_SUB, pool.cst(0, 64), ie), -D(a, d.w)); } else { a = fconc(a); r[d.dst] = Val{dbits(-D(a, d.w), d.w), nullptr}; } f.pc++; break; }
    case D_FCMP: r[d.dst] = fcmp(d.sub, OPD(d.a), OPD(d.b), d.w2); f.pc++; break;
    case D_LOAD: { Val p = OPD(d.a);
      if (p.e && !d.x) { r[d.dst] = loadSym(p, d.w2, d.w); f.pc++; break; }
      u64 a = concretize(p); r = &R[fr.back().rb];
      if (!d.x) r[d.dst] = loadv(a, d.w2, d.w); else { unsigned i = 0; for (auto& fl : d.x->fields) r[d.dst + i++] = loadv(a + fl.off, fl.bytes, fl.bits); }
      f.pc++; break; }
    case D_STORE: { u64 a = concretize(OPD(d.a));
      if (!d.x) { Val v = OPD(d.b); storev(a, d.w2, v); } else { unsigned i = 0; for (auto& fl : d.x->fields) { storev(a + fl.off, fl.bytes, OPD(d.b >= 0 ? d.b + (int)i : d.b - (int)i)); i++; } }
      f.pc++; break; }
    case D_GEP: { Val b = OPD(d.a);
      if (!d.x) { if (!b.e) r[d.dst] = Val{b.c + d.imm, nullptr}; else r[d.dst] = d.imm ? mkv(b.c + d.imm, pool.bin(E_ADD, b.e, pool.cst(d.imm, 64))) : b; }
      else { u64 c = b.c + d.imm; bool symb = b.e; for (size_t i = 0; i < d.x->gep.size(); i++) { Val ix = OPD(d.x->gep[i].first); c += (u64)sx(ix.c, d.x->gepw[i]) * d.x->gep[i].second; if (ix.e) symb = true; }
        if (!symb) r[d.dst] = Val{c, nullptr};
        else { const Expr* e = pool.bin(E_ADD, E(b, 64), pool.cst(d.imm, 64)); for (size_t i = 0; i < d.x->gep.size(); i++) { Val ix = OPD(d.x->gep[i].first); const Expr* t = pool.sext(E(ix, d.x->gepw[i]), 64); e = pool.bin(E_ADD, e, pool.bin(E_MUL, t, pool.cst(d.x->gep[i].second, 64))); } r[d.dst] = mkv(c, e); } }
      f.pc++; break; }
    case D_CAST: if (d.n == 1) r[d.dst] = cast(d.sub, OPD(d.a), d.w, d.w2); else for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = cast(d.sub, OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i), d.w, d.w2);
      f.pc++; break;
    case D_SELECT: { 
      for (unsigned i = 0; i < d.n; i++) { Val c = OPD(d.sub ? (d.a >= 0 ? d.a + (int)i : d.a - (int)i) : d.a), t = OPD(d.b >= 0 ? d.b + (int)i : d.b - (int)i), e = OPD(d.c >= 0 ? d.c + (int)i : d.c - (int)i);
        if (!c.e) r[d.dst + i] = (c.c & 1) ? t : e;
        else if (d.w2 && (t.e || e.e || t.c != e.c)) { const Expr *x, *y; if (intOf(t, 64, x) && intOf(e, 64, y)) { double dv = D((c.c & 1) ? t : e, 64); r[d.dst + i] = i2d(pool.ite(c.e, x, y), dv); } else { bool k = decide(c.e, c.c & 1); r[d.dst + i] = k ? t : e; } }
        else if (!t.e && !e.e && t.c == e.c) r[d.dst + i] = t;
        else { Val x = (c.c & 1) ? t : e; if (c.e->uninit) { bool k = decide(c.e, c.c & 1); r[d.dst + i] = k ? t : e; } else if ((t.e && t.e->op == E_I2D) || (e.e && e.e->op == E_I2D)) { bool k = decide(c.e, c.c & 1); r[d.dst + i] = k ? t : e; } else r[d.dst + i] = mkv(x.c, pool.ite(c.e, E(t, d.w), E(e, d.w))); } }
      f.pc++; break; }
    case D_FREEZE: for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i); f.pc++; break;
    case D_ALLOCA: { u64 n = d.imm * concretize(OPD(d.a)); r[d.dst] = Val{salloc(n, d.w2), nullptr}; f.pc++; break; }
    case D_EXTRACTV: for (unsigned i = 0; i < d.n; i++) { int s = d.a >= 0 ? d.a + (int)d.imm + (int)i : d.a - (int)d.imm - (int)i; r[d.dst + i] = OPD(s); } f.pc++; break;
    case D_INSERTV: for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i); for (int i = 0; i < d.c; i++) r[d.dst + d.imm + i] = OPD(d.b >= 0 ? d.b + i : d.b - i); f.pc++; break;
    case D_EXTRACTEL: { int s = d.a >= 0 ? d.a + (int)d.imm : d.a - (int)d.imm; r[d.dst] = OPD(s); f.pc++; break; }
    case D_INSERTEL: for (unsigned i = 0; i < d.n; i++) r[d.dst + i] = OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i); r[d.dst + d.imm] = OPD(d.b); f.pc++; break;
    case D_SHUFFLE: for (unsigned i = 0; i < d.n; i++) { int m = d.x->shuffle[i]; Val v{0, nullptr}; if (m >= 0) { if ((u64)m < d.imm) v = OPD(d.a >= 0 ? d.a + m : d.a - m); else { m -= d.imm; v = OPD(d.b >= 0 ? d.b + m : d.b - m); } } r[d.dst + i] = v; } f.pc++; break;
    case D_BR: edge(d.x->e0, f); break;
    case D_CONDBR: { Val c = OPD(d.a); bool k = c.c & 1; if (c.e) { if (!f.f->symexec) f.f->symexec = 1; k = decide(c.e, k); } edge(k ? d.x->e0 : d.x->e1, f); break; }
    case D_SWITCH: { Val v = OPD(d.a); const Edge* e = &d.x->e0; 
      if (v.e) { f.f->symexec = 1; const Expr* none = nullptr; bool hit = false; for (auto& c : d.x->cases) if (c.first == v.c) { hit = true; e = &c.second; }
        if (v.e->uninit) violate("uninit", "switch depends on uninitialised memory");
        if (hit) concretize(v); else { none = pool.tru(); for (auto& c : d.x->cases) none = pool.bin(E_AND, none, pool.lnot(pool.cmp(E_EQ, v.e, pool.cst(c.first, v.e->w)))); // decide default as one event
          if (none->op != E_CONST) decide(none, true); } }
      else for (auto& c : d.x->cases) if (c.first == v.c) { e = &c.second; break; }
      edge(*e, f); break; }
    case D_RET: { retv.clear(); for (unsigned i = 0; i < d.n; i++) retv.push_back(OPD(d.a >= 0 ? d.a + (int)i : d.a - (int)i)); const DI* cs = f.callsite; bool done = fr.size() == base; popFrame(); if (done) return; doReturn(retv, cs); break; }
    case D_UNREACHABLE: violate("unreachable", "undefined behaviour: reached unreachable code"); break;
    case D_LANDINGPAD: { u64 sel = 0; bool hit = false; for (auto& c : d.x->lp) { if (c.first) { if (typeMatch(exc_type, c.second[0])) { sel = typeSel(c.second[0]); hit = true; break; } } else { bool any = false; for (u64 t : c.second) if (typeMatch(exc_type, t)) any = true; if (!any) { sel = (u64)-1 & 0xffffffff; hit = true; break; } } }
      if (!hit && !d.x->cleanup) { u64 o = exc_cur, t = exc_type; unwind(o, t, base - 1); break; }
      r[d.dst] = Val{exc_cur, nullptr}; r[d.dst + 1] = Val{sel, nullptr}; f.pc++; break; }
    case D_RESUME: { u64 o = OPD(d.a).c; unwind(o, excTypes[o], base - 1); break; }
    case D_ATOMICRMW: { u64 a = concretize(OPD(d.a)); bool oc = inCrit; inCrit = true; Val o = loadv(a, d.w2, d.w), v = OPD(d.b), n = v; switch (d.sub) { case AtomicRMWInst::Add: n = binop(E_ADD, o, v, d.w); break; case AtomicRMWInst::Sub: n = binop(E_SUB, o, v, d.w); break; case AtomicRMWInst::And: n = binop(E_AND, o, v, d.w); break; case AtomicRMWInst::Or: n = binop(E_OR, o, v, d.w); break; case AtomicRMWInst::Xchg: break; default: unsupported("atomicrmw"); } storev(a, d.w2, n); inCrit = oc; r[d.dst] = o; f.pc++; break; }
    case D_CMPXCHG: { u64 a = concretize(OPD(d.a)); bool oc = inCrit; inCrit = true; Val o = loadv(a, d.w2, d.w); Val q = icmp(CmpInst::ICMP_EQ, o, OPD(d.b), d.w); bool k = q.c & 1; if (q.e) k = decide(q.e, k); if (k) storev(a, d.w2, OPD(d.c)); inCrit = oc; r[d.dst] = o; r[d.dst + 1] = Val{k, nullptr}; f.pc++; break; }
    case D_NOP: f.pc++; break;
    case D_UNSUPPORTED: unsupported(d.x->name);
    case D_CALL: {
      Extra* x = d.x; DFunc* callee = x->callee; int bi = x->builtin;
      if (x->indirect) { u64 a = concretize(OPD(x->fptr)); u64 k = (a - Program::FBASE) / 16; if (a < Program::FBASE || k < 1 || k > P.funcs.size() || (a & 15)) { badAccess(a < 4096 ? a : HEAPMAX, 1, "indirect call"); } callee = P.funcs[k - 1]; bi = callee->builtin; }
      if (bi < 0 && !callee->isdecl) {
        if (fr.size() > 3000) violate("nontermination", "call depth exceeds 3000");
        unsigned rb = rtop; if (rb + callee->nregs + 16 > R.size()) { R.resize(R.size() * 2 + callee->nregs); }
        Val* rr = &R[f.rb]; unsigned o = rb; r = rr;
        for (size_t i = 0; i < x->args.size(); i++) {
          if (x->byvalsz[i]) { u64 src = OPD(x->args[i]).c; u64 dst = salloc(x->byvalsz[i], 16); copymem(dst, src, x->byvalsz[i]); if (o < rb + callee->nargs) R[o++] = Val{dst, nullptr}; continue; }
          for (unsigned k = 0; k < x->argslots[i]; k++) { int s = x->args[i]; if (o < rb + callee->nargs) R[o++] = OPD(s >= 0 ? s + (int)k : s - (int)k); } }
        rtop += callee->nregs; callee->executed = 1;
        fr.push_back(Frame{callee, 0, rb, sp, &d, x, false});
        break;
      }
      std::vector<Val>& args = argbuf; args.clear(); for (size_t i = 0; i < x->args.size(); i++) for (unsigned k = 0; k < x->argslots[i]; k++) { int s = x->args[i]; args.push_back(OPD(s >= 0 ? s + (int)k : s - (int)k)); }
      size_t depth = fr.size();
      if (bi < 0) { unsupported("external function " + callee->name); }
      brv.clear(); bool handled = builtin(bi, callee->name, args, d, base);
      if (handled && fr.size() == depth) doReturn(brv, &d);
      break; }
    default: unsupported("bad opcode");
    }
  }
}
std::vector<Val> argbuf, brv;
// load through a symbolic pointer: an if-then-else of concrete pointers is read on each leaf, otherwise the address is enumerated
Val loadSym(Val p, unsigned n, unsigned w) {
  std::vector<std::pair<const Expr*, u64>> leaves;
  if (ompLevel == 0 && !p.e->uninit && w >= 8) { const Expr* e = p.e; const Expr* conds[8]; u64 addrs[8]; int k = 0; bool ok = true; 
    while (e->op == E_ITE && k < 7) { if (e->b->op == E_CONST) { conds[k] = e->a; addrs[k++] = e->b->imm; e = e->c; } else if (e->c->op == E_CONST) { conds[k] = pool.lnot(e->a); addrs[k++] = e->c->imm; e = e->b; } else { ok = false; break; } }
    if (ok && e->op == E_CONST && k) {
      bool i2 = false; std::vector<Val> vs; bool good = true; auto okaddr = [&](u64 a) { if (a < Program::GBASE || a + n > HEAPMAX) return false; for (unsigned i = 0; i < n; i++) { uint8_t s = st[a + i]; if (s == 0 || s == 4 || s == 1) return false; } return true; };
      for (int i = 0; i < k; i++) good = good && okaddr(addrs[i]); good = good && okaddr(e->imm);
      if (good) { for (int i = 0; i < k; i++) vs.push_back(loadv(addrs[i], n, w)); Val last = loadv(e->imm, n, w); for (auto& v : vs) if (v.e && v.e->op == E_I2D) i2 = true; if (last.e && last.e->op == E_I2D) i2 = true;
        u64 c = 0; bool found = false; for (int i = 0; i < k; i++) if (p.c == addrs[i]) { c = vs[i].c; found = true; break; } if (!found) c = last.c;
        if (i2) { bool allint = w == 64; std::vector<const Expr*> ies; const Expr* le; if (!intOf(last, 64, le)) allint = false; for (auto& v : vs) { const Expr* t; if (!intOf(v, 64, t)) allint = false; else ies.push_back(t); } 
          if (allint) { const Expr* r = le; for (int i = k - 1; i >= 0; i--) r = pool.ite(conds[i], ies[i], r); double dv; memcpy(&dv, &c, 8); return i2d(r, dv); } }
        else { const Expr* r = E(last, w); for (int i = k - 1; i >= 0; i--) r = pool.ite(conds[i], E(vs[i], w), r); return mkv(c, r); } } } }
  u64 a = concretize(p); return loadv(a, n, w);
}
double clockd = 0;
bool builtin(int bi, const std::string& name, std::vector<Val>& a, const DI& d, size_t base) {
  auto ret = [&](Val v) { brv.push_back(v); };
  auto reti = [&](u64 v) { brv.push_back(Val{v, nullptr}); };
  switch (bi) {
  case B_NOP: for (unsigned i = 0; i < d.n; i++) reti(0); return true;
  case B_POP: return true;
  case B_RET0: reti(0); return true;
  case B_RET1: reti(1); return true;
  case B_RANGE: { std::string nm = cstr(a[0].c); i64 lo = (i64)concretize(a[1]), hi = (i64)concretize(a[2]); if (lo > hi) unsupported("empty range"); 
      if (lo == hi) { reti((u64)lo); return true; }
      size_t i = vars.size(); const Expr* e = pool.var(i, nm, lo, hi, 64); vars.push_back(e); varnames.push_back(nm); if (i >= model.size()) model.resize(i + 1, (u64)lo); 
      if ((i64)model[i] < lo || (i64)model[i] > hi) model[i] = (u64)lo;
      pc.push_back(e); ret(Val{model[i], e}); return true; }
  case B_ASSUME: { Val v = a[0]; if (d.w2 != 1 && v.e) { v = icmp(CmpInst::ICMP_NE, v, Val{0, nullptr}, v.e->w); } else if (d.w2 != 1) v.c = v.c != 0; assume(v); return true; }
  case B_ASSERT: { Val v = a[0]; if (v.e && v.e->w != 1) v = icmp(CmpInst::ICMP_NE, v, Val{0, nullptr}, v.e->w); else if (!v.e) v.c = v.c != 0; assertv(v, cstr(a[1].c)); return true; }
  case B_FAIL: violate("assert", cstr(a[0].c));
  case B_OBSERVE: obs.push_back(a[0].c); return true;
  case B_REACH: les.reach[cstr(a[0].c)]++; return true;
  case B_CONC: { u64 v = concretize(a[0]); reti(v); return true; }
  case B_KNOWN: { std::string id = cstr(a[0].c); Val v = a[1]; if (v.e && v.e->w != 1) v = icmp(CmpInst::ICMP_NE, v, Val{0, nullptr}, v.e->w); else if (!v.e) v.c = v.c != 0; bool k = v.c & 1; if (v.e) k = decide(v.e, k); curKnown = k ? id : std::string(); return true; }
  case B_ISSYM: reti(1); return true;
  case B_MALLOC: case B_NEW: { u64 n = concretize(a[0]); if (n > 0x10000000 && bi == B_NEW) { if (n > 0x7fffffffffffffffull || n > 0x1000000000ull) { throwStd("_ZTISt9bad_alloc", base, &d); return false; } } reti(halloc(n)); return true; }
  case B_NEWALIGN: { u64 n = concretize(a[0]); reti(halloc(n, a[1].c)); return true; }
  case B_ALIGNED_ALLOC: { u64 n = concretize(a[1]); reti(halloc(n, a[0].c)); return true; }
  case B_CALLOC: { u64 n = concretize(a[0]) * concretize(a[1]); u64 p = halloc(n); memset(mem + p, 0, n); memset(st + p, 2, n); reti(p); return true; }
  case B_REALLOC: { u64 n = concretize(a[1]); u64 o = a[0].c; u64 p = halloc(n); if (o) { auto it = allocs.find(o); if (it == allocs.end()) violate("memory", "invalid realloc"); copymem(p, o, std::min(n, it->second)); hfree(o); } reti(p); return true; }
  case B_FREE: case B_DELETE: hfree(concretize(a[0])); return true;
  case B_MEMCPY: { u64 n = concretize(a[2]); u64 dd = concretize(a[0]), s = concretize(a[1]); copymem(dd, s, n); if (d.n) reti(dd); return true; }
  case B_MEMSET: { u64 n = concretize(a[2]); u64 dd = concretize(a[0]); if (!n) { if (d.n) reti(dd); return true; } if (n > (1u << 28)) violate("memory", "huge memset"); chk(dd, n, "write"); if (ompLevel) race(dd, n, true); memset(mem + dd, (int)(a[1].c & 255), n);
      if (a[1].e) { const Expr* e = pool.extract(a[1].e, 0, 8); for (u64 i = 0; i < n; i++) { symPut(dd + i, e, 0); st[dd + i] = 3; } } else memset(st + dd, 2, n); if (d.n) reti(dd); return true; }
  case B_BCMP: { u64 n = concretize(a[2]), x = concretize(a[0]), y = concretize(a[1]); const Expr* eq = pool.tru(); u64 c = 1; if (n) { chk(x, n, "read"); chk(y, n, "read"); }
      for (u64 i = 0; i < n;) { unsigned k = (n - i) >= 8 ? 8 : (n - i) >= 4 ? 4 : 1; Val p = loadv(x + i, k, 8 * k), q = loadv(y + i, k, 8 * k); Val t = p.e && p.e->op == E_I2D ? fcmpbits(p, q) : q.e && q.e->op == E_I2D ? fcmpbits(p, q) : icmp(CmpInst::ICMP_EQ, p, q, 8 * k); c &= t.c & 1; eq = pool.bin(E_AND, eq, E(t, 1)); i += k; }
      u64 rc = !c; ret(mkv(rc, pool.zext(pool.lnot(eq), 32))); return true; }
  case B_MEMCMP: { u64 n = concretize(a[2]), x = concretize(a[0]), y = concretize(a[1]); if (n) { chk(x, n, "read"); chk(y, n, "read"); }
      const Expr* res = pool.cst(0, 32); u64 c = 0; std::vector<Val> ps, qs; for (u64 i = 0; i < n; i++) { ps.push_back(loadv(x + i, 1, 8)); qs.push_back(loadv(y + i, 1, 8)); }
      for (u64 i = n; i-- > 0;) { Val p = ps[i], q = qs[i]; Val lt = icmp(CmpInst::ICMP_ULT, p, q, 8), ne = icmp(CmpInst::ICMP_NE, p, q, 8); res = pool.ite(E(ne, 1), pool.ite(E(lt, 1), pool.cst((u64)-1, 32), pool.cst(1, 32)), res); if (ne.c) c = lt.c ? 0xffffffffu : 1; }
      ret(mkv(c, res)); return true; }
  case B_STRLEN: { u64 x = concretize(a[0]), n = 0; while (true) { Val v = loadv(x + n, 1, 8); u64 c = v.c; if (v.e) { const Expr* z = pool.cmp(E_EQ, v.e, pool.cst(0, 8)); if (z->op != E_CONST) decide(z, c == 0); } if (!c) break; n++; } reti(n); return true; }
  case B_MEMCHR: { u64 x = concretize(a[0]), n = concretize(a[2]); u64 ch = concretize(a[1]) & 255; u64 res = 0; for (u64 i = 0; i < n; i++) { Val v = loadv(x + i, 1, 8); bool k = v.c == ch; if (v.e) { const Expr* z = pool.cmp(E_EQ, v.e, pool.cst(ch, 8)); if (z->op != E_CONST) k = decide(z, k); } if (k) { res = x + i; break; } } reti(res); return true; }
  case B_ABORT: violate("abort", "program aborts (" + name + ")");
  case B_TERMINATE: violate("abort", "std::terminate called");
  case B_THROW_STD: { static const std::pair<const char*, const char*> tb[] = {{"length_error", "_ZTISt12length_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"logic_error", "_ZTISt11logic_error"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"runtime_error", "_ZTISt13runtime_error"}}; for (auto& p : tb) if (name.find(p.first) != std::string::npos) { throwStd(p.second, base, &d); return false; } throwStd("_ZTISt9exception", base, &d); return false; }
  case B_CXA_ALLOC: { u64 n = concretize(a[0]); u64 p = halloc(n + 64) ; reti(p); return true; }
  case B_CXA_FREE: hfree(a[0].c); return true;
  case B_CXA_THROW: raise(a[0].c, a[1].c, base, &d); return false;
  case B_CXA_BEGIN: caught.push_back(a[0].c); reti(a[0].c); return true;
  case B_GETEXC: reti(a[0].c); return true;
  case B_CXA_END: if (!caught.empty()) caught.pop_back(); return true;
  case B_CXA_RETHROW: if (caught.empty()) violate("abort", "rethrow without exception"); { u64 o = caught.back(); caught.pop_back(); raise(o, excTypes[o], base, &d); } return false;
  case B_GUARD_ACQ: { Val v = loadv(a[0].c, 1, 8); reti(v.c ? 0 : 1); return true; }
  case B_GUARD_REL: storev(a[0].c, 1, Val{1, nullptr}); return true;
  case B_ATEXIT: reti(0); return true;
  case B_CLOCK: reti(clockv += 1000); return true;
  case B_TYPEIDFOR: reti(typeSel(a[0].c)); return true;
  case B_MATH1: { unsigned w = d.w; Val v = a[0]; std::string n2 = name; if (v.e) { const Expr* ie; bool isint = intOf(v, w, ie);
        if (isint && (n2.find("floor") != n2.npos || n2.find("ceil") != n2.npos || n2.find("round") != n2.npos || n2.find("trunc") != n2.npos || n2.find("rint") != n2.npos)) { ret(v); return true; }
        if (isint && n2.find("fabs") != n2.npos) { Val iv{(u64)(i64)D(v, w), ie}; Val neg = binop(E_SUB, Val{0, nullptr}, iv, 64); Val lt = icmp(CmpInst::ICMP_SLT, iv, Val{0, nullptr}, 64); const Expr* r = pool.ite(E(lt, 1), E(neg, 64), ie); ret(i2d(r, std::fabs(D(v, w)))); return true; }
        v = fconc(v); }
      double x = D(v, w), y; auto has = [&](const char* s) { return n2.find(s) != n2.npos; };
      if (has("sqrt")) y = w == 32 ? (double)std::sqrt((float)x) : std::sqrt(x); else if (has("fabs")) y = std::fabs(x); else if (has("floor")) y = std::floor(x); else if (has("ceil")) y = std::ceil(x); else if (has("exp")) y = std::exp(x); else if (has("log2")) y = std::log2(x); else if (has("log10")) y = std::log10(x); else if (has("log")) y = std::log(x); else if (has("acos")) y = std::acos(x); else if (has("asin")) y = std::asin(x); else if (has("atan")) y = std::atan(x); else if (has("cos")) y = std::cos(x); else if (has("sin")) y = std::sin(x); else if (has("tan")) y = std::tan(x); else if (has("rint") || has("nearbyint")) y = std::nearbyint(x); else if (has("round")) y = std::round(x); else if (has("trunc")) y = std::trunc(x); else unsupported("math " + name);
      reti(dbits(y, w)); return true; }
  case B_MATH2: { unsigned w = d.w; std::string n2 = name; auto has = [&](const char* s) { return n2.find(s) != n2.npos; };
      if ((has("minnum") || has("maxnum") || has("fmin") || has("fmax")) && (a[0].e || a[1].e)) { Val lt = fcmp(FCmpInst::FCMP_OLT, a[0], a[1], w); bool mn = has("min"); const Expr *x, *y; if (lt.e && intOf(a[0], w, x) && intOf(a[1], w, y)) { double r = mn ? std::fmin(D(a[0], w), D(a[1], w)) : std::fmax(D(a[0], w), D(a[1], w)); ret(i2d(mn ? pool.ite(lt.e, x, y) : pool.ite(lt.e, y, x), r)); return true; } bool k = lt.c & 1; if (lt.e) k = decide(lt.e, k); ret(k == mn ? a[0] : a[1]); return true; }
      const Expr* ie; if (has("pow") && a[0].e && !a[1].e && D(a[1], 64) == 2 && intOf(a[0], w, ie)) { ret(fbin(2, a[0], a[0], w)); return true; }
      if (has("fmuladd")) { Val m = fbin(2, a[0], a[1], w); ret(fbin(0, m, a[2], w)); return true; }
      Val p = fconc(a[0]), q = has("powi") ? a[1] : fconc(a[1]); double x = D(p, w), y = has("powi") ? (double)(int32_t)concretize(q) : D(q, w), r;
      if (has("pow")) r = std::pow(x, y); else if (has("minnum") || has("fmin")) r = std::fmin(x, y); else if (has("maxnum") || has("fmax")) r = std::fmax(x, y); else if (has("atan2")) r = std::atan2(x, y); else if (has("fmod")) r = std::fmod(x, y); else if (has("hypot")) r = std::hypot(x, y); else if (has("copysign")) r = std::copysign(x, y); else unsupported("math " + name);
      reti(dbits(r, w)); return true; }
  case B_HASHBYTES: { u64 n = concretize(a[1]), x = concretize(a[0]); if (n) chk(x, n, "read"); u64 h = a[2].c; std::string buf; for (u64 i = 0; i < n; i++) { Val v = loadv(x + i, 1, 8); buf += (char)concretize(v); } reti(std::_Hash_bytes(buf.data(), n, h)); return true; }
  case B_NEXTBKT: { u64 self = a[0].c; std::__detail::_Prime_rehash_policy pol; memcpy((void*)&pol, mem + self, sizeof pol); u64 r = pol._M_next_bkt(concretize(a[1])); memcpy(mem + self, (void*)&pol, sizeof pol); memset(st + self, 2, sizeof pol); reti(r); return true; }
  case B_NEEDREHASH: { u64 self = a[0].c; std::__detail::_Prime_rehash_policy pol; memcpy((void*)&pol, mem + self, sizeof pol); auto r = pol._M_need_rehash(concretize(a[1]), concretize(a[2]), concretize(a[3])); memcpy(mem + self, (void*)&pol, sizeof pol); memset(st + self, 2, sizeof pol); reti(r.first); reti(r.second); return true; }
  case B_EXC_CTOR: { u64 o = a[0].c; chk(o, 8, "write"); memset(mem + o, 0, 8); memset(st + o, 2, 8); if (d.n) reti(o); return true; }
  case B_UMINMAX: { bool sg = name.find(".s") != name.npos, mn = name.find("min") != name.npos; unsigned w = d.w; for (unsigned i = 0; i < d.n; i++) { Val p = a[i], q = a[d.n + i]; Val lt = icmp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, p, q, w); bool k = lt.c & 1; Val x = k == mn ? p : q; if (lt.e) ret(mkv(x.c, mn ? pool.ite(lt.e, E(p, w), E(q, w)) : pool.ite(lt.e, E(q, w), E(p, w)))); else ret(x); } return true; }
  case B_ABS: { unsigned w = d.w; for (unsigned i = 0; i < d.n; i++) { Val p = a[i], n = binop(E_SUB, Val{0, nullptr}, p, w), lt = icmp(CmpInst::ICMP_SLT, p, Val{0, nullptr}, w); Val x = (lt.c & 1) ? n : p; if (lt.e) ret(mkv(x.c, pool.ite(lt.e, E(n, w), E(p, w)))); else ret(x); } return true; }
  case B_OVF: { unsigned w = d.w2; bool sg = name.find(".s") != name.npos && name.find(".sub") == name.npos ? true : name.find(".ssub") != name.npos; Op op = name.find("add") != name.npos ? E_ADD : name.find("sub") != name.npos ? E_SUB : E_MUL;
      Val p = a[0], q = a[1]; Val v = binop(op, p, q, w); 
      auto ovf = [&](u64 x, u64 y) { if (sg) { i128 r = op == E_ADD ? (i128)sx(x, w) + sx(y, w) : op == E_SUB ? (i128)sx(x, w) - sx(y, w) : (i128)sx(x, w) * sx(y, w); return r < sminw(w) || r > smaxw(w); } u128 r = op == E_ADD ? (u128)x + y : op == E_MUL ? (u128)x * y : 0; if (op == E_SUB) return x < y; return r > maskw(w); };
      bool o = ovf(p.c, q.c); ret(v);
      if (!p.e && !q.e) { reti(o); return true; }
      const Expr *ep = E(p, w), *eq = E(q, w); // try intervals
      if (sg) { i128 c[4] = {}; if (op == E_ADD) { c[0] = (i128)ep->smin + eq->smin; c[1] = (i128)ep->smax + eq->smax; } else if (op == E_SUB) { c[0] = (i128)ep->smin - eq->smax; c[1] = (i128)ep->smax - eq->smin; } else { i128 t[4] = {(i128)ep->smin * eq->smin, (i128)ep->smin * eq->smax, (i128)ep->smax * eq->smin, (i128)ep->smax * eq->smax}; c[0] = std::min(std::min(t[0], t[1]), std::min(t[2], t[3])); c[1] = std::max(std::max(t[0], t[1]), std::max(t[2], t[3])); } if (c[0] >= sminw(w) && c[1] <= smaxw(w)) { reti(0); return true; } }
      else { if (op == E_SUB) { Val lt = icmp(CmpInst::ICMP_ULT, p, q, w); ret(lt); return true; } u128 h = op == E_ADD ? (u128)ep->umax + eq->umax : (u128)ep->umax * eq->umax; if (h <= maskw(w)) { reti(0); return true; } if (op == E_ADD) { Val lt = icmp(CmpInst::ICMP_ULT, v, p, w); ret(lt); return true; } }
      if (sg && op == E_ADD) { Val n1 = binop(E_AND, binop(E_XOR, v, p, w), binop(E_XOR, v, q, w), w); ret(icmp(CmpInst::ICMP_SLT, n1, Val{0, nullptr}, w)); return true; }
      if (sg && op == E_SUB) { Val n1 = binop(E_AND, binop(E_XOR, p, q, w), binop(E_XOR, p, v, w), w); ret(icmp(CmpInst::ICMP_SLT, n1, Val{0, nullptr}, w)); return true; }
      concretize(p); concretize(q); reti(o); return true; }
  case B_SATURATE: { unsigned w = d.w; Val p = a[0], q = a[1]; if (name.find("usub.sat") != name.npos) { Val lt = icmp(CmpInst::ICMP_ULT, p, q, w), s = binop(E_SUB, p, q, w); Val x = (lt.c & 1) ? Val{0, nullptr} : s; if (lt.e) ret(mkv(x.c, pool.ite(lt.e, pool.cst(0, w), E(s, w)))); else ret(x); return true; } unsupported(name); }
  case B_BITS: { unsigned w = d.w; u64 v = concretize(a[0]); u64 r = 0; if (name.find("ctpop") != name.npos) r = __builtin_popcountll(v); else if (name.find("ctlz") != name.npos) { r = w; for (unsigned i = 0; i < w; i++) if (v >> i & 1) r = w - 1 - i; } else if (name.find("cttz") != name.npos) { r = w; for (int i = w - 1; i >= 0; i--) if (v >> i & 1) r = i; } else if (name.find("bswap") != name.npos) r = __builtin_bswap64(v) >> (64 - w); else unsupported(name); reti(r); return true; }
  case B_FSH: { unsigned w = d.w; u64 s = concretize(a[2]) % w; bool l = name.find("fshl") != name.npos; if (s == 0) { ret(l ? a[0] : a[1]); return true; } Val x = binop(E_SHL, a[0], Val{l ? s : w - s, nullptr}, w), y = binop(E_LSHR, a[1], Val{l ? w - s : s, nullptr}, w); ret(binop(E_OR, x, y, w)); return true; }
  case B_EXPECT: case B_LAUNDER: for (unsigned i = 0; i < d.n; i++) ret(a[i]); return true;
  case B_OBJSIZE: reti((u64)-1); return true;
  case B_RDGETVAL: reti(5489); return true;
  case B_BADALLOC: throwStd("_ZTISt9bad_alloc", base, &d); return false;
#include "omp.inc"
  default: unsupported("builtin " + name);
  }
  return true;
}
Val fcmpbits(Val p, Val q) { return fcmp(FCmpInst::FCMP_OEQ, p, q, 64); }

// ---------- OpenMP (sequentialised, with happens-before race detection) ----------
// Every thread body and task is one "strand"; strands of a team are pairwise concurrent unless ordered by task creation /
// taskwait.  Bodies run one after another; a conflicting access pair by two concurrent strands is a schedule-dependence.
int ompTidInTeam = 0; bool ompBarrierSeen = false; std::vector<int> tasks;
struct Strand { int parent; u64 forkSeq; bool joined; u64 joinSeq; };
std::vector<Strand> strands; u64 seqno = 0;
struct A2 { int s; u64 seq; bool crit; }; std::unordered_map<u64, A2> lastW; std::unordered_map<u64, std::vector<A2>> reads;
void ompReset() { ompTidInTeam = 0; ompBarrierSeen = false; strands.clear(); lastW.clear(); reads.clear(); seqno = 0; }
// does event (s,seq) happen before the current point of strand cur?
bool hb(int s, u64 seq, int cur) {
  // climb from cur to ancestors: work of an ancestor before the fork of the child on the path is ordered
  u64 lim = ~0ull; int c = cur;
  while (true) {
    if (s == c) return seq <= lim;
    // s may be a descendant of c that was joined before lim
    int q = s; while (q >= 0 && strands[q].parent != c) q = strands[q].parent;
    if (q >= 0 && strands[q].joined && strands[q].joinSeq <= lim) return true;
    if (strands[c].parent < 0) return false;
    lim = strands[c].forkSeq; c = strands[c].parent;
  }
}
void race2(u64 a, unsigned n, bool w) {
  seqno++;
  for (unsigned i = 0; i < n; i++) {
    u64 x = a + i; auto it = lastW.find(x);
    if (it != lastW.end() && it->second.s != ompTid && !(it->second.crit && inCrit) && !hb(it->second.s, it->second.seq, ompTid)) violate("race", std::string("data race: ") + (w ? "write" : "read") + " of memory written by a concurrent thread or task");
    if (w) { auto rt = reads.find(x); if (rt != reads.end()) { for (auto& q : rt->second) if (q.s != ompTid && !(q.crit && inCrit) && !hb(q.s, q.seq, ompTid)) violate("race", "data race: write of memory read by a concurrent thread or task"); rt->second.clear(); }
      lastW[x] = A2{ompTid, seqno, inCrit}; }
    else { auto& v = reads[x]; bool f = false; for (auto& q : v) if (q.s == ompTid) { q.seq = seqno; q.crit = q.crit && inCrit; f = true; } if (!f) v.push_back(A2{ompTid, seqno, inCrit}); }
  }
}
u64 strandSp = 0;
void runStrand(int parent, int tidInTeam, const std::function<void()>& body, bool joinNow) {
  int id = strands.size(); strands.push_back(Strand{parent, ++seqno, false, 0}); int ot = ompTid, ott = ompTidInTeam; u64 osp = strandSp; bool oc = inCrit; ompTid = id; ompTidInTeam = tidInTeam; strandSp = sp; inCrit = false;
  body();
  ompTid = ot; ompTidInTeam = ott; strandSp = osp; inCrit = oc; (void)joinNow;
}
void ompFork(std::vector<Val>& a0, const DI& d, size_t base) {
  std::vector<Val> a = a0; DFunc* f = fnAt(a[2].c); int nargs = (int)a[1].c; u64 osp = sp; u64 g = salloc(16, 16); storev(g, 4, Val{0, nullptr}); storev(g + 8, 4, Val{0, nullptr});
  int oNT = ompNT, oTid = ompTid, oTT = ompTidInTeam; int T = ompLevel ? 1 : ompMax; int root;
  bool top = ompLevel == 0;
  if (top) { strands.clear(); lastW.clear(); reads.clear(); strands.push_back(Strand{-1, 0, false, 0}); root = 0; ompTid = 0; raceSp = sp; strandSp = sp; } else root = ompTid;
  ompNT = T; ompLevel++; size_t s0 = strands.size();
  for (int t = 0; t < T; t++) runStrand(root, t, [&] { u64 g2 = salloc(16, 16); int ol = ompLevel; ompLevel = 0; storev(g2, 4, Val{(u64)t, nullptr}); storev(g2 + 8, 4, Val{(u64)t, nullptr}); ompLevel = ol; std::vector<Val> args{Val{g2, nullptr}, Val{g2 + 8, nullptr}}; for (int i = 0; i < nargs; i++) args.push_back(a[3 + i]); callNested(f, args); }, false);
  for (size_t i = s0; i < strands.size(); i++) { strands[i].joined = true; strands[i].joinSeq = ++seqno; }
  ompLevel--; ompNT = oNT; ompTid = oTid; ompTidInTeam = oTT; sp = osp > sp ? sp : sp; brv.clear();
  if (top) { strands.clear(); lastW.clear(); reads.clear(); }
}
DFunc* fnAt(u64 a) { u64 k = (a - Program::FBASE) / 16; if (a < Program::FBASE || k < 1 || k > P.funcs.size()) unsupported("bad function pointer"); return P.funcs[k - 1]; }
void ompTask(u64 fp, u64 t) {
  DFunc* f = fnAt(fp);
  if (!ompLevel) { callNested(f, {Val{(u64)ompTidInTeam, nullptr}, Val{t, nullptr}}); brv.clear(); return; }
  runStrand(ompTid, ompTidInTeam, [&] { callNested(f, {Val{(u64)ompTidInTeam, nullptr}, Val{t, nullptr}}); }, false); brv.clear();
}
void ompTaskwait() { ++seqno; for (size_t i = 0; i < strands.size(); i++) if (strands[i].parent == ompTid && !strands[i].joined) { strands[i].joined = true; strands[i].joinSeq = seqno; } }

// ---------- running one path ----------
void resetPath() {
  solver->P.nextid += 0;
  // memory
  if (hp > hpBase) { memset(st + hpBase, 0, hp - hpBase + 64); }
  if (spMax > STACK0) { memset(st + STACK0, 0, spMax - STACK0 + 64); }
  sp = STACK0; spMax = STACK0; hp = hpBase;
  memcpy(mem + Program::GBASE, haveBase ? baseGMem.data() : P.gmem.data(), P.gmem.size()); memcpy(st + Program::GBASE, P.gst.data(), P.gst.size());
  if (haveBase && !baseHeapMem.empty()) { memcpy(mem + HEAP0, baseHeapMem.data(), baseHeapMem.size()); memcpy(st + HEAP0, baseHeapSt.data(), baseHeapSt.size()); }
  allocs = baseAllocs; symgen++; symcount = 0; fr.clear(); rtop = 0; pc.clear(); vars.clear(); varnames.clear(); known.clear(); obs.clear(); ev = 0; icount = 0; ilimit = S.maxInstr; clockv = 0; caught.clear(); excTypes.clear(); curKnown.clear();
  ompTid = 0; ompNT = 1; ompLevel = 0; ompMax = 2; accs.clear(); ompEpoch = 0; inCrit = false; taskStack.clear(); nextTask = 1; inSingleTaken = false; raceSp = 0; tasks.clear(); ompReset();
}
void runCtors() {
  concreteOnly = true; resetPath(); model.clear(); kinds.clear(); job = Job(); job.entry = 0;
  auto* G = P.M->getGlobalVariable("llvm.global_ctors"); if (G && G->hasInitializer()) { if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) { std::vector<std::pair<u64, DFunc*>> cs; for (unsigned i = 0; i < CA->getNumOperands(); i++) { auto* S2 = llvm::cast<ConstantStruct>(CA->getOperand(i)); if (auto* F = dyn_cast<Function>(S2->getOperand(1))) cs.push_back({llvm::cast<ConstantInt>(S2->getOperand(0))->getZExtValue(), P.fmap[F]}); }
      for (auto& c : cs) { push(c.second, {}, nullptr, nullptr, true); size_t b = fr.size(); try { run(b); } catch (PathEnd& pe) { throw std::runtime_error("global constructor " + c.second->name + ": " + pe.msg + " at " + where()); } } } }
  concreteOnly = false;
  baseGMem.assign(mem + Program::GBASE, mem + Program::GBASE + P.gmem.size()); baseHeapMem.assign(mem + HEAP0, mem + hp + 16); baseHeapSt.assign(st + HEAP0, st + hp + 16); baseAllocs = allocs; hpBase = hp; haveBase = true;
}
PathEnd runPath(const Job& j, std::string& wh) {
  job = j; model = j.model; kinds = j.kinds; resetPath(); pathT0 = cpuNow();
  PathEnd pe{PathEnd::OK, "", ""};
  try {
    push(S.entries[j.entry], {}, nullptr, nullptr, true); run(fr.size());
    if (ev < job.len) diverged();
  } catch (PathEnd& p) { pe = p; wh = where(); }
  catch (ExcObj& e) { auto it = P.addrname.find(e.type); std::string n = it == P.addrname.end() ? "?" : it->second; if (synth.count(e.type)) n = synth[e.type]; pe = PathEnd{PathEnd::VIOL, "exception", "uncaught exception of type " + n}; wh = "(unwound)"; }
  catch (std::runtime_error& e) { pe = PathEnd{PathEnd::UNSUPPORTED, "unsupported", std::string("engine: ") + e.what()}; wh = where(); }
  return pe;
}
