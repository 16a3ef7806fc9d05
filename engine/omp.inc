  case B_OMP_FORK: ompFork(a, d, base); return true;
  case B_OMP_STATIC_INIT4: case B_OMP_STATIC_INIT4U: case B_OMP_STATIC_INIT8: case B_OMP_STATIC_INIT8U: {
      // (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk)
      unsigned n = (bi == B_OMP_STATIC_INIT8 || bi == B_OMP_STATIC_INIT8U) ? 8 : 4; unsigned w = n * 8;
      i64 lo = sx(concretize(loadv(a[4].c, n, w)), w), hi = sx(concretize(loadv(a[5].c, n, w)), w); i64 trip = hi - lo + 1; if (trip < 0) trip = 0; i64 T = ompNT, t = ompTidInTeam;
      i64 per = trip / T, ext = trip % T; i64 s = lo + t * per + (t < ext ? t : ext); i64 e = s + per + (t < ext ? 1 : 0) - 1;
      auto unl = ompLevel; ompLevel = 0; storev(a[4].c, n, Val{(u64)s & maskw(w), nullptr}); storev(a[5].c, n, Val{(u64)e & maskw(w), nullptr}); storev(a[6].c, n, Val{(u64)trip & maskw(w), nullptr}); storev(a[3].c, 4, Val{(u64)(t == T - 1), nullptr}); ompLevel = unl; return true; }
  case B_OMP_SINGLE: case B_OMP_MASTER: reti(ompTidInTeam == 0 ? 1 : 0); return true;
  case B_OMP_BARRIER: ompBarrierSeen = true; if (ompNT > 1 && bi == B_OMP_BARRIER) unsupported("explicit OpenMP barrier"); return true;
  case B_OMP_ENDSINGLE: return true;
  case B_OMP_CRIT: inCrit = true; return true;
  case B_OMP_ENDCRIT: inCrit = false; return true;
  case B_OMP_TASK_ALLOC: { u64 sz = concretize(a[3]), shs = concretize(a[4]); u64 t = halloc(sz + shs + 16); memset(mem + t, 0, sz + shs + 16); memset(st + t, 2, sz + shs + 16); // kmp_task_t { void* shareds; routine; part_id; ... }
      u64 sh = t + ((sz + 15) & ~15ull); storev(t, 8, Val{shs ? sh : 0, nullptr}); storev(t + 8, 8, Val{a[5].c, nullptr}); reti(t); return true; }
  case B_OMP_TASK: { u64 t = a[2].c; u64 fp = loadv(t + 8, 8, 64).c; ompTask(fp, t); reti(0); return true; }
  case B_OMP_TASKWAIT: ompTaskwait(); reti(0); return true;
  case B_OMP_GTID: case B_OMP_TID: reti(ompTidInTeam); return true;
  case B_OMP_NT: reti(ompNT); return true;
  case B_OMP_MAXT: reti(ompMax); return true;
  case B_OMP_SETT: return true;
  case B_THREADS: ompMax = (int)concretize(a[0]); return true;
