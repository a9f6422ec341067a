// Models of everything outside the bitcode: the harness intrinsics, the allocator,
// libc/libm, LLVM intrinsics, the C++ runtime.
typedef std::vector<Val> VV;
static uint64_t carg(const Val & v, unsigned w = 64) { return concretize(v, w) & msk(w); }
static unsigned a0w(DI & d) { return fpw(d.I->getOperand(0)->getType()->getScalarType()); }

// ------------------------------------------------------ harness intrinsics
static std::string sname(const Val & v) { return cstr(carg(v)); }
static Val x_sym_double(DI &, VV & a) {
  std::string n = sname(a[0]); Val v = VS(mkvar(n, REALM ? sReal() : sFP(true)));
  free_vars(v.a); inputs.push_back({n, v, 'd'}); return v;
}
static Val x_sym_float(DI &, VV & a) {
  std::string n = sname(a[0]); Val v = VS(mkvar(n, REALM ? sReal() : sFP(false)));
  free_vars(v.a); inputs.push_back({n, v, 'f'}); return v;
}
static void assume(Z3_ast c) {
  c = simp(c);
  if (is_true(c)) return;
  if (is_false(c)) { sh->infeasible++; path_end("infeasible"); }
  if (model_eval(c) == 1) { add_pc(c); return; }
  ModelVals mv; Res r = feasible(c, &mv);
  if (r == UNSAT) { sh->infeasible++; path_end("infeasible"); }
  if (r == UNKNOWN) pc_uncertain = true;
  add_pc(c); have_model = false;
  if (!mv.empty()) { set_model(mv); if (!model_ok_for_pc()) have_model = false; }
}
static Val x_sym_int(DI &, VV & a) {
  std::string n = sname(a[0]); int64_t lo = (int64_t)carg(a[1]), hi = (int64_t)carg(a[2]);
  Val v = VS(mkvar(n, sBV(64))); free_vars(v.a); inputs.push_back({n, v, 'i'});
  if (lo == hi) { PC.push_back(Z3_mk_eq(C, v.a, bvc(lo, 64))); have_model = false; return VC(lo); }
  PC.push_back(Z3_mk_bvsle(C, bvc(lo, 64), v.a)); PC.push_back(Z3_mk_bvsle(C, v.a, bvc(hi, 64)));
  have_model = false;
  return v;
}
static Val x_sym_bool(DI &, VV & a) {
  std::string n = sname(a[0]); Val v = VS(mkvar(n, Z3_mk_bool_sort(C))); free_vars(v.a); inputs.push_back({n, v, 'b'}); return v;
}
static Val x_choose(DI &, VV & a) {
  std::string n = sname(a[0]); uint64_t k = carg(a[1], 32);
  Val v = VS(mkvar(n, sBV(32))); free_vars(v.a);
  inputs.push_back({n, v, 'c'});
  PC.push_back(Z3_mk_bvult(C, v.a, bvc(k, 32))); have_model = false;
  uint64_t r = concretize(v, 32);
  inputs.back().v = VC(r);
  return VC(r);
}
static Val x_assume(DI &, VV & a) { assume(toBool(a[0])); return Val(); }
static Val x_assert(DI &, VV & a) { do_assert(toBool(a[0]), sname(a[1])); return Val(); }
static Val x_assert_eq(DI &, VV & a) {
  std::string l = sname(a[2]);
  if (cdbl(a[0]) && cdbl(a[1])) {
    double x = cD(a[0].u, 64), y = cD(a[1].u, 64);
    bool ok = x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-9 * std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
    do_assert(ok ? Z3_mk_true(C) : Z3_mk_false(C), l); return Val();
  }
  if (!REALM) { Z3_ast x = toF(a[0], 64), y = toF(a[1], 64); Z3_ast q[2] = {Z3_mk_fpa_eq(C, x, y), zand({Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)})};
    do_assert(Z3_mk_or(C, 2, q), l); return Val(); }
  for (int i = 0; i < 2; i++) if (cdbl(a[i]) && !std::isfinite(cD(a[i].u, 64))) { do_assert(Z3_mk_false(C), l); return Val(); }
  Z3_ast x = toF(a[0], 64), y = toF(a[1], 64);
  Z3_ast s[2] = {x, y}; Z3_ast df = Z3_mk_sub(C, 2, s);
  static Z3_params som = nullptr;
  if (!som) { som = Z3_mk_params(C); Z3_params_inc_ref(C, som); Z3_params_set_bool(C, som, Z3_mk_string_symbol(C, "som"), true); }
  Z3_ast ds = Z3_simplify_ex(C, df, som);
  Z3_ast Z = mk_real(0);
  if (is_num(ds) && std::fabs(num_to_double(ds)) < 1e-9) { sh->asserts++; sh->asserts_ok++; return Val(); }
  Z3_ast big[2] = {Z3_mk_gt(C, ds, mk_real(0.01)), Z3_mk_lt(C, ds, mk_real(-0.01))};
  // constants of the code are doubles, so equality is asked up to 1e-9 when an exact answer is not available
  Z3_ast eq = Z3_mk_eq(C, ds, Z);
  sh->asserts++;
  Res r = feasible(simp(znot(eq)));
  if (r == UNSAT) { sh->asserts_ok++; return Val(); }
  sh->asserts--;
  Z3_ast near_ = zand({Z3_mk_le(C, ds, mk_real(1e-6)), Z3_mk_ge(C, ds, mk_real(-1e-6))});
  do_assert(near_, l, {Z3_mk_or(C, 2, big)});
  return Val();
}
static Val x_reach(DI &, VV & a) { sh->reach[label_id("reach:" + sname(a[0]))]++; return Val(); }
static Val x_observe(DI &, VV & a) { observed.push_back({sname(a[0]), a[1]}); return Val(); }
static Val x_is_real(DI &, VV &) { return VC(REALM); }
// forks on a condition so that later code sees it decided
static Val x_fork(DI &, VV & a) { return VC(a[0].k == K_C ? a[0].u & 1 : decide(toBool(a[0]))); }
static Val x_ite(DI &, VV & a) { return vselect(a[0], a[1], a[2], Type::getDoubleTy(LC)); }
static Val x_and(DI &, VV & a) { return ibin(Instruction::And, a[0], a[1], 1); }
static Val x_or(DI &, VV & a) { return ibin(Instruction::Or, a[0], a[1], 1); }
static Val x_fail(DI &, VV & a) { violation("assert", sname(a[0])); }

// ------------------------------------------------------------- allocation
static Val alloc(const Val & n, bool thr, int init = 2) {
  uint64_t s = carg(n);
  if (s > (1ULL << 36)) { if (thr) { throw_std("_ZTISt9bad_alloc"); return Val(); } return VC(0); }
  return VC(mk_obj(s, 1, "heap", init));
}
static Val x_new(DI &, VV & a) { return alloc(a[0], true); }
static Val x_malloc(DI &, VV & a) { return alloc(a[0], false); }
static Val x_calloc(DI &, VV & a) { return alloc(VC(carg(a[0]) * carg(a[1])), false, 0); }
static void do_free(uint64_t p) {
  if (!p) return;
  Obj * o = find(p);
  if (!o || o->kind != 1 || o->base != p) violation("memory", "free of a pointer that was not allocated");
  if (o->freed) violation("memory", "double free");
  o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); delete o->sym; o->sym = nullptr; o->size = 0;
}
static Val x_free(DI &, VV & a) { do_free(carg(a[0])); return Val(); }
static Val x_realloc(DI &, VV & a) {
  uint64_t p = carg(a[0]), n = carg(a[1]);
  uint64_t q = mk_obj(n, 1, "heap", 2);
  if (p) { Obj * o = chk(p, 0, false); mem_copy(q, p, std::min(n, o->size)); do_free(p); }
  return VC(q);
}
static Val x_posix_memalign(DI &, VV & a) { Val p = alloc(a[2], false); store(carg(a[0]), PointerType::get(LC, 0), p); return VC(0); }
static Val x_aligned_alloc(DI &, VV & a) { return alloc(a[1], false); }

// ------------------------------------------------------------ mem and str
static Val x_memcpy(DI &, VV & a) { mem_copy(carg(a[0]), carg(a[1]), carg(a[2])); return a[0]; }
static Val x_memset(DI &, VV & a) {
  uint64_t p = carg(a[0]), n = carg(a[2]);
  if (!n) return a[0];
  Obj * o = chk(p, n, true); uint64_t off = p - o->base;
  if (conc(a[1])) { memset(&o->d[off], (int)a[1].u, n); memset(&o->st[off], 0, n); }
  else { Z3_ast b = simp(Z3_mk_extract(C, 7, 0, toBV(a[1], a[1].k == K_S && skind(a[1].a) == Z3_BV_SORT ? Z3_get_bv_sort_size(C, Z3_get_sort(C, a[1].a)) : 32)));
    for (uint64_t i = 0; i < n; i++) { SB s; s.st = 1; s.a = b; s.n = 1; s.idx = 0; putb(o, off + i, s); } }
  return a[0];
}
static Val byte_at(uint64_t p) { return load_scalar(p, Type::getInt8Ty(LC)); }
static int cmp_bytes(const Val & x, const Val & y) {
  if (conc(x) && conc(y)) return (int)(x.u & 255) - (int)(y.u & 255);
  Val e = icmp(CmpInst::ICMP_EQ, x, y, 8);
  if (e.k == K_C ? e.u : decide(toBool(e))) return 0;
  Val l = icmp(CmpInst::ICMP_ULT, x, y, 8);
  return (l.k == K_C ? l.u : decide(toBool(l))) ? -1 : 1;
}
static Val x_memcmp(DI &, VV & a) {
  uint64_t p = carg(a[0]), q = carg(a[1]), n = carg(a[2]);
  for (uint64_t i = 0; i < n; i++) { int r = cmp_bytes(byte_at(p + i), byte_at(q + i)); if (r) return VC((uint32_t)r); }
  return VC(0);
}
static Val x_strlen(DI &, VV & a) {
  uint64_t p = carg(a[0]), n = 0;
  for (;; n++) if (cmp_bytes(byte_at(p + n), VC(0)) == 0) return VC(n);
}
static Val x_strcmp(DI &, VV & a) {
  uint64_t p = carg(a[0]), q = carg(a[1]);
  for (uint64_t i = 0;; i++) { Val x = byte_at(p + i); int r = cmp_bytes(x, byte_at(q + i)); if (r) return VC((uint32_t)r); if (cmp_bytes(x, VC(0)) == 0) return VC(0); }
}
static Val x_memchr(DI &, VV & a) {
  uint64_t p = carg(a[0]), n = carg(a[2]);
  for (uint64_t i = 0; i < n; i++) if (cmp_bytes(byte_at(p + i), VC(carg(a[1], 32) & 255)) == 0) return VC(p + i);
  return VC(0);
}

// ------------------------------------------------------------------- math
#define MAP1(expr) do { if (a[0].k == K_A) { VV in = *a[0].g; return vecmap(in.size(), [&](unsigned i_) { Val x = in[i_]; return (expr); }); } Val x = a[0]; return (expr); } while (0)
static Val x_sqrt(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_sqrt(x, w)); }
static Val x_sin(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_trig(true, x, w)); }
static Val x_cos(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_trig(false, x, w)); }
static Val x_tan(DI & d, VV & a) { unsigned w = a0w(d); if (cdbl(a[0])) return VC(dC(tan(cD(a[0].u, w)), w)); return fbin(Instruction::FDiv, f_trig(true, a[0], w), f_trig(false, a[0], w), w); }
static Val x_acos(DI & d, VV & a) { return f_acos(a[0], a0w(d)); }
static std::vector<std::array<Z3_ast, 2>> memo_asin;
static Val x_asin(DI & d, VV & a) {
  unsigned w = a0w(d);
  if (cdbl(a[0])) return VC(dC(asin(cD(a[0].u, w)), w));
  if (!REALM) return fbin(Instruction::FSub, VC(dC(M_PI / 2, w)), f_acos(a[0], w), w);
  Z3_ast x = simp(toF(a[0], w));
  if (decide(Z3_mk_or(C, 2, std::array<Z3_ast, 2>{Z3_mk_gt(C, x, mk_real(1)), Z3_mk_lt(C, x, mk_real(-1))}.data()))) return VC(dC(NAN, w));
  for (auto & m : memo_asin) if (Z3_is_eq_ast(C, m[0], x)) return VS(m[1]);
  Z3_ast t = fresh_real("asin").a, c = fresh_real("cos").a, Z = mk_real(0);
  axiom(rle(mk_real(-M_PI / 2), t)); axiom(rle(t, mk_real(M_PI / 2))); axiom(Z3_mk_ge(C, c, Z)); axiom(Z3_mk_eq(C, add2(mul2(c, c), mul2(x, x)), mk_real(1)));
  axiom(Z3_mk_iff(C, Z3_mk_gt(C, x, Z), Z3_mk_gt(C, t, Z))); axiom(Z3_mk_iff(C, Z3_mk_lt(C, x, Z), Z3_mk_lt(C, t, Z)));
  axiom(Z3_mk_iff(C, Z3_mk_eq(C, x, mk_real(1)), Z3_mk_eq(C, t, mk_real(M_PI / 2)))); axiom(Z3_mk_iff(C, Z3_mk_eq(C, x, mk_real(-1)), Z3_mk_eq(C, t, mk_real(-M_PI / 2))));
  memo_asin.push_back({x, t}); trig.push_back({t, x, c});
  return VS(t);
}
static Val x_atan2(DI & d, VV & a) { return f_atan2(a[0], a[1], a0w(d)); }
static Val x_floor(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_round(FLOOR, x, w)); }
static Val x_ceil(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_round(CEIL, x, w)); }
static Val x_trunc(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_round(TRUNC, x, w)); }
static Val x_round(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_round(ROUND, x, w)); }
static Val x_rint(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_round(RINT, x, w)); }
static Val x_fabs(DI & d, VV & a) { unsigned w = a0w(d); MAP1(f_abs(x, w)); }
static Val x_fmax(DI & d, VV & a) { unsigned w = a0w(d); if (a[0].k == K_A) return vecmap(a[0].g->size(), [&](unsigned i) { return f_minmax(true, (*a[0].g)[i], (*a[1].g)[i], w); }); return f_minmax(true, a[0], a[1], w); }
static Val x_fmin(DI & d, VV & a) { unsigned w = a0w(d); if (a[0].k == K_A) return vecmap(a[0].g->size(), [&](unsigned i) { return f_minmax(false, (*a[0].g)[i], (*a[1].g)[i], w); }); return f_minmax(false, a[0], a[1], w); }
static Val x_copysign(DI & d, VV & a) {
  unsigned w = a0w(d);
  if (cdbl(a[0]) && cdbl(a[1])) return VC(dC(copysign(cD(a[0].u, w), cD(a[1].u, w)), w));
  Val m = f_abs(a[0], w);
  if (REALM) {
    if (cdbl(a[1])) return std::signbit(cD(a[1].u, w)) ? fneg(m, w) : m;
    Val c = boolv(Z3_mk_lt(C, toF(a[1], w), mk_real(0)));
    return vselect(c, fneg(m, w), m, w == 64 ? Type::getDoubleTy(LC) : Type::getFloatTy(LC));
  }
  return VS(Z3_mk_ite(C, Z3_mk_fpa_is_negative(C, toF(a[1], w)), toF(fneg(m, w), w), toF(m, w)));
}
static Val x_fma(DI & d, VV & a) {
  unsigned w = a0w(d);
  auto one = [&](Val x, Val y, Val z) {
    if (!REALM && !(cdbl(x) && cdbl(y) && cdbl(z))) return VS(Z3_mk_fpa_fma(C, RNE(), toF(x, w), toF(y, w), toF(z, w)));
    if (!REALM) return VC(w == 64 ? dC(fma(cD(x.u, w), cD(y.u, w), cD(z.u, w)), w) : dC(fmaf(cD(x.u, w), cD(y.u, w), cD(z.u, w)), w));
    return fbin(Instruction::FAdd, fbin(Instruction::FMul, x, y, w), z, w);
  };
  if (a[0].k == K_A) return vecmap(a[0].g->size(), [&](unsigned i) { return one((*a[0].g)[i], (*a[1].g)[i], (*a[2].g)[i]); });
  return one(a[0], a[1], a[2]);
}
static Val x_fmuladd(DI & d, VV & a) { unsigned w = a0w(d); return fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], w), a[2], w); }
static Val x_hypot(DI & d, VV & a) {
  unsigned w = a0w(d);
  if (cdbl(a[0]) && cdbl(a[1])) return VC(dC(hypot(cD(a[0].u, w), cD(a[1].u, w)), w));
  return f_sqrt(fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[0], w), fbin(Instruction::FMul, a[1], a[1], w), w), w);
}
static Val x_pow(DI & d, VV & a) {
  unsigned w = a0w(d);
  if (cdbl(a[0]) && cdbl(a[1])) return VC(dC(pow(cD(a[0].u, w), cD(a[1].u, w)), w));
  if (cdbl(a[1])) {
    double e = cD(a[1].u, w);
    if (e == 0.5) return f_sqrt(a[0], w);
    if (e == std::floor(e) && e >= 0 && e <= 8) { Val r = VC(dC(1, w)); for (int i = 0; i < (int)e; i++) r = fbin(Instruction::FMul, r, a[0], w); return r; }
  }
  unsupported("pow " + loc());
}
static Val x_powi(DI & d, VV & a) {
  unsigned w = a0w(d); int e = (int)carg(a[1], 32);
  Val r = VC(dC(1, w)); for (int i = 0; i < std::abs(e); i++) r = fbin(Instruction::FMul, r, a[0], w);
  return e < 0 ? fbin(Instruction::FDiv, VC(dC(1, w)), r, w) : r;
}
static std::unordered_map<unsigned, Z3_ast> memo_exp;
static Val x_exp(DI & d, VV & a) {
  unsigned w = a0w(d);
  if (cdbl(a[0])) return VC(dC(exp(cD(a[0].u, w)), w));
  if (!REALM) return VS(uf1("exp", toF(a[0], w)));
  Z3_ast x = simp(toF(a[0], w)); auto it = memo_exp.find(Z3_get_ast_id(C, x)); if (it != memo_exp.end()) return VS(it->second);
  Z3_ast t = fresh_real("exp").a; axiom(Z3_mk_gt(C, t, mk_real(0))); axiom(Z3_mk_ge(C, t, add2(mk_real(1), x))); axiom(Z3_mk_iff(C, Z3_mk_eq(C, x, mk_real(0)), Z3_mk_eq(C, t, mk_real(1))));
  memo_exp[Z3_get_ast_id(C, x)] = t; return VS(t);
}
static Val x_log(DI & d, VV & a) { unsigned w = a0w(d); if (cdbl(a[0])) return VC(dC(log(cD(a[0].u, w)), w)); unsupported("log " + loc()); }
static Val x_fmod(DI & d, VV & a) {
  unsigned w = a0w(d);
  if (cdbl(a[0]) && cdbl(a[1])) return VC(dC(fmod(cD(a[0].u, w), cD(a[1].u, w)), w));
  if (!REALM) unsupported("symbolic fmod");
  Val q = f_round(TRUNC, fbin(Instruction::FDiv, a[0], a[1], w), w);
  return fbin(Instruction::FSub, a[0], fbin(Instruction::FMul, q, a[1], w), w);
}
static Val x_lround(DI & d, VV & a) { unsigned w = a0w(d); return fp_to_int(f_round(ROUND, a[0], w), w, 64, true); }
static Val x_isfpclass(DI & d, VV & a) { unsigned w = a0w(d); unsigned m = carg(a[1], 32); MAP1(is_class(x, w, m)); }
static Val x_isnan(DI & d, VV & a) { Val r = is_class(a[0], a0w(d), 3); return r.k == K_C ? r : VS(Z3_mk_ite(C, toBool(r), bvc(1, 32), bvc(0, 32))); }
static Val x_vreduce_fadd(DI & d, VV & a) {
  unsigned w = fpw(d.I->getType()); Val r = a[0]; for (auto & x : *a[1].g) r = fbin(Instruction::FAdd, r, x, w); return r;
}

// ----------------------------------------------------------- llvm integer
static unsigned iw(DI & d) { return DL->getTypeSizeInBits(d.I->getOperand(0)->getType()->getScalarType()); }
template <CmpInst::Predicate P> static Val x_iminmax(DI & d, VV & a) {
  unsigned w = iw(d); Type * t = d.I->getOperand(0)->getType()->getScalarType();
  auto one = [&](Val x, Val y) { return vselect(icmp(P, x, y, w), x, y, t); };
  if (a[0].k == K_A) return vecmap(a[0].g->size(), [&](unsigned i) { return one((*a[0].g)[i], (*a[1].g)[i]); });
  return one(a[0], a[1]);
}
static Val x_iabs(DI & d, VV & a) { unsigned w = iw(d); Type * t = d.I->getOperand(0)->getType()->getScalarType();
  return vselect(icmp(CmpInst::ICMP_SLT, a[0], VC(0), w), ibin(Instruction::Sub, VC(0), a[0], w), a[0], t); }
static Val x_ctlz(DI & d, VV & a) { unsigned w = iw(d); uint64_t x = carg(a[0], w); unsigned n = 0; for (int i = w - 1; i >= 0 && !(x >> i & 1); i--) n++; return VC(n); }
static Val x_cttz(DI & d, VV & a) { unsigned w = iw(d); uint64_t x = carg(a[0], w); unsigned n = 0; for (unsigned i = 0; i < w && !(x >> i & 1); i++) n++; return VC(n); }
static Val x_ctpop(DI & d, VV & a) { unsigned w = iw(d); return VC(__builtin_popcountll(carg(a[0], w))); }
static Val x_bswap(DI & d, VV & a) { unsigned w = iw(d); uint64_t x = carg(a[0], w), r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i); return VC(r); }
static Val x_fsh(DI & d, VV & a, bool left) {
  unsigned w = iw(d); uint64_t s = carg(a[2], w) % w;
  if (!s) return left ? a[0] : a[1];
  Val hi = ibin(Instruction::Shl, a[0], VC(left ? s : w - s), w), lo = ibin(Instruction::LShr, a[1], VC(left ? w - s : s), w);
  return ibin(Instruction::Or, hi, lo, w);
}
static Val x_fshl(DI & d, VV & a) { return x_fsh(d, a, true); }
static Val x_fshr(DI & d, VV & a) { return x_fsh(d, a, false); }
static Val ovf(DI & d, VV & a, unsigned op, bool sg) {
  unsigned w = iw(d); Val r = ibin(op, a[0], a[1], w), o;
  if (conc(a[0]) && conc(a[1])) {
    uint64_t x = a[0].u, y = a[1].u; bool v;
    __int128 X = sg ? (__int128)sx(x, w) : (__int128)x, Y = sg ? (__int128)sx(y, w) : (__int128)y;
    if (!sg && op == Instruction::Mul) { unsigned __int128 p = (unsigned __int128)x * y; v = (p >> w) != 0; }
    else { __int128 R = op == Instruction::Add ? X + Y : op == Instruction::Sub ? X - Y : X * Y;
      v = sg ? (R != (__int128)sx((uint64_t)R & msk(w), w)) : (R < 0 || (R >> w) != 0); }
    o = VC(v);
  } else {
    Z3_ast x = toBV(a[0], w), y = toBV(a[1], w), ok;
    if (op == Instruction::Add) ok = sg ? zand({Z3_mk_bvadd_no_overflow(C, x, y, true), Z3_mk_bvadd_no_underflow(C, x, y)}) : Z3_mk_bvadd_no_overflow(C, x, y, false);
    else if (op == Instruction::Sub) ok = sg ? zand({Z3_mk_bvsub_no_overflow(C, x, y), Z3_mk_bvsub_no_underflow(C, x, y, true)}) : Z3_mk_bvsub_no_underflow(C, x, y, false);
    else ok = sg ? zand({Z3_mk_bvmul_no_overflow(C, x, y, true), Z3_mk_bvmul_no_underflow(C, x, y)}) : Z3_mk_bvmul_no_overflow(C, x, y, false);
    o = boolv(znot(ok));
  }
  return VA(new VV{r, o});
}
static Val x_uaddo(DI & d, VV & a) { return ovf(d, a, Instruction::Add, false); }
static Val x_saddo(DI & d, VV & a) { return ovf(d, a, Instruction::Add, true); }
static Val x_usubo(DI & d, VV & a) { return ovf(d, a, Instruction::Sub, false); }
static Val x_ssubo(DI & d, VV & a) { return ovf(d, a, Instruction::Sub, true); }
static Val x_umulo(DI & d, VV & a) { return ovf(d, a, Instruction::Mul, false); }
static Val x_smulo(DI & d, VV & a) { return ovf(d, a, Instruction::Mul, true); }
static Val x_usubsat(DI & d, VV & a) { unsigned w = iw(d); return vselect(icmp(CmpInst::ICMP_UGE, a[0], a[1], w), ibin(Instruction::Sub, a[0], a[1], w), VC(0), d.I->getType()); }
template <unsigned OPC> static Val x_vreduce_i(DI & d, VV & a) {
  unsigned w = DL->getTypeSizeInBits(d.I->getType()); Val r = (*a[0].g)[0];
  for (size_t i = 1; i < a[0].g->size(); i++) r = ibin(OPC, r, (*a[0].g)[i], w); return r;
}
static Val x_nop(DI &, VV &) { return VC(0); }
static Val x_ret0(DI &, VV & a) { return a.empty() ? VC(0) : a[0]; }
static Val x_objsize(DI & d, VV & a) { return VC(carg(a[1], 1) ? 0 : msk(DL->getTypeSizeInBits(d.I->getType()))); }
static Val x_trap(DI &, VV &) { violation("abort", "trap"); }
static Val x_typeid_for(DI &, VV & a) { return VC((carg(a[0]) >> 32) & 0x7fffffff); }

// ------------------------------------------------------------ c++ runtime
static Val x_cxa_alloc(DI &, VV & a) { return VC(mk_obj(std::max<uint64_t>(carg(a[0]), 16), 1, "exception", 2)); }
static Val x_cxa_throw(DI &, VV & a) { inflight = {carg(a[0]), carg(a[1])}; did_unwind = true; unwind(); return Val(); }
static Val x_cxa_begin(DI &, VV & a) { caught.push_back(inflight); return a[0]; }
static Val x_cxa_end(DI &, VV &) { if (!caught.empty()) caught.pop_back(); return Val(); }
static Val x_cxa_rethrow(DI &, VV &) {
  if (caught.empty()) violation("abort", "rethrow without an exception");
  inflight = caught.back(); did_unwind = true; unwind(); return Val();
}
static Val x_unwind_resume(DI &, VV &) { did_unwind = true; unwind(); return Val(); }
static Val x_terminate(DI &, VV &) { violation("abort", "std::terminate is called"); }
static Val x_abort(DI &, VV &) { violation("abort", "abort is called"); }
static Val x_purev(DI &, VV &) { violation("abort", "pure virtual call"); }
static Val x_assert_fail(DI &, VV & a) { violation("abort", "assertion `" + sname(a[0]) + "' fails"); }
static Val x_exit(DI &, VV &) { path_end("exit"); }
static Val x_guard_acq(DI &, VV & a) { Val b = byte_at(carg(a[0])); return VC(!(conc(b) && b.u)); }
static Val x_guard_rel(DI &, VV & a) { uint8_t one = 1; wr_bytes(carg(a[0]), &one, 1); return Val(); }
static Val x_exc_ctor(DI &, VV & a) { wr64(carg(a[0]), exc_vtable()); return a[0]; }
static Val x_exc_what(DI &, VV &) { static uint64_t s = 0; if (!s) { s = mk_obj(16, 0, "what", 0); wr_bytes(s, "exception", 10); } return VC(s); }
static std::string throw_ti;
static Val x_throw_named(DI & d, VV &) {
  static const std::map<std::string, const char *> m = {
    {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
    {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
    {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
    {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
    {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error"},
    {"_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error"}};
  auto it = m.find(d.ename); if (it == m.end()) unsupported("throw helper " + d.ename);
  throw_std(it->second); return Val();
}
static Val x_empty_string(DI &, VV & a) {   // sret std::string
  uint64_t p = carg(a[0]); wr64(p, p + 16); wr64(p + 8, 0); wr64(p + 16, 0); return Val();
}
static Val x_clock_now(DI &, VV &) { static uint64_t t = 1000; t += 1000; return VC(t); }
static Val x_dynamic_cast(DI &, VV & a) {
  // only casts to the most derived type or to a non-virtual primary base are needed
  uint64_t p = carg(a[0]); if (!p) return VC(0);
  uint64_t vt = load_scalar(p, Type::getInt64Ty(LC)).u;
  uint64_t ti = load_scalar(vt - 8, Type::getInt64Ty(LC)).u; int64_t top = (int64_t)load_scalar(vt - 16, Type::getInt64Ty(LC)).u;
  if (ti == carg(a[2])) return VC(p + top);
  return ti_derives(ti_name(ti), ti_name(carg(a[2]))) ? VC(p + top) : VC(0);
}

static std::unordered_map<std::string, Handler> ext;
static void init_externals() {
  auto & e = ext;
  e["sym_double"] = x_sym_double; e["sym_float"] = x_sym_float; e["sym_int"] = x_sym_int; e["sym_bool"] = x_sym_bool; e["vchoose"] = x_choose;
  e["vassume"] = x_assume; e["vassert"] = x_assert; e["vassert_eq"] = x_assert_eq; e["vreach"] = x_reach; e["vobserve"] = x_observe; e["v_is_real"] = x_is_real;
  e["vdecide"] = x_fork; e["vite"] = x_ite; e["vand"] = x_and; e["vor"] = x_or; e["vfail"] = x_fail;
  e["_Znwm"] = e["_Znam"] = x_new; e["_ZnwmSt11align_val_t"] = e["_ZnamSt11align_val_t"] = x_new; e["malloc"] = x_malloc; e["calloc"] = x_calloc; e["realloc"] = x_realloc;
  e["_ZnwmRKSt9nothrow_t"] = e["_ZnamRKSt9nothrow_t"] = x_malloc;
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) e[n] = x_free;
  e["posix_memalign"] = x_posix_memalign; e["aligned_alloc"] = x_aligned_alloc;
  e["memcpy"] = e["memmove"] = x_memcpy; e["memset"] = x_memset; e["memcmp"] = e["bcmp"] = x_memcmp; e["strlen"] = x_strlen; e["strcmp"] = x_strcmp; e["memchr"] = x_memchr;
  struct { const char * n; Handler h; } m[] = {{"sqrt", x_sqrt}, {"sin", x_sin}, {"cos", x_cos}, {"tan", x_tan}, {"acos", x_acos}, {"asin", x_asin}, {"atan2", x_atan2}, {"floor", x_floor}, {"ceil", x_ceil},
    {"trunc", x_trunc}, {"round", x_round}, {"rint", x_rint}, {"nearbyint", x_rint}, {"fabs", x_fabs}, {"fmax", x_fmax}, {"fmin", x_fmin}, {"copysign", x_copysign}, {"fma", x_fma}, {"hypot", x_hypot}, {"pow", x_pow},
    {"exp", x_exp}, {"log", x_log}, {"fmod", x_fmod}, {"lround", x_lround}};
  for (auto & x : m) { e[x.n] = x.h; e[std::string(x.n) + "f"] = x.h; }
  e["__isnan"] = e["isnan"] = x_isnan;
  for (auto n : {"_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"}) e[n] = x_clock_now;
  e["__cxa_allocate_exception"] = x_cxa_alloc; e["__cxa_free_exception"] = x_free; e["__cxa_throw"] = x_cxa_throw; e["__cxa_begin_catch"] = x_cxa_begin; e["__cxa_end_catch"] = x_cxa_end;
  e["__cxa_rethrow"] = x_cxa_rethrow; e["__cxa_get_exception_ptr"] = x_ret0; e["_Unwind_Resume"] = x_unwind_resume; e["__cxa_guard_acquire"] = x_guard_acq; e["__cxa_guard_release"] = x_guard_rel; e["__cxa_guard_abort"] = x_nop;
  e["__cxa_atexit"] = e["atexit"] = x_nop; e["__cxa_pure_virtual"] = x_purev; e["__clang_call_terminate"] = e["_ZSt9terminatev"] = x_terminate; e["abort"] = x_abort; e["__assert_fail"] = x_assert_fail; e["exit"] = x_exit;
  e["__cxa_throw_bad_array_new_length"] = [](DI &, VV &) -> Val { throw_std("_ZTISt20bad_array_new_length"); return Val(); };
  e["__dynamic_cast"] = x_dynamic_cast;
  e["symx_exc_dtor"] = x_nop; e["symx_exc_what"] = x_exc_what;
  e["_ZNSt8ios_base4InitC1Ev"] = e["_ZNSt8ios_base4InitD1Ev"] = x_nop;
  for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_self", "printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "fputs", "snprintf", "usleep", "sched_yield", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"}) e[n] = x_nop;
}
static bool pre(const std::string & s, const char * p) { return s.compare(0, strlen(p), p) == 0; }
static Handler lookup_ext(const std::string & n) {
  auto it = ext.find(n);
  if (it != ext.end()) return it->second;
  if (pre(n, "llvm.")) {
    struct { const char * p; Handler h; } t[] = {
      {"llvm.memcpy", x_memcpy}, {"llvm.memmove", x_memcpy}, {"llvm.memset", x_memset}, {"llvm.sqrt", x_sqrt}, {"llvm.sin.", x_sin}, {"llvm.cos.", x_cos}, {"llvm.floor", x_floor}, {"llvm.ceil", x_ceil}, {"llvm.trunc", x_trunc}, {"llvm.round.", x_round},
      {"llvm.rint", x_rint}, {"llvm.nearbyint", x_rint}, {"llvm.roundeven", x_rint}, {"llvm.fabs", x_fabs}, {"llvm.maxnum", x_fmax}, {"llvm.minnum", x_fmin}, {"llvm.copysign", x_copysign}, {"llvm.fmuladd", x_fmuladd}, {"llvm.fma.", x_fma},
      {"llvm.powi", x_powi}, {"llvm.pow.", x_pow}, {"llvm.exp.", x_exp}, {"llvm.log.", x_log}, {"llvm.is.fpclass", x_isfpclass}, {"llvm.vector.reduce.fadd", x_vreduce_fadd}, {"llvm.vector.reduce.add", x_vreduce_i<Instruction::Add>},
      {"llvm.vector.reduce.or", x_vreduce_i<Instruction::Or>}, {"llvm.vector.reduce.and", x_vreduce_i<Instruction::And>}, {"llvm.lround", x_lround},
      {"llvm.umin", x_iminmax<CmpInst::ICMP_ULT>}, {"llvm.umax", x_iminmax<CmpInst::ICMP_UGT>}, {"llvm.smin", x_iminmax<CmpInst::ICMP_SLT>}, {"llvm.smax", x_iminmax<CmpInst::ICMP_SGT>}, {"llvm.abs", x_iabs}, {"llvm.ctlz", x_ctlz}, {"llvm.cttz", x_cttz},
      {"llvm.ctpop", x_ctpop}, {"llvm.bswap", x_bswap}, {"llvm.fshl", x_fshl}, {"llvm.fshr", x_fshr}, {"llvm.uadd.with", x_uaddo}, {"llvm.sadd.with", x_saddo}, {"llvm.usub.with", x_usubo}, {"llvm.ssub.with", x_ssubo}, {"llvm.umul.with", x_umulo}, {"llvm.smul.with", x_smulo},
      {"llvm.usub.sat", x_usubsat}, {"llvm.objectsize", x_objsize}, {"llvm.expect", x_ret0}, {"llvm.launder", x_ret0}, {"llvm.strip", x_ret0}, {"llvm.eh.typeid.for", x_typeid_for}, {"llvm.trap", x_trap}, {"llvm.ubsantrap", x_trap},
      {"llvm.lifetime", x_nop}, {"llvm.assume", x_nop}, {"llvm.stack", x_nop}, {"llvm.donothing", x_nop}, {"llvm.dbg", x_nop}, {"llvm.invariant", x_nop}, {"llvm.experimental.noalias", x_nop}, {"llvm.prefetch", x_nop}, {"llvm.is.constant", x_nop}};
    for (auto & x : t) if (pre(n, x.p)) return x.h;
    return nullptr;
  }
  if (pre(n, "_ZN3pcl7console")) return x_nop;
  if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") return [](DI &, VV & a) -> Val { violation("abort", "libstdc++ precondition `" + sname(a[3]) + "' fails"); };
  if (pre(n, "_ZSt") && n.find("__throw_") != std::string::npos) return x_throw_named;
  if (pre(n, "_ZNSt") || pre(n, "_ZNKSt")) {
    static const char * ex[] = {"9exception", "11logic_error", "13runtime_error", "16invalid_argument", "12out_of_range", "12length_error", "12domain_error", "11range_error", "14overflow_error", "15underflow_error", "9bad_alloc", "8bad_cast", "20bad_array_new_length"};
    for (auto x : ex) {
      if (pre(n, ("_ZNSt" + std::string(x) + "C").c_str())) return x_exc_ctor;
      if (pre(n, ("_ZNSt" + std::string(x) + "D").c_str())) return x_nop;
      if (n == "_ZNKSt" + std::string(x) + "4whatEv") return x_exc_what;
      if (n == "_ZNSt" + std::string(x) + "aSERKS_") return x_ret0;
    }
  }
  // output streams carry no verified behaviour
  if (pre(n, "_ZStls") || pre(n, "_ZNSols") || pre(n, "_ZSt16__ostream_insert") || pre(n, "_ZNSo3put") || pre(n, "_ZNSo5flush") || pre(n, "_ZNSo5write") || pre(n, "_ZSt4endl") || pre(n, "_ZNSo9_M_insert")) return x_ret0;
  if (n.find("basic_stringstreamI") != std::string::npos || n.find("basic_ostringstreamI") != std::string::npos) {
    if (n.find("3strEv") != std::string::npos) return x_empty_string;
    if (n.find("C1") != std::string::npos || n.find("C2") != std::string::npos || n.find("D1") != std::string::npos || n.find("D2") != std::string::npos || n.find("D0") != std::string::npos) return x_nop;
  }
  return nullptr;
}
