// symx: a forking symbolic executor for LLVM bitcode, deciding with Z3.
// One process = one path; a branch both of whose sides are feasible forks.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/StringExtras.h>

#include <array>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <algorithm>
#include <cmath>
#include <cfenv>
#include "solver.h"

using namespace llvm;

// ------------------------------------------------------------------ options
static bool REALM = true;           // real-arithmetic mode for floating point
static std::string o_entry, o_native, o_work = "/tmp", o_repo = "/repo", o_out;
static bool o_narrow = false;
static long o_maxpaths = 200000, o_maxsteps = 60000000, o_timeout = 600, o_validate = 3;
static int o_qtimeout = 10000, o_jobs = 8, o_ntimeout = 20;
static bool o_trace = false, o_uninit = true, o_uninit0 = false, o_fpcast = true;
static double t_start;
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------- values
enum : uint8_t { K_C, K_S, K_A, K_B, K_U };
struct Val { uint8_t k = K_U; union { uint64_t u; Z3_ast a; std::vector<Val> * g; struct Bytes * b; };
  Val() : k(K_U), u(0) {} };
struct SB { uint8_t st = 0; uint8_t c = 0; uint8_t idx = 0; uint8_t n = 0; Z3_ast a = nullptr; };  // st 0 concrete 1 symbolic 2 uninit
struct Bytes { std::vector<SB> v; };
static inline Val VC(uint64_t u) { Val v; v.k = K_C; v.u = u; return v; }
static inline Val VS(Z3_ast a) { Val v; v.k = K_S; v.a = a; return v; }
static inline Val VA(std::vector<Val> * g) { Val v; v.k = K_A; v.g = g; return v; }
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t u, unsigned w) { return w >= 64 ? (int64_t)u : (int64_t)(u << (64 - w)) >> (64 - w); }

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout * DL;

[[noreturn]] static void path_end(const char * why, const std::string & msg = "");
[[noreturn]] static void violation(const std::string & kind, const std::string & msg);
[[noreturn]] static void unsupported(const std::string & m) { path_end("unsupported", m); }

// ------------------------------------------------------------------- memory
struct Obj {
  uint64_t base = 0; uint64_t size = 0; bool freed = false; uint8_t kind = 0;  // 0 global 1 heap 2 stack 3 fn/pseudo
  bool ro = false;
  std::vector<uint8_t> d, st; std::unordered_map<uint32_t, SB> * sym = nullptr;
  const char * name = "";
};
static std::vector<Obj *> objs;
static const uint64_t OFF = 0x1000;
static std::unordered_map<uint64_t, const Function *> fnAt;
static DenseMap<const Function *, uint64_t> fnAddr;
static std::unordered_map<uint64_t, std::string> pseudoAt;
static std::unordered_map<std::string, uint64_t> pseudoAddr;
static DenseMap<const GlobalValue *, uint64_t> gAddr;

static uint64_t mk_obj(uint64_t size, int kind, const char * name, int init) {
  if (size > (1u << 28)) path_end("unsupported", "huge allocation");
  Obj * o = new Obj; o->base = ((uint64_t)(objs.size() + 16) << 32) + OFF; o->size = size; o->kind = kind; o->name = name;
  o->d.resize(size); o->st.resize(size, init);
  objs.push_back(o);
  return o->base;
}
static Obj * find(uint64_t a) {
  uint64_t i = (a >> 32);
  if (i < 16 || i - 16 >= objs.size()) return nullptr;
  return objs[i - 16];
}
static std::string loc();
static Obj * chk(uint64_t a, uint64_t n, bool wr) {
  Obj * o = find(a);
  char b[256];
  if (!o) { snprintf(b, sizeof b, "%s of %lu bytes at invalid address 0x%lx", wr ? "write" : "read", (long)n, (long)a); violation("memory", b); }
  uint64_t off = a - o->base;
  if (o->freed) { snprintf(b, sizeof b, "%s of freed object %s", wr ? "write" : "read", o->name); violation("memory", b); }
  if (off > o->size || n > o->size - off) {
    snprintf(b, sizeof b, "%s of %lu bytes at offset %ld of object %s size %lu", wr ? "write" : "read", (long)n, (long)off, o->name, (long)o->size);
    violation("memory", b);
  }
  if (wr && o->ro) violation("memory", "write to read-only memory");
  return o;
}
static inline SB getb(Obj * o, uint64_t off) {
  SB s; s.st = o->st[off];
  if (s.st == 0) s.c = o->d[off];
  else if (s.st == 1) s = (*o->sym)[off];
  return s;
}
static inline void putb(Obj * o, uint64_t off, const SB & s) {
  if (s.st == 1) { if (!o->sym) o->sym = new std::unordered_map<uint32_t, SB>; (*o->sym)[off] = s; }
  o->st[off] = s.st; if (s.st == 0) o->d[off] = s.c;
}
static void wr_bytes(uint64_t a, const void * p, size_t n) {
  Obj * o = chk(a, n, false); memcpy(&o->d[a - o->base], p, n); memset(&o->st[a - o->base], 0, n);
}
static void wr64(uint64_t a, uint64_t v) { wr_bytes(a, &v, 8); }

// --------------------------------------------------------- path state + PC
static std::vector<Z3_ast> PC;
static bool pc_uncertain = false;
static Z3_model cur_model = nullptr; static bool have_model = false;
struct Input { std::string name; Val v; char kind; };   // kind: d f i b c
static std::vector<Input> inputs;
struct Obs { std::string name; Val v; };
static std::vector<Obs> observed;
static std::vector<pid_t> kids;
static bool own_token = true;
static long steps = 0;
static long q_branch = 0;
static std::vector<std::string> notes;

static Z3_sort sBV(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort sReal() { static Z3_sort s = Z3_mk_real_sort(C); return s; }
static Z3_sort sFP(bool dbl) { static Z3_sort d = Z3_mk_fpa_sort_64(C), f = Z3_mk_fpa_sort_32(C); return dbl ? d : f; }
static Z3_sort_kind skind(Z3_ast a) { return Z3_get_sort_kind(C, Z3_get_sort(C, a)); }
static Z3_ast RNE() { static Z3_ast r = Z3_mk_fpa_rne(C); return r; }
static Z3_ast RTZ() { static Z3_ast r = Z3_mk_fpa_rtz(C); return r; }
static Z3_ast mkvar(const std::string & n, Z3_sort s) {
  static int ctr = 0;
  return Z3_mk_const(C, Z3_mk_string_symbol(C, (n + "!" + std::to_string(ctr++)).c_str()), s);
}
static Z3_ast bvc(uint64_t u, unsigned w) { return Z3_mk_unsigned_int64(C, u & msk(w), sBV(w)); }
static Z3_ast zand(std::vector<Z3_ast> v) { return v.empty() ? Z3_mk_true(C) : v.size() == 1 ? v[0] : Z3_mk_and(C, v.size(), v.data()); }
static Z3_ast znot(Z3_ast a) { return Z3_mk_not(C, a); }

static std::vector<Z3_ast> slice(Z3_ast c) {
  std::set<unsigned> vs(free_vars(c).begin(), free_vars(c).end());
  std::vector<bool> in(PC.size(), false); std::vector<Z3_ast> r;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); i++) if (!in[i]) {
      for (unsigned v : free_vars(PC[i])) if (vs.count(v)) { in[i] = true; break; }
      if (in[i]) { ch = true; for (unsigned v : free_vars(PC[i])) vs.insert(v); r.push_back(PC[i]); }
    }
  }
  return r;
}
static std::unordered_map<unsigned, bool> known;   // conditions settled on this path
static void learn(Z3_ast c, bool v) { known[Z3_get_ast_id(C, c)] = v; known[Z3_get_ast_id(C, simp(znot(c)))] = !v; }
static void add_pc(Z3_ast c) {
  c = simp(c);
  if (is_true(c)) return;
  // split conjunctions for better slicing
  if (Z3_get_ast_kind(C, c) == Z3_APP_AST) {
    Z3_app p = Z3_to_app(C, c);
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_AND) {
      for (unsigned i = 0; i < Z3_get_app_num_args(C, p); i++) add_pc(Z3_get_app_arg(C, p, i));
      return;
    }
  }
  PC.push_back(c);
  known[Z3_get_ast_id(C, c)] = true; known[Z3_get_ast_id(C, simp(znot(c)))] = false;
}
// merged model: keep values for all variables
static std::unordered_map<unsigned, Z3_ast> mvals;
static void set_model(const ModelVals & v) {
  for (auto & [c, x] : v) mvals[Z3_get_ast_id(C, c)] = x;
  ModelVals mv;
  for (auto & [id, x] : mvals) { Z3_ast c = var_by_id(id); if (c) mv.push_back({c, x}); }
  if (cur_model) Z3_model_dec_ref(C, cur_model);
  cur_model = make_model(mv); have_model = true;
}
static int model_eval(Z3_ast c) {   // 1 true 0 false -1 unknown
  if (!have_model) return -1;
  Z3_ast o;
  if (!Z3_model_eval(C, cur_model, c, true, &o)) return -1;
  if (is_true(o)) return 1;
  if (is_false(o)) return 0;
  return -1;
}
static bool model_ok_for_pc() {
  for (auto c : PC) if (model_eval(c) != 1) return false;
  return true;
}
static Res feasible(Z3_ast c, ModelVals * mv = nullptr) {
  auto s = slice(c); s.push_back(c);
  Query q = solve(s, mv != nullptr);
  if (mv && q.r == SAT && q.exact) *mv = q.vals;
  return q.r;
}

static void release_token() { if (own_token) { sh->tokens++; own_token = false; } }
static bool take_token() {
  int t = sh->tokens.load();
  while (t > 0) if (sh->tokens.compare_exchange_weak(t, t - 1)) return true;
  return false;
}
static void check_limits() {
  if (sh->stop) path_end("stopped");
  if (now_s() - t_start > o_timeout) { sh->dropped++; path_end("timeout"); }
}
// returns true in child
static bool fork_path() {
  check_limits();
  if (sh->paths.load() >= o_maxpaths) { sh->dropped++; return false; }
  sh->paths++; sh->forks++;
  fflush(stdout); fflush(stderr);
  bool par = take_token();
  pid_t k = fork();
  if (k < 0) { perror("fork"); sh->dropped++; if (par) sh->tokens++; return false; }
  if (k == 0) { kids.clear(); own_token = par || own_token; if (!par) own_token = false; return true; }
  if (par) kids.push_back(k);
  else { int st; waitpid(k, &st, 0); if (WIFSIGNALED(st)) sh->dropped++; check_limits(); }
  // reap finished
  for (size_t i = 0; i < kids.size();) { int st; if (waitpid(kids[i], &st, WNOHANG) > 0) { if (WIFSIGNALED(st)) { sh->dropped++; sh->tokens++; } kids.erase(kids.begin() + i); } else i++; }
  return false;
}

static bool decide(Z3_ast c) {
  c = simp(c);
  if (is_true(c)) return true;
  if (is_false(c)) return false;
  q_branch++;
  { auto it = known.find(Z3_get_ast_id(C, c)); if (it != known.end()) { sh->q_cache++; return it->second; } }
  int m = model_eval(c);
  Res rt, rf; ModelVals mt, mf;
  Z3_ast nc = simp(znot(c));
  rt = m == 1 ? SAT : feasible(c, &mt);
  if (rt == UNSAT) { if (pc_uncertain && feasible(nc) == UNSAT) { sh->infeasible++; path_end("infeasible"); } learn(c, false); return false; }
  rf = m == 0 ? SAT : feasible(nc, &mf);
  if (rf == UNSAT) { if (rt == UNKNOWN) add_pc(c); if (m == 0) { have_model = false; if (!mt.empty()) set_model(mt); } learn(c, true); return true; }
  bool child = fork_path();
  bool take = !child;
  Z3_ast tc = take ? c : nc;
  Res r = take ? rt : rf; ModelVals & mv = take ? mt : mf;
  if (r == UNKNOWN) pc_uncertain = true;
  add_pc(tc);
  if ((take && m != 1) || (!take && m != 0)) {
    have_model = false;
    if (!mv.empty()) { set_model(mv); if (!model_ok_for_pc()) have_model = false; }
  }
  return take;
}

// ------------------------------------------------------------- conversions
static unsigned fpw(Type * t) { return t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : t->isHalfTy() ? 16 : 0; }
static double cD(uint64_t u, unsigned w) {
  if (w == 64) { double d; memcpy(&d, &u, 8); return d; }
  if (w == 32) { float f; uint32_t x = (uint32_t)u; memcpy(&f, &x, 4); return f; }
  unsupported("fp width");
}
static uint64_t dC(double d, unsigned w) {
  if (w == 64) { uint64_t u; memcpy(&u, &d, 8); return u; }
  float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x;
}
static Val real_val(Z3_ast a, unsigned w) {  // fold numerals that are exactly representable
  if (is_num(a)) {
    double d = num_to_double(a);
    if (w == 32 && (double)(float)d != d) return VS(a);
    if (std::isfinite(d) && Z3_is_eq_ast(C, mk_real(d), a)) return VC(dC(d, w));
    // keep rationals from exploding
    if (strlen(Z3_get_numeral_string(C, a)) > 400 && std::isfinite(d)) return VC(dC(d, w));
  }
  return VS(a);
}
static Z3_ast frag_bv(const std::vector<SB> & v);
static Z3_ast toBV(const Val & v, unsigned w) {
  switch (v.k) {
    case K_C: return bvc(v.u, w);
    case K_U: return bvc(0, w);
    case K_S: {
      switch (skind(v.a)) {
        case Z3_BV_SORT: return v.a;
        case Z3_BOOL_SORT: return Z3_mk_ite(C, v.a, bvc(1, w), bvc(0, w));
        case Z3_FLOATING_POINT_SORT: return Z3_mk_fpa_to_ieee_bv(C, v.a);
        default: unsupported("bits of a real " + loc());
      }
    }
    case K_B: { Z3_ast a = frag_bv(v.b->v); if (!a) unsupported("bits of a real fragment " + loc()); return a; }
    default: unsupported("toBV aggregate");
  }
}
static Z3_ast toBool(const Val & v) {
  if (v.k == K_C) return v.u & 1 ? Z3_mk_true(C) : Z3_mk_false(C);
  if (v.k == K_U) return Z3_mk_false(C);
  if (v.k == K_S) {
    if (skind(v.a) == Z3_BOOL_SORT) return v.a;
    if (skind(v.a) == Z3_BV_SORT) return Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, v.a), bvc(1, 1));
  }
  unsupported("toBool");
}
static Z3_ast frag_bv(const std::vector<SB> & v) {
  std::vector<Z3_ast> parts;
  for (auto & s : v) {
    if (s.st == 0) parts.push_back(bvc(s.c, 8));
    else if (s.st == 2) parts.push_back(bvc(0, 8));
    else {
      Z3_sort_kind k = skind(s.a); Z3_ast a = s.a;
      if (k == Z3_FLOATING_POINT_SORT) a = Z3_mk_fpa_to_ieee_bv(C, a);
      else if (k == Z3_BOOL_SORT) a = Z3_mk_ite(C, a, bvc(1, 8), bvc(0, 8));
      else if (k != Z3_BV_SORT) return nullptr;
      parts.push_back(Z3_mk_extract(C, s.idx * 8 + 7, s.idx * 8, a));
    }
  }
  Z3_ast r = parts[0];
  for (size_t i = 1; i < parts.size(); i++) r = Z3_mk_concat(C, parts[i], r);
  return simp(r);
}
static Z3_ast toF(const Val & v, unsigned w) {   // Real or FP ast
  if (v.k == K_C || v.k == K_U) {
    double d = cD(v.k == K_U ? 0 : v.u, w);
    if (REALM) return mk_real(d);
    return w == 64 ? Z3_mk_fpa_numeral_double(C, d, sFP(true)) : Z3_mk_fpa_numeral_float(C, (float)d, sFP(false));
  }
  if (v.k == K_S) {
    Z3_sort_kind k = skind(v.a);
    if (k == Z3_REAL_SORT || k == Z3_FLOATING_POINT_SORT) return v.a;
    if (k == Z3_BV_SORT && !REALM) return Z3_mk_fpa_to_fp_bv(C, v.a, sFP(w == 64));
    if (k == Z3_BV_SORT && REALM) unsupported("symbolic bits as real " + loc());
  }
  if (v.k == K_B && !REALM) { Z3_ast a = frag_bv(v.b->v); return Z3_mk_fpa_to_fp_bv(C, a, sFP(w == 64)); }
  unsupported("toF " + loc());
}
static bool conc(const Val & v) { return v.k == K_C || v.k == K_U; }
// enumerate the value of a symbolic BV by forking
static uint64_t concretize(const Val & v, unsigned w, int cap = 300) {
  if (v.k == K_C) return v.u;
  if (v.k == K_U) return 0;
  if (v.k == K_S && skind(v.a) == Z3_BOOL_SORT) return decide(v.a);
  Z3_ast a = simp(toBV(v, w));
  for (int i = 0; i < cap; i++) {
    if (is_num(a)) { uint64_t u; Z3_get_numeral_uint64(C, a, &u); return u; }
    uint64_t u; bool got = false;
    if (have_model) { Z3_ast o; if (Z3_model_eval(C, cur_model, a, true, &o) && is_num(o)) { Z3_get_numeral_uint64(C, o, &u); got = true; } }
    if (!got) {
      Z3_ast t = mkvar("enum", sBV(w)); free_vars(t);
      auto s = slice(a); s.push_back(Z3_mk_eq(C, t, a));
      Query q = solve(s, true);
      if (q.r == UNSAT) { sh->infeasible++; path_end("infeasible"); }
      if (q.r != SAT) unsupported("cannot enumerate a symbolic value " + loc());
      set_model(q.vals);
      if (!model_ok_for_pc()) have_model = false;
      for (auto & [c, x] : q.vals) if (Z3_is_eq_ast(C, c, t)) { Z3_get_numeral_uint64(C, x, &u); got = true; }
      if (!got) unsupported("enum");
    }
    if (decide(Z3_mk_eq(C, a, bvc(u, w)))) return u;
  }
  unsupported("too many values for a symbolic address or size " + loc());
}

// ---------------------------------------------------------- load and store
static Val fresh_uninit(Type * t) {
  if (o_uninit0) return VC(0);   // memory starts zeroed: only for entries that say so in their bounds
  std::string n = "uninit";
  if (fpw(t)) return VS(mkvar(n, REALM ? sReal() : sFP(t->isDoubleTy())));
  unsigned w = DL->getTypeStoreSizeInBits(t);
  return VS(mkvar(n, sBV(w)));
}
static Val load_scalar(uint64_t a, Type * t) {
  unsigned n = DL->getTypeStoreSize(t);
  unsigned bits = DL->getTypeSizeInBits(t);
  Obj * o = chk(a, n, false);
  uint64_t off = a - o->base;
  const uint8_t * st = &o->st[off];
  bool allc = true; for (unsigned i = 0; i < n; i++) if (st[i]) { allc = false; break; }
  if (allc && n <= 8) { uint64_t u = 0; memcpy(&u, &o->d[off], n); return VC(u & msk(bits)); }
  Bytes * B = new Bytes; B->v.resize(n);
  bool anyS = false, allU = true; 
  for (unsigned i = 0; i < n; i++) { B->v[i] = getb(o, off + i); if (B->v[i].st == 1) anyS = true; if (B->v[i].st != 2) allU = false; }
  if (anyS) {
    bool whole = B->v[0].st == 1 && B->v[0].n == n && B->v[0].idx == 0;
    for (unsigned i = 1; whole && i < n; i++) whole = B->v[i].st == 1 && B->v[i].a == B->v[0].a && B->v[i].idx == i;
    if (whole) {
      Val v = VS(B->v[0].a);
      if (bits < n * 8 && skind(v.a) == Z3_BV_SORT) v = bits == 1 ? VS(simp(toBool(v))) : VS(Z3_mk_extract(C, bits - 1, 0, v.a));
      return v;
    }
    bool real = false; for (auto & s : B->v) if (s.st == 1 && skind(s.a) == Z3_REAL_SORT) real = true;
    if (!real) {
      Z3_ast r = frag_bv(B->v);
      if (bits < n * 8) r = Z3_mk_extract(C, bits - 1, 0, r);
      if (fpw(t)) { if (REALM) { if (is_num(r)) { uint64_t u; Z3_get_numeral_uint64(C, r, &u); return VC(u); } } else return VS(Z3_mk_fpa_to_fp_bv(C, r, sFP(t->isDoubleTy()))); }
      return VS(r);
    }
    Val v; v.k = K_B; v.b = B; return v;
  }
  if (allU || o_uninit) {
    if (allU) {
      Val f = fresh_uninit(t);
      // give the location that value so later loads agree
      for (unsigned i = 0; i < n; i++) { SB s; s.st = 1; s.idx = i; s.n = n; s.a = f.a; putb(o, off + i, s); }
      if (bits < n * 8) return bits == 1 ? VS(simp(toBool(f))) : VS(Z3_mk_extract(C, bits - 1, 0, f.a));
      return f;
    }
    for (unsigned i = 0; i < n; i++) if (B->v[i].st == 2) { SB s; s.st = 0; s.c = 0; B->v[i] = s; }
    if (n <= 8) { uint64_t u = 0; for (unsigned i = 0; i < n; i++) u |= (uint64_t)B->v[i].c << (8 * i); return VC(u & msk(bits)); }
  }
  Val v; v.k = K_B; v.b = B; return v;
}
static Val load(uint64_t a, Type * t) {
  if (auto * s = dyn_cast<StructType>(t)) {
    auto * g = new std::vector<Val>; auto * L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) g->push_back(load(a + L->getElementOffset(i), s->getElementType(i)));
    return VA(g);
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type * e; unsigned n;
    if (t->isArrayTy()) { e = t->getArrayElementType(); n = t->getArrayNumElements(); }
    else { e = cast<FixedVectorType>(t)->getElementType(); n = cast<FixedVectorType>(t)->getNumElements();
      if (DL->getTypeSizeInBits(e) % 8) unsupported("vector of bits in memory"); }
    auto * g = new std::vector<Val>; uint64_t es = DL->getTypeAllocSize(e);
    for (unsigned i = 0; i < n; i++) g->push_back(load(a + i * es, e));
    return VA(g);
  }
  return load_scalar(a, t);
}
static void store(uint64_t a, Type * t, const Val & v) {
  if (auto * s = dyn_cast<StructType>(t)) {
    auto * L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) store(a + L->getElementOffset(i), s->getElementType(i), v.k == K_A ? (*v.g)[i] : v);
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type * e; unsigned n;
    if (t->isArrayTy()) { e = t->getArrayElementType(); n = t->getArrayNumElements(); }
    else { e = cast<FixedVectorType>(t)->getElementType(); n = cast<FixedVectorType>(t)->getNumElements();
      if (DL->getTypeSizeInBits(e) % 8) unsupported("vector of bits in memory"); }
    uint64_t es = DL->getTypeAllocSize(e);
    for (unsigned i = 0; i < n; i++) store(a + i * es, e, v.k == K_A ? (*v.g)[i] : v);
    return;
  }
  unsigned n = DL->getTypeStoreSize(t);
  Obj * o = chk(a, n, true);
  uint64_t off = a - o->base;
  if (v.k == K_C && n <= 8) { memcpy(&o->d[off], &v.u, n); memset(&o->st[off], 0, n); return; }
  if (v.k == K_U) { memset(&o->st[off], 2, n); return; }
  if (v.k == K_B) { for (unsigned i = 0; i < n; i++) putb(o, off + i, v.b->v[i]); return; }
  if (v.k == K_S) {
    Z3_ast a2 = v.a;
    if (skind(a2) == Z3_BOOL_SORT) a2 = Z3_mk_ite(C, a2, bvc(1, 8 * n), bvc(0, 8 * n));
    else if (skind(a2) == Z3_BV_SORT && Z3_get_bv_sort_size(C, Z3_get_sort(C, a2)) < 8 * n)
      a2 = Z3_mk_zero_ext(C, 8 * n - Z3_get_bv_sort_size(C, Z3_get_sort(C, a2)), a2);
    else if (skind(a2) == Z3_BV_SORT && is_num(a2) && n <= 8) { uint64_t u; Z3_get_numeral_uint64(C, a2, &u); store(a, t, VC(u)); return; }
    for (unsigned i = 0; i < n; i++) { SB s; s.st = 1; s.idx = i; s.n = n; s.a = a2; putb(o, off + i, s); }
    return;
  }
  unsupported("store");
}
static void mem_copy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj * so = chk(s, n, false); Obj * dO = chk(d, n, true);
  uint64_t so_ = s - so->base, do_ = d - dO->base;
  bool sym = false;
  for (uint64_t i = 0; i < n; i++) if (so->st[so_ + i] == 1) { sym = true; break; }
  if (!sym) { memmove(&dO->d[do_], &so->d[so_], n); memmove(&dO->st[do_], &so->st[so_], n); return; }
  std::vector<SB> t(n);
  for (uint64_t i = 0; i < n; i++) t[i] = getb(so, so_ + i);
  for (uint64_t i = 0; i < n; i++) putb(dO, do_ + i, t[i]);
}
static std::string cstr(uint64_t a) {
  std::string s;
  for (;;) { Obj * o = chk(a, 1, false); SB b = getb(o, a - o->base); if (b.st) { s += '?'; } else { if (!b.c) break; s += (char)b.c; } a++; if (s.size() > 100000) break; }
  return s;
}

// ------------------------------------------------------------- predecoding
struct Opr { int slot; Val c; };
struct FnInfo;
struct PhiCopy { int dst; Opr src; };
typedef Val (*Handler)(struct DI & d, std::vector<Val> & a);
struct DI {
  const Instruction * I; unsigned opc; unsigned w = 0, w2 = 0; int dst = -1;
  std::vector<Opr> ops; Type * ty = nullptr; int64_t off = 0; std::vector<std::pair<int, int64_t>> sc;
  std::vector<unsigned> gw;   // gep index widths
  int b0 = -1, b1 = -1; const Function * callee = nullptr; Handler h = nullptr; bool resolved = false; bool vec = false;
  std::string ename;
};
struct BBI { std::vector<DI> ins; std::vector<std::pair<int, std::vector<PhiCopy>>> phis; const BasicBlock * bb; };
struct FnInfo { const Function * F; int id; int nslots = 0, nargs = 0; std::vector<BBI> bbs; bool covered = false; std::set<std::string> names; };
static DenseMap<const Function *, FnInfo *> fns;
static std::vector<FnInfo *> fnlist;

struct Frame { FnInfo * f; int bb = 0, ip = 0; std::vector<Val> r; std::vector<uint64_t> allocas; DI * call = nullptr; };
static std::vector<Frame *> stk;

static std::string loc() {
  std::string s;
  int n = 0;
  for (int i = (int)stk.size() - 1; i >= 0 && n < 6; i--, n++) {
    Frame * f = stk[i];
    const Instruction * I = f->ip < (int)f->f->bbs[f->bb].ins.size() ? f->f->bbs[f->bb].ins[f->ip].I : nullptr;
    s += "[" + demangle(f->f->F->getName().str()).substr(0, 90);
    if (I && I->getDebugLoc()) s += ":" + std::to_string(I->getDebugLoc().getLine());
    s += "]";
  }
  return s;
}

static uint64_t fn_addr(const Function * F) {
  auto it = fnAddr.find(F); if (it != fnAddr.end()) return it->second;
  uint64_t a = mk_obj(0, 3, "function", 0); fnAddr[F] = a; fnAt[a] = F; return a;
}
static uint64_t pseudo(const std::string & n, uint64_t size = 0) {
  auto it = pseudoAddr.find(n); if (it != pseudoAddr.end()) return it->second;
  uint64_t a = mk_obj(size, 3, strdup(n.c_str()), 0); pseudoAddr[n] = a; pseudoAt[a] = n; return a;
}
static uint64_t exc_vtable() {
  static uint64_t vt = 0;
  if (!vt) { vt = mk_obj(64, 0, "exc_vtable", 0); wr64(vt + 16, pseudo("symx_exc_dtor")); wr64(vt + 24, pseudo("symx_exc_dtor")); wr64(vt + 32, pseudo("symx_exc_what")); }
  return vt + 16;
}
static uint64_t gv_addr(const GlobalValue * G) {
  if (auto * F = dyn_cast<Function>(G)) return fn_addr(F);
  if (auto * A = dyn_cast<GlobalAlias>(G)) { auto * o = A->getAliaseeObject(); return gv_addr(o); }
  auto it = gAddr.find(G); if (it != gAddr.end()) return it->second;
  auto * V = cast<GlobalVariable>(G);
  uint64_t sz = V->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(V->getValueType()) : 0;
  if (V->isDeclaration() && sz < 256) sz = 256;
  uint64_t a = mk_obj(sz, 0, strdup(V->getName().str().c_str()), 0);
  gAddr[G] = a;
  return a;
}
static Val constVal(const Constant * K);
static Val constExpr(const ConstantExpr * E) {
  switch (E->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto * G = cast<GEPOperator>(E);
      APInt off(64, 0);
      if (!G->accumulateConstantOffset(*DL, off)) report_fatal_error("gep const");
      Val b = constVal(cast<Constant>(G->getPointerOperand()));
      return VC(b.u + off.getSExtValue());
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Val v = constVal(E->getOperand(0));
      unsigned w = DL->getTypeSizeInBits(E->getType()); if (v.k == K_C) v.u &= msk(w); return v;
    }
    case Instruction::Sub: return VC((constVal(E->getOperand(0)).u - constVal(E->getOperand(1)).u) & msk(DL->getTypeSizeInBits(E->getType())));
    case Instruction::Add: return VC((constVal(E->getOperand(0)).u + constVal(E->getOperand(1)).u) & msk(DL->getTypeSizeInBits(E->getType())));
    case Instruction::Trunc: return VC(constVal(E->getOperand(0)).u & msk(DL->getTypeSizeInBits(E->getType())));
    case Instruction::ICmp: { uint64_t a = constVal(E->getOperand(0)).u, b = constVal(E->getOperand(1)).u;
      return VC(E->getPredicate() == CmpInst::ICMP_EQ ? a == b : E->getPredicate() == CmpInst::ICMP_NE ? a != b : a < b); }
    default: break;
  }
  unsupported(std::string("constant expression ") + E->getOpcodeName());
}
static Val constVal(const Constant * K) {
  if (auto * c = dyn_cast<ConstantInt>(K)) { if (c->getBitWidth() > 64) { 
      if (c->getValue().getActiveBits() <= 64) { Val v = VS(Z3_mk_numeral(C, toString(c->getValue(), 10, false).c_str(), sBV(c->getBitWidth()))); return v; }
      return VS(Z3_mk_numeral(C, toString(c->getValue(), 10, false).c_str(), sBV(c->getBitWidth()))); }
    return VC(c->getZExtValue()); }
  if (auto * c = dyn_cast<ConstantFP>(K)) {
    if (K->getType()->isDoubleTy() || K->getType()->isFloatTy()) return VC(c->getValueAPF().bitcastToAPInt().getZExtValue());
    if (K->getType()->isX86_FP80Ty()) return VC(0);
    unsupported("fp constant type");
  }
  if (isa<ConstantPointerNull>(K)) return VC(0);
  if (isa<UndefValue>(K)) {
    Type * t = K->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      auto * g = new std::vector<Val>;
      for (unsigned i = 0; i < n; i++) g->push_back(constVal(cast<UndefValue>(K)->getElementValue(i)));
      return VA(g);
    }
    return Val();
  }
  if (auto * g = dyn_cast<GlobalValue>(K)) return VC(gv_addr(g));
  if (auto * e = dyn_cast<ConstantExpr>(K)) return constExpr(e);
  if (isa<ConstantAggregateZero>(K) || isa<ConstantAggregate>(K) || isa<ConstantDataSequential>(K)) {
    Type * t = K->getType();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    auto * g = new std::vector<Val>; g->reserve(n);
    for (unsigned i = 0; i < n; i++) g->push_back(constVal(K->getAggregateElement(i)));
    return VA(g);
  }
  unsupported("constant kind");
}
static void init_global(uint64_t a, const Constant * K) {
  Type * t = K->getType();
  if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) { return; }  // already zero
  if (auto * d = dyn_cast<ConstantDataSequential>(K)) { StringRef s = d->getRawDataValues(); wr_bytes(a, s.data(), s.size()); return; }
  if (auto * s = dyn_cast<StructType>(t)) {
    auto * L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) init_global(a + L->getElementOffset(i), K->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) init_global(a + i * es, K->getAggregateElement(i)); return; }
  Val v = constVal(K);
  store(a, t, v);
}

static Handler lookup_ext(const std::string & n);
static FnInfo * prep(const Function * F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  FnInfo * f = new FnInfo; f->F = F; f->id = fnlist.size(); fnlist.push_back(f); fns[F] = f;
  auto note = [&](const DISubprogram * sp) {
    if (!sp || !sp->getFile()) return;
    std::string fn = sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str();
    if (fn.find(o_repo + "/") == 0) f->names.insert(fn.substr(o_repo.size() + 1) + ":" + sp->getName().str());
  };
  note(F->getSubprogram());
  for (auto & B : *F) for (auto & I : B) if (auto & L = I.getDebugLoc()) note(L->getScope()->getSubprogram());
  DenseMap<const Value *, int> slot; DenseMap<const BasicBlock *, int> bbi;
  for (auto & A : F->args()) slot[&A] = f->nslots++;
  f->nargs = f->nslots;
  int nb = 0;
  for (auto & B : *F) { bbi[&B] = nb++; for (auto & I : B) if (!I.getType()->isVoidTy()) slot[&I] = f->nslots++; }
  auto mkop = [&](const Value * v) {
    Opr o; o.slot = -1;
    if (auto * K = dyn_cast<Constant>(v)) o.c = constVal(K);
    else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) o.c = VC(0);
    else o.slot = slot.lookup(v);
    return o;
  };
  f->bbs.resize(nb);
  for (auto & B : *F) {
    BBI & bi = f->bbs[bbi[&B]]; bi.bb = &B;
    // phis
    std::vector<const BasicBlock *> preds;
    for (auto & I : B) {
      auto * P = dyn_cast<PHINode>(&I); if (!P) break;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        int pb = bbi[P->getIncomingBlock(i)];
        std::vector<PhiCopy> * v = nullptr;
        for (auto & x : bi.phis) if (x.first == pb) v = &x.second;
        if (!v) { bi.phis.push_back({pb, {}}); v = &bi.phis.back().second; }
        bool dup = false; for (auto & c : *v) if (c.dst == slot[P]) dup = true;
        if (!dup) v->push_back({slot[P], mkop(P->getIncomingValue(i))});
      }
    }
    for (auto & I : B) {
      if (isa<PHINode>(&I)) continue;
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DI d; d.I = &I; d.opc = I.getOpcode(); d.ty = I.getType();
      if (!I.getType()->isVoidTy()) d.dst = slot[&I];
      d.vec = I.getType()->isVectorTy();
      Type * st = I.getType()->getScalarType();
      d.w = st->isSized() && !st->isAggregateType() ? (unsigned)DL->getTypeSizeInBits(st) : 0;
      if (auto * g = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(mkop(g->getPointerOperand()));
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value * ix = gti.getOperand();
          if (auto * s = gti.getStructTypeOrNull()) { d.off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t es = gti.getSequentialElementStride(*DL).getFixedValue();
          if (auto * c = dyn_cast<ConstantInt>(ix)) { d.off += c->getSExtValue() * es; continue; }
          d.sc.push_back({(int)d.ops.size(), es}); d.gw.push_back(DL->getTypeSizeInBits(ix->getType()->getScalarType())); d.ops.push_back(mkop(ix));
        }
      } else if (auto * cb = dyn_cast<CallBase>(&I)) {
        for (auto & a : cb->args()) d.ops.push_back(mkop(a.get()));
        const Value * cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto * A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
        d.callee = dyn_cast<Function>(cv);
        if (!d.callee) d.ops.push_back(mkop(cb->getCalledOperand()));
        if (auto * inv = dyn_cast<InvokeInst>(&I)) { d.b0 = bbi[inv->getNormalDest()]; d.b1 = bbi[inv->getUnwindDest()]; }
      } else if (auto * br = dyn_cast<BranchInst>(&I)) {
        d.b0 = bbi[br->getSuccessor(0)];
        if (br->isConditional()) { d.b1 = bbi[br->getSuccessor(1)]; d.ops.push_back(mkop(br->getCondition())); }
      } else if (auto * sw = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(mkop(sw->getCondition())); d.b0 = bbi[sw->getDefaultDest()]; d.w = DL->getTypeSizeInBits(sw->getCondition()->getType());
        for (auto c : sw->cases()) { d.sc.push_back({bbi[c.getCaseSuccessor()], c.getCaseValue()->getSExtValue()}); }
      } else if (isa<LandingPadInst>(&I)) {
      } else {
        for (auto & o : I.operands()) d.ops.push_back(mkop(o.get()));
        if (auto * ss = dyn_cast<StoreInst>(&I)) d.ty = ss->getValueOperand()->getType();
        if (I.getNumOperands() > 0) { Type * t0 = I.getOperand(0)->getType()->getScalarType(); d.w2 = t0->isSized() && !t0->isAggregateType() ? (unsigned)DL->getTypeSizeInBits(t0) : 0; if (I.getOperand(0)->getType()->isVectorTy()) d.vec = true; }
      }
      bi.ins.push_back(std::move(d));
    }
  }
  return f;
}

// ------------------------------------------------------------- integer ops
static Val ibin(unsigned op, Val a, Val b, unsigned w) {
  if (conc(a) && conc(b)) {
    if (w > 64) unsupported("wide int");
    uint64_t x = a.u, y = b.u, r = 0;
    switch (op) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break;
      case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: r = sx(x, w) >> (y >= w ? w - 1 : y); break;
      case Instruction::UDiv: if (!y) violation("div", "division by zero"); r = x / y; break;
      case Instruction::URem: if (!y) violation("div", "remainder by zero"); r = x % y; break;
      case Instruction::SDiv: if (!y) violation("div", "division by zero"); if (sx(y, w) == -1) r = -x; else r = sx(x, w) / sx(y, w); break;
      case Instruction::SRem: if (!y) violation("div", "remainder by zero"); if (sx(y, w) == -1) r = 0; else r = sx(x, w) % sx(y, w); break;
    }
    return VC(r & msk(w));
  }
  if (w == 1 && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add || op == Instruction::Sub)) {
    if (conc(a)) std::swap(a, b);
    if (conc(b)) {
      bool y = b.u & 1;
      if (op == Instruction::And) return y ? a : VC(0);
      if (op == Instruction::Or) return y ? VC(1) : a;
      return y ? VS(znot(toBool(a))) : a;
    }
    Z3_ast p[2] = {toBool(a), toBool(b)};
    if (op == Instruction::And) return VS(Z3_mk_and(C, 2, p));
    if (op == Instruction::Or) return VS(Z3_mk_or(C, 2, p));
    return VS(Z3_mk_xor(C, p[0], p[1]));
  }
  // byte fragments: shifts by whole bytes, or/and/add of disjoint pieces
  auto isfrag = [](const Val & v) { return v.k == K_B || (v.k == K_S && skind(v.a) == Z3_REAL_SORT); };
  if (isfrag(a) || isfrag(b)) {
    unsigned n = w / 8;
    auto bytes = [&](const Val & v) {
      std::vector<SB> r(n);
      for (unsigned i = 0; i < n; i++) {
        if (v.k == K_C) { r[i].st = 0; r[i].c = v.u >> (8 * i); }
        else if (v.k == K_B) r[i] = v.b->v[i];
        else { r[i].st = 1; r[i].a = v.a; r[i].idx = i; r[i].n = n; }
      }
      return r;
    };
    Bytes * R = new Bytes; R->v.resize(n);
    auto A = bytes(a);
    bool ok = false;
    if ((op == Instruction::Shl || op == Instruction::LShr) && conc(b) && b.u % 8 == 0) {
      unsigned s = b.u / 8; ok = true;
      for (unsigned i = 0; i < n; i++) {
        int j = op == Instruction::Shl ? (int)i - (int)s : (int)i + (int)s;
        if (j >= 0 && j < (int)n) R->v[i] = A[j];
      }
    } else if (op == Instruction::Or || op == Instruction::Add || op == Instruction::And || op == Instruction::Xor) {
      auto B = bytes(b); ok = true;
      for (unsigned i = 0; i < n && ok; i++) {
        auto z = [](const SB & s, uint8_t c) { return s.st == 0 && s.c == c; };
        if (op == Instruction::And) { if (z(A[i], 0) || z(B[i], 0)) R->v[i] = SB(); else if (z(A[i], 255)) R->v[i] = B[i]; else if (z(B[i], 255)) R->v[i] = A[i]; else ok = false; }
        else if (z(A[i], 0)) R->v[i] = B[i]; else if (z(B[i], 0)) R->v[i] = A[i]; else ok = false;
      }
    }
    if (ok) {
      bool whole = R->v[0].st == 1 && R->v[0].idx == 0 && R->v[0].n == n;
      for (unsigned i = 1; i < n && whole; i++) whole = R->v[i].st == 1 && R->v[i].a == R->v[0].a && R->v[i].idx == i;
      if (whole) return VS(R->v[0].a);
      bool allc = true; uint64_t u = 0; for (unsigned i = 0; i < n; i++) { if (R->v[i].st) allc = false; else if (i < 8) u |= (uint64_t)R->v[i].c << (8 * i); }
      if (allc && n <= 8) return VC(u);
      Val v; v.k = K_B; v.b = R; return v;
    }
    // sign bit tricks on reals: xor/and with the sign mask
    if (REALM && a.k == K_S && conc(b)) {
      if (op == Instruction::Xor && b.u == 1ULL << (w - 1)) return VS(Z3_mk_unary_minus(C, a.a));
      if (op == Instruction::And && b.u == msk(w - 1)) return VS(Z3_mk_ite(C, Z3_mk_ge(C, a.a, mk_real(0)), a.a, Z3_mk_unary_minus(C, a.a)));
    }
  }
  if (conc(b) && b.u == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) return a;
  if (conc(a) && a.u == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return b;
  if (conc(b) && b.u == 1 && op == Instruction::Mul) return a;
  if (conc(a) && a.u == 1 && op == Instruction::Mul) return b;
  if (((conc(b) && b.u == 0) || (conc(a) && a.u == 0)) && (op == Instruction::And || op == Instruction::Mul)) return VC(0);
  Z3_ast x = toBV(a, w), y = toBV(b, w);
  Z3_ast r;
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(C, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
    default: {
      if (decide(Z3_mk_eq(C, y, bvc(0, w)))) violation("div", "division by zero");
      switch (op) {
        case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break;
        case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break;
        case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break;
        default: r = Z3_mk_bvsrem(C, x, y);
      }
    }
  }
  r = simp(r);
  if (is_num(r) && w <= 64) { uint64_t u; Z3_get_numeral_uint64(C, r, &u); return VC(u); }
  return VS(r);
}
static Val boolv(Z3_ast b) { b = simp(b); if (is_true(b)) return VC(1); if (is_false(b)) return VC(0); return VS(b); }
static Val icmp(CmpInst::Predicate p, Val a, Val b, unsigned w) {
  if (conc(a) && conc(b)) {
    uint64_t x = a.u, y = b.u; int64_t s = sx(x, w), t = sx(y, w); bool r = false;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break;
      case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
      default: unsupported("icmp");
    }
    return VC(r);
  }
  if (w == 1) {
    Z3_ast x = toBool(a), y = toBool(b);
    if (p == CmpInst::ICMP_EQ) return boolv(Z3_mk_iff(C, x, y));
    if (p == CmpInst::ICMP_NE) return boolv(Z3_mk_xor(C, x, y));
  }
  if (REALM && a.k == K_S && skind(a.a) == Z3_REAL_SORT && conc(b)) {   // sign test on real bits
    if (p == CmpInst::ICMP_SLT && b.u == 0) return boolv(Z3_mk_lt(C, a.a, mk_real(0)));
    if (p == CmpInst::ICMP_SGT && b.u == msk(w)) return boolv(Z3_mk_ge(C, a.a, mk_real(0)));
  }
  Z3_ast x = toBV(a, w), y = toBV(b, w), r;
  switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x, y); break; case CmpInst::ICMP_NE: r = znot(Z3_mk_eq(C, x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break; default: r = Z3_mk_bvsle(C, x, y);
  }
  return boolv(r);
}

// ------------------------------------------------------------------ fp ops
static bool cdbl(const Val & v) { return v.k == K_C || v.k == K_U; }
static void axiom(Z3_ast a) { add_pc(a); }
// a fresh real together with its defining constraint; the model is repaired lazily
static Val fresh_real(const std::string & n) { have_model = false; return VS(mkvar(n, sReal())); }

static std::unordered_map<unsigned, Z3_ast> sqrt_arg;   // the root's id -> what it is the root of
static Val fbin(unsigned op, Val a, Val b, unsigned w) {
  if (cdbl(a) && cdbl(b)) {
    double x = cD(a.u, w), y = cD(b.u, w), r;
    if (w == 32) {
      float p = (float)x, q = (float)y, s;
      switch (op) { case Instruction::FAdd: s = p + q; break; case Instruction::FSub: s = p - q; break; case Instruction::FMul: s = p * q; break;
        case Instruction::FDiv: s = p / q; break; default: s = fmodf(p, q); }
      if (!REALM || !std::isfinite(s) || op == Instruction::FRem) return VC(dC(s, w));
      double e; switch (op) { case Instruction::FAdd: e = x + y; break; case Instruction::FSub: e = x - y; break; case Instruction::FMul: e = x * y; break; default: e = (double)s; if ((double)s * y != x) e = NAN; }
      if (e == (double)s) return VC(dC(s, w));
    } else {
      switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break;
        case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
      if (!REALM || !std::isfinite(r) || op == Instruction::FRem) return VC(dC(r, w));
      bool ex;
      if (op == Instruction::FAdd || op == Instruction::FSub) { double yy = op == Instruction::FSub ? -y : y; double bb = r - x; ex = (x - (r - bb)) + (yy - bb) == 0; }
      else if (op == Instruction::FMul) ex = fma(x, y, -r) == 0 && (r != 0 || x == 0 || y == 0);
      else ex = fma(r, y, -x) == 0 && (r != 0 || x == 0);
      if (ex) return VC(dC(r, w));
    }
  }
  if (!REALM) {
    Z3_ast x = toF(a, w), y = toF(b, w);
    // commutative (a NaN's payload is never observed): one canonical order
    if ((op == Instruction::FAdd || op == Instruction::FMul) && Z3_get_ast_id(C, x) > Z3_get_ast_id(C, y)) std::swap(x, y);
    switch (op) {
      case Instruction::FAdd: return VS(Z3_mk_fpa_add(C, RNE(), x, y));
      case Instruction::FSub: return VS(Z3_mk_fpa_sub(C, RNE(), x, y));
      case Instruction::FMul: return VS(Z3_mk_fpa_mul(C, RNE(), x, y));
      case Instruction::FDiv: return VS(Z3_mk_fpa_div(C, RNE(), x, y));
      default: return VS(Z3_mk_fpa_rem(C, x, y));
    }
  }
  // real mode: non-finite concrete operands
  auto nonfin = [&](const Val & v) { return cdbl(v) && !std::isfinite(cD(v.u, w)); };
  if (nonfin(a) || nonfin(b)) {
    double x = nonfin(a) ? cD(a.u, w) : NAN, y = nonfin(b) ? cD(b.u, w) : NAN;
    bool na = nonfin(a), nb = nonfin(b);
    if ((na && std::isnan(x)) || (nb && std::isnan(y))) return VC(dC(NAN, w));
    if (op == Instruction::FAdd) return VC(dC(na ? x : y, w));
    if (op == Instruction::FSub) return VC(dC(na ? x : -y, w));
    auto sgn = [&](const Val & v) -> int { Z3_ast t = toF(v, w); if (decide(Z3_mk_eq(C, t, mk_real(0)))) return 0; return decide(Z3_mk_gt(C, t, mk_real(0))) ? 1 : -1; };
    if (op == Instruction::FMul) { int s = sgn(na ? b : a); double z = na ? x : y; return VC(dC(s == 0 ? NAN : s > 0 ? z : -z, w)); }
    if (op == Instruction::FDiv) { if (nb) return VC(dC(0, w)); int s = sgn(b); return VC(dC(s < 0 ? -x : x, w)); }
    unsupported("frem inf");
  }
  bool ca = cdbl(a), cb = cdbl(b); double x = ca ? cD(a.u, w) : 0, y = cb ? cD(b.u, w) : 0;
  Z3_ast p[2];
  switch (op) {
    case Instruction::FAdd: if (ca && x == 0) return b; if (cb && y == 0) return a; p[0] = toF(a, w); p[1] = toF(b, w);
      { Z3_ast r = Z3_mk_add(C, 2, p); if (is_num(p[0]) && is_num(p[1])) r = simp(r); return real_val(r, w); }
    case Instruction::FSub: if (cb && y == 0) return a; p[0] = toF(a, w); p[1] = toF(b, w);
      if (Z3_is_eq_ast(C, p[0], p[1])) return VC(dC(0, w));
      if (ca && x == 0) { Z3_ast r = Z3_mk_unary_minus(C, p[1]); if (is_num(p[1])) r = simp(r); return real_val(r, w); }
      { Z3_ast r = Z3_mk_sub(C, 2, p); if (is_num(p[0]) && is_num(p[1])) r = simp(r); return real_val(r, w); }
    case Instruction::FMul: if ((ca && x == 0) || (cb && y == 0)) return VC(dC(0, w)); if (ca && x == 1) return b; if (cb && y == 1) return a;
      p[0] = toF(a, w); p[1] = toF(b, w);
      if (Z3_is_eq_ast(C, p[0], p[1])) if (auto it = sqrt_arg.find(Z3_get_ast_id(C, p[0])); it != sqrt_arg.end()) return real_val(it->second, w);   // sqrt(x) * sqrt(x)
      { Z3_ast r = Z3_mk_mul(C, 2, p); if (is_num(p[0]) && is_num(p[1])) r = simp(r); return real_val(r, w); }
    case Instruction::FDiv: {
      if (cb && y == 1) return a;
      p[0] = toF(a, w); p[1] = toF(b, w);
      if (cb ? y == 0 : decide(Z3_mk_eq(C, p[1], mk_real(0)))) {
        if (ca ? x == 0 : decide(Z3_mk_eq(C, p[0], mk_real(0)))) return VC(dC(NAN, w));
        bool pos = ca ? x > 0 : decide(Z3_mk_gt(C, p[0], mk_real(0)));
        return VC(dC(pos ? INFINITY : -INFINITY, w));
      }
      if (ca && x == 0) return VC(dC(0, w));
      if (is_num(p[1])) { Z3_ast q[2] = {p[0], simp(Z3_mk_div(C, mk_real(1), p[1]))}; Z3_ast r = Z3_mk_mul(C, 2, q); if (is_num(p[0])) r = simp(r); return real_val(r, w); }
      return VS(Z3_mk_div(C, p[0], p[1]));
    }
  }
  unsupported("fp remainder");
}
static Val fneg(Val a, unsigned w) {
  if (cdbl(a)) return VC(a.u ^ (1ULL << (w - 1)));
  if (REALM) return real_val(is_num(a.a) ? simp(Z3_mk_unary_minus(C, toF(a, w))) : Z3_mk_unary_minus(C, toF(a, w)), w);
  return VS(Z3_mk_fpa_neg(C, toF(a, w)));
}
// angles: acos(c) compared with a constant is decided through cos
struct AcosDef { Z3_ast theta, c; };
static std::vector<AcosDef> acosdefs;
static Val fcmp(CmpInst::Predicate p, Val a, Val b, unsigned w) {
  if (cdbl(a) && cdbl(b)) {
    double x = cD(a.u, w), y = cD(b.u, w); bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
      case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
      case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
      default: unsupported("fcmp");
    }
    return VC(r);
  }
  if (p == CmpInst::FCMP_TRUE) return VC(1);
  if (p == CmpInst::FCMP_FALSE) return VC(0);
  if (REALM) {
    for (int sw = 0; sw < 2; sw++) {
      const Val & c = sw ? a : b;
      if (cdbl(c)) {
        double y = cD(c.u, w);
        if (std::isnan(y)) return VC(CmpInst::isUnordered(p) ? 1 : 0);
        if (std::isinf(y)) { // replace the symbolic operand by 0
          return sw ? fcmp(p, a, VC(dC(0, w)), w) : fcmp(p, VC(dC(0, w)), b, w);
        }
      }
    }
    if (p == CmpInst::FCMP_ORD) return VC(1);
    if (p == CmpInst::FCMP_UNO) return VC(0);
    Z3_ast x = toF(a, w), y = toF(b, w);
    for (auto & d : acosdefs) {
      for (int sw = 0; sw < 2; sw++) {
        Z3_ast th = sw ? y : x, k = sw ? x : y;
        if (Z3_is_eq_ast(C, th, d.theta) && is_num(k)) {
          double t = num_to_double(k);
          if (t > 0 && t < M_PI) {
            Z3_ast ct = mk_real(std::cos(t));
            axiom(Z3_mk_iff(C, Z3_mk_lt(C, th, k), Z3_mk_gt(C, d.c, ct)));
            axiom(Z3_mk_iff(C, Z3_mk_gt(C, th, k), Z3_mk_lt(C, d.c, ct)));
            have_model = false;
          }
        }
      }
    }
    switch (p) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return boolv(Z3_mk_eq(C, x, y));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return boolv(znot(Z3_mk_eq(C, x, y)));
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return boolv(Z3_mk_gt(C, x, y));
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return boolv(Z3_mk_ge(C, x, y));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return boolv(Z3_mk_lt(C, x, y));
      default: return boolv(Z3_mk_le(C, x, y));
    }
  }
  Z3_ast x = toF(a, w), y = toF(b, w);
  Z3_ast xn = Z3_mk_fpa_is_nan(C, x), yn = Z3_mk_fpa_is_nan(C, y); Z3_ast un[2] = {xn, yn}; Z3_ast U = Z3_mk_or(C, 2, un);
  auto orU = [&](Z3_ast r) { Z3_ast q[2] = {U, r}; return boolv(Z3_mk_or(C, 2, q)); };
  switch (p) {
    case CmpInst::FCMP_ORD: return boolv(znot(U)); case CmpInst::FCMP_UNO: return boolv(U);
    case CmpInst::FCMP_OEQ: return boolv(Z3_mk_fpa_eq(C, x, y)); case CmpInst::FCMP_UNE: return boolv(znot(Z3_mk_fpa_eq(C, x, y)));
    case CmpInst::FCMP_UEQ: return orU(Z3_mk_fpa_eq(C, x, y));
    case CmpInst::FCMP_ONE: { Z3_ast q[2] = {znot(U), znot(Z3_mk_fpa_eq(C, x, y))}; return boolv(Z3_mk_and(C, 2, q)); }
    case CmpInst::FCMP_OGT: return boolv(Z3_mk_fpa_gt(C, x, y)); case CmpInst::FCMP_OGE: return boolv(Z3_mk_fpa_geq(C, x, y));
    case CmpInst::FCMP_OLT: return boolv(Z3_mk_fpa_lt(C, x, y)); case CmpInst::FCMP_OLE: return boolv(Z3_mk_fpa_leq(C, x, y));
    case CmpInst::FCMP_UGT: return boolv(znot(Z3_mk_fpa_leq(C, x, y))); case CmpInst::FCMP_UGE: return boolv(znot(Z3_mk_fpa_lt(C, x, y)));
    case CmpInst::FCMP_ULT: return boolv(znot(Z3_mk_fpa_geq(C, x, y))); default: return boolv(znot(Z3_mk_fpa_gt(C, x, y)));
  }
}
static Z3_ast rle(Z3_ast a, Z3_ast b) { return Z3_mk_le(C, a, b); }
static Z3_ast mul2(Z3_ast a, Z3_ast b) { Z3_ast p[2] = {a, b}; return Z3_mk_mul(C, 2, p); }
static Z3_ast add2(Z3_ast a, Z3_ast b) { Z3_ast p[2] = {a, b}; return Z3_mk_add(C, 2, p); }
static std::unordered_map<unsigned, Z3_ast> memo_sqrt, memo_sin, memo_cos, memo_acos, memo_tan;
static std::vector<std::array<Z3_ast, 3>> memo_atan2, trig;   // trig: arg, sin, cos

static bool implied(Z3_ast c) {   // c holds on the whole path
  c = simp(c);
  if (is_true(c)) return true;
  if (is_false(c)) return false;
  { auto it = known.find(Z3_get_ast_id(C, c)); if (it != known.end()) return it->second; }
  if (model_eval(c) == 0) return false;
  if (feasible(simp(znot(c))) != UNSAT) return false;
  learn(c, true); return true;
}
static Z3_ast square_of(Z3_ast x) {   // b when x is b*b
  if (Z3_get_ast_kind(C, x) != Z3_APP_AST) return nullptr;
  Z3_app p = Z3_to_app(C, x); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, p)); unsigned n = Z3_get_app_num_args(C, p);
  if (k == Z3_OP_MUL && n == 2 && Z3_is_eq_ast(C, Z3_get_app_arg(C, p, 0), Z3_get_app_arg(C, p, 1))) return Z3_get_app_arg(C, p, 0);
  if (k == Z3_OP_POWER && n == 2) { Z3_ast e = Z3_get_app_arg(C, p, 1); if (is_num(e) && !strcmp(Z3_get_numeral_string(C, e), "2")) return Z3_get_app_arg(C, p, 0); }
  return nullptr;
}
static Val f_sqrt(Val a, unsigned w) {
  if (cdbl(a)) { double x = cD(a.u, w); return VC(dC(w == 32 ? (double)sqrtf((float)x) : sqrt(x), w)); }
  if (!REALM) return VS(Z3_mk_fpa_sqrt(C, RNE(), toF(a, w)));
  Z3_ast x = simp(toF(a, w));
  if (is_num(x)) { double d = num_to_double(x); return VC(dC(sqrt(d), w)); }
  if (Z3_ast b = square_of(x)) {   // sqrt(b*b) is |b|
    Z3_ast Z = mk_real(0);
    if (implied(Z3_mk_ge(C, b, Z))) return real_val(b, w);
    Z3_ast nb = simp(Z3_mk_unary_minus(C, b));
    if (implied(Z3_mk_le(C, b, Z))) return real_val(nb, w);
    return VS(Z3_mk_ite(C, Z3_mk_ge(C, b, Z), b, nb));
  }
  if (decide(Z3_mk_lt(C, x, mk_real(0)))) return VC(dC(NAN, w));
  auto it = memo_sqrt.find(Z3_get_ast_id(C, x));
  if (it != memo_sqrt.end()) return VS(it->second);
  Z3_ast s = fresh_real("sqrt").a;
  memo_sqrt[Z3_get_ast_id(C, x)] = s; sqrt_arg[Z3_get_ast_id(C, s)] = x;
  axiom(Z3_mk_ge(C, s, mk_real(0)));
  axiom(Z3_mk_eq(C, mul2(s, s), x));
  return VS(s);
}
static std::array<Z3_ast, 3> & trig_of(Z3_ast x) {
  x = simp(x);
  for (auto & t : trig) if (Z3_is_eq_ast(C, t[0], x)) return t;
  // negated argument: reuse
  Z3_ast nx = simp(Z3_mk_unary_minus(C, x));
  for (auto & t : trig) if (Z3_is_eq_ast(C, t[0], nx)) { trig.push_back({x, simp(Z3_mk_unary_minus(C, t[1])), t[2]}); return trig.back(); }
  Z3_ast s = fresh_real("sin").a, c = fresh_real("cos").a;
  axiom(Z3_mk_eq(C, add2(mul2(s, s), mul2(c, c)), mk_real(1)));
  axiom(rle(s, mk_real(1))); axiom(rle(mk_real(-1), s)); axiom(rle(c, mk_real(1))); axiom(rle(mk_real(-1), c));
  // argument zero
  axiom(Z3_mk_implies(C, Z3_mk_eq(C, x, mk_real(0)), zand({Z3_mk_eq(C, s, mk_real(0)), Z3_mk_eq(C, c, mk_real(1))})));
  // double and half angles already seen
  Z3_ast dbl = simp(mul2(mk_real(2), x)), hlf = simp(mul2(mk_real(0.5), x));
  Z3_ast ndbl = simp(Z3_mk_unary_minus(C, dbl));
  for (auto & t : trig) {
    if (Z3_is_eq_ast(C, t[0], ndbl)) { axiom(Z3_mk_eq(C, t[1], mul2(mk_real(-2), mul2(s, c)))); axiom(Z3_mk_eq(C, t[2], add2(mk_real(1), mul2(mk_real(-2), mul2(s, s))))); }
    if (Z3_is_eq_ast(C, t[0], dbl)) { axiom(Z3_mk_eq(C, t[1], mul2(mk_real(2), mul2(s, c)))); axiom(Z3_mk_eq(C, t[2], add2(mk_real(1), mul2(mk_real(-2), mul2(s, s))))); }
    if (Z3_is_eq_ast(C, t[0], hlf)) { axiom(Z3_mk_eq(C, s, mul2(mk_real(2), mul2(t[1], t[2])))); axiom(Z3_mk_eq(C, c, add2(mk_real(1), mul2(mk_real(-2), mul2(t[1], t[1]))))); }
  }
  trig.push_back({x, s, c});
  return trig.back();
}
static Z3_ast uf1(const char * n, Z3_ast x) {   // FP mode: uninterpreted function
  Z3_sort s = Z3_get_sort(C, x);
  Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n), 1, &s, s);
  return Z3_mk_app(C, f, 1, &x);
}
static Val f_trig(bool sn, Val a, unsigned w) {
  if (cdbl(a)) { double x = cD(a.u, w); return VC(dC(sn ? sin(x) : cos(x), w)); }
  if (!REALM) {
    Z3_ast x = toF(a, w), t = uf1(sn ? "sin" : "cos", x);
    axiom(Z3_mk_iff(C, Z3_mk_fpa_is_nan(C, t), Z3_mk_or(C, 2, std::array<Z3_ast, 2>{Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_infinite(C, x)}.data())));
    axiom(znot(Z3_mk_fpa_gt(C, t, toF(VC(dC(1, w)), w)))); axiom(znot(Z3_mk_fpa_lt(C, t, toF(VC(dC(-1, w)), w))));
    return VS(t);
  }
  Z3_ast x = simp(toF(a, w));
  if (is_num(x)) return VC(dC(sn ? sin(num_to_double(x)) : cos(num_to_double(x)), w));
  auto t = trig_of(x);
  return VS(sn ? t[1] : t[2]);
}
static Val f_acos(Val a, unsigned w) {
  if (cdbl(a)) return VC(dC(acos(cD(a.u, w)), w));
  if (!REALM) {
    Z3_ast x = toF(a, w), t = uf1("acos", x), one = toF(VC(dC(1, w)), w), mone = toF(VC(dC(-1, w)), w);
    axiom(Z3_mk_iff(C, Z3_mk_fpa_is_nan(C, t), Z3_mk_or(C, 3, std::array<Z3_ast, 3>{Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_gt(C, x, one), Z3_mk_fpa_lt(C, x, mone)}.data())));
    axiom(znot(Z3_mk_fpa_lt(C, t, toF(VC(dC(0, w)), w)))); axiom(znot(Z3_mk_fpa_gt(C, t, toF(VC(dC(w == 32 ? (double)(float)M_PI : M_PI, w)), w))));
    return VS(t);
  }
  Z3_ast c = simp(toF(a, w));
  if (decide(Z3_mk_or(C, 2, std::array<Z3_ast, 2>{Z3_mk_gt(C, c, mk_real(1)), Z3_mk_lt(C, c, mk_real(-1))}.data()))) return VC(dC(NAN, w));
  for (auto & d : acosdefs) if (Z3_is_eq_ast(C, d.c, c)) return VS(d.theta);
  Z3_ast t = fresh_real("acos").a;
  axiom(Z3_mk_ge(C, t, mk_real(0))); axiom(rle(t, mk_real(M_PI)));
  axiom(Z3_mk_iff(C, Z3_mk_eq(C, c, mk_real(1)), Z3_mk_eq(C, t, mk_real(0))));
  axiom(Z3_mk_iff(C, Z3_mk_eq(C, c, mk_real(-1)), Z3_mk_eq(C, t, mk_real(M_PI))));
  axiom(Z3_mk_iff(C, Z3_mk_gt(C, c, mk_real(0)), Z3_mk_lt(C, t, mk_real(M_PI / 2))));
  for (auto & d : acosdefs) { axiom(Z3_mk_iff(C, Z3_mk_lt(C, c, d.c), Z3_mk_gt(C, t, d.theta))); axiom(Z3_mk_iff(C, Z3_mk_gt(C, c, d.c), Z3_mk_lt(C, t, d.theta))); }
  acosdefs.push_back({t, c});
  return VS(t);
}
static Val f_atan2(Val y, Val x, unsigned w) {
  if (cdbl(y) && cdbl(x)) return VC(dC(atan2(cD(y.u, w), cD(x.u, w)), w));
  if (!REALM) { Z3_sort s = sFP(w == 64); Z3_sort ss[2] = {s, s}; Z3_ast p[2] = {toF(y, w), toF(x, w)};
    return VS(Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "atan2"), 2, ss, s), 2, p)); }
  Z3_ast Y = simp(toF(y, w)), X = simp(toF(x, w));
  for (auto & m : memo_atan2) if (Z3_is_eq_ast(C, m[0], Y) && Z3_is_eq_ast(C, m[1], X)) return VS(m[2]);
  Z3_ast t = fresh_real("atan2").a; Z3_ast Z = mk_real(0), PI = mk_real(M_PI);
  axiom(rle(mk_real(-M_PI), t)); axiom(rle(t, PI));
  // polar form: x = r cos t, y = r sin t
  Z3_ast r = fresh_real("r").a;
  axiom(Z3_mk_ge(C, r, Z));
  auto & tr = trig_of(t);
  Z3_ast s = tr[1], c = tr[2];
  axiom(Z3_mk_eq(C, X, mul2(r, c))); axiom(Z3_mk_eq(C, Y, mul2(r, s)));
  axiom(Z3_mk_eq(C, mul2(r, r), add2(mul2(X, X), mul2(Y, Y))));
  axiom(Z3_mk_implies(C, Z3_mk_gt(C, Y, Z), Z3_mk_gt(C, t, Z)));
  axiom(Z3_mk_implies(C, Z3_mk_lt(C, Y, Z), Z3_mk_lt(C, t, Z)));
  axiom(Z3_mk_implies(C, zand({Z3_mk_eq(C, Y, Z), Z3_mk_ge(C, X, Z)}), Z3_mk_eq(C, t, Z)));
  axiom(Z3_mk_implies(C, zand({Z3_mk_eq(C, Y, Z), Z3_mk_lt(C, X, Z)}), Z3_mk_eq(C, t, PI)));
  for (size_t i = 0; i + 1 < trig.size(); i++)   // atan2(sin a, cos a) = a within half a turn
    if (Z3_is_eq_ast(C, trig[i][1], Y) && Z3_is_eq_ast(C, trig[i][2], X)) axiom(Z3_mk_implies(C, zand({rle(mk_real(-M_PI), trig[i][0]), rle(trig[i][0], PI)}), Z3_mk_eq(C, t, trig[i][0])));
  memo_atan2.push_back({Y, X, t});
  return VS(t);
}
enum RM { FLOOR, CEIL, TRUNC, ROUND, RINT };
static Val f_round(RM m, Val a, unsigned w) {
  if (cdbl(a)) { double x = cD(a.u, w); return VC(dC(m == FLOOR ? floor(x) : m == CEIL ? ceil(x) : m == TRUNC ? trunc(x) : m == ROUND ? round(x) : nearbyint(x), w)); }
  if (!REALM) {
    Z3_ast rm = m == FLOOR ? Z3_mk_fpa_rtn(C) : m == CEIL ? Z3_mk_fpa_rtp(C) : m == TRUNC ? RTZ() : m == ROUND ? Z3_mk_fpa_rna(C) : RNE();
    return VS(Z3_mk_fpa_round_to_integral(C, rm, toF(a, w)));
  }
  Z3_ast x = toF(a, w), Z = mk_real(0);
  auto fl = [&](Z3_ast v) { return Z3_mk_int2real(C, Z3_mk_real2int(C, v)); };
  auto ng = [&](Z3_ast v) { return Z3_mk_unary_minus(C, v); };
  Z3_ast r;
  switch (m) {
    case FLOOR: r = fl(x); break;
    case CEIL: r = ng(fl(ng(x))); break;
    case TRUNC: r = Z3_mk_ite(C, Z3_mk_ge(C, x, Z), fl(x), ng(fl(ng(x)))); break;
    default: r = Z3_mk_ite(C, Z3_mk_ge(C, x, Z), fl(add2(x, mk_real(0.5))), ng(fl(add2(ng(x), mk_real(0.5)))));
  }
  return real_val(simp(r), w);
}
static Val f_abs(Val a, unsigned w) {
  if (cdbl(a)) return VC(a.u & msk(w - 1));
  Z3_ast x = toF(a, w);
  if (!REALM) return VS(Z3_mk_fpa_abs(C, x));
  if (is_num(x)) return real_val(num_to_double(x) >= 0 ? x : simp(Z3_mk_unary_minus(C, x)), w);
  return VS(Z3_mk_ite(C, Z3_mk_ge(C, x, mk_real(0)), x, Z3_mk_unary_minus(C, x)));
}
static Val f_minmax(bool mx, Val a, Val b, unsigned w) {
  if (cdbl(a) && cdbl(b)) return VC(dC(mx ? fmax(cD(a.u, w), cD(b.u, w)) : fmin(cD(a.u, w), cD(b.u, w)), w));
  if (!REALM) return VS(mx ? Z3_mk_fpa_max(C, toF(a, w), toF(b, w)) : Z3_mk_fpa_min(C, toF(a, w), toF(b, w)));
  for (int sw = 0; sw < 2; sw++) { const Val & c = sw ? a : b, & o = sw ? b : a; if (cdbl(c) && !std::isfinite(cD(c.u, w))) { double d = cD(c.u, w); if (std::isnan(d)) return o; return ((d > 0) == mx) ? c : o; } }
  Z3_ast x = toF(a, w), y = toF(b, w);
  return VS(Z3_mk_ite(C, mx ? Z3_mk_ge(C, x, y) : Z3_mk_le(C, x, y), x, y));
}
static Val fp_to_int(Val a, unsigned fw, unsigned w, bool sg) {
  if (cdbl(a)) {
    double x = cD(a.u, fw);
    double lo = sg ? -ldexp(1, w - 1) : 0, hi = sg ? ldexp(1, w - 1) : ldexp(1, w);
    double t = trunc(x);
    if (!(t >= lo && t < hi)) {
      if (o_fpcast) violation("fpcast", "float value " + std::to_string(x) + " does not fit the integer type it is cast to " + loc());
      return VC((sg && w <= 32 && !(std::fabs(t) < 2147483648.0) ? 0x80000000ULL : 0x8000000000000000ULL) & msk(w));
    }
    return VC((sg ? (uint64_t)(int64_t)t : (uint64_t)t) & msk(w));
  }
  if (REALM) {
    Z3_ast x = simp(toF(a, fw));
    if (is_num(x)) { double t = trunc(num_to_double(x)); return VC((sg ? (uint64_t)(int64_t)t : (uint64_t)t) & msk(w)); }
    // enumerate the truncated value
    for (int i = 0; i < 300; i++) {
      double d; bool got = false;
      if (have_model) { Z3_ast o; if (Z3_model_eval(C, cur_model, x, true, &o) && is_num(o)) { d = num_to_double(o); got = true; } }
      if (!got) {
        Z3_ast t = mkvar("enumr", sReal()); free_vars(t);
        auto s = slice(x); s.push_back(Z3_mk_eq(C, t, x));
        Query q = solve(s, true);
        if (q.r == UNSAT) { sh->infeasible++; path_end("infeasible"); }
        if (q.r != SAT) unsupported("cannot enumerate float-to-int " + loc());
        for (auto & [c, v] : q.vals) if (Z3_is_eq_ast(C, c, t)) { d = num_to_double(v); got = true; }
        if (!got) unsupported("enumr");
      }
      double k = trunc(d);
      Z3_ast lo, hi;
      if (k > 0) { lo = Z3_mk_ge(C, x, mk_real(k)); hi = Z3_mk_lt(C, x, mk_real(k + 1)); }
      else if (k < 0) { lo = Z3_mk_gt(C, x, mk_real(k - 1)); hi = Z3_mk_le(C, x, mk_real(k)); }
      else { lo = Z3_mk_gt(C, x, mk_real(-1)); hi = Z3_mk_lt(C, x, mk_real(1)); }
      if (decide(zand({lo, hi}))) return fp_to_int(VC(dC(k, 64)), 64, w, sg);
    }
    unsupported("too many float-to-int values " + loc());
  }
  Z3_ast x = toF(a, fw);
  Z3_ast t = Z3_mk_fpa_round_to_integral(C, RTZ(), x);
  double lo = sg ? -ldexp(1, w - 1) : 0, hi = sg ? ldexp(1, w - 1) : ldexp(1, w);
  Z3_ast in = zand({Z3_mk_fpa_geq(C, t, toF(VC(dC(lo, fw)), fw)), Z3_mk_fpa_lt(C, t, toF(VC(dC(hi, fw)), fw))});
  if (!decide(in)) { if (o_fpcast) violation("fpcast", "float value does not fit the integer type it is cast to " + loc()); return VC((w <= 32 ? 0x80000000ULL : 1ULL << 63) & msk(w)); }
  Z3_ast r = simp(sg ? Z3_mk_fpa_to_sbv(C, RTZ(), x, w) : Z3_mk_fpa_to_ubv(C, RTZ(), x, w));
  return VS(r);
}
static Val int_to_fp(Val a, unsigned w, unsigned fw, bool sg) {
  if (conc(a)) { double d = sg ? (double)sx(a.u, w) : (double)a.u; return VC(fw == 32 ? dC(sg ? (float)sx(a.u, w) : (float)a.u, 32) : dC(d, 64)); }
  if (!REALM) return VS(sg ? Z3_mk_fpa_to_fp_signed(C, RNE(), toBV(a, w), sFP(fw == 64)) : Z3_mk_fpa_to_fp_unsigned(C, RNE(), toBV(a, w), sFP(fw == 64)));
  if (a.k == K_S && skind(a.a) == Z3_BOOL_SORT) return VS(Z3_mk_ite(C, a.a, mk_real(sg ? -1 : 1), mk_real(0)));
  return VS(Z3_mk_int2real(C, Z3_mk_bv2int(C, toBV(a, w), sg)));
}
// --narrow: a double that becomes a float changes by up to half a unit in the last place
static std::unordered_set<unsigned> floatAsts; static std::unordered_map<unsigned, Z3_ast> narrowed;
static Val fext(Val a, unsigned w, unsigned tw) {
  if (cdbl(a)) return VC(dC(cD(a.u, w), tw));
  if (REALM) {
    Z3_ast x = toF(a, w); if (!o_narrow) return VS(x);
    if (tw > w) { floatAsts.insert(Z3_get_ast_id(C, x)); return VS(x); }
    if (tw == w || floatAsts.count(Z3_get_ast_id(C, x)) || Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, x))) == Z3_OP_TO_REAL) return VS(x);
    if (is_num(x)) { double d = num_to_double(x); if ((double)(float)d == d) return VS(x); return VC(dC(d, 32)); }
    auto it = narrowed.find(Z3_get_ast_id(C, x)); if (it != narrowed.end()) return VS(it->second);
    Z3_ast r = fresh_real("narrow").a, e = mk_real(ldexp(1., -24)), one = mk_real(1), lo[2] = {x, Z3_mk_sub(C, 2, (Z3_ast[]){one, e})}, hi[2] = {x, Z3_mk_add(C, 2, (Z3_ast[]){one, e})};
    Z3_ast l = Z3_mk_mul(C, 2, lo), h = Z3_mk_mul(C, 2, hi), Z = mk_real(0);
    Z3_ast pos[3] = {Z3_mk_ge(C, x, Z), Z3_mk_ge(C, r, l), Z3_mk_le(C, r, h)}, neg[3] = {Z3_mk_lt(C, x, Z), Z3_mk_le(C, r, l), Z3_mk_ge(C, r, h)};
    Z3_ast both[2] = {Z3_mk_and(C, 3, pos), Z3_mk_and(C, 3, neg)}; axiom(Z3_mk_or(C, 2, both));
    sh->narrowed++; narrowed[Z3_get_ast_id(C, x)] = r; floatAsts.insert(Z3_get_ast_id(C, r)); return VS(r);
  }
  return VS(Z3_mk_fpa_to_fp_float(C, RNE(), toF(a, w), sFP(tw == 64)));
}
static Val is_class(Val a, unsigned w, unsigned mask) {
  if (cdbl(a)) {
    double x = cD(a.u, w); bool r = false;
    if (std::isnan(x)) r = mask & 3; else if (std::isinf(x)) r = x < 0 ? mask & 4 : mask & 0x200;
    else if (x == 0) r = std::signbit(x) ? mask & 0x20 : mask & 0x40;
    else { bool sub = w == 64 ? std::fpclassify(x) == FP_SUBNORMAL : std::fpclassify((float)x) == FP_SUBNORMAL; r = x < 0 ? (sub ? mask & 0x10 : mask & 8) : (sub ? mask & 0x80 : mask & 0x100); }
    return VC(r);
  }
  Z3_ast x = toF(a, w); std::vector<Z3_ast> o;
  if (REALM) {
    if (mask & 0x18) o.push_back(Z3_mk_lt(C, x, mk_real(0)));
    if (mask & 0x60) o.push_back(Z3_mk_eq(C, x, mk_real(0)));
    if (mask & 0x180) o.push_back(Z3_mk_gt(C, x, mk_real(0)));
  } else {
    Z3_ast ng = Z3_mk_fpa_is_negative(C, x), ps = Z3_mk_fpa_is_positive(C, x);
    if (mask & 3) o.push_back(Z3_mk_fpa_is_nan(C, x));
    if (mask & 4) o.push_back(zand({ng, Z3_mk_fpa_is_infinite(C, x)})); if (mask & 0x200) o.push_back(zand({ps, Z3_mk_fpa_is_infinite(C, x)}));
    if (mask & 8) o.push_back(zand({ng, Z3_mk_fpa_is_normal(C, x)})); if (mask & 0x100) o.push_back(zand({ps, Z3_mk_fpa_is_normal(C, x)}));
    if (mask & 0x10) o.push_back(zand({ng, Z3_mk_fpa_is_subnormal(C, x)})); if (mask & 0x80) o.push_back(zand({ps, Z3_mk_fpa_is_subnormal(C, x)}));
    if (mask & 0x20) o.push_back(zand({ng, Z3_mk_fpa_is_zero(C, x)})); if (mask & 0x40) o.push_back(zand({ps, Z3_mk_fpa_is_zero(C, x)}));
  }
  if (o.empty()) return VC(0);
  return boolv(Z3_mk_or(C, o.size(), o.data()));
}

static Val vselect(const Val & c, const Val & a, const Val & b, Type * t) {
  if (c.k == K_C) return c.u & 1 ? a : b;
  if (c.k == K_U) return b;
  if (t->isVectorTy() && c.k == K_A) {
    auto * g = new std::vector<Val>;
    for (size_t i = 0; i < c.g->size(); i++) g->push_back(vselect((*c.g)[i], (*a.g)[i], (*b.g)[i], t->getScalarType()));
    return VA(g);
  }
  Z3_ast cb = simp(toBool(c));
  if (is_true(cb)) return a;
  if (is_false(cb)) return b;
  if (t->isAggregateType() || t->isVectorTy() || t->isPointerTy()) { return decide(cb) ? a : b; }
  if (a.k == K_C && b.k == K_C && a.u == b.u) return a;
  if (fpw(t)) {
    unsigned w = fpw(t);
    if (REALM) {
      auto nf = [&](const Val & v) { return v.k == K_C && !std::isfinite(cD(v.u, w)); };
      if (nf(a) || nf(b) || a.k == K_B || b.k == K_B) return decide(cb) ? a : b;
    }
    return VS(Z3_mk_ite(C, cb, toF(a, w), toF(b, w)));
  }
  unsigned w = DL->getTypeSizeInBits(t);
  if (w == 1) return boolv(Z3_mk_ite(C, cb, toBool(a), toBool(b)));
  auto opq = [](const Val & v) { return v.k == K_B || (v.k == K_S && (skind(v.a) == Z3_REAL_SORT || skind(v.a) == Z3_FLOATING_POINT_SORT)); };
  if (opq(a) || opq(b)) return decide(cb) ? a : b;
  return VS(Z3_mk_ite(C, cb, toBV(a, w), toBV(b, w)));
}
static Val vcast(unsigned op, const Val & v, Type * st, Type * dt) {
  unsigned sw = DL->getTypeSizeInBits(st), dw = DL->getTypeSizeInBits(dt);
  switch (op) {
    case Instruction::Trunc:
      if (conc(v)) return VC(v.u & msk(dw));
      if (v.k == K_B || (v.k == K_S && skind(v.a) == Z3_REAL_SORT)) {
        if (dw % 8 == 0) {
          Bytes * R = new Bytes; R->v.resize(dw / 8);
          for (unsigned i = 0; i < dw / 8; i++) { if (v.k == K_B) R->v[i] = v.b->v[i]; else { R->v[i].st = 1; R->v[i].a = v.a; R->v[i].idx = i; R->v[i].n = sw / 8; } }
          unsigned n = dw / 8; bool whole = R->v[0].st == 1 && R->v[0].idx == 0 && R->v[0].n == n;
          for (unsigned i = 1; i < n && whole; i++) whole = R->v[i].st == 1 && R->v[i].a == R->v[0].a && R->v[i].idx == i;
          if (whole) return VS(R->v[0].a);
          bool allc = true; uint64_t u = 0; for (unsigned i = 0; i < n; i++) { if (R->v[i].st) allc = false; else u |= (uint64_t)R->v[i].c << (8 * i); }
          if (allc) return VC(u);
          Val r; r.k = K_B; r.b = R; return r;
        }
      }
      if (dw == 1) { Z3_ast a = toBV(v, sw); return boolv(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, a), bvc(1, 1))); }
      { Z3_ast r = simp(Z3_mk_extract(C, dw - 1, 0, toBV(v, sw))); if (is_num(r) && dw <= 64) { uint64_t u; Z3_get_numeral_uint64(C, r, &u); return VC(u); } return VS(r); }
    case Instruction::ZExt:
      if (conc(v)) { if (dw > 64) return VS(Z3_mk_zero_ext(C, dw - 64, bvc(v.u, 64))); return VC(v.u); }
      if (sw == 1) return VS(Z3_mk_ite(C, toBool(v), bvc(1, dw), bvc(0, dw)));
      if (v.k == K_B || (v.k == K_S && skind(v.a) == Z3_REAL_SORT)) {
        Bytes * R = new Bytes; R->v.resize(dw / 8);
        for (unsigned i = 0; i < sw / 8; i++) { if (v.k == K_B) R->v[i] = v.b->v[i]; else { R->v[i].st = 1; R->v[i].a = v.a; R->v[i].idx = i; R->v[i].n = sw / 8; } }
        Val r; r.k = K_B; r.b = R; return r;
      }
      return VS(Z3_mk_zero_ext(C, dw - sw, toBV(v, sw)));
    case Instruction::SExt:
      if (conc(v)) { if (dw > 64) return VS(Z3_mk_sign_ext(C, dw - 64, bvc(sx(v.u, sw), 64))); return VC((uint64_t)sx(v.u, sw) & msk(dw)); }
      if (sw == 1) return VS(Z3_mk_ite(C, toBool(v), bvc(~0ULL, dw), bvc(0, dw)));
      return VS(Z3_mk_sign_ext(C, dw - sw, toBV(v, sw)));
    case Instruction::FPToSI: return fp_to_int(v, sw, dw, true);
    case Instruction::FPToUI: return fp_to_int(v, sw, dw, false);
    case Instruction::SIToFP: return int_to_fp(v, sw, dw, true);
    case Instruction::UIToFP: return int_to_fp(v, sw, dw, false);
    case Instruction::FPTrunc: case Instruction::FPExt: 
      if (dt->isX86_FP80Ty() || st->isX86_FP80Ty()) { if (conc(v)) return v; unsupported("x86_fp80"); }
      return fext(v, sw, dw);
    case Instruction::PtrToInt: if (conc(v)) return VC(v.u & msk(dw)); return v;
    case Instruction::IntToPtr: return v;
    case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if (!REALM && v.k == K_S && !fpw(dt) && skind(v.a) == Z3_FLOATING_POINT_SORT) return v;
      return v;
  }
  unsupported("cast");
}
// reinterpretation between vectors / scalars of different shapes
static Val bitcast(const Val & v, Type * st, Type * dt) {
  if (!st->isVectorTy() && !dt->isVectorTy()) return v;
  uint64_t n = DL->getTypeStoreSize(st);
  uint64_t t = mk_obj(n, 2, "bitcast", 2);
  store(t, st, v);
  Val r = load(t, dt);
  delete objs.back(); objs.pop_back();
  return r;
}

// -------------------------------------------------------------- exceptions
struct Exc { uint64_t obj, ti; };
static std::vector<Exc> caught; static Exc inflight; 
static std::string ti_name(uint64_t ti) {
  auto it = pseudoAt.find(ti); if (it != pseudoAt.end()) return it->second;
  Obj * o = find(ti); return o ? o->name : "?";
}
static const std::map<std::string, std::string> & std_bases() {
  static std::map<std::string, std::string> m = {
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
    {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}};
  return m;
}
static std::vector<std::string> ti_bases(const std::string & n) {
  std::vector<std::string> r;
  auto it = std_bases().find(n); if (it != std_bases().end()) { r.push_back(it->second); return r; }
  auto * G = M->getGlobalVariable(n, true);
  if (G && G->hasInitializer()) if (auto * S = dyn_cast<ConstantStruct>(G->getInitializer()))
    for (unsigned i = 2; i < S->getNumOperands(); i++) if (auto * b = dyn_cast<GlobalVariable>(S->getOperand(i)->stripPointerCasts())) r.push_back(b->getName().str());
  return r;
}
static bool ti_derives(const std::string & d, const std::string & b) {
  if (d == b) return true;
  for (auto & x : ti_bases(d)) if (ti_derives(x, b)) return true;
  return false;
}
static uint64_t ti_addr(const std::string & n) {
  if (auto * G = M->getGlobalVariable(n, true)) return gv_addr(G);
  return pseudo(n, 16);
}
static Val & reg(Frame * f, int s) { return f->r[s]; }
static Val getop(Frame * f, const Opr & o) { return o.slot < 0 ? o.c : f->r[o.slot]; }
static void pop_frame() {
  Frame * f = stk.back();
  for (uint64_t a : f->allocas) { Obj * o = find(a); o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); delete o->sym; o->sym = nullptr; o->size = 0; }
  delete f; stk.pop_back();
}
static void goto_bb(Frame * f, int to);
static std::string throw_loc;
static void unwind() {   // top frame is at a call/invoke/resume instruction
  std::string tn = ti_name(inflight.ti);
  for (;;) {
    if (stk.empty()) path_end("uncaught", "uncaught exception " + demangle(tn.substr(0, 4) == "_ZTI" ? tn : tn) + throw_loc);
    Frame * f = stk.back();
    DI & d = f->f->bbs[f->bb].ins[f->ip];
    if (auto * inv = dyn_cast<InvokeInst>(d.I)) {
      auto * lp = inv->getLandingPadInst();
      bool match = lp->isCleanup(); uint64_t sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          Constant * cl = lp->getClause(i);
          if (cl->isNullValue()) { match = true; sel = 0x7fff; break; }
          uint64_t ca = constVal(cl).u;
          if (ti_derives(tn, ti_name(ca))) { match = true; sel = (ca >> 32) & 0x7fffffff; break; }
        } else {  // filter: exception specification
          auto * arr = dyn_cast<ConstantArray>(lp->getClause(i)); bool ok = false;
          if (arr) for (auto & o : arr->operands()) { uint64_t ca = constVal(cast<Constant>(o)).u; if (ti_derives(tn, ti_name(ca))) ok = true; }
          if (!ok) { match = true; sel = (uint32_t)-1; break; }
        }
      }
      if (match) {
        goto_bb(f, d.b1);
        DI & L = f->f->bbs[f->bb].ins[f->ip];
        auto * g = new std::vector<Val>{VC(inflight.obj), VC(sel)};
        f->r[L.dst] = VA(g);
        f->ip++;
        return;
      }
    }
    pop_frame();
  }
}
static bool did_unwind = false;
static void throw_std(const char * ti) {
  throw_loc = " thrown at " + loc();
  uint64_t o = mk_obj(128, 1, "exception", 0); wr64(o, exc_vtable());
  inflight = {o, ti_addr(ti)};
  did_unwind = true;
  unwind();
}

static void goto_bb(Frame * f, int to) {
  BBI & b = f->f->bbs[to];
  if (!b.phis.empty()) {
    std::vector<PhiCopy> * pc = nullptr;
    for (auto & p : b.phis) if (p.first == f->bb) { pc = &p.second; break; }
    if (pc) {
      if (pc->size() == 1) f->r[(*pc)[0].dst] = getop(f, (*pc)[0].src);
      else { static std::vector<Val> tmp; tmp.clear(); for (auto & p : *pc) tmp.push_back(getop(f, p.src)); for (size_t i = 0; i < tmp.size(); i++) f->r[(*pc)[i].dst] = tmp[i]; }
    }
  }
  f->bb = to; f->ip = 0;
}

// ------------------------------------------------------ replay + reporting
static void emit(const std::string & line) {
  int fd = open((o_out).c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  flock(fd, LOCK_EX);
  std::string l = line + "\n"; ssize_t r = write(fd, l.data(), l.size()); (void)r;
  flock(fd, LOCK_UN); close(fd);
}
static std::string jesc(const std::string & s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { r += ' '; } else r += c; } return r; }
static std::string val_bits(const Val & v, char kind, Z3_model m) {
  char b[64];
  if (v.k == K_C) { snprintf(b, sizeof b, "%016lx", (long)v.u); return b; }
  Z3_ast o = nullptr;
  if (!Z3_model_eval(C, m, v.a, true, &o)) return "0";
  o = simp(o);
  Z3_sort_kind k = skind(v.a);
  uint64_t u = 0;
  if (k == Z3_BOOL_SORT) u = is_true(o);
  else if (k == Z3_REAL_SORT) { double d = is_num(o) ? num_to_double(o) : 0; u = kind == 'f' ? dC(d, 32) : dC(d, 64); }
  else if (k == Z3_FLOATING_POINT_SORT) { Z3_ast bv = simp(Z3_mk_fpa_to_ieee_bv(C, o)); if (is_num(bv)) Z3_get_numeral_uint64(C, bv, &u); else u = kind == 'f' ? 0x7fc00000u : 0x7ff8000000000000ULL; }
  else if (is_num(o)) Z3_get_numeral_uint64(C, o, &u);
  snprintf(b, sizeof b, "%016lx", (long)u);
  return b;
}
static std::string write_inputs(Z3_model m, const std::string & file, const std::string & note, unsigned perturb = 0) {
  FILE * f = fopen(file.c_str(), "w"); if (perturb) fprintf(f, "tight\n");
  fprintf(f, "harness %s\nmode %s\n", o_entry.c_str(), REALM ? "real" : "fp");
  std::string desc;
  for (auto & in : inputs) {
    std::string b = val_bits(in.v, in.kind, m);
    uint64_t u = strtoull(b.c_str(), nullptr, 16);
    if (perturb && in.kind == 'd') {   // values that are no floats
      uint64_t z = perturb; for (unsigned char ch : in.name) z = (z ^ ch) * 0x9e3779b97f4a7c15ULL; z ^= z >> 29;
      u = dC(cD(u, 64) * (1 + (double)(z % 1000003) * 1e-9), 64); char t[32]; snprintf(t, sizeof t, "%016lx", (long)u); b = t;
    }
    char h[160];
    if (in.kind == 'd') snprintf(h, sizeof h, "%s=%.17g", in.name.c_str(), cD(u, 64));
    else if (in.kind == 'f') snprintf(h, sizeof h, "%s=%.9g", in.name.c_str(), cD(u, 32));
    else snprintf(h, sizeof h, "%s=%ld", in.name.c_str(), (long)u);
    fprintf(f, "v %s %c %s # %s\n", in.name.c_str(), in.kind, b.c_str(), h);
    if (desc.size() < 600) { desc += h; desc += " "; }
  }
  fprintf(f, "# %s\n", note.c_str());
  fclose(f);
  return desc;
}
// 0 pass, 77 assertion violated, 2 assumption failed, 3 diverged, >=128 signal, 124 timeout
static int run_native(const std::string & file, std::string & out) {
  std::string of = file + ".out";
  fflush(stdout); fflush(stderr);
  pid_t k = fork();
  if (k == 0) {
    setpgid(0, 0);
    int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1); dup2(fd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    alarm(o_ntimeout);
    setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0", 1);
    setenv("UBSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:print_stacktrace=0", 1);
    execl(o_native.c_str(), o_native.c_str(), o_entry.c_str(), file.c_str(), (char *)nullptr);
    _exit(126);
  }
  int st; waitpid(k, &st, 0);
  FILE * f = fopen(of.c_str(), "r"); char b[4096]; size_t n;
  if (f) { while ((n = fread(b, 1, sizeof b, f)) > 0) if (out.size() < 200000) out.append(b, n); fclose(f); }
  unlink(of.c_str());
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? 124 : 128 + WTERMSIG(st);
  return WEXITSTATUS(st);
}
static int label_id(const std::string & l) {
  while (sh->lock.test_and_set()) {}
  int n = sh->nlabels, r = -1;
  for (int i = 0; i < n; i++) if (l.substr(0, 95) == sh->labels[i]) { r = i; break; }
  if (r < 0) { if (n < 255) { strncpy(sh->labels[n], l.c_str(), 95); r = n; sh->nlabels = n + 1; } else r = 255; }
  sh->lock.clear();
  return r;
}
static bool native_violates(int rc) { return rc == 77 || rc == 78 || (rc >= 128) || rc == 124; }

static bool try_replay(const ModelVals & vals, const std::string & kind, const std::string & msg) {
  auto save = mvals; 
  for (auto & [c, x] : vals) save[Z3_get_ast_id(C, c)] = x;
  ModelVals mv; for (auto & [id, x] : save) { Z3_ast c = var_by_id(id); if (c) mv.push_back({c, x}); }
  Z3_model m = make_model(mv);
  long id = sh->viol_seq++;
  std::string file = o_work + "/cex_" + o_entry + "_" + std::to_string(id) + ".txt";
  std::string desc = write_inputs(m, file, kind + ": " + msg);
  std::string out;
  int rc = o_native.empty() ? 0 : run_native(file, out);
  if (native_violates(rc)) {
    if (rc == 124 && kind != "steps") { /* a hang natively is a violation of termination */ }
    sh->viol++;
    std::string tail = out.size() > 1500 ? out.substr(0, 1500) : out;
    emit("{\"t\":\"violation\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"file\":\"" + file + "\",\"inputs\":\"" + jesc(desc) + "\",\"rc\":" + std::to_string(rc) + ",\"native\":\"" + jesc(tail) + "\",\"loc\":\"" + jesc(loc()) + "\"}");
    return true;
  }
  for (unsigned k = 1; !narrowed.empty() && rc == 0 && k <= 8; k++) {   // the solver lost the property in a rounding to float: look at it with values that are no floats
    desc = write_inputs(m, file, kind + ": " + msg, k); std::string o2; int r2 = run_native(file, o2);
    if (r2 == 77 && o2.find(" is not ") != std::string::npos) {
      sh->viol++;
      emit("{\"t\":\"violation\",\"kind\":\"precision\",\"msg\":\"" + jesc(msg) + "\",\"file\":\"" + file + "\",\"inputs\":\"" + jesc(desc) + "\",\"rc\":" + std::to_string(r2) + ",\"native\":\"" + jesc(o2.substr(0, 1500)) + "\",\"loc\":\"" + jesc(loc()) + "\"}");
      return true;
    }
  }
  unlink(file.c_str());
  emit("{\"t\":\"unconfirmed\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"inputs\":\"" + jesc(desc) + "\",\"rc\":" + std::to_string(rc) + ",\"native\":\"" + jesc(out.substr(0, 300)) + "\",\"loc\":\"" + jesc(loc()) + "\"}");
  return false;
}
// find a model of PC + extra and replay it; several attempts with different shapes
static bool confirm(const std::vector<Z3_ast> & extra, const std::string & kind, const std::string & msg, std::vector<Z3_ast> soft = {}) {
  int lid = label_id("try:" + kind + ":" + msg);
  if (sh->label_tries[lid]++ > 12) return false;
  std::vector<std::vector<Z3_ast>> attempts;
  std::vector<Z3_ast> bound, gen;
  for (auto & in : inputs) if (in.v.k == K_S && skind(in.v.a) == Z3_REAL_SORT) {
    bound.push_back(Z3_mk_le(C, in.v.a, mk_real(100))); bound.push_back(Z3_mk_ge(C, in.v.a, mk_real(-100)));
    gen.push_back(znot(Z3_mk_eq(C, in.v.a, mk_real(0))));
  }
  if (!soft.empty()) { auto b = bound; b.insert(b.end(), soft.begin(), soft.end()); attempts.push_back(b); attempts.push_back(soft); }
  if (!gen.empty() && gen.size() < 12) { auto b = bound; b.insert(b.end(), gen.begin(), gen.end()); attempts.push_back(b); }
  attempts.push_back(bound);
  attempts.push_back({});
  bool any = false;
  for (auto & at : attempts) {
    std::vector<Z3_ast> cs = PC; cs.insert(cs.end(), extra.begin(), extra.end()); cs.insert(cs.end(), at.begin(), at.end());
    Query q = solve(cs, true, o_qtimeout);
    if (q.r != SAT) continue;
    any = true;
    if (try_replay(q.vals, kind, msg)) return true;
    if (bound.empty() && soft.empty()) break;
  }
  sh->unconfirmed++;
  (void)any;
  return false;
}
[[noreturn]] static void violation(const std::string & kind, const std::string & msg) {
  std::string m = msg + " " + loc();
  if (o_trace) fprintf(stderr, "candidate violation %s: %s\n", kind.c_str(), m.c_str());
  if (confirm({}, kind, m)) sh->stop = 1;
  else { // is the path feasible at all?
    Query q = solve(PC, false);
    if (q.r == UNSAT) { sh->infeasible++; path_end("infeasible"); }
  }
  path_end("violation", m);
}
static void do_assert(Z3_ast c, const std::string & label, std::vector<Z3_ast> soft = {}) {
  sh->asserts++;
  c = simp(c);
  if (is_true(c)) { sh->asserts_ok++; sh->asserts_trivial++; return; }
  Z3_ast nc = simp(znot(c));
  Res r;
  if (is_false(c)) r = pc_uncertain ? solve(PC, false).r : SAT;
  else r = feasible(nc);
  if (r == UNSAT) { sh->asserts_ok++; return; }
  if (o_trace) fprintf(stderr, "assert %s: %s at %s\n", label.c_str(), r == SAT ? "fails" : "unknown", loc().c_str());
  if (confirm({nc}, "assert", label, soft)) { sh->stop = 1; path_end("violation", label); }
  if (r == UNKNOWN) { sh->asserts_unknown++; emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\",\"loc\":\"" + jesc(loc()) + "\"}"); }
  else emit("{\"t\":\"notreproduced\",\"label\":\"" + jesc(label) + "\",\"loc\":\"" + jesc(loc()) + "\"}");
  // continue on the passing side
  if (is_false(c)) path_end("violation", label);
  if (feasible(c) == UNSAT) path_end("violation", label);
  add_pc(c); have_model = false;
}

static void validate_path() {
  if (o_native.empty() || sh->validated.load() >= o_validate) return;
  for (auto & in : inputs) if (in.v.k == K_S && in.name.substr(0, 6) == "uninit") return;
  sh->validated++;
  std::vector<Z3_ast> cs = PC;
  for (auto & in : inputs) if (in.v.k == K_S && skind(in.v.a) == Z3_REAL_SORT) { cs.push_back(Z3_mk_le(C, in.v.a, mk_real(50))); cs.push_back(Z3_mk_ge(C, in.v.a, mk_real(-50))); }
  Query q = solve(cs, true, 4000);
  if (q.r != SAT) q = solve(PC, true, 4000);
  if (q.r != SAT) { sh->validated--; return; }
  auto save = mvals; for (auto & [c, x] : q.vals) save[Z3_get_ast_id(C, c)] = x;
  ModelVals mv; for (auto & [id, x] : save) { Z3_ast c = var_by_id(id); if (c) mv.push_back({c, x}); }
  Z3_model m = make_model(mv);
  std::string file = o_work + "/val_" + o_entry + "_" + std::to_string(getpid()) + ".txt";
  std::string desc = write_inputs(m, file, "validation");
  std::string out; int rc = run_native(file, out);
  std::string why;
  if (rc != 0) why = "native exit " + std::to_string(rc) + ": " + out.substr(0, 400);
  size_t pos = 0; int nobs = 0;
  for (auto & o : observed) {
    size_t p = out.find("OBS ", pos); if (p == std::string::npos) break;
    size_t e = out.find('\n', p); std::string l = out.substr(p + 4, e - p - 4); pos = e;
    size_t sp = l.rfind(' '); double nat = strtod(l.c_str() + sp, nullptr);
    uint64_t u = strtoull(val_bits(o.v, 'd', m).c_str(), nullptr, 16); double sy = cD(u, 64);
    nobs++;
    if (o.v.k == K_C ? !(sy == nat || (std::isnan(sy) && std::isnan(nat)) || std::fabs(sy - nat) <= 1e-6 * std::max(1.0, std::fabs(nat))) : !(std::fabs(sy - nat) <= 1e-5 * std::max(1.0, std::fabs(nat)))) {
      if (!q.exact) continue;
      char b[200]; snprintf(b, sizeof b, "%s: symbolic %.17g native %.17g; ", o.name.c_str(), sy, nat); why += b;
    }
  }
  unlink(file.c_str());
  if (!why.empty()) { sh->mismatched++; }
  emit("{\"t\":\"validation\",\"ok\":" + std::string(why.empty() ? "true" : "false") + ",\"obs\":" + std::to_string(nobs) + ",\"inputs\":\"" + jesc(desc) + "\",\"why\":\"" + jesc(why) + "\"}");
}

[[noreturn]] static void path_end(const char * why, const std::string & msg) {
  sh->instrs += steps; steps = 0;
  std::string w = why;
  if (w == "uncaught") { if (confirm({}, "uncaught", msg)) sh->stop = 1; }
  else if (w == "unsupported") { sh->unsupported++; emit("{\"t\":\"unsupported\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(loc()) + "\"}"); }
  else if (w == "steps") { if (confirm({}, "steps", msg)) sh->stop = 1; else { sh->unsupported++; emit("{\"t\":\"unsupported\",\"msg\":\"step limit\",\"loc\":\"" + jesc(loc()) + "\"}"); } }
  if (o_trace && w != "done") fprintf(stderr, "path end: %s %s\n", why, msg.c_str());
  sh->paths_done++;
  if (w == "done" && !sh->stop) validate_path();
  if (sh->stop) for (pid_t k : kids) kill(k, 0);
  release_token();
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (WIFSIGNALED(st)) { sh->dropped++; sh->tokens++; } }
  fflush(stdout); fflush(stderr);
  _exit(0);
}

// --------------------------------------------------------------- externals
static Val vecmap(unsigned n, const std::function<Val(unsigned)> & fn) { auto * g = new std::vector<Val>; for (unsigned i = 0; i < n; i++) g->push_back(fn(i)); return VA(g); }
#include "externals.h"

// ------------------------------------------------------------- interpreter
static void push_frame(const Function * F, std::vector<Val> & args, DI * call) {
  FnInfo * f = prep(F);
  if (stk.size() > 3000) path_end("steps", "recursion too deep");
  if (!f->covered) {
    f->covered = true;
    for (auto & n : f->names) { size_t h = std::hash<std::string>()(n) & ((1 << 17) - 1); if (!sh->fncov[h].exchange(1)) emit("{\"t\":\"fn\",\"name\":\"" + jesc(n) + "\"}"); }
  }
  Frame * fr = new Frame; fr->f = f; fr->r.resize(f->nslots); fr->call = call;
  for (int i = 0; i < f->nargs && i < (int)args.size(); i++) {
    fr->r[i] = args[i];
    const Argument * A = F->getArg(i);
    if (A->hasByValAttr()) {
      uint64_t sz = DL->getTypeAllocSize(A->getParamByValType());
      uint64_t n = mk_obj(sz, 2, "byval", 2); mem_copy(n, args[i].u, sz); fr->r[i] = VC(n); fr->allocas.push_back(n);
    }
  }
  stk.push_back(fr);
}
static void do_return(Val v) {
  bool last = stk.size() == 1;
  pop_frame();
  if (last) return;
  Frame * f = stk.back();
  DI & d = f->f->bbs[f->bb].ins[f->ip];
  if (d.dst >= 0) f->r[d.dst] = v;
  if (d.opc == Instruction::Invoke) goto_bb(f, d.b0); else f->ip++;
}

static void exec_call(Frame * f, DI & d) {
  std::vector<Val> args; size_t n = d.ops.size() - (d.callee ? 0 : 1);
  args.reserve(n);
  for (size_t i = 0; i < n; i++) args.push_back(getop(f, d.ops[i]));
  const Function * F = d.callee; Handler h = d.h; std::string en;
  if (!F) {
    if (isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())) { 
      if (d.I->getType()->isVoidTy()) { if (d.opc == Instruction::Invoke) goto_bb(f, d.b0); else f->ip++; return; }
      if (d.I->getType()->isVectorTy() || fpw(d.I->getType())) { // Eigen's optimisation barrier
        f->r[d.dst] = args[0]; f->ip++; return; }
      unsupported("inline asm " + loc());
    }
    Val fp = getop(f, d.ops.back());
    uint64_t a = concretize(fp, 64);
    auto it = fnAt.find(a);
    if (it != fnAt.end()) F = it->second;
    else { auto p = pseudoAt.find(a); if (p == pseudoAt.end()) violation("memory", "call through an invalid function pointer"); en = p->second; }
    h = nullptr;
  } else if (d.resolved) { if (!h && F->isDeclaration()) unsupported("external " + d.ename + " " + loc()); }
  if (!d.resolved || !d.callee) {
    if (F) en = F->getName().str();
    d.ename = en;
    h = lookup_ext(en);
    if (d.callee) { d.h = h; d.resolved = true; }
    if (!h && (!F || F->isDeclaration())) unsupported("external " + en + " (" + demangle(en) + ") " + loc());
  }
  if (h) {
    did_unwind = false;
    Val r = h(d, args);
    if (did_unwind) return;
    if (d.dst >= 0) f->r[d.dst] = r;
    if (d.opc == Instruction::Invoke) goto_bb(f, d.b0); else f->ip++;
    return;
  }
  push_frame(F, args, &d);
}

static void run() {
  for (;;) {
    if (stk.empty()) return;
    Frame * f = stk.back();
    BBI & B = f->f->bbs[f->bb];
    DI & d = B.ins[f->ip];
    if (++steps % 4096 == 0) { sh->instrs += 4096; steps -= 4096; static long tot = 0; tot += 4096; if (tot > o_maxsteps) path_end("steps", "instruction limit"); if (tot % (4096 * 64) == 0) check_limits(); }
#define OP(i) getop(f, d.ops[i])
    switch (d.opc) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        Val a = OP(0), b = OP(1);
        if (d.vec) f->r[d.dst] = vecmap(a.g->size(), [&](unsigned i) { return ibin(d.opc, (*a.g)[i], (*b.g)[i], d.w); });
        else f->r[d.dst] = ibin(d.opc, a, b, d.w);
        f->ip++; break;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Val a = OP(0), b = OP(1);
        Val r = d.vec ? vecmap(a.g->size(), [&](unsigned i) { return fbin(d.opc, (*a.g)[i], (*b.g)[i], d.w); }) : fbin(d.opc, a, b, d.w);
        f->r[d.dst] = r; f->ip++; break;
      }
      case Instruction::FNeg: { Val a = OP(0); f->r[d.dst] = d.vec ? vecmap(a.g->size(), [&](unsigned i) { return fneg((*a.g)[i], d.w); }) : fneg(a, d.w); f->ip++; break; }
      case Instruction::ICmp: {
        auto p = cast<CmpInst>(d.I)->getPredicate(); Val a = OP(0), b = OP(1);
        f->r[d.dst] = d.vec ? vecmap(a.g->size(), [&](unsigned i) { return icmp(p, (*a.g)[i], (*b.g)[i], d.w2); }) : icmp(p, a, b, d.w2);
        f->ip++; break;
      }
      case Instruction::FCmp: {
        auto p = cast<CmpInst>(d.I)->getPredicate(); Val a = OP(0), b = OP(1);
        f->r[d.dst] = d.vec ? vecmap(a.g->size(), [&](unsigned i) { return fcmp(p, (*a.g)[i], (*b.g)[i], d.w2); }) : fcmp(p, a, b, d.w2);
        f->ip++; break;
      }
      case Instruction::Load: {
        Val p = OP(0);
        uint64_t a = p.k == K_C ? p.u : concretize(p, 64);
        f->r[d.dst] = load(a, d.ty); f->ip++; break;
      }
      case Instruction::Store: {
        Val p = OP(1);
        uint64_t a = p.k == K_C ? p.u : concretize(p, 64);
        store(a, d.ty, OP(0)); f->ip++; break;
      }
      case Instruction::GetElementPtr: {
        Val b = OP(0);
        if (b.k == K_A) unsupported("vector gep");
        bool allc = conc(b);
        for (auto & s : d.sc) if (!conc(OP(s.first))) allc = false;
        if (allc) {
          uint64_t a = b.u + d.off;
          for (size_t i = 0; i < d.sc.size(); i++) a += (uint64_t)(sx(OP(d.sc[i].first).u, d.gw[i]) * d.sc[i].second);
          f->r[d.dst] = VC(a);
        } else {
          Val r = b;
          if (d.off) r = ibin(Instruction::Add, r, VC(d.off), 64);
          for (size_t i = 0; i < d.sc.size(); i++) {
            Val x = OP(d.sc[i].first);
            if (d.gw[i] < 64) { if (conc(x)) x = VC(sx(x.u, d.gw[i])); else x = VS(Z3_mk_sign_ext(C, 64 - d.gw[i], toBV(x, d.gw[i]))); }
            r = ibin(Instruction::Add, r, ibin(Instruction::Mul, x, VC(d.sc[i].second), 64), 64);
          }
          f->r[d.dst] = r;
        }
        f->ip++; break;
      }
      case Instruction::Alloca: {
        auto * A = cast<AllocaInst>(d.I);
        uint64_t n = concretize(OP(0), d.w2) * DL->getTypeAllocSize(A->getAllocatedType());
        uint64_t a = mk_obj(n, 2, "stack", 2); f->allocas.push_back(a); f->r[d.dst] = VC(a); f->ip++; break;
      }
      case Instruction::Br:
        if (d.b1 < 0) goto_bb(f, d.b0);
        else {
          Val c = OP(0);
          bool t = c.k == K_C ? c.u & 1 : c.k == K_U ? false : decide(toBool(c));
          goto_bb(f, t ? d.b0 : d.b1);
        }
        break;
      case Instruction::Switch: {
        Val c = OP(0);
        if (conc(c)) { int64_t v = sx(c.u, d.w); int to = d.b0; for (auto & s : d.sc) if (s.second == v) { to = s.first; break; } goto_bb(f, to); }
        else {
          Z3_ast x = toBV(c, d.w); int to = -1;
          for (auto & s : d.sc) if (decide(Z3_mk_eq(C, x, bvc(s.second, d.w)))) { to = s.first; break; }
          goto_bb(f, to < 0 ? d.b0 : to);
        }
        break;
      }
      case Instruction::Ret: { Val v; if (!d.ops.empty()) v = OP(0); bool last = stk.size() == 1; do_return(v); if (last) return; break; }
      case Instruction::Call: case Instruction::Invoke: exec_call(f, d); break;
      case Instruction::Resume: { pop_frame(); if (stk.empty()) path_end("uncaught", "uncaught exception " + ti_name(inflight.ti) + throw_loc); unwind(); break; }
      case Instruction::Unreachable: violation("unreachable", "undefined behaviour reached");
      case Instruction::Select: {
        Val c = OP(0); Val r = vselect(c, OP(1), OP(2), d.I->getType()); f->r[d.dst] = r; f->ip++; break;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val a = OP(0); Type * st = d.I->getOperand(0)->getType()->getScalarType(), * dt = d.I->getType()->getScalarType();
        Val r = d.vec ? vecmap(a.g->size(), [&](unsigned i) { return vcast(d.opc, (*a.g)[i], st, dt); }) : vcast(d.opc, a, st, dt);
        f->r[d.dst] = r; f->ip++; break;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: f->r[d.dst] = bitcast(OP(0), d.I->getOperand(0)->getType(), d.I->getType()); f->ip++; break;
      case Instruction::Freeze: f->r[d.dst] = OP(0); if (f->r[d.dst].k == K_U) f->r[d.dst] = VC(0); f->ip++; break;
      case Instruction::ExtractValue: {
        Val a = OP(0); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) a = a.k == K_A ? (*a.g)[i] : Val(); f->r[d.dst] = a; f->ip++; break;
      }
      case Instruction::InsertValue: {
        Val a = OP(0), v = OP(1); auto ix = cast<InsertValueInst>(d.I)->getIndices();
        std::function<Val(Val, unsigned, Type *)> ins = [&](Val b, unsigned k, Type * t) -> Val {
          if (k == ix.size()) return v;
          auto * g = b.k == K_A ? new std::vector<Val>(*b.g) : new std::vector<Val>(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
          (*g)[ix[k]] = ins((*g)[ix[k]], k + 1, t->isStructTy() ? t->getStructElementType(ix[k]) : t->getArrayElementType());
          return VA(g);
        };
        f->r[d.dst] = ins(a, 0, d.I->getType()); f->ip++; break;
      }
      case Instruction::ExtractElement: { Val a = OP(0); uint64_t i = concretize(OP(1), 64); f->r[d.dst] = a.k == K_A ? (*a.g)[i] : Val(); f->ip++; break; }
      case Instruction::InsertElement: {
        Val a = OP(0); uint64_t i = concretize(OP(2), 64); auto * g = a.k == K_A ? new std::vector<Val>(*a.g) : new std::vector<Val>(cast<FixedVectorType>(d.I->getType())->getNumElements());
        (*g)[i] = OP(1); f->r[d.dst] = VA(g); f->ip++; break;
      }
      case Instruction::ShuffleVector: {
        Val a = OP(0), b = OP(1); auto mask = cast<ShuffleVectorInst>(d.I)->getShuffleMask(); auto * g = new std::vector<Val>; 
        int n = cast<FixedVectorType>(d.I->getOperand(0)->getType())->getNumElements();
        for (int m : mask) g->push_back(m < 0 ? Val() : m < n ? (a.k == K_A ? (*a.g)[m] : Val()) : (b.k == K_A ? (*b.g)[m - n] : Val()));
        f->r[d.dst] = VA(g); f->ip++; break;
      }
      case Instruction::AtomicRMW: {
        auto * A = cast<AtomicRMWInst>(d.I); uint64_t a = concretize(OP(0), 64); Type * t = d.I->getType(); Val old = load(a, t), v = OP(1), nv;
        unsigned w = DL->getTypeSizeInBits(t);
        switch (A->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = ibin(Instruction::Add, old, v, w); break; case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, old, v, w); break;
          case AtomicRMWInst::And: nv = ibin(Instruction::And, old, v, w); break; case AtomicRMWInst::Or: nv = ibin(Instruction::Or, old, v, w); break; default: unsupported("atomicrmw"); }
        store(a, t, nv); f->r[d.dst] = old; f->ip++; break;
      }
      case Instruction::AtomicCmpXchg: {
        uint64_t a = concretize(OP(0), 64); Type * t = d.I->getOperand(1)->getType(); Val old = load(a, t); Val eq = icmp(CmpInst::ICMP_EQ, old, OP(1), DL->getTypeSizeInBits(t));
        bool e = eq.k == K_C ? eq.u : decide(toBool(eq)); if (e) store(a, t, OP(2));
        f->r[d.dst] = VA(new std::vector<Val>{old, VC(e)}); f->ip++; break;
      }
      case Instruction::Fence: f->ip++; break;
      default: unsupported(std::string("instruction ") + d.I->getOpcodeName());
    }
  }
}

static void call_fn(const Function * F) { std::vector<Val> a; push_frame(F, a, nullptr); run(); }

int main(int argc, char ** argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--mode") { auto m = nx(); REALM = m == "real"; }
    else if (a == "--entry") o_entry = nx(); else if (a == "--native") o_native = nx(); else if (a == "--work") o_work = nx();
    else if (a == "--out") o_out = nx(); else if (a == "--maxpaths") o_maxpaths = stol(nx()); else if (a == "--maxsteps") o_maxsteps = stol(nx());
    else if (a == "--timeout") o_timeout = stol(nx()); else if (a == "--qtimeout") o_qtimeout = stoi(nx()); else if (a == "--jobs") o_jobs = stoi(nx());
    else if (a == "--repo") o_repo = nx(); else if (a == "--trace") o_trace = true; else if (a == "--narrow") o_narrow = true; else if (a == "--validate") o_validate = stol(nx());
    else if (a == "--no-fpcast") o_fpcast = false; else if (a == "--uninit0") o_uninit0 = true; else if (a == "--ntimeout") o_ntimeout = stoi(nx());
    else file = a;
  }
  t_start = now_s();
  if (o_out.empty()) o_out = o_work + "/out.jsonl";
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->tokens = o_jobs - 1; sh->paths = 1;
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); 
  SMDiagnostic err;
  M = parseIRFile(file, err, LC);
  if (!M) { err.print("symx", errs()); return 3; }
  DL = &M->getDataLayout();
  solver_init(o_qtimeout, o_work);
  const Function * E = M->getFunction(o_entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", o_entry.c_str()); return 3; }
  // the worker tree runs in a child so that this process can summarise
  fflush(stdout);
  static pid_t k; k = fork();
  if (k == 0) {
    setpgid(0, 0);
    solver_stuck([] { sh->q_unknown++; sh->dropped++; path_end("timeout"); });
    for (auto & G : M->globals()) if (!G.isDeclaration() || G.hasName()) gv_addr(&G);
    for (auto & G : M->globals()) if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used") init_global(gv_addr(&G), G.getInitializer());
    for (auto & G : M->globals()) if (G.isConstant() && G.hasInitializer()) find(gv_addr(&G))->ro = true;
    init_externals();
    if (auto * G = M->getGlobalVariable("llvm.global_ctors")) if (auto * arr = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function *>> cs;
      for (auto & o : arr->operands()) { auto * s = cast<ConstantStruct>(o); if (auto * F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto & a, auto & b) { return a.first < b.first; });
      for (auto & c : cs) call_fn(c.second);
    }
    call_fn(E);
    path_end("done");
  }
  setpgid(k, k);
  static bool late = false;
  signal(SIGALRM, [](int) { late = true; sh->stop = 1; kill(-k, SIGKILL); });
  alarm((unsigned)o_timeout + 40);
  int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
  alarm(0);
  if (late) sh->dropped++;
  else if (WIFSIGNALED(st)) { sh->dropped++; emit("{\"t\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}"); }
  // functions encoded: re-derive ids is impossible here (they live in the children), so they are named through a file
  std::string reach;
  for (int i = 0; i < sh->nlabels; i++) if (strncmp(sh->labels[i], "reach:", 6) == 0) reach += std::string(reach.empty() ? "" : ",") + "\"" + jesc(sh->labels[i] + 6) + "\":" + std::to_string(sh->reach[i].load());
  char b[2048];
  snprintf(b, sizeof b, "{\"t\":\"summary\",\"entry\":\"%s\",\"mode\":\"%s\",\"paths\":%ld,\"paths_done\":%ld,\"forks\":%ld,\"dropped\":%ld,\"infeasible\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"cache\":%ld,\"escalated\":%ld,\"solver_s\":%.3f,\"instrs\":%ld,\"asserts\":%ld,\"asserts_ok\":%ld,\"asserts_trivial\":%ld,\"asserts_unknown\":%ld,\"violations\":%ld,\"unconfirmed\":%ld,\"unsupported\":%ld,\"validated\":%ld,\"mismatched\":%ld,\"narrowed\":%ld,\"wall_s\":%.2f,\"reach\":{",
    o_entry.c_str(), REALM ? "real" : "fp", sh->paths.load(), sh->paths_done.load(), sh->forks.load(), sh->dropped.load(), sh->infeasible.load(), sh->queries.load(), sh->q_sat.load(), sh->q_unsat.load(), sh->q_unknown.load(), sh->q_cache.load(), sh->q_ext.load(), sh->solver_us.load() / 1e6, sh->instrs.load(), sh->asserts.load(), sh->asserts_ok.load(), sh->asserts_trivial.load(), sh->asserts_unknown.load(), sh->viol.load(), sh->unconfirmed.load(), sh->unsupported.load(), sh->validated.load(), sh->mismatched.load(), sh->narrowed.load(), now_s() - t_start);
  emit(std::string(b) + reach + "}}");
  printf("%s%s}}\n", b, reach.c_str());
  return 0;
}
