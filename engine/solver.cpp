#include "solver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <algorithm>

Z3_context C;
Shared * sh;
static int g_timeout = 10000;
static std::string g_tmp = "/tmp";

static long now_us() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

static Z3_params simp_params;

static void (*g_stuck)() = nullptr;
static void on_stuck(int) { if (g_stuck) g_stuck(); }
void solver_stuck(void (*f)()) { g_stuck = f; signal(SIGALRM, on_stuck); }
void solver_init(int timeout_ms, const std::string & tmp) {
  g_timeout = timeout_ms; g_tmp = tmp;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, errh);
  simp_params = Z3_mk_params(C);
  Z3_params_inc_ref(C, simp_params);
  Z3_params_set_bool(C, simp_params, Z3_mk_string_symbol(C, "som"), true);
}
void set_timeout(int ms) { g_timeout = ms; }

Z3_ast simp(Z3_ast a) { return Z3_simplify(C, a); }
bool is_true(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_TRUE; }
bool is_false(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_FALSE; }
bool is_num(Z3_ast a) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST; }

static std::unordered_map<unsigned, std::vector<unsigned>> fv_cache;
static std::unordered_map<unsigned, Z3_ast> vars;
static std::unordered_map<unsigned, char> nl_cache;

Z3_ast var_by_id(unsigned id) { auto it = vars.find(id); return it == vars.end() ? nullptr : it->second; }

const std::vector<unsigned> & free_vars(Z3_ast root) {
  unsigned rid = Z3_get_ast_id(C, root);
  auto it = fv_cache.find(rid);
  if (it != fv_cache.end()) return it->second;
  std::vector<unsigned> res;
  std::unordered_set<unsigned> seen;
  std::vector<Z3_ast> st{root};
  while (!st.empty()) {
    Z3_ast a = st.back(); st.pop_back();
    unsigned id = Z3_get_ast_id(C, a);
    if (!seen.insert(id).second) continue;
    if (a != root) {
      auto f = fv_cache.find(id);
      if (f != fv_cache.end()) { res.insert(res.end(), f->second.begin(), f->second.end()); continue; }
    }
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) continue;
    Z3_app p = Z3_to_app(C, a);
    unsigned n = Z3_get_app_num_args(C, p);
    if (n == 0) {
      if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_UNINTERPRETED) { vars[id] = a; res.push_back(id); }
    } else for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(C, p, i));
  }
  std::sort(res.begin(), res.end());
  res.erase(std::unique(res.begin(), res.end()), res.end());
  return fv_cache[rid] = res;
}

bool nonlinear(Z3_ast root) {
  unsigned rid = Z3_get_ast_id(C, root);
  auto it = nl_cache.find(rid);
  if (it != nl_cache.end()) return it->second;
  std::unordered_set<unsigned> seen;
  std::vector<Z3_ast> st{root};
  bool r = false;
  while (!st.empty() && !r) {
    Z3_ast a = st.back(); st.pop_back();
    if (!seen.insert(Z3_get_ast_id(C, a)).second) continue;
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) continue;
    Z3_app p = Z3_to_app(C, a);
    unsigned n = Z3_get_app_num_args(C, p);
    Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, p));
    if (k == Z3_OP_MUL) {
      int nn = 0;
      for (unsigned i = 0; i < n; i++) if (!is_num(Z3_get_app_arg(C, p, i))) nn++;
      if (nn > 1) r = true;
    } else if (k == Z3_OP_DIV) {
      if (!is_num(Z3_get_app_arg(C, p, 1))) r = true;
    } else if (k == Z3_OP_POWER) r = true;
    for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(C, p, i));
  }
  nl_cache[rid] = r;
  return r;
}

// nonlinear terms replaced by constants; squares are known not to be negative
static std::unordered_map<unsigned, Z3_ast> la_cache;
static std::unordered_map<unsigned, std::vector<Z3_ast>> la_side;
static Z3_ast la(Z3_ast a, std::vector<Z3_ast> & side) {
  if (Z3_get_ast_kind(C, a) != Z3_APP_AST || !nonlinear(a)) return a;
  unsigned id = Z3_get_ast_id(C, a);
  auto it = la_cache.find(id);
  if (it != la_cache.end()) { auto & v = la_side[id]; side.insert(side.end(), v.begin(), v.end()); return it->second; }
  Z3_app p = Z3_to_app(C, a);
  unsigned n = Z3_get_app_num_args(C, p);
  Z3_func_decl f = Z3_get_app_decl(C, p);
  Z3_decl_kind k = Z3_get_decl_kind(C, f);
  bool opaque = k == Z3_OP_POWER || (k == Z3_OP_DIV && !is_num(Z3_get_app_arg(C, p, 1)));
  unsigned nn = 0;
  if (k == Z3_OP_MUL) { for (unsigned i = 0; i < n; i++) if (!is_num(Z3_get_app_arg(C, p, i))) nn++; opaque |= nn > 1; }
  std::vector<Z3_ast> my;
  Z3_ast r;
  if (opaque && k == Z3_OP_MUL && is_num(Z3_get_app_arg(C, p, 0))) {   // keep the coefficient
    std::vector<Z3_ast> rest; for (unsigned i = 1; i < n; i++) rest.push_back(Z3_get_app_arg(C, p, i));
    Z3_ast q[2] = {Z3_get_app_arg(C, p, 0), la(rest.size() == 1 ? rest[0] : Z3_mk_mul(C, rest.size(), rest.data()), my)};
    r = Z3_mk_mul(C, 2, q);
  } else if (opaque) {
    r = Z3_mk_fresh_const(C, "nl", Z3_get_sort(C, a));
    bool sq = k == Z3_OP_MUL && n == 2 && Z3_is_eq_ast(C, Z3_get_app_arg(C, p, 0), Z3_get_app_arg(C, p, 1));
    if (k == Z3_OP_POWER && is_num(Z3_get_app_arg(C, p, 1)) && !strcmp(Z3_get_numeral_string(C, Z3_get_app_arg(C, p, 1)), "2")) sq = true;
    if (sq) my.push_back(Z3_mk_ge(C, r, Z3_mk_int(C, 0, Z3_get_sort(C, a))));
  } else {
    std::vector<Z3_ast> q; for (unsigned i = 0; i < n; i++) q.push_back(la(Z3_get_app_arg(C, p, i), my));
    r = Z3_mk_app(C, f, n, q.data());
  }
  la_cache[id] = r; la_side[id] = my;
  side.insert(side.end(), my.begin(), my.end());
  return r;
}

static Z3_ast pow2(int k) {
  static std::map<int, Z3_ast> m;
  auto it = m.find(k);
  if (it != m.end()) return it->second;
  Z3_ast r;
  if (k <= 62) r = Z3_mk_int64(C, 1LL << k, Z3_mk_real_sort(C));
  else { Z3_ast a[2] = {pow2(k / 2), pow2(k - k / 2)}; r = Z3_simplify(C, Z3_mk_mul(C, 2, a)); }
  return m[k] = r;
}

Z3_ast mk_real(double d) {
  static std::unordered_map<uint64_t, Z3_ast> cache;
  uint64_t b; memcpy(&b, &d, 8);
  auto it = cache.find(b);
  if (it != cache.end()) return it->second;
  int e; double m = frexp(d, &e);
  long long mi = (long long)ldexp(m, 53); e -= 53;
  Z3_ast r;
  if (mi == 0) r = Z3_mk_int(C, 0, Z3_mk_real_sort(C));
  else {
    while (!(mi & 1)) { mi >>= 1; e++; }
    r = Z3_mk_int64(C, mi, Z3_mk_real_sort(C));
    if (e > 0) { Z3_ast a[2] = {r, pow2(e)}; r = Z3_simplify(C, Z3_mk_mul(C, 2, a)); }
    else if (e < 0) r = Z3_simplify(C, Z3_mk_div(C, r, pow2(-e)));
  }
  return cache[b] = r;
}

double num_to_double(Z3_ast a) {
  Z3_string s = Z3_get_numeral_string(C, a);
  const char * sl = strchr(s, '/');
  if (!sl) return strtod(s, nullptr);
  // use long double division; fall back on scaling for huge parts
  std::string n(s, sl - s), d(sl + 1);
  long double ln = strtold(n.c_str(), nullptr), ld = strtold(d.c_str(), nullptr);
  if (std::isfinite(ln) && std::isfinite(ld) && ld != 0) return (double)(ln / ld);
  return Z3_get_numeral_double(C, a);
}

// ---------------------------------------------------------------- solving
static void enc_vals(std::string & out, Z3_model m, const std::set<unsigned> & vs, bool & exact) {
  for (unsigned id : vs) {
    Z3_ast v = var_by_id(id), val = nullptr;
    if (!Z3_model_eval(C, m, v, true, &val)) continue;
    Z3_sort so = Z3_get_sort(C, v);
    Z3_sort_kind k = Z3_get_sort_kind(C, so);
    std::string s;
    if (k == Z3_BOOL_SORT) s = is_true(val) ? "T" : "F";
    else if (k == Z3_FLOATING_POINT_SORT) {
      Z3_ast bv = Z3_simplify(C, Z3_mk_fpa_to_ieee_bv(C, val));
      if (!is_num(bv)) { bv = Z3_mk_unsigned_int64(C, 0x7ff8000000000000ULL, Z3_mk_bv_sort(C, 64));
        if (Z3_fpa_get_ebits(C, so) == 8) bv = Z3_mk_unsigned_int64(C, 0x7fc00000ULL, Z3_mk_bv_sort(C, 32)); }
      s = Z3_get_numeral_string(C, bv);
    } else if (is_num(val)) s = Z3_get_numeral_string(C, val);
    else if (Z3_is_algebraic_number(C, val)) {
      exact = false;
      s = Z3_get_numeral_string(C, Z3_get_algebraic_number_lower(C, val, 20));
    } else { exact = false; continue; }
    out += std::to_string(id) + " " + s + "\n";
  }
}

static Res run_solver(Z3_solver s, const std::vector<Z3_ast> & cs) {  // s already referenced
  for (auto a : cs) Z3_solver_assert(C, s, a);
  Z3_lbool r = Z3_solver_check(C, s);
  return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
}

static std::string to_smt2(const std::vector<Z3_ast> & cs) {
  Z3_solver s = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, s);
  for (auto a : cs) Z3_solver_assert(C, s, a);
  std::string r = Z3_solver_to_string(C, s);
  Z3_solver_dec_ref(C, s);
  return r;
}

// a cvc5 value: an s-expression of literals
struct SX { std::string at; std::vector<SX> k; };
static SX sx(const std::string & t, size_t & p) {
  SX r;
  while (p < t.size() && isspace(t[p])) p++;
  if (p < t.size() && t[p] == '(') { p++; for (;;) { while (p < t.size() && isspace(t[p])) p++; if (p >= t.size()) break; if (t[p] == ')') { p++; break; } r.k.push_back(sx(t, p)); } }
  else if (p < t.size() && t[p] == '|') { size_t e = t.find('|', p + 1); r.at = t.substr(p, e - p + 1); p = e + 1; }
  else while (p < t.size() && !isspace(t[p]) && t[p] != '(' && t[p] != ')') r.at += t[p++];
  return r;
}
static bool num_of(const SX & v, std::string & s) {   // rational
  if (v.k.empty()) { s = v.at; size_t d = s.find('.'); if (d != std::string::npos) { std::string fr = s.substr(d + 1); s = s.substr(0, d); while (!fr.empty() && fr.back() == '0') fr.pop_back(); if (!fr.empty()) return false; } return !s.empty() && isdigit(s[0]); }
  if (v.k.size() == 2 && v.k[0].at == "-") { if (!num_of(v.k[1], s)) return false; s = "-" + s; return true; }
  if (v.k.size() == 3 && v.k[0].at == "/") { std::string a, b; if (!num_of(v.k[1], a) || !num_of(v.k[2], b)) return false; s = a + "/" + b; return true; }
  return false;
}
static bool cvc5_vals(const std::string & t, const std::vector<unsigned> & ids, std::string & out, bool & exact) {
  size_t p = 0; SX r = sx(t, p);
  if (r.k.size() != ids.size()) return false;
  auto bin = [](const std::string & b) { __uint128_t v = 0; for (size_t i = 2; i < b.size(); i++) v = v * 2 + (b[i] == '1'); return std::to_string((unsigned long long)v); };
  for (size_t i = 0; i < ids.size(); i++) {
    if (r.k[i].k.size() != 2) return false;
    const SX & v = r.k[i].k[1]; std::string s;
    Z3_sort so = Z3_get_sort(C, var_by_id(ids[i])); Z3_sort_kind k = Z3_get_sort_kind(C, so);
    if (k == Z3_BOOL_SORT) s = v.at == "true" ? "T" : "F";
    else if (k == Z3_BV_SORT && v.at.compare(0, 2, "#b") == 0) s = bin(v.at);
    else if (k == Z3_FLOATING_POINT_SORT) {
      unsigned eb = Z3_fpa_get_ebits(C, so), sb = Z3_fpa_get_sbits(C, so);
      if (v.k.size() == 4 && v.k[0].at == "fp") s = bin("#b" + v.k[1].at.substr(2) + v.k[2].at.substr(2) + v.k[3].at.substr(2));
      else if (v.k.size() == 4 && v.k[0].at == "_") {
        std::string e1(eb, '1'), e0(eb, '0'), m0(sb - 1, '0'); const std::string & w = v.k[1].at;
        s = bin("#b" + std::string(w[0] == '-' ? "1" : "0") + (w.find("zero") != std::string::npos ? e0 + m0 : w == "NaN" ? e1 + "1" + m0.substr(1) : e1 + m0));
      } else return false;
    } else if (!num_of(v, s)) return false;
    out += std::to_string(ids[i]) + " " + s + "\n";
  }
  return true;
}

// child strategies; each writes "r\n[vals]" to a pipe
static void child_solve(int strat, const std::vector<Z3_ast> & cs, const std::set<unsigned> & vs, bool want, int fd) {
  std::string out;
  Res r = UNKNOWN; bool exact = true;
  if (strat == 2) {
    std::string f = g_tmp + "/q" + std::to_string(getpid()) + ".smt2";
    FILE * fp = fopen(f.c_str(), "w");
    std::string names;
    std::vector<unsigned> ids;
    std::string body = to_smt2(cs);
    for (unsigned id : vs) {
      std::string n = Z3_ast_to_string(C, var_by_id(id));
      if (body.find("(declare-fun " + n + " ") == std::string::npos) continue;   // simplified away
      names += n + " "; ids.push_back(id);
    }
    fprintf(fp, "(set-option :produce-models true)\n(set-logic ALL)\n%s(check-sat)\n", body.c_str());
    if (want && !ids.empty()) fprintf(fp, "(get-value (%s))\n", names.c_str());
    fclose(fp);
    std::string cmd = "exec cvc5 -q --fp-exp " + f + " 2>/dev/null";
    FILE * p = popen(cmd.c_str(), "r");
    std::string text; char buf[4096]; size_t n;
    while (p && (n = fread(buf, 1, sizeof buf, p)) > 0) text.append(buf, n);
    if (p) pclose(p);
    unlink(f.c_str());
    if (!text.compare(0, 5, "unsat")) r = UNSAT;
    else if (!text.compare(0, 3, "sat")) { r = SAT; if (want && !cvc5_vals(text.substr(3), ids, out, exact)) r = UNKNOWN; }
  } else {
    Z3_solver s;
    if (strat == 0) s = Z3_mk_solver(C);
    else if (strat == 1) {
      static const char * const names[] = {"simplify", "purify-arith", "elim-term-ite", "solve-eqs", "tseitin-cnf", "qfnra-nlsat"};
      Z3_tactic t = nullptr;
      for (int i = 5; i >= 0; i--) {
        Z3_tactic n = Z3_mk_tactic(C, names[i]);
        Z3_tactic_inc_ref(C, n);
        if (t) { n = Z3_tactic_and_then(C, n, t); Z3_tactic_inc_ref(C, n); }
        t = n;
      }
      s = Z3_mk_solver_from_tactic(C, t);
    } else s = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, s);
    r = run_solver(s, cs);
    if (r == SAT && want) {
      Z3_model m = Z3_solver_get_model(C, s);
      if (m) { Z3_model_inc_ref(C, m); enc_vals(out, m, vs, exact); }
    }
  }
  std::string hdr = std::to_string((int)r) + " " + (exact ? "1" : "0") + "\n";
  out = hdr + out;
  size_t o = 0;
  while (o < out.size()) { ssize_t w = write(fd, out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
  close(fd);
  _exit(0);
}

static void parse_vals(const std::string & in, Query & q) {
  size_t p = in.find('\n');
  if (p == std::string::npos) return;
  q.r = (Res)atoi(in.c_str());
  q.exact = in[in.find(' ') + 1] == '1';
  while (p + 1 < in.size()) {
    size_t e = in.find('\n', p + 1);
    if (e == std::string::npos) break;
    std::string l = in.substr(p + 1, e - p - 1);
    p = e;
    size_t sp = l.find(' ');
    unsigned id = strtoul(l.c_str(), nullptr, 10);
    std::string s = l.substr(sp + 1);
    Z3_ast v = var_by_id(id);
    if (!v) continue;
    Z3_sort so = Z3_get_sort(C, v);
    Z3_sort_kind k = Z3_get_sort_kind(C, so);
    Z3_ast val;
    if (k == Z3_BOOL_SORT) val = s == "T" ? Z3_mk_true(C) : Z3_mk_false(C);
    else if (k == Z3_FLOATING_POINT_SORT) {
      unsigned w = Z3_fpa_get_ebits(C, so) + Z3_fpa_get_sbits(C, so);
      val = Z3_simplify(C, Z3_mk_fpa_to_fp_bv(C, Z3_mk_numeral(C, s.c_str(), Z3_mk_bv_sort(C, w)), so));
    } else val = Z3_mk_numeral(C, s.c_str(), so);
    q.vals.push_back({v, val});
  }
}

static Query race(const std::vector<int> & strats, const std::vector<Z3_ast> & cs, const std::set<unsigned> & vs, bool want, int tmo) {
  Query best;
  std::vector<pid_t> pids; std::vector<int> fds; std::vector<std::string> bufs(strats.size());
  for (int st : strats) {
    int p[2]; if (pipe(p)) { perror("pipe"); break; }
    pid_t k = fork();
    if (k == 0) {
      setpgid(0, 0);
      close(p[0]);
      struct rlimit rl = {4096UL << 20, 4096UL << 20}; setrlimit(RLIMIT_DATA, &rl);
      signal(SIGALRM, SIG_DFL); alarm(tmo / 1000 + 5);
      child_solve(st, cs, vs, want, p[1]);
    }
    setpgid(k, k);
    close(p[1]); pids.push_back(k); fds.push_back(p[0]);
  }
  long t0 = now_us();
  std::vector<bool> done(fds.size(), false);
  size_t nd = 0;
  while (nd < fds.size()) {
    long left = tmo - (now_us() - t0) / 1000;
    if (left <= 0) break;
    std::vector<pollfd> pf; std::vector<size_t> ix;
    for (size_t i = 0; i < fds.size(); i++) if (!done[i]) { pf.push_back({fds[i], POLLIN, 0}); ix.push_back(i); }
    int pr = poll(pf.data(), pf.size(), left);
    if (pr < 0) continue;
    if (pr == 0) break;
    for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) {
      char b[65536]; ssize_t n = read(pf[j].fd, b, sizeof b);
      if (n > 0) bufs[ix[j]].append(b, n);
      else {
        done[ix[j]] = true; nd++;
        Query q; parse_vals(bufs[ix[j]], q);
        if (q.r != UNKNOWN) { best = q; goto out; }
      }
    }
  }
out:
  for (size_t i = 0; i < pids.size(); i++) { kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL); close(fds[i]); int st; waitpid(pids[i], &st, 0); }
  return best;
}

static std::unordered_map<std::string, Res> qcache;

Query solve(const std::vector<Z3_ast> & in, bool want, int tmo) {
  if (!tmo) tmo = g_timeout;
  Query q;
  std::vector<Z3_ast> cs;
  std::set<unsigned> vs; std::vector<unsigned> ids;
  bool nl = false, fp = false;
  for (auto a0 : in) {
    Z3_ast a = simp(a0);
    if (is_true(a)) continue;
    if (is_false(a)) { q.r = UNSAT; return q; }
    ids.push_back(Z3_get_ast_id(C, a));
    cs.push_back(a);
    for (unsigned v : free_vars(a)) vs.insert(v);
    for (unsigned v : free_vars(a0)) vs.insert(v);
    nl |= nonlinear(a);
  }
  for (unsigned v : vs) if (Z3_get_sort_kind(C, Z3_get_sort(C, var_by_id(v))) == Z3_FLOATING_POINT_SORT) fp = true;
  if (cs.empty() && !want) { q.r = SAT; return q; }
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((char *)ids.data(), ids.size() * sizeof(unsigned));
  if (!want) {
    auto it = qcache.find(key);
    if (it != qcache.end()) { sh->q_cache++; q.r = it->second; return q; }
  }
  auto local = [&](unsigned rlimit) {   // in this process, with a resource limit
    Z3_solver s = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rlimit);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    alarm(30);                                           // z3 does not check its limits inside big-number operations
    q.r = run_solver(s, cs);
    alarm(0);
    if (q.r == SAT && want) {
      Z3_model m = Z3_solver_get_model(C, s);
      if (m) {
        Z3_model_inc_ref(C, m);
        std::string o = "1 1\n"; bool ex = true;
        enc_vals(o, m, vs, ex);
        parse_vals(o, q); q.exact = ex;
        Z3_model_dec_ref(C, m);
      }
    }
    Z3_solver_dec_ref(C, s);
  };
  long t0 = now_us();
  sh->queries++;
  if (nl) {
    // cheap attempt: distribute and cancel
    for (auto & a : cs) {
      Z3_ast b = Z3_simplify_ex(C, a, simp_params);
      if (is_false(b)) { q.r = UNSAT; goto fin; }
    }
    { // linear abstraction (nonlinear terms become fresh constants): can only refute
      Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), 200000);
      Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
      std::vector<Z3_ast> ls; for (auto a : cs) { Z3_ast l = la(a, ls); ls.push_back(l); }
      if (run_solver(s, ls) == UNSAT) q.r = UNSAT;
      Z3_solver_dec_ref(C, s);
    }
    if (q.r == UNKNOWN) local(150000);
    if (q.r == UNKNOWN) q = race({0, 1}, cs, vs, want, std::min(tmo, 1500));
    if (q.r == UNKNOWN && tmo > 1500) { sh->q_ext++; q = race({0, 1, 2, 3}, cs, vs, want, tmo); }
  } else if (fp) {
    q = race({0}, cs, vs, want, std::min(tmo, 400));
    if (q.r == UNKNOWN && tmo > 400) { sh->q_ext++; q = race({0, 2}, cs, vs, want, tmo); }
  } else {
    local(3000000);
    if (q.r == UNKNOWN) q = race({0}, cs, vs, want, tmo);
  }
fin:
  long dt = now_us() - t0;
  sh->solver_us += dt;
  if (getenv("SYMX_DUMP") && dt > 1000000) {
    static int k = 0;
    std::string f = std::string(getenv("SYMX_DUMP")) + "/q" + std::to_string(getpid()) + "_" + std::to_string(k++) + ".smt2";
    FILE * o = fopen(f.c_str(), "w"); fprintf(o, "; %d %ldms\n%s(check-sat)\n", q.r, dt / 1000, to_smt2(cs).c_str()); fclose(o);
  }
  if (getenv("SYMX_STAT")) fprintf(stderr, "QSTAT %d nl%d n%zu v%zu %ld %s\n", q.r, nl, cs.size(), vs.size(), dt, want ? "w" : "-");
  (q.r == SAT ? sh->q_sat : q.r == UNSAT ? sh->q_unsat : sh->q_unknown)++;
  qcache[key] = q.r;
  return q;
}

Z3_model make_model(const ModelVals & v) {
  Z3_model m = Z3_mk_model(C);
  Z3_model_inc_ref(C, m);
  for (auto & [c, val] : v) Z3_add_const_interp(C, m, Z3_get_app_decl(C, Z3_to_app(C, c)), val);
  return m;
}
