// Solver layer: Z3 context, query cache, slicing, forked time-limited solving.
#pragma once
#include <z3.h>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern Z3_context C;

struct Shared {
  std::atomic<int> tokens;
  std::atomic<int> stop;
  std::atomic<long> paths, paths_done, dropped, infeasible;
  std::atomic<long> queries, q_sat, q_unsat, q_unknown, q_cache, q_ext;
  std::atomic<long> solver_us;
  std::atomic<long> instrs;
  std::atomic<long> forks;
  std::atomic<long> asserts, asserts_ok, asserts_unknown, asserts_trivial;
  std::atomic<long> viol, unconfirmed, unsupported, validated, mismatched, narrowed;
  std::atomic<long> viol_seq;
  std::atomic<int> reach[256];
  std::atomic<int> label_tries[256];
  std::atomic<int> nlabels;
  std::atomic_flag lock;
  char labels[256][96];
  std::atomic<unsigned char> fncov[1 << 17];
};
extern Shared * sh;

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

typedef std::vector<std::pair<Z3_ast, Z3_ast>> ModelVals;  // const -> numeral value

struct Query {
  Res r = UNKNOWN;
  bool exact = true;      // all values rational
  ModelVals vals;
};

void solver_stuck(void (*f)());   // called when a query in this process does not come back
void solver_init(int timeout_ms, const std::string & tmpdir);
void set_timeout(int ms);
Z3_ast simp(Z3_ast a);
bool is_true(Z3_ast a);
bool is_false(Z3_ast a);
const std::vector<unsigned> & free_vars(Z3_ast a);   // sorted ids of free constants
Z3_ast var_by_id(unsigned id);
bool nonlinear(Z3_ast a);
Query solve(const std::vector<Z3_ast> & cs, bool want_model, int timeout_ms = 0);
Z3_model make_model(const ModelVals & v);
Z3_ast mk_real(double d);
double num_to_double(Z3_ast a);
bool is_num(Z3_ast a);
