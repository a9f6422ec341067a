// Stand-in for the nanoflann version the repository vendors as a submodule (empty here):
// an exact brute-force k-nearest search behind the same interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <memory>
#include <vector>
namespace nanoflann {
struct metric_L2 {};
struct SearchParams { explicit SearchParams(int = 32, float = 0, bool = true) {} };
using SearchParameters = SearchParams;
template<typename D, typename I = std::size_t, typename N = std::size_t> class KNNResultSet {
public:
  explicit KNNResultSet(N capacity) : i_(nullptr), d_(nullptr), cap_(capacity), n_(0) {}
  template<typename J> void init(J * i, D * d) { i_ = reinterpret_cast<I *>(i); d_ = d; n_ = 0; static_assert(sizeof(J) == sizeof(I), ""); }
  N size() const { return n_; }
  void add(D dist, I idx) {
    N p = n_ < cap_ ? n_ : cap_;
    while (p > 0 && d_[p - 1] > dist) { if (p < cap_) { d_[p] = d_[p - 1]; i_[p] = i_[p - 1]; } p--; }
    if (p < cap_) { d_[p] = dist; i_[p] = idx; if (n_ < cap_) n_++; }
  }
private:
  I * i_; D * d_; N cap_, n_;
};
template<typename M, int DIM = -1, class Dist = metric_L2, bool row_major = true> struct KDTreeEigenMatrixAdaptor {
  using num_t = double;
  struct Index {
    const M * m;
    template<typename R> void findNeighbors(R & r, const num_t * q, const SearchParams &) const {
      for (long i = 0; i < m->rows(); i++) { num_t s = 0; for (long j = 0; j < m->cols(); j++) { num_t e = (*m)(i, j) - q[j]; s = s + e * e; } r.add(s, static_cast<std::size_t>(i)); }
    }
  };
  KDTreeEigenMatrixAdaptor(std::size_t, const std::reference_wrapper<const M> & m, int) : i_{&m.get()}, index(&i_) {}
  KDTreeEigenMatrixAdaptor(const KDTreeEigenMatrixAdaptor &) = delete;
  void query(const num_t * q, std::size_t k, std::size_t * idx, num_t * d) const { KNNResultSet<num_t> r(k); r.init(idx, d); i_.findNeighbors(r, q, SearchParams()); }
  Index i_; Index * index;
};
}
