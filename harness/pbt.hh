// Small property-based testing engine (choice-sequence based, in the style of
// Hypothesis): every random decision of a case is one bounded integer drawn
// from a Src.  The sequence of draws *is* the case: it is what is shrunk and
// what is written to the replay file.  Cases are run in forked workers, so a
// failed assertion, a crash or a non-terminating call in the code under test
// is an ordinary, shrinkable failure.
#ifndef PBT_HH
#define PBT_HH
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string tag, msg;
};

struct Shared;  // see pbt.cc

class Src {
 public:
  // generation mode
  Src(uint64_t seed, Shared* sh);
  // replay mode
  Src(const std::vector<uint64_t>& choices, Shared* sh);

  /// (value, bound) of the draws, if set
  std::vector<std::pair<uint64_t, uint64_t>>* trace = nullptr;
  /// uniform in [0, bound)
  uint64_t raw(uint64_t bound);
  /// uniform in [lo, hi], shrinks towards lo
  long range(long lo, long hi) { return lo + (long)raw((uint64_t)(hi - lo + 1)); }
  /// true with probability num/den, shrinks towards false
  bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }
  bool coin() { return chance(1, 2); }
  /// real in [lo, hi], shrinks towards 0 if it belongs to the range (else lo)
  double real(double lo, double hi) {
    uint64_t k = raw(1u << 24);
    if (k == 0) return (lo <= 0 && hi >= 0) ? 0. : lo;
    return lo + (hi - lo) * (double)k / (double)(1u << 24);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[raw(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + raw(v.size()));
  }
  /// index drawn with integer weights, shrinks towards 0
  std::size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t s = 0;
    for (unsigned x : w) s += x;
    uint64_t k = raw(s);
    std::size_t i = 0;
    for (unsigned x : w) {
      if (k < x) return i;
      k -= x;
      ++i;
    }
    return 0;
  }

  /// classification
  void label(const std::string& l);
  void nontrivial() { nontrivial_ = true; }
  bool isNontrivial() const { return nontrivial_; }
  /// human readable description of the case
  std::ostream& note() { return note_; }
  std::string notes() const { return note_.str(); }
  uint64_t hash() const { return hash_; }
  const std::vector<std::string>& labels() const { return labels_; }

 private:
  bool replay_;
  std::vector<uint64_t> in_;
  std::size_t pos_;
  uint64_t s_[4];
  uint64_t hash_;
  Shared* sh_;
  bool nontrivial_;
  std::ostringstream note_;
  std::vector<std::string> labels_;
  uint64_t next();
};

[[noreturn]] inline void fail(const std::string& tag, const std::string& msg) {
  throw Failure{tag, msg};
}
[[noreturn]] inline void discard() { throw Discard(); }

#define PBT_CHECK(cond, tag, stream)                    \
  do {                                                  \
    if (!(cond)) {                                      \
      std::ostringstream pbt_os;                        \
      pbt_os.precision(17);                             \
      pbt_os << "[" #cond "] " << stream;               \
      ::pbt::fail(tag, pbt_os.str());                   \
    }                                                   \
  } while (0)

struct Facet {
  std::string name;
  unsigned weight;
  std::function<void(Src&)> run;
  // schedule dependent: a failure counts when the same choices fail again at
  // least once in many runs (instead of every time)
  bool flaky = false;
};

struct Property {
  std::string id;
  std::string rule;  // non-triviality rule, in words
  std::vector<Facet> facets;
  long quick, thorough;  // number of cases
  std::vector<std::string> assumptions;
};

int main(int argc, char** argv, const Property& p);
}  // namespace pbt
#endif
