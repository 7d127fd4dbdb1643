// Common machinery of the harnesses: exhaustive case enumeration over forked
// workers, crash/hang capture, state and outcome counting, violation records.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Violation
{
  std::string key;   // stable identification of the failing input/history (matched against known findings)
  std::string desc;  // what was observed, what was expected
  std::string kase;  // how to run exactly this case again
};

// Everything one worker accumulates.
struct Ctx
{
  uint64_t                     evaluations = 0, transitions = 0, executions = 0;
  std::unordered_set<uint64_t> states, nontrivial, outcomes;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string>     samples;
  std::vector<Violation>       violations;
  std::map<std::string,int>    vkeys;
  bool                         verbose = false;
  std::string                  case_name;

  void state(uint64_t h) { states.insert(h); }
  void outcome(uint64_t h) { outcomes.insert(h); }
  void distinct(uint64_t h) { nontrivial.insert(h); }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void sample(const std::string& s, size_t cap = 6)
  {
    if (samples.size() < cap) samples.push_back(s);
  }
  // records at most a few violations per key
  void violation(const std::string& key, const std::string& desc, const std::string& kase = "");
};

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash_str(const std::string& s, uint64_t seed = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), seed); }
inline uint64_t hmix(uint64_t a, uint64_t b) { return hash_bytes(&b, sizeof b, a ^ 0x9e3779b97f4a7c15ull); }
// hash of doubles rounded to ~9 significant digits, so that the hash is stable under rounding
uint64_t hash_dbl(const double* p, size_t n, uint64_t seed = 1469598103934665603ull);

// what the build under test has
#ifdef NIMBLE_HAVE_MPI
constexpr bool with_mpi = true;
#else
constexpr bool with_mpi = false;
#endif
#ifdef NIMBLE_HAVE_TRILINOS
constexpr bool with_trilinos = true;
#else
constexpr bool with_trilinos = false;
#endif
struct Options
{
  std::string tier = "quick";
  int         workers = 8;
  std::string out, scratch;
  std::string replay;  // "stage:index"
  bool        thorough() const { return tier == "thorough"; }
};
extern Options opt;

// Run cases 0..n-1 of stage `name` through fn, over forked workers.  A worker
// that dies or exceeds `case_timeout` seconds on a case yields a violation for
// that case (after the case has been re-run alone with a longer limit), unless
// crash_ok.  describe(i) names a case.
struct Stage
{
  std::string                            name;
  size_t                                 n = 0;
  std::function<void(size_t, Ctx&)>      fn;
  std::function<std::string(size_t)>     describe;
  std::function<void()>                  worker_init;
  std::function<void()>                  worker_fini;
  int                                    case_timeout = 20;
  size_t                                 chunk = 1;
};
void run(const Stage& st);

// For whole-harness accounting outside a stage
Ctx& total();
void note(const std::string& key, const std::string& value);  // extra text into the coverage object
int  finish();                                                // writes the result file, returns the exit code
void init(int argc, char** argv);

// run fn in a forked child with timeout; returns status: 0.. exit code, -sig, or -1000 for timeout.
// Output written by the child to `payload` (via write to fd) is returned.
int run_child(const std::function<int(int fd)>& fn, std::string* payload, int timeout_s, bool quiet = true);

inline std::string fmt(double v)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  double d = std::fabs(a - b);
  return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
}
// silence stdout/stderr of code under test in this process
struct Quiet
{
  int o, e;
  Quiet();
  ~Quiet();
};
std::string scratch_dir(const std::string& tag);  // fresh directory below the scratch root
void        remove_tree(const std::string& dir);  // only below the scratch root
std::string read_file(const std::string& p);
void        write_file(const std::string& p, const std::string& s);
}  // namespace vh
