// A message-passing world inside one process: the ranks are fibers, every MPI_*
// symbol the code under test uses is defined here, and a controlled scheduler
// decides which rank runs next and what MPI_Test answers.  Choices are recorded,
// so an execution is replayed from its choice list and all executions up to a
// deviation bound are enumerated.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mpisim {

struct Choice
{
  int n;       // alternatives at this point
  int taken;   // the one taken (0 = default)
};
struct Execution
{
  std::vector<Choice>      choices;
  std::vector<std::string> errors;  // misuse, deadlock, livelock, exception of a rank
  uint64_t                 steps = 0;
  uint64_t                 signature = 0;  // hash of the sequence of communication events
  std::vector<uint64_t>    state_hashes;   // global communication state after every scheduling step
};

struct Config
{
  int  nranks       = 1;
  bool sched_points = true;   // choose the next rank at communication calls
  bool test_points  = true;   // choose the answer of MPI_Test on a completed request
  bool keep_states  = false;
  uint64_t max_steps = 2000000;
  size_t   stack     = 1 << 20;
  double   seconds   = 0;        // > 0: explore by rising number of deviations and stop after this long
};

// Run body(rank) on every rank under the given choice prefix (defaults afterwards).
Execution run(const Config& cfg, const std::vector<int>& prefix, const std::function<void(int)>& body);

// Enumerate all executions with at most `bound` non-default choices.
// make() is called before each execution and returns the per-rank body;
// check(e) is called after each.  Returns the number of executions; stops at
// `cap` executions (then *capped is set).
uint64_t explore(const Config& cfg, int bound, const std::function<std::function<void(int)>()>& make,
                 const std::function<void(const Execution&, const std::vector<int>&)>& check, uint64_t cap = 0, bool* capped = nullptr);

bool        active();
int         rank();
std::string show(const std::vector<int>& prefix);
void        error(const std::string&);
}  // namespace mpisim
