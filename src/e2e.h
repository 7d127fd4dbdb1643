// Whole runs of the application, each in a forked child inside a scratch directory.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "mpisim.h"
#include "vh.h"

namespace nimble {
class NimbleApplication;
}
namespace e2e {
struct Outcome
{
  int                      status = 0;  // exit status, -signal, -1000 timeout (serial); highest of all processes otherwise
  std::vector<int>         rank_status; // -999: did not end
  std::vector<std::string> errors;      // of the simulated message passing
  std::string              log;         // what the run printed
  uint64_t                 steps = 0;
  bool                     ok() const { return status == 0 && errors.empty(); }
};
typedef std::function<std::unique_ptr<nimble::NimbleApplication>()> AppMaker;
// run "NimbleSM [flags] deck" in `dir`; before: extra preparation inside the child
Outcome run(const std::string& dir, const std::vector<std::string>& args, int nranks = 1, int timeout = 60,
            const std::function<void()>& before = {}, const std::vector<int>& schedule = {}, const AppMaker& maker = {});
// enumerate schedules of a multi-process run up to `bound` deviations inside one child;
// after each execution check(i, outcome, schedule) is called in that child and returns an error text or ""
struct ScheduleResult
{
  uint64_t                 executions = 0, steps = 0;
  std::vector<std::string> bad;  // "schedule | text"
  int                      status = 0;
  bool                     capped = false;
};
ScheduleResult explore(const std::string& dir, const std::vector<std::string>& args, int nranks, int bound, uint64_t cap,
                       const std::function<std::string(const Outcome&)>& check, int timeout);
}  // namespace e2e
