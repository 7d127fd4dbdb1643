#include "e2e.h"

#include <fcntl.h>
#include <nimble.h>
#include <unistd.h>

#include <iostream>

#include <Kokkos_Core.hpp>

namespace e2e {
static void
redirect(const std::string& f)
{
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
}
static int
one(const std::vector<std::string>& args, const AppMaker& maker)
{
  std::vector<std::string> a{"NimbleSM"};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> v;
  for (auto& s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  int rc = 0;
  {
    std::unique_ptr<nimble::NimbleApplication> app;
    if (maker)
      app = maker();
    else
      app.reset(new nimble::NimbleApplication());
    rc = app->Run((int)a.size(), v.data());
  }
  return rc;
}
static mpisim::Execution
many(const std::vector<std::string>& args, int nranks, const std::vector<int>& sched, bool points, std::vector<int>& st, const AppMaker& maker)
{
  st.assign(nranks, -999);
  mpisim::Config c;
  c.nranks       = nranks;
  c.sched_points = c.test_points = points;
  c.stack        = 16 << 20;
  return mpisim::run(c, sched, [&](int r) { st[r] = one(args, maker); });
}
static void
put(std::string& o, const std::string& s)
{
  uint32_t n = s.size();
  o.append((char*)&n, 4);
  o += s;
}
static std::string
get(const std::string& o, size_t& p)
{
  uint32_t n = 0;
  if (p + 4 > o.size()) return "";
  memcpy(&n, &o[p], 4);
  p += 4;
  std::string s = o.substr(p, n);
  p += n;
  return s;
}

Outcome
run(const std::string& dir, const std::vector<std::string>& args, int nranks, int timeout, const std::function<void()>& before, const std::vector<int>& schedule, const AppMaker& maker)
{
  Outcome     o;
  std::string pay;
  std::string log = dir + "/run.log";
  int st = vh::run_child(
      [&](int fd) -> int {
        if (chdir(dir.c_str()) != 0) return 250;
        redirect(log);
        if (before) before();
        std::string out;
        int         rc = 0;
        if (nranks == 1) {
          try {
            rc = one(args, maker);
          } catch (std::exception& e) {  // would end the program through std::terminate
            std::cerr << "terminate called after throwing: " << e.what() << std::endl;
            rc = 134;
          } catch (...) {
            std::cerr << "terminate called after throwing an unknown exception" << std::endl;
            rc = 134;
          }
          put(out, std::to_string(rc));
        } else {
          std::vector<int> s;
          auto e = many(args, nranks, schedule, !schedule.empty(), s, maker);
          for (int x : s) {
            put(out, std::to_string(x));
            if (x != 0) rc = x == -999 ? 251 : x;
          }
          put(out, "steps " + std::to_string(e.steps));
          for (auto& m : e.errors) put(out, "error " + m);
        }
        std::cout.flush();
        std::cerr.flush();
        fflush(stdout);
        fflush(stderr);
        if (write(fd, out.data(), out.size()) < 0) return 252;
        return rc & 255;
      },
      &pay, timeout, false);
  o.status = st;
  o.log    = vh::read_file(log);
  size_t p = 0;
  while (p < pay.size()) {
    std::string s = get(pay, p);
    if (s.substr(0, 6) == "error ")
      o.errors.push_back(s.substr(6));
    else if (s.substr(0, 6) == "steps ")
      o.steps = atoll(s.c_str() + 6);
    else
      o.rank_status.push_back(atoi(s.c_str()));
  }
  return o;
}

ScheduleResult
explore(const std::string& dir, const std::vector<std::string>& args, int nranks, int bound, uint64_t cap, const std::function<std::string(const Outcome&)>& check, int timeout)
{
  ScheduleResult r;
  std::string    pay;
  r.status = vh::run_child(
      [&](int fd) -> int {
        if (chdir(dir.c_str()) != 0) return 250;
        redirect(dir + "/run.log");
        // one process, many executions: keep Kokkos alive between them
        int   ac = 0;
        char* av[1] = {nullptr};
        Kokkos::initialize(ac, av);
        std::vector<int> st;
        uint64_t steps = 0, n = 0;
        std::vector<std::string> bad;
        mpisim::Config c;
        c.nranks = nranks;
        c.stack  = 16 << 20;
        c.seconds = 0.6 * timeout;
        bool capped = false;
        n = mpisim::explore(
            c, bound, [&] { st.assign(nranks, -999); return [&](int q) { st[q] = one(args, {}); }; },
            [&](const mpisim::Execution& e, const std::vector<int>& pre) {
              Outcome o;
              o.rank_status = st;
              o.errors      = e.errors;
              for (int x : st)
                if (x) o.status = x;
              steps += e.steps;
              std::string s = check(o);
              if (!s.empty() && bad.size() < 5) bad.push_back(mpisim::show(pre) + " | " + s);
              if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
            },
            cap, &capped);
        std::string out;
        put(out, std::to_string(n));
        put(out, std::to_string(steps));
        put(out, capped ? "1" : "0");
        for (auto& b : bad) put(out, b);
        size_t w = 0;
        while (w < out.size()) {
          ssize_t k = write(fd, out.data() + w, out.size() - w);
          if (k <= 0) return 252;
          w += k;
        }
        return 0;
      },
      &pay, timeout, false);
  size_t p = 0;
  if (r.status == 0) {
    r.executions = atoll(get(pay, p).c_str());
    r.steps      = atoll(get(pay, p).c_str());
    r.capped     = get(pay, p) == "1";
    while (p < pay.size()) r.bad.push_back(get(pay, p));
  }
  return r;
}
}  // namespace e2e
