#include "vh.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>

namespace vh {
Options     opt;
static Ctx  g_total;
static std::map<std::string, std::string> g_notes;
static std::string g_scratch_root;
static pid_t g_main_pid;

Ctx& total() { return g_total; }

uint64_t
hash_bytes(const void* p, size_t n, uint64_t h)
{
  auto c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  h ^= h >> 29;
  return h;
}
uint64_t
hash_dbl(const double* p, size_t n, uint64_t h)
{
  for (size_t i = 0; i < n; i++) {
    char b[40];
    double v = p[i];
    if (std::fabs(v) < 1e-11) v = 0.0;
    snprintf(b, sizeof b, "%.7g", v);
    if (!strcmp(b, "-0")) strcpy(b, "0");
    h = hash_bytes(b, strlen(b), h);
  }
  return h;
}

static std::string g_side;
static void        put(FILE* f, const std::string& s);
static double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// What all processes of this harness have seen: a program that hangs would otherwise use up
// the time of the whole check, case by case.
struct Seen
{
  int    timeouts;
  int    violations;
  double start;
};
static Seen* const g_seen = [] {
  Seen* s = (Seen*)mmap(nullptr, sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s->start = now();
  return s;
}();
void
Ctx::violation(const std::string& key, const std::string& desc, const std::string& kase)
{
  int& n = vkeys[key];
  n++;
  if (n > 2 || violations.size() > 400) return;
  violations.push_back({key, desc, kase.empty() ? case_name : kase});
  __sync_fetch_and_add(&g_seen->violations, 1);
  if (!g_side.empty()) {
    if (FILE* f = fopen(g_side.c_str(), "ab")) {
      put(f, violations.back().key);
      put(f, violations.back().desc);
      put(f, violations.back().kase);
      fclose(f);
    }
  }
  if (verbose) fprintf(stderr, "VIOLATION-DETAIL key=%s\n  %s\n  case=%s\n", key.c_str(), desc.c_str(), violations.back().kase.c_str());
}

Quiet::Quiet()
{
  fflush(stdout);
  fflush(stderr);
  o     = dup(1);
  e     = dup(2);
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  dup2(n, 2);
  ::close(n);
}
Quiet::~Quiet()
{
  fflush(stdout);
  fflush(stderr);
  std::cout.flush();
  std::cerr.flush();
  dup2(o, 1);
  dup2(e, 2);
  ::close(o);
  ::close(e);
}

// ---- tiny serialization of Ctx for worker -> parent
static void put(FILE* f, const std::string& s)
{
  uint64_t n = s.size();
  fwrite(&n, 8, 1, f);
  fwrite(s.data(), 1, n, f);
}
static void putu(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
static bool getu(FILE* f, uint64_t& v) { return fread(&v, 8, 1, f) == 1; }
static bool get(FILE* f, std::string& s)
{
  uint64_t n;
  if (!getu(f, n) || n > (1u << 28)) return false;
  s.resize(n);
  return n == 0 || fread(&s[0], 1, n, f) == n;
}
static void putset(FILE* f, const std::unordered_set<uint64_t>& s)
{
  putu(f, s.size());
  for (auto v : s) putu(f, v);
}
static bool getset(FILE* f, std::unordered_set<uint64_t>& s)
{
  uint64_t n, v;
  if (!getu(f, n)) return false;
  while (n--) {
    if (!getu(f, v)) return false;
    s.insert(v);
  }
  return true;
}
static void
save(const Ctx& c, const std::string& p)
{
  FILE* f = fopen((p + ".tmp").c_str(), "wb");
  putu(f, c.evaluations);
  putu(f, c.transitions);
  putu(f, c.executions);
  putset(f, c.states);
  putset(f, c.nontrivial);
  putset(f, c.outcomes);
  putu(f, c.counters.size());
  for (auto& k : c.counters) {
    put(f, k.first);
    putu(f, k.second);
  }
  putu(f, c.samples.size());
  for (auto& s : c.samples) put(f, s);
  putu(f, c.violations.size());
  for (auto& v : c.violations) {
    put(f, v.key);
    put(f, v.desc);
    put(f, v.kase);
  }
  putu(f, 0x1234567);
  fclose(f);
  rename((p + ".tmp").c_str(), p.c_str());
}
static bool
load_into(Ctx& c, const std::string& p)
{
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return false;
  uint64_t a, n;
  bool     ok = true;
  ok &= getu(f, a); c.evaluations += a;
  ok &= getu(f, a); c.transitions += a;
  ok &= getu(f, a); c.executions += a;
  ok &= getset(f, c.states);
  ok &= getset(f, c.nontrivial);
  ok &= getset(f, c.outcomes);
  ok &= getu(f, n);
  for (uint64_t i = 0; ok && i < n; i++) {
    std::string k;
    ok &= get(f, k) && getu(f, a);
    c.counters[k] += a;
  }
  ok &= getu(f, n);
  for (uint64_t i = 0; ok && i < n; i++) {
    std::string s;
    ok &= get(f, s);
    if (c.samples.size() < 12) c.samples.push_back(s);
  }
  ok &= getu(f, n);
  for (uint64_t i = 0; ok && i < n; i++) {
    Violation v;
    ok &= get(f, v.key) && get(f, v.desc) && get(f, v.kase);
    c.violations.push_back(v);
  }
  ok &= getu(f, a) && a == 0x1234567;
  fclose(f);
  return ok;
}

static void
load_side(const std::string& p)
{
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return;
  Violation v;
  while (get(f, v.key) && get(f, v.desc) && get(f, v.kase)) g_total.violations.push_back(v);
  fclose(f);
}

struct Slot
{
  volatile int64_t current;  // case in progress, -1 = none
  volatile int64_t start_s;
  volatile int64_t begin, end;  // the chunk in progress
};
struct Shared
{
  volatile uint64_t next;
  Slot              slot[64];
};

static void
run_one(const Stage& st, size_t i, Ctx& c)
{
  c.case_name = st.name + ":" + std::to_string(i);
  if (st.describe) c.case_name += " [" + st.describe(i) + "]";
  try {
    st.fn(i, c);
  } catch (std::exception& e) {
    c.violation("uncaught-exception:" + st.name, std::string("exception escaped from the code under test: ") + e.what());
  }
}

// with violations at hand, do not run into the limit of the check
static bool
enough()
{
  return g_seen->violations > 0 && now() - g_seen->start > (opt.tier == "thorough" ? 5.5 * 3600 : 600);
}

static void
worker(const Stage& st, Shared* sh, int w, const std::string& file, std::vector<size_t> only, bool then_all)
{
  Ctx c;
  g_side = file + ".viol";
  if (st.worker_init) st.worker_init();
  if (!only.empty()) {
    for (size_t i : only) {
      sh->slot[w].current = i;
      sh->slot[w].start_s = (int64_t)now();
      run_one(st, i, c);
    }
  }
  if (only.empty() || then_all)
    for (;;) {
      uint64_t b = __sync_fetch_and_add(&sh->next, st.chunk);
      if (b >= st.n) break;
      uint64_t e = std::min<uint64_t>(st.n, b + st.chunk);
      sh->slot[w].begin = b;
      sh->slot[w].end   = e;
      for (uint64_t i = b; i < e; i++) {
        sh->slot[w].current = i;
        sh->slot[w].start_s = (int64_t)now();
        run_one(st, i, c);
        if (enough()) break;
      }
      if (c.violations.size() > 200 || enough()) break;
    }
  sh->slot[w].current = -1;
  save(c, file);
  if (st.worker_fini) st.worker_fini();
  fflush(stdout);
  _exit(0);
}

static std::string
sig_name(int st)
{
  if (WIFSIGNALED(st)) return "killed by signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  return "exited with status " + std::to_string(WEXITSTATUS(st));
}

// run a single case alone, in a child; returns "" if it survived, else the reason
static std::string
alone(const Stage& st, std::vector<size_t> cases, int limit, Ctx& into, bool& saved)
{
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string file = opt.out + ".alone";
  unlink(file.c_str());
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    worker(st, sh, 0, file, cases, false);
  }
  double t0 = now();
  int    status = 0;
  for (;;) {
    pid_t q = waitpid(p, &status, WNOHANG);
    if (q == p) break;
    if (now() - t0 > limit) {
      kill(-p, SIGKILL);
      kill(p, SIGKILL);
      waitpid(p, &status, 0);
      munmap(sh, sizeof(Shared));
      saved = false;
      return "did not terminate within " + std::to_string(limit) + " s";
    }
    usleep(2000);
  }
  munmap(sh, sizeof(Shared));
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    saved = load_into(into, file);
    unlink(file.c_str());
    unlink((file + ".viol").c_str());
    return "";
  }
  saved = false;
  return sig_name(status);
}

void
run(const Stage& st)
{
  if (!opt.replay.empty()) {
    auto c = opt.replay.rfind(':');
    if (opt.replay.substr(0, c) != st.name) return;
    size_t i = strtoull(opt.replay.c_str() + c + 1, nullptr, 10);
    g_total.verbose = true;
    if (st.worker_init) st.worker_init();
    run_one(st, i, g_total);
    return;
  }
  if (enough()) return;
  double  t0 = now();
  int     W  = std::max(1, std::min<int>(opt.workers, (st.n + st.chunk - 1) / st.chunk));
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->next = 0;
  std::vector<pid_t>       pid(W, 0);
  std::vector<std::string> file(W);
  int                      gen = 0;
  fflush(stdout);
  fflush(stderr);
  auto spawn = [&](int w, std::vector<size_t> redo) {
    file[w] = opt.out + "." + st.name + "." + std::to_string(w) + "." + std::to_string(gen++);
    sh->slot[w].current = -1;
    sh->slot[w].begin = sh->slot[w].end = 0;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      worker(st, sh, w, file[w], redo, true);
    }
    pid[w] = p;
  };
  for (int w = 0; w < W; w++) spawn(w, {});
  int live = W, crashes = 0;
  std::vector<std::pair<size_t, size_t>> suspects;  // (case, first case of its chunk)
  while (live) {
    usleep(1000);
    for (int w = 0; w < W; w++) {
      if (!pid[w]) continue;
      int    s;
      pid_t  q = waitpid(pid[w], &s, WNOHANG);
      bool   dead = q == pid[w];
      int64_t cur = sh->slot[w].current;
      if (!dead && cur >= 0 && now() - (double)sh->slot[w].start_s > st.case_timeout + 1) {
        if (sh->slot[w].current != cur) continue;
        kill(-pid[w], SIGKILL);
        kill(pid[w], SIGKILL);
        waitpid(pid[w], &s, 0);
        dead = true;
        s    = SIGKILL;
      }
      if (!dead) continue;
      if (WIFEXITED(s) && WEXITSTATUS(s) == 0 && load_into(g_total, file[w])) {
        unlink(file[w].c_str());
        unlink((file[w] + ".viol").c_str());
        pid[w] = 0;
        live--;
        continue;
      }
      // the worker died on `cur`: keep the violations it had recorded, hand the rest of its
      // chunk to a successor, and look at `cur` alone afterwards
      load_side(file[w] + ".viol");
      unlink(file[w].c_str());
      unlink((file[w] + ".viol").c_str());
      crashes++;
      std::vector<size_t> redo;
      if (cur >= 0) {
        suspects.push_back({(size_t)cur, (size_t)sh->slot[w].begin});
        if (cur >= sh->slot[w].begin && cur < sh->slot[w].end)
          for (int64_t k = cur + 1; k < sh->slot[w].end; k++) redo.push_back(k);
      }
      if (crashes > 40) {
        pid[w] = 0;
        live--;
        continue;
      }
      spawn(w, redo);
    }
  }
  munmap(sh, sizeof(Shared));
  std::sort(suspects.begin(), suspects.end());
  int reported = 0;
  for (auto& sp : suspects) {
    if (reported >= 6) break;
    size_t      i     = sp.first;
    bool        saved = false;
    std::string why   = alone(st, {i}, st.case_timeout * 3 + 5, g_total, saved);
    std::string nm    = st.name + ":" + std::to_string(i);
    if (st.describe) nm += " [" + st.describe(i) + "]";
    if (why.empty() && sp.second < i) {
      // it needs its predecessors: replay the chunk up to the case in one process
      std::vector<size_t> l;
      for (size_t k = sp.second; k <= i; k++) l.push_back(k);
      Ctx dummy;
      why = alone(st, l, st.case_timeout * 3 + 5 + (int)l.size(), dummy, saved);
      if (!why.empty()) nm += " after cases " + std::to_string(sp.second) + ".." + std::to_string(i) + " in one process";
    }
    if (!why.empty()) {
      g_total.case_name = nm;
      g_total.violation("process-death:" + st.name, "the process running the code under test " + why, nm);
      reported++;
    } else
      g_total.count("cases-that-died-once-but-survived-alone");
  }
  if (crashes) g_total.count("worker-deaths", crashes);
  g_total.count("cases:" + st.name, st.n);
  fprintf(stderr, "[stage %s] %zu cases, %.1f s, violations so far %zu\n", st.name.c_str(), st.n, now() - t0, g_total.violations.size());
}

static std::string
jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

void note(const std::string& k, const std::string& v) { g_notes[k] = v; }

int
finish()
{
  if (!opt.replay.empty()) {
    fprintf(stderr, "replay: %zu violation(s)\n", g_total.violations.size());
    return g_total.violations.empty() ? 0 : 1;
  }
  FILE* f = fopen(opt.out.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"evaluations\": %llu, \"transitions\": %llu, \"executions\": %llu, \"states\": %zu, \"distinct_nontrivial\": %zu, \"outcomes\": %zu,\n",
          (unsigned long long)g_total.evaluations, (unsigned long long)g_total.transitions, (unsigned long long)g_total.executions,
          g_total.states.size(), g_total.nontrivial.size(), g_total.outcomes.size());
  fprintf(f, "\"counters\": {");
  bool first = true;
  for (auto& k : g_total.counters) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k.first).c_str(), (unsigned long long)k.second);
    first = false;
  }
  fprintf(f, "},\n\"notes\": {");
  first = true;
  for (auto& k : g_notes) {
    fprintf(f, "%s\"%s\": \"%s\"", first ? "" : ", ", jesc(k.first).c_str(), jesc(k.second).c_str());
    first = false;
  }
  fprintf(f, "},\n\"samples\": [");
  first = true;
  for (auto& s : g_total.samples) {
    fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(s).c_str());
    first = false;
  }
  std::stable_sort(g_total.violations.begin(), g_total.violations.end(), [](const Violation& a, const Violation& b) {
    return a.kase.size() != b.kase.size() ? a.kase.size() < b.kase.size() : a.kase < b.kase;
  });
  fprintf(f, "],\n\"violations\": [");
  first = true;
  for (auto& v : g_total.violations) {
    fprintf(f, "%s\n {\"key\": \"%s\", \"desc\": \"%s\", \"case\": \"%s\"}", first ? "" : ",", jesc(v.key).c_str(), jesc(v.desc).c_str(),
            jesc(v.kase).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
  if (getpid() == g_main_pid && !g_scratch_root.empty()) remove_tree(g_scratch_root);
  return 0;
}

void
init(int argc, char** argv)
{
  g_main_pid = getpid();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto        v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") opt.tier = v();
    else if (a == "--out") opt.out = v();
    else if (a == "--workers") opt.workers = atoi(v().c_str());
    else if (a == "--replay") opt.replay = v();
    else if (a == "--scratch") opt.scratch = v();
  }
  if (opt.workers > 60) opt.workers = 60;
  if (opt.out.empty()) opt.out = "/dev/null";
  if (opt.scratch.empty()) opt.scratch = "/tmp";
  std::string t = opt.scratch + "/vhXXXXXX";
  std::vector<char> b(t.begin(), t.end());
  b.push_back(0);
  if (!mkdtemp(b.data())) {
    perror("mkdtemp");
    exit(2);
  }
  g_scratch_root = b.data();
}

std::string
scratch_dir(const std::string& tag)
{
  static int n = 0;
  std::string d = g_scratch_root + "/" + tag + "." + std::to_string(getpid()) + "." + std::to_string(n++);
  mkdir(d.c_str(), 0700);
  return d;
}

void
remove_tree(const std::string& dir)
{
  if (g_scratch_root.empty() || dir.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (auto e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    struct stat s;
    if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) remove_tree(p);
    else unlink(p.c_str());
  }
  closedir(d);
  rmdir(dir.c_str());
}

int
run_child(const std::function<int(int)>& fn, std::string* payload, int timeout_s, bool quiet)
{
  int pf[2];
  if (pipe(pf)) return 2000;
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    ::close(pf[0]);
    if (quiet) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      dup2(n, 2);
    }
    int r = 250;
    try {
      r = fn(pf[1]);
    } catch (std::exception& e) {
      std::string m = std::string("\nEXC ") + e.what();
      if (write(pf[1], m.data(), m.size()) < 0) {}
      r = 251;
    } catch (...) {
      r = 252;
    }
    fflush(stdout);
    _exit(r);
  }
  ::close(pf[1]);
  if (g_seen->timeouts >= 3) timeout_s = std::min(timeout_s, 6);  // reported by now
  double t0 = now();
  bool   timed = false;
  char   buf[65536];
  for (;;) {
    struct pollfd q = {pf[0], POLLIN, 0};
    int           left = (int)((timeout_s - (now() - t0)) * 1000);
    if (left <= 0) {
      timed = true;
      break;
    }
    int r = poll(&q, 1, left);
    if (r > 0) {
      ssize_t k = read(pf[0], buf, sizeof buf);
      if (k <= 0) break;
      if (payload) payload->append(buf, k);
    }
  }
  int s = 0;
  if (timed) {
    __sync_fetch_and_add(&g_seen->timeouts, 1);
    kill(p, SIGKILL);
    waitpid(p, &s, 0);
    ::close(pf[0]);
    return -1000;
  }
  ::close(pf[0]);
  // the pipe closed: the child is about to end (or a grandchild kept nothing)
  double t1 = now();
  while (waitpid(p, &s, WNOHANG) == 0) {
    if (now() - t1 > timeout_s) {
      kill(p, SIGKILL);
      waitpid(p, &s, 0);
      return -1000;
    }
    usleep(50);
  }
  if (WIFSIGNALED(s)) return -WTERMSIG(s);
  return WEXITSTATUS(s);
}

std::string
read_file(const std::string& p)
{
  std::ifstream     f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void
write_file(const std::string& p, const std::string& s)
{
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), s.size());
}
}  // namespace vh
