// C01 / C02: shared-node reductions over simulated ranks.
#include <nimble_vector_communicator.h>
#include <Kokkos_Core.hpp>
#include <Teuchos_DefaultMpiComm.hpp>

#include <numeric>

#include "mpisim.h"
#include "vh.h"
using namespace vh;

struct Config
{
  int                           R, N;
  std::vector<int>              mask;   // per global node: set of ranks
  std::vector<std::vector<int>> local;  // per rank: global node index in local order
  std::vector<int>              id;     // global node index -> global id
  std::string                   name;
};
// node order on a rank / id map variants
static const int   NORD = 4, NIDS = 4;
static Config
make(int R, int N, uint64_t code, int ord, int ids)
{
  Config c;
  c.R = R;
  c.N = N;
  uint64_t x = code;
  int      B = (1 << R) - 1;
  for (int g = 0; g < N; g++) {
    c.mask.push_back(1 + (int)(x % B));
    x /= B;
  }
  for (int g = 0; g < N; g++) {
    static const int sparse[] = {70, 3, 1000003, 12, 999, 41, 2000000011};
    static const int cluster[] = {5, 6, 2, 4, 3, 1, 7};
    static const int large[] = {1431655766, 1, 2000000011, 2147483647, 715827883, 0, 5};
    c.id.push_back(ids == 4 ? large[g] : ids == 0 ? g + 1 : ids == 1 ? N - g : ids == 2 ? sparse[g] : cluster[g]);
  }
  c.local.resize(R);
  for (int r = 0; r < R; r++) {
    auto& l = c.local[r];
    for (int g = 0; g < N; g++)
      if (c.mask[g] >> r & 1) l.push_back(g);
    int o = ord == 3 ? r % 3 : ord;
    if (o == 1) std::reverse(l.begin(), l.end());
    if (o == 2 && l.size() > 1) std::rotate(l.begin(), l.begin() + 1, l.end());
  }
  c.name = "ranks=" + std::to_string(R) + " nodes(global id:ranks)=";
  for (int g = 0; g < N; g++) {
    c.name += std::to_string(c.id[g]) + ":{";
    for (int r = 0; r < R; r++)
      if (c.mask[g] >> r & 1) c.name += std::to_string(r);
    c.name += "} ";
  }
  c.name += "order-variant=" + std::to_string(ord);
  return c;
}
// value contributed by rank r at node g, component k: exact sums identify the contributors
static double val(int r, int g, int k, int salt) { return std::ldexp(1.0 + 3 * g + k + 5 * salt, 6 * r); }

struct Look
{
  std::vector<double>* d;
  int                  fs;
  double&              operator()(int i, int j) { return (*d)[i * fs + j]; }
};

struct Obs
{
  std::vector<std::string> bad;
  std::vector<std::vector<double>> fields;
  bool                     finished = false;
};

static void
body(const Config& c, int r, Obs& o, bool light, bool tpetra = false)
{
  auto& l = c.local[r];
  std::vector<int> ids;
  for (int g : l) ids.push_back(c.id[g]);
  nimble::VectorCommunicator vc(3, l.size(), tpetra ? comm_type(new Teuchos::MpiComm<int>(MPI_COMM_WORLD)) : comm_type());
  vc.Initialize(ids);
  std::vector<int> idx, minr;
  vc.GetPartitionBoundaryNodeLocalIds(idx, minr);
  // exactly the nodes shared by two or more ranks, once each, with the lowest sharing rank
  std::map<int, int> got;
  if (idx.size() != minr.size()) o.bad.push_back("boundary|index and owner lists differ in length");
  for (size_t i = 0; i < idx.size() && i < minr.size(); i++) {
    if (idx[i] < 0 || idx[i] >= (int)l.size()) {
      o.bad.push_back("boundary|local index out of range");
      continue;
    }
    if (got.count(idx[i])) o.bad.push_back("boundary|a shared node is listed twice");
    got[idx[i]] = minr[i];
  }
  for (size_t i = 0; i < l.size(); i++) {
    int m = c.mask[l[i]];
    bool shared = m & (m - 1);
    int  lo = 0;
    while (!(m >> lo & 1)) lo++;
    if (shared != (got.count(i) > 0)) o.bad.push_back(std::string("boundary|a ") + (shared ? "shared node is not" : "node held by one rank is") + " reported as shared (rank " + std::to_string(r) + ", global id " + std::to_string(c.id[l[i]]) + ")");
    else if (shared && got[i] != lo) o.bad.push_back("boundary|wrong lowest rank for a shared node: " + std::to_string(got[i]) + " instead of " + std::to_string(lo));
  }
  int salt = 0;
  auto once = [&](int fs, bool lookup) {
    salt++;
    std::vector<double> d(l.size() * fs + 2, -77.0);
    for (size_t i = 0; i < l.size(); i++)
      for (int k = 0; k < fs; k++) d[i * fs + k] = val(r, l[i], k, salt);
    if (lookup) {
      Look lk{&d, fs};
      vc.VectorReduction(fs, lk);
    } else
      vc.VectorReduction(fs, d.data());
    for (size_t i = 0; i < l.size(); i++)
      for (int k = 0; k < fs; k++) {
        double e = 0;
        for (int q = 0; q < c.R; q++)
          if (c.mask[l[i]] >> q & 1) e += val(q, l[i], k, salt);
        if (d[i * fs + k] != e)
          o.bad.push_back(std::string("sum|") + (lookup ? "lookup" : "array") + " reduction of field size " + std::to_string(fs) + ": rank " + std::to_string(r) + " global id " + std::to_string(c.id[l[i]]) + " component " + std::to_string(k) + " holds " + fmt(d[i * fs + k]) + ", the sum of the contributions is " + fmt(e));
      }
    if (d[l.size() * fs] != -77.0 || d[l.size() * fs + 1] != -77.0) o.bad.push_back("sum|memory behind the field was overwritten");
    o.fields.push_back(d);
  };
  if (tpetra) {  // one value or one vector per node
    once(1, false);
    once(3, false);
    if (!light) {
      once(3, false);
      once(1, true);
      once(1, false);
    }
  } else if (light) {
    once(3, false);
    once(1, true);
  } else {
    once(1, false);
    once(3, false);
    once(2, false);
    once(3, true);
    once(1, true);
    once(2, true);
    once(3, false);
  }
  o.finished = true;
}

static void
judge(const Config& c, const mpisim::Execution& e, const std::vector<Obs>& obs, Ctx& x, const std::string& sched)
{
  x.executions++;
  x.evaluations++;
  x.transitions += e.steps;
  for (auto& m : e.errors) x.violation("schedule:" + m.substr(0, 24), m + " | " + c.name + " | schedule " + sched);
  for (size_t r = 0; r < obs.size(); r++) {
    for (auto& b : obs[r].bad) x.violation(b.substr(0, b.find('|')), b.substr(b.find('|') + 1) + " | " + c.name + " | schedule " + sched);
    if (!obs[r].finished && e.errors.empty()) x.violation("unfinished", "a rank did not finish | " + c.name);
    for (auto& f : obs[r].fields) x.outcome(hash_bytes(f.data(), f.size() * 8));
  }
  for (auto h : e.state_hashes) x.state(vh::hmix(h, c.R));
}

static uint64_t
ipow(uint64_t b, int e)
{
  uint64_t r = 1;
  while (e--) r *= b;
  return r;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool c02 = std::string(getenv("VH_PROPERTY") ? getenv("VH_PROPERTY") : "C01") == "C02";
  struct Shape { int R, N, ords, ids; };
  std::vector<Shape> shapes;
  if (!c02) {
    shapes = {{1, 1, 1, 2}, {1, 4, 3, 4}, {2, 1, 1, 4}, {2, 2, NORD, NIDS}, {2, 3, NORD, NIDS}, {2, 4, NORD, NIDS}, {2, 5, NORD, 2}, {3, 1, 1, 4}, {3, 2, NORD, NIDS}, {3, 3, NORD, NIDS}, {3, 4, NORD, NIDS}, {3, 5, 2, 1}, {4, 2, NORD, NIDS}, {4, 3, NORD, 2}, {2, 6, NORD, 3}, {5, 2, NORD, NIDS}, {4, 4, 1, 1}, {6, 2, 2, 2}, {5, 3, 1, 1}};
    if (opt.thorough()) {
      std::vector<Shape> t = {{2, 6, NORD, NIDS}, {2, 7, NORD, NIDS}, {2, 8, NORD, 3}, {3, 5, NORD, NIDS}, {3, 6, NORD, 2}, {4, 3, NORD, NIDS}, {4, 4, NORD, NIDS}, {4, 5, 2, 1}, {5, 3, NORD, NIDS}, {5, 4, 1, 1}, {6, 2, NORD, NIDS}, {6, 3, 2, 2}, {7, 2, 2, 2}};
      shapes.insert(shapes.end(), t.begin(), t.end());
    }
    for (auto& s : shapes) {
      uint64_t codes = ipow((1 << s.R) - 1, s.N);
      Stage    st;
      st.name = "configs-r" + std::to_string(s.R) + "n" + std::to_string(s.N) + (opt.thorough() ? "o" + std::to_string(s.ords) : "");
      st.n     = codes * s.ords * s.ids;
      st.chunk = 16;
      auto dec = [s](size_t i) { return make(s.R, s.N, i / (s.ords * s.ids), i % s.ords, i / s.ords % s.ids); };
      st.describe = [dec](size_t i) { return dec(i).name; };
      st.fn       = [dec](size_t i, Ctx& x) {
        Config           c = dec(i);
        mpisim::Config   mc;
        mc.nranks      = c.R;
        mc.sched_points = false;
        mc.test_points  = false;
        mc.keep_states  = true;
        std::vector<Obs> obs(c.R);
        auto e = mpisim::run(mc, {}, [&](int r) { body(c, r, obs[r], false); });
        judge(c, e, obs, x, "default");
        x.distinct(hash_str(c.name));
        if (c.R > 2 && c.N > 2) x.sample(c.name);
      };
      vh::run(st);
    }
    // the same through Tpetra
    std::vector<Shape> tp = {{1, 3, 3, 5}, {2, 2, NORD, 5}, {2, 3, NORD, 5}, {3, 2, NORD, 5}, {3, 3, 2, 5}, {4, 2, 2, 5}};
    if (opt.thorough()) tp = {{1, 4, 3, 5}, {2, 3, NORD, 5}, {2, 4, NORD, 5}, {3, 3, NORD, 5}, {4, 2, NORD, 5}, {3, 4, 2, 5}, {4, 3, 2, 5}};
    for (auto& s : tp) {
      uint64_t codes = ipow((1 << s.R) - 1, s.N);
      Stage    st;
      st.name  = "tpetra-r" + std::to_string(s.R) + "n" + std::to_string(s.N);
      st.n     = codes * s.ords * s.ids;
      st.chunk = 16;
      st.worker_init = [] { Kokkos::initialize(); };
      auto dec = [s](size_t i) { return make(s.R, s.N, i / (s.ords * s.ids), i % s.ords, i / s.ords % s.ids); };
      st.describe = [dec](size_t i) { return dec(i).name + " with Tpetra"; };
      st.fn       = [dec](size_t i, Ctx& x) {
        Config         c = dec(i);
        mpisim::Config mc;
        mc.nranks       = c.R;
        mc.sched_points = false;
        mc.test_points  = false;
        std::vector<Obs> obs(c.R);
        auto e = mpisim::run(mc, {}, [&](int r) { body(c, r, obs[r], false, true); });
        judge(c, e, obs, x, "default, with Tpetra");
        x.count("with Tpetra");
      };
      vh::run(st);
    }
    return finish();
  }
  // C02: all schedules up to a deviation bound on every sharing pattern of a shape
  struct S2 { int R, N, bound; bool full; };
  std::vector<S2> s2 = {{2, 1, 4, false}, {2, 2, 3, true}, {2, 3, 2, true}, {3, 1, 3, false}, {3, 2, 2, true}, {3, 3, 1, true}, {2, 4, 1, true}, {4, 1, 2, false}, {4, 2, 1, true}, {5, 1, 1, false}};
  if (opt.thorough()) s2 = {{2, 1, 5, false}, {2, 2, 4, true}, {2, 3, 3, true}, {3, 1, 3, true}, {3, 2, 3, false}, {3, 3, 2, false}, {2, 4, 2, true}, {2, 5, 2, false}, {4, 1, 2, true}, {4, 2, 2, false}, {3, 4, 1, false}, {4, 3, 1, false}, {5, 2, 1, false}};
  for (auto& s : s2) {
    uint64_t codes = ipow((1 << s.R) - 1, s.N);
    Stage    st;
    st.name     = "schedules-r" + std::to_string(s.R) + "n" + std::to_string(s.N) + "d" + std::to_string(s.bound);
    st.n        = codes;
    st.case_timeout = opt.thorough() ? 3000 : 300;
    auto dec    = [s](size_t i) { return make(s.R, s.N, i, 3, 1); };
    st.describe = [dec](size_t i) { return dec(i).name; };
    st.fn       = [dec, s](size_t i, Ctx& x) {
      Config         c = dec(i);
      mpisim::Config mc;
      mc.nranks      = c.R;
      mc.keep_states = true;
      std::vector<Obs>      obs;
      std::set<uint64_t>    sigs;
      std::vector<int>      worst;
      uint64_t n = mpisim::explore(
          mc, s.bound,
          [&] {
            obs.assign(c.R, Obs());
            return [&](int r) { body(c, r, obs[r], !s.full); };
          },
          [&](const mpisim::Execution& e, const std::vector<int>& p) {
            judge(c, e, obs, x, mpisim::show(p));
            sigs.insert(e.signature);
            if (p.size() > worst.size()) worst = p;
          });
      x.count("schedules", n);
      x.count("distinct-event-orders", sigs.size());
      x.distinct(hash_str(c.name));
      // replay determinism: the same choice list gives the same events
      obs.assign(c.R, Obs());
      auto a = mpisim::run(mc, worst, [&](int r) { body(c, r, obs[r], !s.full); });
      obs.assign(c.R, Obs());
      auto b = mpisim::run(mc, worst, [&](int r) { body(c, r, obs[r], !s.full); });
      if (a.signature != b.signature) x.count("replay-mismatch");
      if (n > 50) x.sample(c.name + ": " + std::to_string(n) + " schedules, " + std::to_string(sigs.size()) + " distinct event orders");
    };
    vh::run(st);
  }
  if (total().counters["replay-mismatch"]) {
    fprintf(stderr, "schedule replay is not deterministic\n");
    return 2;
  }
  note("deviation_bound", opt.thorough() ? "1..5 by shape" : "1..4 by shape");
  return finish();
}
