// C06: expressions.  Every string up to a length over several alphabets, and every
// expression tree up to a size in several layouts, against an independent parser.
#include <nimble_expression_parser.h>

#include <limits>

#include "vh.h"
using namespace vh;

// ---- independent grammar -------------------------------------------------
//  expr  := cond '?' expr ':' expr | sum
//  sum   := prod (('+'|'-') prod)*        prod := unary (('*'|'/') unary)*
//  unary := '-' unary | power             power := atom ['^' unary]
//  atom  := ['+']number | e | pi | tau | x | y | z | t | f'('expr')' | '('expr')'
//  cond  := xr ('|' xr)*   xr := an ('^' an)*   an := no ('&' no)*   no := '!' no | true | false | '('cond')' | sum rel sum
//  (inside a condition '^' outside parentheses is exclusive or)
struct Bad {};
typedef double (*F1)(double);
static const std::vector<std::pair<std::string, F1>> FN = {
    {"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"erf", std::erf}, {"exp", std::exp}, {"log", std::log}, {"abs", std::fabs}, {"asin", std::asin}, {"acos", std::acos},
    {"atan", std::atan}, {"sqrt", std::sqrt}, {"cbrt", std::cbrt}, {"erfc", std::erfc}, {"ceil", std::ceil}, {"round", std::round}, {"floor", std::floor}, {"log10", std::log10}};

// a value with a bound on what rounding and reassociation can do to it
struct D
{
  double v, e;
  D(double a = 0, double b = 0) : v(a), e(b) {}
};
static D
mk(double v, double e)
{
  if (!std::isfinite(v)) return D(v, e == 0 ? 0 : INFINITY);
  return D(v, std::isfinite(e) ? e + 4e-16 * std::fabs(v) : INFINITY);
}
static D operator-(D a) { return D(-a.v, a.e); }
static D operator+(D a, D b) { return mk(a.v + b.v, a.e + b.e); }
static D operator-(D a, D b) { return mk(a.v - b.v, a.e + b.e); }
static D operator*(D a, D b) { return mk(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e); }
static double
spread(double r, std::initializer_list<double> o)
{
  double e = 0;
  for (double q : o) {
    if (std::isnan(q) != std::isnan(r)) return INFINITY;
    if (std::isnan(r)) continue;
    if (q == r) continue;
    e = std::max(e, std::fabs(q - r));
  }
  return e;
}
static D
operator/(D a, D b)
{
  double r = a.v / b.v;
  if (b.e > 0 && std::fabs(b.v) <= 2 * b.e) return D(r, INFINITY);
  return mk(r, b.e == 0 && a.e == 0 ? 0 : (a.e + std::fabs(r) * b.e) / (std::fabs(b.v) - b.e));
}
static D
apply(F1 f, D a)
{
  double r = f(a.v);
  return a.e == 0 ? mk(r, 0) : mk(r, 4 * spread(r, {f(a.v - a.e), f(a.v + a.e)}));
}
static D
power(D a, D b)
{
  double r = std::pow(a.v, b.v);
  if (a.e == 0 && b.e == 0) return mk(r, 0);
  return mk(r, 4 * spread(r, {std::pow(a.v - a.e, b.v - b.e), std::pow(a.v - a.e, b.v + b.e), std::pow(a.v + a.e, b.v - b.e), std::pow(a.v + a.e, b.v + b.e), std::pow(a.v, b.v + b.e), std::pow(a.v, b.v - b.e)}));
}

struct P
{
  const std::string& s;
  const double*      v;  // x y z t
  size_t             i = 0;
  int                incond = 0;
  bool               unsure = false;
  P(const std::string& q, const double* w) : s(q), v(w) {}
  void ws() { while (i < s.size() && s[i] == ' ') i++; }
  bool is(char c) { ws(); return i < s.size() && s[i] == c; }
  bool eat(char c)
  {
    if (!is(c)) return false;
    i++;
    return true;
  }
  D all()
  {
    D r = expr();
    ws();
    if (i != s.size()) throw Bad();
    return r;
  }
  D expr()
  {
    size_t at = i;
    int    ic = incond;
    bool   c;
    incond = 1;
    try {
      c = cond();
      if (!eat('?')) throw Bad();
    } catch (Bad&) {
      i      = at;
      incond = 0;
      D r = sum();
      incond   = ic;
      return r;
    }
    incond   = 0;
    D a = expr();
    if (!eat(':')) throw Bad();
    D b = expr();
    incond   = ic;
    return c ? a : b;
  }
  D sum()
  {
    D r = prod();
    for (;;) {
      if (eat('+')) r = r + prod();
      else if (eat('-')) r = r - prod();
      else return r;
    }
  }
  D prod()
  {
    D r = unary();
    for (;;) {
      if (eat('*')) r = r * unary();
      else if (eat('/')) r = r / unary();
      else return r;
    }
  }
  D unary()
  {
    if (eat('-')) return -unary();
    return power();
  }
  D power()
  {
    D b = atom();
    if (!incond && eat('^')) return ::power(b, unary());
    return b;
  }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  D atom()
  {
    ws();
    if (i >= s.size()) throw Bad();
    char c = s[i];
    if (c == '(') {
      i++;
      int ic   = incond;
      incond   = 0;
      D r = expr();
      incond   = ic;
      if (!eat(')')) throw Bad();
      return r;
    }
    if (dig(c) || c == '.' || (c == '+' && i + 1 < s.size() && (dig(s[i + 1]) || s[i + 1] == '.'))) {
      size_t j = i + (c == '+');
      int    nd = 0, dot = 0;
      while (j < s.size() && (dig(s[j]) || s[j] == '.')) {
        if (s[j] == '.' && ++dot > 1) throw Bad();
        nd += dig(s[j]);
        j++;
      }
      if (!nd) throw Bad();
      if (j < s.size() && s[j] == 'e') {
        size_t k = j + 1;
        if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
        size_t k0 = k;
        while (k < s.size() && dig(s[k])) k++;
        if (k == k0) throw Bad();
        j = k;
      }
      if (j < s.size() && (isalpha(s[j]) || s[j] == '.')) throw Bad();
      errno    = 0;
      double r = strtod(s.substr(i, j - i).c_str(), nullptr);
      if (errno == ERANGE) throw Bad();  // a number that cannot be represented is refused
      i = j;
      return r;
    }
    if (isalpha(c)) {
      size_t j = i;
      while (j < s.size() && (isalnum(s[j]))) j++;
      std::string w = s.substr(i, j - i);
      i             = j;
      if (w == "x") return v[0];
      if (w == "y") return v[1];
      if (w == "z") return v[2];
      if (w == "t") return v[3];
      if (w == "e") return M_E;
      if (w == "pi") return M_PI;
      if (w == "tau") return 2 * M_PI;
      for (auto& f : FN)
        if (f.first == w) {
          if (i >= s.size() || s[i] != '(') throw Bad();
          i++;
          int ic   = incond;
          incond   = 0;
          D r = expr();
          incond   = ic;
          if (!eat(')')) throw Bad();
          return apply(f.second, r);
        }
    }
    throw Bad();
  }
  bool cond()
  {
    bool r = xr();
    while (eat('|')) r = xr() | r;
    return r;
  }
  bool xr()
  {
    bool r = an();
    while (eat('^')) r = an() ^ r;
    return r;
  }
  bool an()
  {
    bool r = no();
    while (eat('&')) r = no() & r;
    return r;
  }
  bool no()
  {
    if (is('!') && !(i + 1 < s.size() && s[i + 1] == '=')) {
      i++;
      return !no();
    }
    ws();
    for (int k = 0; k < 2; k++) {
      std::string w = k ? "false" : "true";
      if (s.compare(i, w.size(), w) == 0 && !(i + w.size() < s.size() && isalnum(s[i + w.size()]))) {
        i += w.size();
        return !k;
      }
    }
    size_t at = i;
    int    ic = incond;
    try {
      D a = sum();
      int    r = -1;
      if (eat('>')) {
        r = 0;
        if (i < s.size() && s[i] == '=') { i++; r = 1; }
      } else if (eat('<')) {
        r = 2;
        if (i < s.size() && s[i] == '=') { i++; r = 3; }
      } else if (eat('=')) {
        if (!(i < s.size() && s[i] == '=')) throw Bad();
        i++;
        r = 4;
      } else
        throw Bad();
      D b = sum();
      if (a.v == b.v ? a.e + b.e > 0 : std::fabs(a.v - b.v) <= a.e + b.e) unsure = true;
      return r == 0 ? a.v > b.v : r == 1 ? a.v >= b.v : r == 2 ? a.v < b.v : r == 3 ? a.v <= b.v : a.v == b.v;
    } catch (Bad&) {
      i      = at;
      incond = ic;
      if (!eat('(')) throw;
      bool r = cond();
      if (!eat(')')) throw Bad();
      return r;
    }
  }
};

static const double PTS[3][4] = {{1.25, -0.7, 2.5, 0.3}, {0.4, 1.9, -1.1, 3.2}, {-2.3, 0.6, 0.8, -1.7}};

// 0: value, 1: ill-formed
static int
oracle(const std::string& s, const double* v, double& r, bool* vague = nullptr)
{
  try {
    P p(s, v);
    D d = p.all();
    r   = d.v;
    if (vague) *vague = p.unsure || (std::isfinite(r) ? !(d.e <= 1e-10 * std::max(std::fabs(r), 1e-3)) : d.e != 0);
    return 0;
  } catch (Bad&) {
    return 1;
  }
}
static std::string
lower(std::string s)
{
  for (char& c : s) c = tolower(c);
  return s;
}
static void
check(const std::string& text, Ctx& x, bool deep)
{
  std::string s = lower(text);
  double      want;
  int         ill = oracle(s, PTS[0], want);
  x.evaluations++;
  x.executions++;
  try {
    ExpressionParsing::BoundaryConditionFunctor f(text);
    if (ill) {
      x.count("ill-formed");
      x.violation("accepted:" + text, "the ill-formed expression \"" + text + "\" is accepted");
      return;
    }
    x.count("well-formed");
    uint64_t h = 7;
    for (int p = 0; p < 3; p++) {
      double w = 0, g = f(PTS[p][0], PTS[p][1], PTS[p][2], PTS[p][3]);
      bool vague = false;
      oracle(s, PTS[p], w, &vague);
      x.transitions++;
      if (vague) x.count("ill-conditioned values not compared");
      h = hash_dbl(&w, 1, h);
      if (!vague && !close(g, w, 1e-9, 1e-12)) {
        x.violation("value:" + text, "\"" + text + "\" gives " + fmt(g) + " at (" + fmt(PTS[p][0]) + ", " + fmt(PTS[p][1]) + ", " + fmt(PTS[p][2]) + ", " + fmt(PTS[p][3]) + "), expected " + fmt(w));
        return;
      }
      if (deep) {
        double a = f.eval(), b = f.eval(PTS[p][0], PTS[p][1], PTS[p][2], PTS[p][3]);
        ExpressionParsing::BoundaryConditionFunctor c(f), d;
        d = f;
        f.x = 91; f.y = 92; f.z = 93; f.t = 94;
        double e = c(PTS[p][0], PTS[p][1], PTS[p][2], PTS[p][3]), q = d(PTS[p][0], PTS[p][1], PTS[p][2], PTS[p][3]);
        ExpressionParsing::BoundaryConditionFunctor o("x + 17*t");
        o = text;
        double m = o(PTS[p][0], PTS[p][1], PTS[p][2], PTS[p][3]);
        double z = f(PTS[p][0], PTS[p][1], PTS[p][2], PTS[p][3]);
        for (double k : {a, b, e, q, m, z})
          if (!close(k, g, 1e-15, 0)) {
            x.violation("again:" + text, "\"" + text + "\" gives " + fmt(g) + " first and " + fmt(k) + " from a second evaluation or a copy");
            return;
          }
      }
    }
    x.state(h);
    x.outcome(h);
  } catch (std::exception& e) {
    if (!ill) x.violation("refused:" + text, "the well-formed expression \"" + text + "\" is refused: " + e.what());
    else x.count("ill-formed");
  }
}

// ---- trees ---------------------------------------------------------------
struct T { int op; std::string leaf; int a = -1, b = -1; };  // op: 0 leaf, + - * / ^, 'n' neg, 'f' function leaf name
static std::vector<T> pool;
static const int PREC_SUM = 1, PREC_PROD = 2, PREC_NEG = 3, PREC_POW = 4, PREC_ATOM = 5;
static std::string
show(int n, int layout, int& prec)
{
  const T&    t = pool[n];
  std::string sp = layout == 1 ? " " : "", ip = layout == 3 ? " " : "";
  auto par = [&](const std::string& s) { return "(" + ip + s + ip + ")"; };
  if (t.op == 0) {
    prec = PREC_ATOM;
    return layout == 2 ? "(" + t.leaf + ")" : t.leaf;
  }
  int         pa, pb;
  std::string a = show(t.a, layout, pa), b;
  if (t.op == 'f') {
    prec = PREC_ATOM;
    return t.leaf + par(a);
  }
  if (t.op == 'n') {
    if (pa < PREC_NEG) a = par(a);
    prec          = PREC_NEG;
    std::string r = "-" + sp + a;
    if (layout == 2) { r = par(r); prec = PREC_ATOM; }
    return r;
  }
  b = show(t.b, layout, pb);
  switch (t.op) {
    case '+': prec = PREC_SUM; if (pb <= PREC_SUM) b = par(b); break;
    case '-': prec = PREC_SUM; if (pb <= PREC_SUM) b = par(b); break;
    case '*':
    case '/': prec = PREC_PROD; if (pa < PREC_PROD) a = par(a); if (pb <= PREC_PROD) b = par(b); break;
    case '^': prec = PREC_POW; if (pa <= PREC_POW) a = par(a); if (pb < PREC_NEG) b = par(b); break;
  }
  std::string r = a + sp + std::string(1, (char)t.op) + sp + b;
  if (layout == 2) { r = par(r); prec = PREC_ATOM; }
  return r;
}

int
main(int argc, char** argv)
{
  init(argc, argv);
  bool th = opt.thorough();
  // strings
  struct A { std::string name; std::vector<std::string> tok; int len; };
  std::vector<A> as = {
      {"arithmetic", {"x", "2", "+", "-", "*", "/", "^", "(", ")", " "}, th ? 7 : 6},
      {"numbers", {"1", ".", "e", "+", "-", "x"}, th ? 8 : 7},
      {"functions", {"sin(", "sqrt(", "abs(", "y", "3", ")", "-", "+", "*", "^", "(", "pi"}, th ? 6 : 5},
      {"conditions", {"x", "1", ">", "<", "=", "?", ":", "2", "-", "(", ")"}, th ? 7 : 6},
      {"logic", {"x>1", "y<=1", "true", "!", "&", "|", "^", "(", ")"}, th ? 7 : 6},
  };
  for (auto& a : as) {
    size_t n = 1, k = a.tok.size();
    for (int i = 0; i < a.len; i++) n *= k;
    // index i < k^len enumerates strings of exactly len tokens; shorter ones separately
    std::vector<std::pair<int, size_t>> off;  // length, count
    size_t total = 0, c = 1;
    std::vector<size_t> start;
    for (int l = 1; l <= a.len; l++) {
      c *= k;
      start.push_back(total);
      total += c;
    }
    auto text = [=](size_t i) {
      int l = a.len;
      while (l > 1 && i < start[l - 1]) l--;
      i -= start[l - 1];
      std::string s;
      for (int j = 0; j < l; j++, i /= k) s += a.tok[i % k];
      if (a.name == "logic") s += " ? 2 : 3";
      return s;
    };
    Stage st;
    st.name     = a.name;
    size_t blk  = 2000;
    st.n        = (total + blk - 1) / blk;
    st.describe = [=](size_t b) { return "strings " + std::to_string(b * blk) + ".. of " + a.name; };
    st.fn       = [=](size_t b, Ctx& x) {
      for (size_t i = b * blk; i < std::min(total, (b + 1) * blk); i++) {
        auto s = text(i);
        check(s, x, false);
      }
      x.distinct(hash_str(a.name + std::to_string(b)));
      x.sample(text(b * blk + 1), 3);
    };
    st.chunk = 4;
    vh::run(st);
  }
  // trees: all of up to `max` operators over the leaves
  std::vector<std::string> leaves = {"x", "2", "y"};
  int max = th ? 4 : 3;
  std::vector<std::vector<int>> by(max + 1);
  for (auto& l : leaves) {
    by[0].push_back(pool.size());
    pool.push_back({0, l});
  }
  for (int n = 1; n <= max; n++) {
    for (int a : by[n - 1]) {
      if (n <= (th ? 3 : 3)) {
        by[n].push_back(pool.size());
        pool.push_back({'n', "", a});
      }
      if (n <= 2) {
        by[n].push_back(pool.size());
        pool.push_back({'f', "cos", a});
      }
    }
    for (char op : std::string("+-*/^"))
      for (int l = 0; l < n; l++)
        for (int a : by[l])
          for (int b : by[n - 1 - l]) {
            by[n].push_back(pool.size());
            pool.push_back({op, "", a, b});
          }
  }
  std::vector<int> roots;
  for (auto& b : by) roots.insert(roots.end(), b.begin(), b.end());
  Stage tr;
  tr.name     = "trees";
  size_t blk  = 500;
  tr.n        = (roots.size() + blk - 1) / blk;
  tr.describe = [&](size_t i) { int p; return "trees from " + show(roots[i * blk], 0, p); };
  tr.fn       = [&](size_t b, Ctx& x) {
    for (size_t i = b * blk; i < std::min(roots.size(), (b + 1) * blk); i++)
      for (int lay = 0; lay < 4; lay++) {
        int p;
        if (lay && i >= by[0].size() + by[1].size() + by[2].size() && (i + lay) % (max > 3 ? 12 : 3)) continue;
        check(show(roots[i], lay, p), x, lay == 0 && i < 20000);
      }
    int p;
    x.distinct(hash_str(show(roots[b * blk], 0, p)));
    x.sample(show(roots[b * blk], 1, p), 4);
  };
  vh::run(tr);
  // the full alphabet of literals, constants, functions and operators in all pairs
  std::vector<std::string> L = {"x", "y", "z", "t", "e", "pi", "tau", "0", "7", "0.5", ".5", "5.", "1e2", "1e-2", "1.5E+1", "2E0", "12.75e-1", "-3", "+4", "-1e-3", "00012", "1000000", "T", "PI"};
  std::vector<std::string> W;
  for (auto& l : L) W.push_back(l);
  for (auto& f : FN)
    for (auto& l : L) W.push_back(f.first + "(" + l + ")");
  for (auto& f : FN)
    for (auto& g : FN) W.push_back(f.first + "(" + g.first + "(x))");
  for (auto& f : FN) {
    std::string u = f.first;
    u[0]          = toupper(u[0]);
    W.push_back(u + "(X)");
    W.push_back(f.first + "( x )");
    W.push_back(f.first + "((x) )");
    W.push_back("(" + f.first + "(x))^2 - " + f.first + "(y)*-3");
    for (auto& l : L) W.push_back(l + "-" + f.first + "(t) / " + f.first + "( " + l + " )");
    W.push_back(f.first);
    W.push_back(f.first + "()");
    W.push_back(f.first + "(x");
    W.push_back(f.first + "x");
    W.push_back(f.first + "(x)y");
    W.push_back(f.first + "(q)");
    W.push_back(f.first.substr(0, f.first.size() - 1) + "(x)");
    W.push_back(f.first + "h(x)");
  }
  for (std::string op : {"+", "-", "*", "/", "^", " + ", " - ", " * ", " / ", " ^ "})
    for (auto& a : L)
      for (auto& b : L) {
        W.push_back(a + op + b);
        W.push_back("(" + a + ")" + op + "(" + b + ")");
        W.push_back("2" + op + a + "-" + b);
        W.push_back("x-" + a + op + b);
      }
  for (std::string rel : {">", "<", ">=", "<=", "=="})
    for (auto& a : L)
      for (auto& b : L) {
        W.push_back(a + rel + b + "?" + b + ":" + a);
        W.push_back("(" + a + " " + rel + " " + b + " ? " + a + " : " + b + ") * 2");
        W.push_back("!(" + a + rel + b + ") ? 1 : x>0 ? 5 : 6");
        W.push_back(a + "*2" + rel + b + "+1 & (x>0 | y>0) ? x>0 ? 1 : 2 : 3");
      }
  Stage wo;
  wo.name     = "vocabulary";
  wo.n        = (W.size() + 99) / 100;
  wo.describe = [&](size_t i) { return W[i * 100]; };
  wo.fn       = [&](size_t b, Ctx& x) {
    for (size_t i = b * 100; i < std::min(W.size(), (b + 1) * 100); i++) check(W[i], x, true);
    x.distinct(hash_str(W[b * 100]));
  };
  vh::run(wo);
  // modulus of parenthesised operands
  Stage mo;
  mo.name     = "modulus";
  mo.n        = L.size() * L.size();
  mo.describe = [&](size_t i) { return "(" + L[i / L.size()] + ") % (" + L[i % L.size()] + ")"; };
  mo.fn       = [&](size_t i, Ctx& x) {
    std::string a = L[i / L.size()], b = L[i % L.size()];
    for (std::string s : {"(" + a + ") % (" + b + ")", "2*((" + a + ")%(" + b + "))"}) {
      x.executions++;
      x.evaluations++;
      double u, w;
      oracle(lower(a), PTS[1], u);
      oracle(lower(b), PTS[1], w);
      double e = std::fmod(u, w) * (s[0] == '2' ? 2 : 1);
      try {
        ExpressionParsing::BoundaryConditionFunctor f(s);
        double g = f(PTS[1][0], PTS[1][1], PTS[1][2], PTS[1][3]);
        if (!close(g, e, 1e-9, 1e-9)) x.violation("value:" + s, s + " gives " + fmt(g) + ", expected " + fmt(e));
      } catch (std::exception& ex) {
        x.violation("refused:" + s, "the expression " + s + " is refused: " + ex.what());
      }
    }
  };
  vh::run(mo);
  // long expressions: every length up to a bound of every repeated pattern, so that every number of parsed objects occurs
  std::vector<std::string> heads = {"x", "-x", "sin(x)", "x*y", "(x)", "x > 1 ? y : 2", "2"};
  std::vector<std::string> units = {"+1", "-x", "*1.01", "+x*y", "-(y)", "+cos(t)", "/1.5", " + -y", "+x^2", "+(x-1)*2", "-(x>1?1:y)"};
  int longest = th ? 300 : 150;
  Stage lo;
  lo.name     = "long";
  lo.n        = heads.size() * units.size() * 3;
  lo.describe = [&](size_t i) { return heads[i / 3 % heads.size()] + " then many " + units[i / 3 / heads.size()] + ", nesting " + std::to_string(i % 3); };
  lo.fn       = [&](size_t i, Ctx& x) {
    std::string h = heads[i / 3 % heads.size()], u = units[i / 3 / heads.size()];
    for (int n = 1; n <= longest; n++) {
      std::string s = h;
      if (h.find('?') != std::string::npos) s = "(" + s + ")";
      for (int k = 0; k < n; k++) {
        s += u;
        if (k % std::max(n / 6, 1) == n / 6 && i % 3) s = i % 3 == 1 ? "(" + s + ")" : "cos(" + s + ")";
      }
      check(s, x, n < 40);
    }
    x.distinct(hash_str(h + u + std::to_string(i % 3)));
  };
  lo.case_timeout = 120;
  vh::run(lo);
  note("bounds", "all strings of up to 5 to 8 tokens over five alphabets, all trees of up to " + std::to_string(max) + " operators over three leaves");
  return finish();
}
