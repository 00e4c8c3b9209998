// Histories of operations on zones: `id seconds [u|z] n M Mclosed nOther (op)* nOps (op)*`.
// op: t x y c closed | r x | e | w | c | a | i | k from to | g | q   (clocks 0.., the constant is -1)
#include "common.hh"
#include "zone.hh"

static const double INF = std::numeric_limits<double>::infinity();
struct Op {
  char k;
  int a = 0, b = 0, c = 0, d = 0;
};
static std::vector<Op> readOps(std::istream &is) {
  std::vector<Op> v;
  for (int n = itok(is); n > 0; n--) {
    Op o;
    o.k = tok(is)[0];
    if (o.k == 't') { o.a = itok(is); o.b = itok(is); o.c = itok(is); o.d = itok(is); }
    if (o.k == 'r') o.a = itok(is);
    if (o.k == 'k') { o.a = itok(is); o.b = itok(is); }
    v.push_back(o);
  }
  return v;
}
static std::string num(double v) {
  if (std::isnan(v)) return "7777777";
  if (v > 1e6) return "1000000";
  if (v < -1e6) return "-1000000";
  if (v != std::floor(v)) return "7777777";
  return std::to_string((long long)v);
}
static std::string matrix(const Zone &z) {
  std::string o = "[";
  for (int i = 0; i < z.value.rows(); i++) {
    o += i ? ",[" : "[";
    for (int j = 0; j < z.value.cols(); j++)
      o += std::string(j ? "," : "") + "[" + num(z.value(i, j).first) + "," + (z.value(i, j).second ? "1" : "0") + "]";
    o += "]";
  }
  return o + "]";
}
static Zone start(char k, int n, Bounds M) {
  // zones of other sizes are made in the same process
  (void)Zone::zero(n + 3), (void)Zone::universal(n + 2), (void)Zone::zero(n), (void)Zone::universal(n + 1);
  Zone z;
  if (k == 'z') z = Zone::zero(n + 1);
  else {
    z = Zone::universal(n);
    for (int x = 0; x < n; x++) z.tighten(-1, x, {0, true});
  }
  z.M = M;
  return z;
}
static bool sat(Zone z) { return z.isSatisfiable(); }
static void apply(Zone &z, const Op &o) {
  switch (o.k) {
  case 't': z.tighten(o.a, o.b, {(double)o.c, o.d == 1}); break;
  case 'r': z.reset(o.a); break;
  case 'e': z.elapse(); break;
  case 'w': z.elapseOrStay(); break;
  case 'c': z.canonize(); break;
  case 'a': z.abstractize(); break;
  case 'u': z.makeUnsat(); break;
  }
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line);
    const std::string id = tok(is);
    const int secs = itok(is);
    const char kind = tok(is)[0];
    const int n = itok(is), M = itok(is), Mc = itok(is);
    const auto other = readOps(is), ops = readOps(is);
    const std::string res = isolated(
        [&]() {
          Zone b = start(kind, n, {(double)M, Mc == 1});
          for (const Op &o : other) apply(b, o);
          b.canonize();
          Zone z = start(kind, n, {(double)M, Mc == 1});
          std::string out = "\"other\":" + matrix(b) + ",\"otherSat\":" + (sat(b) ? "1" : "0") + ",\"steps\":[";
          bool first = true;
          auto step = [&](const Op &o, const std::string &guard, int eq) {
            out += std::string(first ? "" : ",") + "{\"op\":\"" + o.k + "\",\"a\":[" + std::to_string(o.a) + "," + std::to_string(o.b) + "," +
                   std::to_string(o.c) + "," + std::to_string(o.d) + "],\"m\":" + matrix(z) + ",\"sat\":" + (sat(z) ? "1" : "0") +
                   ",\"guard\":[" + guard + "],\"eq\":" + std::to_string(eq) + "}";
            first = false;
          };
          step(Op{'s'}, "", -1);
          for (const Op &o : ops) {
            std::string guard;
            int eq = -1;
            if (o.k == 'i') { z.intersectionAssign(b); z.canonize(); }
            else if (o.k == 'k') {
              std::shared_ptr<Zone> r;
              z.cutVars(r, o.a, o.b);
              z = *r;
            } else if (o.k == 'g') {
              Zone c = z;
              for (const Constraint &g : c.makeGuard())
                guard += std::string(guard.empty() ? "" : ",") + "[" + std::to_string(int(g.x) + 1) + "," +
                         std::to_string(int(g.odr)) + "," + std::to_string(g.c) + "]";
            } else if (o.k == 'q') {
              Zone c = z;
              c.canonize();
              eq = c == b;
            } else apply(z, o);
            step(o, guard, eq);
            if (!sat(z)) break;
          }
          return out + "]";
        },
        secs, 2000);
    std::cout << "{\"id\":" << jstr(id) << "," << res << "}" << std::endl;
  }
}
