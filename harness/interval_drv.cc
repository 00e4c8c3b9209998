// The interval algebra as data: `id seconds op nLeft (l lc u uc)* nRight (l lc u uc)*`
// with u = -1 for no upper bound.  contain: the right side is a list of halves.
#include "common.hh"
#include "interval.hh"

using List = std::vector<std::shared_ptr<Interval>>;
static const double INF = std::numeric_limits<double>::infinity();
static Interval readI(std::istream &is) {
  const int l = itok(is), lc = itok(is), u = itok(is), uc = itok(is);
  return Interval(Bounds{(double)l, lc == 1}, Bounds{u == -1 ? INF : (double)u, uc == 1});
}
static List readL(std::istream &is) {
  List v;
  for (int n = itok(is); n > 0; n--) v.push_back(std::make_shared<Interval>(readI(is)));
  return v;
}
static std::string one(double v) {
  if (std::isnan(v)) return "-7777";
  if (v > 1e6) return "1000000";
  if (v < -1e6) return "-1000000";
  return std::to_string((long long)llround(v * 2)); // in halves
}
static std::string show(const List &v) {
  std::string o = "[";
  for (std::size_t i = 0; i < v.size(); i++)
    o += std::string(i ? "," : "") + "[" + one(v[i]->lowerBound.first) + "," + (v[i]->lowerBound.second ? "1" : "0") + "," +
         one(v[i]->upperBound.first) + "," + (v[i]->upperBound.second ? "1" : "0") + "]";
  return o + "]";
}
static List single(const Interval &i) { return {std::make_shared<Interval>(i)}; }

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line);
    const std::string id = tok(is);
    const int secs = itok(is);
    const std::string op = tok(is);
    List a = readL(is), b, r;
    std::vector<int> halves;
    if (op == "contain") for (int n = itok(is); n > 0; n--) halves.push_back(itok(is));
    else b = readL(is);
    const std::string res = isolated(
        [&]() {
          const std::string b0 = show(b);
          if (op == "contain") {
            std::string o = "\"verdicts\":[";
            for (std::size_t i = 0; i < halves.size(); i++) o += std::string(i ? "," : "") + (a[0]->contain(halves[i] / 2.0) ? "1" : "0");
            return o + "]";
          }
          if (op == "and") r = single(*a[0] && *b[0]);
          else if (op == "sum") r = single(*a[0] + *b[0]);
          else if (op == "land1") { land(a, *b[0]); r = a; }
          else if (op == "land") { land(a, b); r = a; }
          else if (op == "sums") { a += b; r = a; }
          else if (op == "plus1") a[0]->plus(r);
          else if (op == "plus") { plus(a); r = a; }
          return "\"result\":" + show(r) + ",\"kept\":" + (b0 == show(b) ? "1" : "0");
        },
        secs, 2000);
    std::cout << "{\"id\":" << jstr(id) << "," << res << "}" << std::endl;
  }
}
