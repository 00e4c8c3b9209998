// Replays histories of operations on the containers of timed words: one
// request per line, `id seconds kind (hex of the stream) U nOps (name n)*`,
// kind: lazy-ascii, lazy-binary, vector-ascii, vector-binary.
#include "common.hh"
#include "word_container.hh"
#include <deque>

static std::string unhex(const std::string &h) {
  std::string o;
  if (h == "-") return o;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  return o;
}
template <class W> struct Open : public W {
  using W::W;
  // how many events are in memory; -1 if the container does not show it
  long held() const {
    if constexpr (requires(const decltype(this->vec) &v) { static_cast<const std::deque<std::pair<Alphabet, double>> &>(v); })
      return static_cast<const std::deque<std::pair<Alphabet, double>> &>(this->vec).size();
    else return -1;
  }
};

template <class W> static std::string play(std::istream &is, FILE *f, bool binary, int U) {
  Open<W> w(f, binary);
  std::ostringstream o;
  o << "\"steps\":[";
  for (int k = itok(is), i = 0; i < k; i++) {
    const std::string name = tok(is);
    const long n = itok(is);
    long r = -1;
    std::string c = "\"-\"";
    long long t = -1;
    try {
      if (name == "fetch") r = w.fetch(n) ? 1 : 0;
      else if (name == "size") r = w.size() == std::numeric_limits<std::size_t>::max() ? -2 : (long)std::min<std::size_t>(w.size(), 1000000);
      else if (name == "front") { w.setFront(n); r = 0; }
      else {
        const auto e = i % 2 && f ? w.at(n) : (std::is_same_v<W, WordLazyDeque> ? w[n] : w.at(n));
        r = n;
        c = jstr(std::string(1, (char)e.first));
        const double x = e.second * U;
        t = x == std::floor(x) && std::abs(x) < 1e9 ? (long long)x : -7;
      }
    } catch (const std::out_of_range &) {
      r = -1;
    }
    o << (i ? "," : "") << "[" << jstr(name) << "," << n << "," << r << "," << c << "," << t << "," << ftell(f) << "," << w.held() << "]";
  }
  return o.str() + "]";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line);
    const std::string id = tok(is);
    const int secs = itok(is);
    const std::string kind = tok(is), content = unhex(tok(is));
    const int U = itok(is);
    const std::string r = isolated(
        [&]() {
          FILE *f = tmpfile();
          if (!f) _exit(95);
          fwrite(content.data(), 1, content.size(), f);
          rewind(f);
          const bool binary = kind.find("binary") != std::string::npos;
          if (kind[0] == 'l') return play<WordLazyDeque>(is, f, binary, U);
          return play<WordVector<std::pair<Alphabet, double>>>(is, f, binary, U);
        },
        secs);
    std::cout << "{\"id\":" << jstr(id) << "," << r << "}" << std::endl;
  }
}
