// Replays operation sequences on the real multiBitSet and records what can be
// read after each.  Input per scenario: bits, bb, regs, ops (';'-separated,
// fields by ','; values as hex).
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/SimpleMatrix>
using namespace vp;

static std::string limbs(uint64_t v) {
  std::string s = "[";
  for (int k = 0; k < 4; k++, v >>= 16) s += (k ? "," : "") + std::to_string(v & 65535);
  return s + "]";
}
template <class It>
static std::string list(const std::vector<It>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + limbs(v[i]);
  return s + "]";
}

template <int B, class U>
struct Run {
  using S = heu::multiBitSet<B, U>;
  using V = typename S::value_t;
  std::vector<std::unique_ptr<S>> reg;

  // one step of an iterator by d, in one of the ways offered
  template <class It>
  static It moved(It it, int64_t d, int style) {
    switch (style % 4) {
      case 0: return d < 0 ? it - (-d) : it + d;
      case 1: return it[d];
      case 2: {
        for (; d > 0; d--) ++it;
        for (; d < 0; d++) --it;
        return it;
      }
      default: {
        for (; d > 0; d--) it++;
        for (; d < 0; d++) it--;
        return it;
      }
    }
  }
  template <class It, class C>
  static std::string where(C& c, It it, int style) {
    const int64_t n = int64_t(c.size()), p = int64_t(it.index());
    return "[" + std::to_string(p) + "," + std::to_string(int(it == c.begin())) + "," +
           std::to_string(int(it == c.end())) + "," + std::to_string(int(it.isNull())) + "," +
           std::to_string(int(moved(it, -p, style) == c.begin() && !(moved(it, -p, style + 1) != c.begin()))) + "," +
           std::to_string(int(moved(it, n - p, style + 2) == c.end() && !(moved(it, n - p, style + 3) != c.end()))) + "]";
  }

  std::string seen(S& m) {
    const S& c = m;
    std::set<std::vector<uint64_t>> views;
    std::vector<uint64_t> v;
    for (size_t i = 0; i < c.size(); i++) v.push_back(V(c[i]));
    views.insert(v);
    v.clear();
    for (size_t i = 0; i < m.size(); i++) v.push_back(V(m.at(i)));
    views.insert(v);
    v.clear();
    for (size_t i = 0; i < c.size(); i++) v.push_back(V(c.at(i)));
    views.insert(v);
    v.clear();
    for (auto it = m.begin(); it != m.end(); ++it) v.push_back(V(*it));
    views.insert(v);
    v.clear();
    for (auto it = c.begin(); it != c.end(); it++) v.push_back(V(*it));
    views.insert(v);
    v.clear();
    for (auto it = m.end(); it != m.begin();) {
      --it;
      v.push_back(V(*it));
    }
    std::reverse(v.begin(), v.end());
    views.insert(v);
    v.clear();
    for (size_t i = 0; i < c.size(); i++) v.push_back(V(*(c.end() - int64_t(c.size() - i))));
    views.insert(v);
    v.clear();
    if (c.size()) {
      v.assign(views.begin()->begin(), views.begin()->end());
      v.front() = V(c.front());
      v.back() = V(c.back());
      views.insert(v);
      v.front() = V(m.front());
      v.back() = V(m.back());
      views.insert(v);
      if (m.begin().isNull() || !m.end().isNull() || m.end().index() != m.size()) views.insert({});
    }
    std::string s = "{\"n\":" + std::to_string(c.size()) + ",\"cap\":" + std::to_string(c.capacity()) +
                    ",\"blocks\":" + std::to_string(c.blocks()) + ",\"v\":[";
    bool first = true;
    for (auto& w : views) {
      s += (first ? "" : ",") + list(w);
      first = false;
    }
    return s + "]}";
  }

  void go(const Scenario& sc) {
    const int R = int(sc.i("regs", 2));
    for (int i = 0; i < R; i++) reg.emplace_back(new S());
    LOG.begin(sc.s("name"), ",\"bits\":" + std::to_string(B) + ",\"bb\":" +
                                std::to_string(sizeof(U) * 8) + ",\"regs\":" + std::to_string(R));
    for (auto& op : split(sc.s("ops"), ';')) {
      auto f = split(op, ',');
      const std::string& k = f[0];
      auto N = [&](int i) { return size_t(atol(f[i].c_str())); };
      auto H = [&](int i) { return V(strtoull(f[i].c_str(), nullptr, 16)); };
      auto& p = reg[N(1) - 1];
      S& m = *p;
      std::string w, rd = "[]", ret = "[]", enc = "[" + q(k) + "," + f[1];
      if (k == "new") p.reset(new S(N(2)));
      else if (k == "push") { if (m.size() % 2) m.push_back(H(2)); else m.emplace_back(H(2)); }
      else if (k == "pop") m.pop_back();
      else if (k == "set") ret = limbs(m[N(2) - 1] = H(3));
      else if (k == "ref") m[N(2) - 1] = (*reg[N(3) - 1])[N(4) - 1];
      else if (k == "front") m.front() = H(2);
      else if (k == "back") m.back() = H(2);
      else if (k == "fill") { for (auto it = m.begin(); it != m.end(); ++it) *it = H(2); }
      else if (k == "walk") {  // two iterators side by side
        const S& c = m;
        int64_t at = 0;
        auto it = m.begin();
        auto ci = c.begin();
        for (int j = 0; j < 4; j++) {
          const int64_t to = int64_t(N(2 + j));
          it = moved(it, to - at, int(j + to));
          ci = moved(ci, to - at, int(j + at + 1));
          at = to;
          typename S::constIterator_t made(it);
          if (!(ci == it) || ci != it) made = c.begin() + int64_t(c.size() + 1);
          w += (j ? "," : "") + where(m, it, j) + "," + where(c, j % 2 ? made : ci, j + 1);
        }
        rd = "[" + limbs(V(*it)) + "," + limbs(V(*ci)) + "]";
        *it = H(6);
      } else if (k == "resize") m.resize(N(2));
      else if (k == "reserve") m.reserve(N(2));
      else if (k == "shrink") m.shrink_to_fit();
      else if (k == "clear") m.clear();
      else if (k == "assign") m = *reg[N(2) - 1];
      else if (k == "copy") p.reset(new S(*reg[N(2) - 1]));
      else if (k == "move") p.reset(new S(std::move(*reg[N(2) - 1])));
      else die_note("VP-BADOP ", 43);
      for (size_t i = 2; i < f.size(); i++) {
        const bool val = (k == "push" || k == "front" || k == "back" || k == "fill") || (k == "set" && i == 3) || (k == "walk" && i == 6);
        enc += "," + (val ? limbs(strtoull(f[i].c_str(), nullptr, 16)) : f[i]);
      }
      std::string x = "[";
      for (int i = 0; i < R; i++) x += (i ? "," : "") + seen(*reg[i]);
      LOG.add("{\"o\":" + enc + "],\"w\":[" + w + "],\"rd\":" + rd + ",\"ret\":" + ret + ",\"x\":" + x + "]}");
    }
    LOG.end();
    reg.clear();
  }
};

int main() {
  guard();
  Scenario sc;
  while (vp::next(sc)) {
    const long b = sc.i("bits"), u = sc.i("bb", 64);
    auto is = [&](long x, long y) { return b == x && u == y; };
    if (is(1, 64)) Run<1, size_t>().go(sc);
    else if (is(3, 64)) Run<3, size_t>().go(sc);
    else if (is(7, 64)) Run<7, size_t>().go(sc);
    else if (is(8, 64)) Run<8, size_t>().go(sc);
    else if (is(13, 64)) Run<13, size_t>().go(sc);
    else if (is(32, 64)) Run<32, size_t>().go(sc);
    else if (is(33, 64)) Run<33, size_t>().go(sc);
    else if (is(63, 64)) Run<63, size_t>().go(sc);
    else if (is(64, 64)) Run<64, size_t>().go(sc);
    else if (is(5, 32)) Run<5, uint32_t>().go(sc);
    else if (is(17, 32)) Run<17, uint32_t>().go(sc);
    else if (is(31, 32)) Run<31, uint32_t>().go(sc);
    else if (is(32, 32)) Run<32, uint32_t>().go(sc);
    else if (is(3, 16)) Run<3, uint16_t>().go(sc);
    else if (is(15, 16)) Run<15, uint16_t>().go(sc);
    else if (is(3, 8)) Run<3, uint8_t>().go(sc);
    else if (is(7, 8)) Run<7, uint8_t>().go(sc);
    else if (is(8, 8)) Run<8, uint8_t>().go(sc);
    else die_note("VP-BADTYPE ", 43);
  }
  return 0;
}
