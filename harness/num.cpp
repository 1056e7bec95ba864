// The small helpers of the library.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
using namespace vp;

static std::string words(unsigned __int128 u, int n) {
  std::vector<long> r;
  for (int i = n - 1; i >= 0; i--) r.push_back(long((u >> (16 * i)) & 0xFFFF));
  return arr(r);
}
// a number in [0,1] in units of 2^-64
static std::string unit(double x) {
  return words((unsigned __int128)(std::ldexp((long double)x, 64)), 5);
}
static std::string b(bool x) { return x ? "true" : "false"; }
static std::string s(long x) { return std::to_string(x); }

template <class T>
static void combos(const char*) {
  for (int n = 0; n <= 70; n++) {
    unsigned __int128 f = 1;
    for (int i = 2; i <= n && f <= (unsigned __int128)std::numeric_limits<T>::max(); i++) f *= i;
    if (f <= (unsigned __int128)std::numeric_limits<T>::max())
      LOG.add("{\"k\":\"fact\",\"n\":" + s(n) + ",\"y\":" + words(heu::fractorial<T>(T(n)), 5) + "}");
    for (int k = 0; k <= n; k++) {
      unsigned __int128 c = 1;
      bool fits = true;
      const int m = std::min(k, n - k);
      for (int i = 1; i <= m; i++) {
        c = c * (n - m + i);
        if (c > (unsigned __int128)std::numeric_limits<T>::max()) fits = false;
        c /= i;
      }
      if (fits && 2 * n <= std::numeric_limits<T>::max())
        LOG.add("{\"k\":\"choose\",\"n\":" + s(n) + ",\"r\":" + s(k) + ",\"y\":" + words(heu::NchooseK<T>(T(n), T(k)), 5) +
                "}");
    }
  }
}

template <class T>
static void extremes(const std::vector<long>& v) {
  std::vector<T> x(v.begin(), v.end());
  long lo, hi;
#define A(i) x[i]
  switch (x.size()) {
    case 2: lo = heu::min(A(0), A(1)), hi = heu::max(A(0), A(1)); break;
    case 3: lo = heu::min(A(0), A(1), A(2)), hi = heu::max(A(0), A(1), A(2)); break;
    case 4: lo = heu::min(A(0), A(1), A(2), A(3)), hi = heu::max(A(0), A(1), A(2), A(3)); break;
    default: lo = heu::min(A(0), A(1), A(2), A(3), A(4), A(5)), hi = heu::max(A(0), A(1), A(2), A(3), A(4), A(5));
  }
  LOG.add("{\"k\":\"extremes\",\"in\":" + arr(v) + ",\"min\":" + s(lo) + ",\"max\":" + s(hi) + "}");
  LOG.add("{\"k\":\"sign\",\"x\":" + s(v[0]) + ",\"sign\":" + s(long(heu::sign(x[0]))) + ",\"square\":" +
          s(long(heu::square(x[0]))) + "}");
}
template <int... v>
static void fixedExtremes() {
  LOG.add("{\"k\":\"extremes\",\"in\":" + arr(std::vector<int>{v...}) + ",\"min\":" + s(heu::min_v<int, v...>) +
          ",\"max\":" + s(heu::max_v<int, v...>) + "}");
}

template <int M, heu::FitnessOption fo>
static void dominate(const std::vector<long>& u, const std::vector<long>& v) {
  using P = heu::internal::Pareto<M, fo>;
  typename P::Fitness_t a, c;
  a.resize(u.size(), 1), c.resize(v.size(), 1);
  auto val = [](long x) { return x == 9 ? heu::internal::pinfD : x == -9 ? heu::internal::ninfD : double(x); };
  for (size_t i = 0; i < u.size(); i++) a[i] = val(u[i]), c[i] = val(v[i]);
  LOG.add("{\"k\":\"dominate\",\"less\":" + b(fo == heu::FITNESS_LESS_BETTER) + ",\"a\":" + arr(u) + ",\"b\":" + arr(v) +
          ",\"ab\":" + b(P::isStrongDominate(&a, &c)) + ",\"ba\":" + b(P::isStrongDominate(&c, &a)) + "}");
}

static void chaos(std::mt19937& r) {
  const double x = std::ldexp(double(1 + r() % ((1u << 30) - 1)), -30);
  heu::LogisticChaos c(x);
  std::string out = "{\"k\":\"chaos\",\"given\":" + unit(x) + ",\"start\":" + unit(c.value()) + ",\"ops\":[";
  for (int i = 0; i < 8; i++) {
    const int o = r() % 3, n = r() % 8;
    if (i) out += ",";
    if (o == 0) {
      const double y = c();
      out += "{\"o\":\"call\",\"out\":" + unit(y);
    } else if (o == 1) {
      std::vector<double> y(n + 1);
      c.makeSequence(y.data(), n);
      out += "{\"o\":\"sequence\",\"n\":" + s(n) + ",\"out\":[";
      for (int k = 0; k < n; k++) out += (k ? "," : "") + unit(y[k]);
      out += "]";
    } else {
      heu::LogisticChaos d(c);
      std::string t;
      for (int k = 0; k < n; k++) t += (k ? "," : "") + unit(d());
      c.iterate(n);
      out += "{\"o\":\"iterate\",\"n\":" + s(n) + ",\"twin\":[" + t + "]";
    }
    out += ",\"value\":" + unit(c.value()) + "}";
  }
  LOG.add(out + "]}");
}

template <class F>
static void uniform(long N, double lo, double hi, int cells, bool closed, F&& draw) {
  std::vector<long> seen(cells);
  bool outside = false;
  for (long i = 0; i < N; i++) {
    const double x = draw();
    if (!(x >= lo && (x < hi || (closed && x == hi)))) outside = true;
    const int c = int((hi - lo < 1e100 ? (x - lo) * cells / (hi - lo) : x / hi * cells));
    if (c >= 0 && c <= cells) seen[std::min(c, cells - 1)]++;
  }
  LOG.add("{\"k\":\"uniform\",\"N\":" + s(N) + ",\"outside\":" + b(outside) + ",\"seen\":" + arr(seen) + "}");
}
template <class T>
static void index(std::mt19937& r, long N, T size, T from) {
  int cells = 1;  // a divisor of the size
  for (int k = 2; k <= 24; k++)
    if (size % k == 0) cells = k;
  uniform(N, 0, double(size), cells, false, [&] { return double(heu::randIdx<T>(size)); });
  uniform(N, double(from), double(from) + double(size), cells, false,
          [&] { return double(heu::randIdx<T>(from, T(from + size))); });
  // a draw has nothing to do with the one before
  if (size >= 2) {
    T last = heu::randIdx<T>(size);
    const double h = double(size / 2 * 2) / 2;
    std::vector<long> seen(4);
    if (size % 2 == 0) {
      for (long i = 0; i < N; i++) {
        const T x = heu::randIdx<T>(size);
        seen[(double(last) >= h) * 2 + (double(x) >= h)]++;
        last = x;
      }
      LOG.add("{\"k\":\"uniform\",\"N\":" + s(N) + ",\"outside\":false,\"seen\":" + arr(seen) + "}");
    }
  }
}

static void randoms(std::mt19937& r, long N) {
  heu::internal::global_mt19937().seed(r());
  uniform(N, 0, 1, 20, false, [] { return heu::randD(); });
  uniform(N, 0, 1, 20, false, [] { return double(heu::randF()); });
  for (auto p : {std::pair<double, double>{-3, 5}, {0.5, 0.75}, {-1e6, -1}, {0, 1e300}})
    uniform(N, p.first, p.second, 16, true, [&] { return heu::randD(p.first, p.second); });
  std::vector<double> v(100);
  int at = 100;
  uniform(N, 0, 1, 10, false, [&] {
    if (at == 100) heu::randD(v.data(), 100), at = 0;
    return v[at++];
  });
  at = 100;
  uniform(N, -2, 6, 10, true, [&] {
    if (at == 100) heu::randD(v.data(), 100, -2.0, 6.0), at = 0;
    return v[at++];
  });
  index<int>(r, N, 2 + r() % 200, -int(r() % 100));
  index<int>(r, N, 24 * (1 + int(r() % 1000)), int(r() % 1000) - 500);
  index<size_t>(r, N, 2 * (1 + r() % 50), r() % 1000);
  index<uint8_t>(r, N, 2 + r() % 200, r() % 50);
  index<int64_t>(r, N, 6 * (1 + r() % 100000), -int64_t(r() % 1000));
  index<int16_t>(r, N, 1 + r() % 20, -int16_t(r() % 1000));
  index<uint32_t>(r, N, 1 + r() % 3, 0);
  for (int k = 0; k < 3; k++) {
    const double mu = k ? double(int(r() % 100) - 50) : 0, sg = k ? 0.25 * (1 + r() % 30) : 1;
    std::vector<long> seen(6);
    for (long i = 0; i < N; i++) {
      const double x = k == 0 ? heu::normD() : k == 1 ? heu::normD(mu, sg) : double(heu::normF()) * sg + mu;
      const double z = (x - mu) / sg;
      seen[z < -2 ? 0 : z < -1 ? 1 : z < 0 ? 2 : z < 1 ? 3 : z < 2 ? 4 : 5]++;
    }
    LOG.add("{\"k\":\"normal\",\"N\":" + s(N) + ",\"seen\":" + arr(seen) + "}");
  }
  // limits of the integer range never produce the bound itself
  for (int size : {1, 2, 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 3, 100000007, 2147483647}) {
    bool outside = false;
    long zero = 0;
    for (int i = 0; i < 20000; i++) {
      const int x = heu::randIdx(size);
      if (x < 0 || x >= size) outside = true;
      zero++;
    }
    LOG.add("{\"k\":\"uniform\",\"N\":20000,\"outside\":" + b(outside) + ",\"seen\":" + arr(std::vector<long>{zero}) + "}");
  }
}

template <class E>
static std::string enumNames(const std::vector<E>& v) {
  std::string o = "{\"k\":\"names\",\"s\":[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + q(heu::Enum2String(v[i]));
  return o + "]}";
}

int main() {
  guard();
  Scenario sc;
  while (next(sc)) {
    std::mt19937 r(unsigned(sc.i("seed")));
    const std::string kind = sc.s("kind");
    LOG.begin(sc.s("name"));
    if (kind == "comb") {
      switch (sc.i("t")) {
        case 0: combos<int>("int"); break;
        case 1: combos<uint64_t>("u64"); break;
        case 2: combos<int64_t>("i64"); break;
        case 3: combos<uint32_t>("u32"); break;
        default: combos<uint16_t>("u16");
      }
    } else if (kind == "ext") {
      for (int i = 0; i < 40; i++) {
        std::vector<long> v(std::vector<int>{2, 3, 4, 6}[r() % 4]);
        const int span = r() % 2 ? 3 : 1000;
        for (auto& x : v) x = long(r() % (2 * span + 1)) - span;
        extremes<int>(v), extremes<double>(v), extremes<float>(v), extremes<long>(v);
      }
      fixedExtremes<1, 2>(), fixedExtremes<2, 1>(), fixedExtremes<3, 3>(), fixedExtremes<7>();
      fixedExtremes<1, 2, 3>(), fixedExtremes<3, 1, 2>(), fixedExtremes<2, 3, 1>(), fixedExtremes<-4, 5, -6, 5>();
      fixedExtremes<0, 0, 0>(), fixedExtremes<9, 8, 7, 6, 5, 4>(), fixedExtremes<-1, -2, -3, 4, -9, 8, 2, 2>();
      for (double mu : {0.0, 3.0, -7.5})
        for (double sg : {1.0, 0.5, 4.0, 0.125})
          for (int k = -6; k <= 6; k++)
            {
              const double y = heu::gaussianCurve<double>(mu + k * sg / 2, mu, sg) * sg * 1e8;
              LOG.add("{\"k\":\"bell\",\"at\":" + s(k) + ",\"y\":[" + s(long(std::floor(y))) + "," +
                      s(long((y - std::floor(y)) * 1e8)) + "]}");
            }
      for (int k = -1074; k <= 1000; k += 1 + int(r() % 90))   // numbers of every size have a sign
        for (int v : {-1, 0, 1}) {
          LOG.add("{\"k\":\"tiny\",\"x\":" + s(v) + ",\"sign\":" + s(long(heu::sign(std::ldexp(double(v), k)))) + "}");
          LOG.add("{\"k\":\"tiny\",\"x\":" + s(k < -149 || k > 120 ? 0 : v) + ",\"sign\":" +
                  s(long(heu::sign(float(k < -149 || k > 120 ? 0 : std::ldexp(float(v), k))))) + "}");
        }
    } else if (kind == "dom") {
      for (int i = 0; i < 60; i++) {
        const int m = std::vector<int>{2, 3, 5}[r() % 3];
        std::vector<long> u(m), v(m);
        for (int k = 0; k < m; k++) {
          u[k] = r() % 12 == 0 ? (r() % 2 ? 9 : -9) : long(r() % 4);
          v[k] = r() % 3 ? u[k] : r() % 12 == 0 ? (r() % 2 ? 9 : -9) : long(r() % 4);
        }
        constexpr auto L = heu::FITNESS_LESS_BETTER, G = heu::FITNESS_GREATER_BETTER;
        dominate<Eigen::Dynamic, L>(u, v), dominate<Eigen::Dynamic, G>(u, v);
        if (m == 2) dominate<2, L>(u, v), dominate<2, G>(u, v);
        if (m == 3) dominate<3, L>(u, v), dominate<3, G>(u, v);
        if (m == 5) dominate<5, L>(u, v), dominate<5, G>(u, v);
      }
    } else if (kind == "chaos") {
      for (int i = 0; i < 10; i++) chaos(r);
      {
        const double x = std::ldexp(double(1 + r() % ((1u << 30) - 1)), -30);
        const int n = std::vector<int>{255, 256, 257, 1000, 32768, 65536, 65537, 70000, 1000003}[r() % 9];
        heu::LogisticChaos a(x), i(x), w(x);
        for (int k = 0; k < n; k++) a();
        i.iterate(n);
        std::vector<double> y(n);
        w.makeSequence(y.data(), n);
        LOG.add("{\"k\":\"far\",\"called\":" + unit(a.value()) + ",\"iterated\":" + unit(i.value()) + ",\"written\":" +
                unit(y.back()) + ",\"value\":" + unit(w.value()) + "}");
      }
    } else if (kind == "edge") {   // rare draws
      heu::internal::global_mt19937().seed(r());
      const long n = sc.i("draws");
      bool out = false;
      for (long i = 0; i < n; i++) {
        const float x = heu::randF();
        out |= !(x >= 0 && x < 1);
      }
      LOG.add("{\"k\":\"inside\",\"n\":" + s(n) + ",\"outside\":" + b(out) + "}");
    } else if (kind == "rand") {
      randoms(r, sc.i("N"));
    } else if (kind == "misc") {
      std::string o = "{\"k\":\"threads\",\"ops\":[[\"get\"," + s(heu::threadNum()) + "]";
      for (int i = 0; i < 30; i++) {
        if (r() % 2) {
          const int n = 1 + r() % 99;
          heu::setThreadNum(n);
          o += ",[\"set\"," + s(n) + "]";
        } else
          o += ",[\"get\"," + s(heu::threadNum()) + "]";
      }
      LOG.add(o + "]}");
      using namespace heu;
      std::vector<SelectMethod> m;
      for (uint32_t k = 0; k <= RunTimeSelectMethod; k++) m.push_back(SelectMethod(k));
      LOG.add(enumNames(m));
      LOG.add(enumNames(std::vector<RecordOption>{RECORD_FITNESS, DONT_RECORD_FITNESS}));
      LOG.add(enumNames(std::vector<FitnessOption>{FITNESS_LESS_BETTER, FITNESS_GREATER_BETTER}));
      LOG.add(enumNames(std::vector<BoxShape>{SQUARE_BOX, RECTANGLE_BOX}));
      LOG.add(enumNames(std::vector<EncodeType>{Real, Binary, Symbolic}));
    }
    LOG.end();
  }
}
