// Floating-point numbers as template arguments: codes and decoded numbers.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/Global>
using namespace vp;
using namespace heu;

template <class T>
struct Fmt;
template <>
struct Fmt<double> {
  using U = uint64_t;
  using C = binCode64;
  static constexpr int mant = 52, low = -1074, words = 4;
  static const char* name() { return "double"; }
};
template <>
struct Fmt<float> {
  using U = uint32_t;
  using C = binCode32;
  static constexpr int mant = 23, low = -149, words = 2;
  static const char* name() { return "float"; }
};

static std::string words(uint64_t u, int n) {
  std::vector<long> r;
  for (int i = n - 1; i >= 0; i--) r.push_back(long((u >> (16 * i)) & 0xFFFF));
  return arr(r);
}
// class, sign, exponent, significand: by arithmetic, not by the number's bits
template <class T>
static std::string num(T v) {
  const char* cls = std::isnan(v) ? "nan" : std::isinf(v) ? "inf" : "num";
  long neg = std::signbit(v), x = Fmt<T>::low;
  uint64_t m = 0;
  if (std::isfinite(v) && v != 0) {
    x = std::max<long>(std::ilogb(v) - Fmt<T>::mant, Fmt<T>::low);
    m = uint64_t(std::ldexp(std::fabs((long double)(v)), int(-x)));
  }
  std::string w = words(m, Fmt<T>::words);
  return "[" + q(cls) + "," + std::to_string(neg) + "," + std::to_string(x) + "," + w.substr(1);
}

template <class T>
static void bits(const std::string& hex, bool enc) {
  using U = typename Fmt<T>::U;
  const U u = U(strtoull(hex.c_str(), nullptr, 16));
  T v;
  memcpy(&v, &u, sizeof v);
  const auto code = enc ? encode(v) : typename Fmt<T>::C(u);
  const T back = decode(code);
  std::string e = std::string("{\"k\":") + (enc ? "\"enc\"" : "\"dec\"") + ",\"fmt\":" + q(Fmt<T>::name()) +
                  ",\"code\":" + words(U(code), Fmt<T>::words) + ",\"back\":" + num(back);
  if (enc) e += ",\"v\":" + num(v);
  LOG.add(e + "}");
}

static std::string mag(int64_t a) { return words(a < 0 ? uint64_t(0) - uint64_t(a) : uint64_t(a), 4); }
template <DivCode c>
static std::string halves() {
  using D = DivDecode<c>;
  constexpr double real = D::real;
  return std::string("\"numneg\":") + (D::numerator < 0 ? "true" : "false") + ",\"num\":" + mag(D::numerator) +
         ",\"den\":" + words(D::denominator, 4) + ",\"real\":" + num(real);
}
template <int32_t a, uint32_t b>
static void div() {
  LOG.add("{\"k\":\"div\",\"a\":" + mag(a) + ",\"aneg\":" + (a < 0 ? "true" : "false") + ",\"b\":" + words(b, 4) +
          "," + halves<DivEncode<a, b>::code>() + "}");
}
template <DivCode c>
static void named(const char* n) {
  LOG.add("{\"k\":\"named\",\"name\":" + q(n) + "," + halves<c>() + "}");
}
template <int64_t s, int16_t p>
static std::string powc() {
  constexpr PowCode c = PowEncode<s, p>::code;
  constexpr double real = PowDecode<c>::real;
  return "\"s\":" + mag(s) + ",\"sneg\":" + (s < 0 ? "true" : "false") + ",\"p\":" + std::to_string(p) +
         ",\"code\":" + words(uint64_t(c), 4) + ",\"real\":" + num(real);
}
template <int64_t s, int16_t p>
static void power() {
  LOG.add("{\"k\":\"pow\"," + powc<s, p>() + "}");
}
template <int64_t s, int16_t p, int64_t t, int16_t o>
static void pair() {
  LOG.add("{\"k\":\"pair\",\"l\":{" + powc<s, p>() + "},\"r\":{" + powc<t, o>() + "}}");
}
template <uint64_t h>
static void constant() {
  constexpr double d = decode(binCode64(h));
  constexpr binCode64 c = encode(d);
  LOG.add("{\"k\":\"dec\",\"fmt\":\"double\",\"code\":" + words(h, 4) + ",\"back\":" + num(d) + "}");
  LOG.add("{\"k\":\"enc\",\"fmt\":\"double\",\"code\":" + words(c, 4) + ",\"back\":" + num(decode(c)) +
          ",\"v\":" + num(d) + "}");
}

#include "codes_gen.hpp"

int main() {
  guard();
  Scenario sc;
  while (next(sc)) {
    LOG.begin(sc.s("name"));
    if (sc.s("kind") == "bits") {
      for (const auto& h : split(sc.s("in"), ','))
        if (sc.s("fmt") == "double") bits<double>(h, sc.i("enc"));
        else bits<float>(h, sc.i("enc"));
    } else
      GEN[sc.i("part")]();
    LOG.end();
  }
}
