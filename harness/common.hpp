// Shared plumbing of the drivers: scenario parsing, event log, watchdog.
// A driver reads scenarios (one per line, key=value tokens) on stdin and
// writes one JSON line per scenario on stdout.  Nothing here judges.
#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <algorithm>
#include <limits>
#include <memory>
#include <functional>
#include <csignal>
#include <unistd.h>

namespace vp {

inline char cur_name[256] = "?";

inline void die_note(const char* what, int code) {
  (void)!write(2, what, strlen(what));
  (void)!write(2, cur_name, strlen(cur_name));
  (void)!write(2, "\n", 1);
  _exit(code);
}
inline void on_alarm(int) { die_note("VP-HANG ", 40); }
inline void on_crash(int) { die_note("VP-CRASH ", 41); }

inline void guard() {
  signal(SIGALRM, on_alarm);
  signal(SIGABRT, on_crash);
#ifndef __SANITIZE_ADDRESS__
  signal(SIGSEGV, on_crash);
  signal(SIGBUS, on_crash);
  signal(SIGFPE, on_crash);
#endif
}

struct Scenario {
  std::map<std::string, std::string> kv;
  std::string s(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long i(const std::string& k, long d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : atol(it->second.c_str());
  }
  double f(const std::string& k, double d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : atof(it->second.c_str());
  }
};

inline bool next(Scenario& sc, unsigned secs = 60) {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    sc.kv.clear();
    std::istringstream is(line);
    std::string tok;
    while (is >> tok) {
      auto p = tok.find('=');
      if (p != std::string::npos) sc.kv[tok.substr(0, p)] = tok.substr(p + 1);
    }
    strncpy(cur_name, sc.s("name", "?").c_str(), sizeof(cur_name) - 1);
    alarm(secs);
    return true;
  }
  alarm(0);
  return false;
}

inline std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::string cur;
  for (char x : s) {
    if (x == c) {
      r.push_back(cur);
      cur.clear();
    } else
      cur.push_back(x);
  }
  r.push_back(cur);
  return r;
}

// event log
struct Log {
  std::string out;
  std::mutex m;
  size_t n = 0;
  void begin(const std::string& name, const std::string& extra = "") {
    out = "{\"name\":\"" + name + "\"" + extra + ",\"ev\":[";
    n = 0;
  }
  void add(const std::string& e) {
    std::lock_guard<std::mutex> g(m);
    if (n++) out += ",";
    out += e;
  }
  void end() {
    out += "]}\n";
    fwrite(out.data(), 1, out.size(), stdout);
    fflush(stdout);
  }
};
inline Log LOG;

template <class C>
std::string arr(const C& c) {
  std::string s = "[";
  bool first = true;
  for (const auto& x : c) {
    if (!first) s += ",";
    first = false;
    s += std::to_string(x);
  }
  return s + "]";
}
inline std::string q(const std::string& s) { return "\"" + s + "\""; }

}  // namespace vp
#endif
