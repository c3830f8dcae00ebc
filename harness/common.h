// Shared case loop, PRNG, violation/coverage recording for the C++ harnesses.
//
// A harness runs a bounded list of numbered cases. Case k depends only on (seed, k), so every
// violation replays with --seed S --only K. Nothing here decides by wall clock.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <gflags/gflags.h>
#include <glog/logging.h>

DECLARE_int32(num_threads);

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  // Inclusive range.
  long range(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return uni() < p; }
  double normal() {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T>* v) {
    for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[next() % i]);
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull));
  r.next();
  return r.next();
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

template <class... A> std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  int dummy[] = {0, ((void)(o << a), 0)...};
  (void)dummy;
  return o.str();
}

struct CaseAbort {};

struct State {
  uint64_t seed = 1;
  std::string tier = "quick", out, scratch;
  long case_id = -1;
  std::mutex mu;
  std::map<std::string, long> counters;
  std::map<std::string, std::unordered_set<uint64_t>> distinct;
  std::vector<uint64_t> fps;
  std::unordered_set<uint64_t> fp_set;
  std::vector<std::string> samples;
  FILE* viol = nullptr;
  long violations = 0;
};
inline State& st() { static State* s = new State; return *s; }
inline bool thorough() { return st().tier == "thorough"; }

inline void count(const std::string& name, long n = 1) {
  std::lock_guard<std::mutex> l(st().mu);
  st().counters[name] += n;
}
// Counts distinct observed states/interleavings under a name.
inline void seen(const std::string& name, uint64_t h) {
  std::lock_guard<std::mutex> l(st().mu);
  auto& s = st().distinct[name];
  if (s.size() < 200000) s.insert(h);
}
// Marks the current case as non-trivial with this fingerprint.
inline void nontrivial(uint64_t h) {
  std::lock_guard<std::mutex> l(st().mu);
  if (st().fp_set.size() < 2000000) st().fp_set.insert(h);
}
inline void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(st().mu);
  if (st().samples.size() < 2) st().samples.push_back(cat("case ", st().case_id, ": ", s.substr(0, 900)));
}
inline void record_violation(const std::string& key, const std::string& msg) {
  std::lock_guard<std::mutex> l(st().mu);
  ++st().violations;
  if (st().viol) {
    fprintf(st().viol, "{\"case\": %ld, \"key\": \"%s\", \"msg\": \"%s\"}\n", st().case_id,
            json_escape(key).c_str(), json_escape(msg.substr(0, 4000)).c_str());
    fflush(st().viol);
  }
  fprintf(stderr, "VIOL case=%ld key=%s %s\n", st().case_id, key.c_str(), msg.substr(0, 4000).c_str());
}
// Records a violation and ends the case.
template <class... A> [[noreturn]] void violate(const std::string& key, const A&... a) {
  record_violation(key, cat(a...));
  throw CaseAbort();
}
template <class... A> void expect(bool ok, const std::string& key, const A&... a) {
  if (!ok) violate(key, a...);
}

inline std::string write_file(const std::string& name, const std::string& content) {
  std::string p = st().scratch + "/" + name;
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(content.data(), 1, content.size(), f) != content.size()) {
    fprintf(stderr, "HARNESS-ERROR cannot write %s\n", p.c_str());
    _exit(77);
  }
  fclose(f);
  return p;
}
inline std::string read_file(const std::string& p, bool* ok = nullptr) {
  std::ifstream in(p, std::ios::binary);
  if (ok) *ok = in.good();
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

// Harness entry: fn(case id, rng). Cases start, start+step, ... < end.
inline int harness_main(int argc, char** argv, const std::function<void(long, Rng&)>& fn) {
  long start = 0, step = 1, end = 1, only = -1;
  std::string progress;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") st().seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--start") start = atol(v.c_str());
    else if (a == "--step") step = atol(v.c_str());
    else if (a == "--end") end = atol(v.c_str());
    else if (a == "--only") only = atol(v.c_str());
    else if (a == "--tier") st().tier = v;
    else if (a == "--out") st().out = v;
    else if (a == "--scratch") st().scratch = v;
    else if (a == "--progress") progress = v;
    else { fprintf(stderr, "HARNESS-ERROR unknown option %s\n", a.c_str()); return 77; }
  }
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  if (only >= 0) { start = only; end = only + 1; step = 1; }
  if (!st().out.empty()) st().viol = fopen((st().out + ".viol").c_str(), "a");
  volatile long* prog = nullptr;
  static long dummy[2];
  prog = dummy;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 16) == 0) {
      void* p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) prog = (volatile long*)p;
    }
  }
  long evals = 0;
  for (long id = start; id < end; id += step) {
    st().case_id = id;
    prog[0] = id;
    prog[1] = prog[1] + 1;
    Rng rng(mix(st().seed, (uint64_t)id));
    try {
      fn(id, rng);
    } catch (const CaseAbort&) {
    } catch (const std::exception& e) {
      record_violation("exception", cat("unexpected C++ exception: ", e.what()));
    }
    ++evals;
    if (st().violations > 20) break;
  }
  prog[0] = -1;
  if (!st().out.empty()) {
    FILE* f = fopen(st().out.c_str(), "w");
    if (!f) return 77;
    fprintf(f, "{\"evaluations\": %ld, \"counters\": {", evals);
    bool first = true;
    for (auto& p : st().counters) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", p.first.c_str(), p.second); first = false; }
    fprintf(f, "}, \"distinct\": {");
    first = true;
    for (auto& p : st().distinct) {
      fprintf(f, "%s\"%s\": [", first ? "" : ", ", p.first.c_str());
      bool f2 = true;
      for (auto h : p.second) { fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long)h); f2 = false; }
      fprintf(f, "]");
      first = false;
    }
    fprintf(f, "}, \"fps\": [");
    first = true;
    for (auto h : st().fp_set) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "], \"samples\": [");
    first = true;
    for (auto& s : st().samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", json_escape(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
  }
  if (st().viol) fclose(st().viol);
  fflush(nullptr);
  return 0;
}

}  // namespace vh

#endif  // VERIF_COMMON_H_
