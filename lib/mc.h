// Exploration runtime shared by all harnesses: case numbering, sharding over processes, per-case watchdog, the
// "current case" record that lets the driver name the case that crashed, counters and the result file.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace mc {
struct Global {
  std::string property = "C00", only, scratch = ".", result;
  bool thorough = false;
  int shard = 0, nshards = 1;
  uint64_t case_no = 0;
  std::string key;
  char *cur = nullptr;
  uint64_t states = 0, transitions = 0, traces = 0, checks = 0, failures = 0, cases = 0;
  int case_cpu_s = 120;
  std::vector<std::string> samples;
  FILE *out = nullptr;
};
inline Global &G() { static Global g; return g; }
const size_t kCur = 4096;

inline void SetCur(const std::string &s) {
  if (!G().cur) return;
  size_t n = s.size() < kCur - 1 ? s.size() : kCur - 1;
  memcpy(G().cur, s.data(), n);
  G().cur[n] = 0;
}
inline void Watchdog(int) {
  static const char m[] = "WATCHDOG: a single case exceeded its CPU budget (non-termination)\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void) r;
  _exit(77);
}
inline void Arm() {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = G().case_cpu_s;
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline std::string Clean(std::string s) {
  for (auto &c : s) if (c == '\t' || c == '\n' || c == '\r') c = ' ';
  return s;
}
inline void Init(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--property") G().property = v;
    else if (a == "--tier") G().thorough = v == "thorough";
    else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &G().shard, &G().nshards);
    else if (a == "--only") G().only = v;
    else if (a == "--scratch") G().scratch = v;
    else if (a == "--result") G().result = v;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); exit(3); }
  }
  G().out = G().result.empty() ? stdout : fopen(G().result.c_str(), "w");
  if (!G().result.empty()) {
    std::string f = G().result + ".cur";
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, kCur) == 0)
      G().cur = static_cast<char *>(mmap(nullptr, kCur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (fd >= 0) close(fd);
  }
  signal(SIGPROF, Watchdog);
}
// Starts a case. False: the case belongs to another shard (or is not the one asked for) and must be skipped.
inline bool Begin(const std::string &key) {
  uint64_t n = G().case_no++;
  std::string k = Clean(key);
  if (!G().only.empty()) { if (k != G().only) return false; }
  else if (static_cast<int>(n % G().nshards) != G().shard) return false;
  G().key = k;
  G().cases++;
  SetCur(k);
  Arm();
  if (G().cases <= 2 || (G().cases % 997 == 0 && G().samples.size() < 6)) G().samples.push_back(k);
  return true;
}
inline void Fail(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  G().failures++;
  if (G().failures <= 200) {
    fprintf(G().out, "FAIL\t%s\t%s\n", G().key.c_str(), Clean(buf).c_str());
    fflush(G().out);
  }
  if (getenv("VERIF_FAILFAST")) _exit(1);  // only for experiments with changed code
}
// A violation that is exactly what a recorded defect predicts. The driver looks it up in known_findings.jsonl; a defect
// that is not recorded there is a violation like any other. A few lines per defect are enough.
inline void Known(const char *id, const char *fmt, ...) {
  static std::map<std::string, int> seen;
  if (++seen[id] > 20) return;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fprintf(G().out, "FAIL\t%s\tbehaves as recorded in %s: %s\n", G().key.c_str(), id, Clean(buf).c_str());
  fflush(G().out);
}
inline int Finish() {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  setitimer(ITIMER_PROF, &t, nullptr);
  for (auto &s : G().samples) fprintf(G().out, "SAMPLE\t%s\n", s.c_str());
  fprintf(G().out, "DONE\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\n", (unsigned long long) G().cases,
          (unsigned long long) G().states, (unsigned long long) G().transitions, (unsigned long long) G().traces,
          (unsigned long long) G().checks, (unsigned long long) G().failures);
  fflush(G().out);
  return 0;
}
inline bool Thorough() { return G().thorough; }
inline bool Prop(const char *id) { return G().property == id; }
inline std::string S(const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
template<class V> std::string Seq(const V &v) {
  std::string r = "[";
  for (const auto &x : v) { if (r.size() > 1) r += ","; r += S("%g", static_cast<double>(x)); }
  return r + "]";
}
// |a-b| within a tolerance that scales with the magnitude of the terms that were summed
inline bool Near(double a, long double b, long double scale, long double rel = 1e-10L) {
  if (!std::isfinite(a)) return false;
  return std::fabs(static_cast<long double>(a) - b) <= rel * (1.0L + std::fabs(scale));
}
}  // namespace mc
#endif
