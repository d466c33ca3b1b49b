// Exploration runtime shared by all checks: enumerates the cases of named, finite families,
// shards them, survives crashes/hangs of the code under test and writes the coverage record.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mc {

typedef long long ll;

struct S {  // tiny string builder
  std::ostringstream o;
  S() { o.precision(17); }
  template <class T>
  S& operator<<(const T& t) {
    o << t;
    return *this;
  }
  operator std::string() const { return o.str(); }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

struct Slot {  // shared with the signal handlers
  char family[96];
  volatile ll index;
  volatile ll seq;
};

struct Run {
  std::string prop, tier = "quick", out, only_family;
  int shard = 0, nshards = 1;
  ll only_index = -1;
  long hang_ticks = 30;
  bool replay = false;

  Slot slot;
  ll cases = 0, transitions = 0, validated = 0;
  ll space = 0;
  std::map<std::string, ll> fam_total, fam_run, notes;
  std::unordered_set<uint64_t> seen;
  ll seen_overflow = 0;
  std::vector<std::string> samples;
  std::vector<std::string> known_hit;
  std::set<std::string> known;
  bool want_sample = false;
  bool violated = false;
  std::string message;

  static Run*& self() {
    static Run* r = nullptr;
    return r;
  }
  bool thorough() const { return tier == "thorough"; }
  // quick/thorough parameter
  template <class T>
  T qt(T q, T t) const {
    return thorough() ? t : q;
  }
  void note(const std::string& k, ll d = 1) { notes[k] += d; }
  void state(uint64_t h) {
    if (seen.size() < 6000000)
      seen.insert(h);
    else
      seen_overflow++;
  }
  void sample(const std::string& s) {
    if (samples.size() < 6) samples.push_back(s);
  }

  static void put(int fd, const char* s) { (void)!write(fd, s, strlen(s)); }
  static void die(const char* why, int sig) {
    Run* r = self();
    char buf[256];
    int fd = open((r->out + ".crash").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) {
      snprintf(buf, sizeof buf, "%s %d\n%s\n%lld\n", why, sig, r->slot.family, (ll)r->slot.index);
      put(fd, buf);
      close(fd);
    }
    _exit(42);
  }
  static void on_signal(int s) { die("signal", s); }
  static void on_tick(int) {
    static ll last = -1;
    static long n = 0;
    Run* r = self();
    if (r->slot.seq == last) {
      if (++n > r->hang_ticks) die("hang", 0);
    } else {
      last = r->slot.seq;
      n = 0;
    }
  }

  static void on_sanitizer_death() { die("memory checker report", 0); }

  void init(int argc, char** argv) {
    self() = this;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_sanitizer_death);
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--prop") prop = v;
      else if (k == "--tier") tier = v;
      else if (k == "--shard") shard = atoi(v.c_str());
      else if (k == "--nshards") nshards = atoi(v.c_str());
      else if (k == "--out") out = v;
      else if (k == "--family") only_family = v;
      else if (k == "--index") only_index = atoll(v.c_str()), replay = true;
      else if (k == "--known") known.insert(v);
    }
    memset(&slot, 0, sizeof slot);
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    static char alt[65536];
    stack_t ss;
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    for (int s : sigs) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = on_signal;
      sa.sa_flags = SA_ONSTACK;
      sigaction(s, &sa, nullptr);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it;
    it.it_interval.tv_sec = it.it_value.tv_sec = 1;
    it.it_interval.tv_usec = it.it_value.tv_usec = 0;
    setitimer(ITIMER_PROF, &it, nullptr);
  }

  // Explores every index in [0,total) that belongs to this shard.
  template <class F>
  void family(const std::string& name, ll total, F fn) {
    if (violated) return;
    if (replay && name != only_family) return;
    snprintf(slot.family, sizeof slot.family, "%s", name.c_str());
    fam_total[name] += total;
    fam_run[name] += 0;
    bool sampled = false;
    if (const char* only = getenv("MC_ONLY"))  // development aid: the run is then reported as incomplete
      if (!strstr(name.c_str(), only)) return;
    if (replay) {
      if (only_index < total) one(name, only_index, fn);
      return;
    }
    clock_t t0 = clock();
    for (ll i = shard; i < total && !violated; i += nshards) {
      want_sample = i >= total / 3 && !sampled && samples.size() < 3 && (int)(fam_total.size() % nshards) == shard;
      if (want_sample) sampled = true;
      one(name, i, fn);
      fam_run[name]++;
    }
    if (getenv("MC_TIMES")) fprintf(stderr, "TIME %8.2f %s\n", double(clock() - t0) / CLOCKS_PER_SEC, name.c_str());
  }
  template <class F>
  void one(const std::string&, ll i, F& fn) {
    slot.index = i;
    slot.seq = slot.seq + 1;
    cases++;
    fn(i);
  }
  void fail(const std::string& msg) {
    if (violated) return;
    std::string key = std::string(slot.family) + ":" + std::to_string((ll)slot.index);
    if (known.count(key)) {
      known_hit.push_back(key);
      return;
    }
    violated = true;
    message = msg;
  }

  static std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) {
      if (c == '"' || c == '\\') o += '\\', o += c;
      else if (c == '\n') o += "\\n";
      else if ((unsigned char)c < 32) o += ' ';
      else o += c;
    }
    return o;
  }
  int finish() {
    FILE* f = out.empty() ? stdout : fopen((out + ".json").c_str(), "w");
    if (!f) return 3;
    auto dump = [&](const std::map<std::string, ll>& m) {
      fprintf(f, "{");
      bool first = true;
      for (auto& p : m) fprintf(f, "%s\"%s\":%lld", first ? "" : ",", esc(p.first).c_str(), p.second), first = false;
      fprintf(f, "}");
    };
    fprintf(f, "{\"cases\":%lld,\"transitions\":%lld,\"validated\":%lld,\"states\":%lld,\"overflow\":%lld,\"families\":", cases,
            transitions, validated, (ll)seen.size(), seen_overflow);
    dump(fam_total);
    fprintf(f, ",\"run\":");
    dump(fam_run);
    fprintf(f, ",\"notes\":");
    dump(notes);
    fprintf(f, ",\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "],\"known\":[");
    for (size_t i = 0; i < known_hit.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(known_hit[i]).c_str());
    fprintf(f, "],\"violated\":%s,\"family\":\"%s\",\"index\":%lld,\"message\":\"%s\"}\n", violated ? "true" : "false",
            slot.family, (ll)slot.index, esc(message).c_str());
    if (f != stdout) fclose(f);
    return violated ? 1 : 0;
  }
};

// Mixed-radix decoder: digit(r) consumes one digit of radix r.
struct Dec {
  ll k;
  explicit Dec(ll i) : k(i) {}
  int digit(int r) {
    int d = (int)(k % r);
    k /= r;
    return d;
  }
};

inline ll ipow(ll b, int e) {
  ll r = 1;
  while (e-- > 0) r *= b;
  return r;
}

// All assignments that differ from a base in at most k positions; position p has alt[p]
// alternative values.  Case = list of (position, alternative).
struct DevSpace {
  typedef std::pair<short, short> Dev;
  std::vector<int> alt;
  std::vector<std::vector<Dev>> cases;
  DevSpace(const std::vector<int>& a, int k) : alt(a) {
    std::vector<Dev> cur;
    rec(0, k, cur);
  }
  ll size() const { return (ll)cases.size(); }

 private:
  void rec(int p, int k, std::vector<Dev>& cur) {
    cases.push_back(cur);
    if (k == 0) return;
    for (int q = p; q < (int)alt.size(); q++)
      for (int v = 0; v < alt[q]; v++) {
        cur.push_back(Dev(q, v));
        rec(q + 1, k - 1, cur);
        cur.pop_back();
      }
  }
};

}  // namespace mc
