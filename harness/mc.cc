#include "mc.hh"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <typeinfo>

namespace mc {

  bool quick = true, replaying = false;
  int shard = 0, nshards = 1;
  std::string mode, scratch;

  static std::string replay_id, out_file, states_file;
  static std::uint64_t index_ = 0, start_ = 0, executed_ = 0, transitions_ = 0, traces_ = 0;
  static std::unordered_set<std::uint64_t> states_;
  static std::map<std::string, std::uint64_t> outcomes_;
  static std::vector<std::string> samples_;
  static std::vector<std::pair<std::string, std::string>> violations_;
  static std::uint64_t nviolations_ = 0;
  static std::string current_;
  static bool current_failed_ = false;
  static int case_cpu_limit_ = 60;

  // shared with the driver: what we were doing if we do not come back
  struct shared { volatile std::uint64_t index; volatile std::uint32_t hang; volatile std::uint32_t len; char text[1 << 20]; };
  static shared dummy_, *cur_ = &dummy_;

  static std::uint64_t watch_index_ = ~0ull; static int watch_ticks_ = 0;
  static void on_prof(int)
  {
    if (cur_->index == watch_index_) {
      if (++watch_ticks_ >= case_cpu_limit_) { cur_->hang = 1; _exit(97); }
    } else { watch_index_ = cur_->index; watch_ticks_ = 0; }
  }

  static void enter(const std::string &id)
  {
    current_ = id; current_failed_ = false; ++executed_;
    std::size_t n = id.size() < sizeof(cur_->text) ? id.size() : sizeof(cur_->text);
    memcpy(cur_->text, id.data(), n); cur_->len = n; cur_->index = index_;
  }

  bool begin(const std::string &id)
  {
    ++index_;
    if (replaying) { if (id != replay_id) return false; }
    else if (index_ <= start_ || int(index_ % nshards) != shard) return false;
    enter(id);
    return true;
  }

  bool begin(const std::function<std::string()> &id)
  {
    ++index_;
    if (!replaying && (index_ <= start_ || int(index_ % nshards) != shard)) return false;
    std::string s = id();
    if (replaying && s != replay_id) return false;
    enter(s);
    return true;
  }

  void fail(const std::string &msg)
  {
    if (current_failed_) return;           // one report per case
    current_failed_ = true;
    ++nviolations_;
    static std::size_t kept = 0;
    kept += current_.size() + std::min<std::size_t>(msg.size(), 4000);
    if (kept < 64000000) violations_.push_back({current_, msg.substr(0, 4000)});
  }

  void transition(std::uint64_t n) { transitions_ += n; }
  void trace(std::uint64_t n) { traces_ += n; }
  bool state_hash(std::uint64_t h) { return states_.insert(h).second; }
  std::uint64_t hash(const std::string &s)
  {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
  }
  bool state(const std::string &k) { return state_hash(hash(k)); }
  void outcome(const std::string &c) { ++outcomes_[c]; }
  void sample(const std::string &t) { if (samples_.size() < 4) samples_.push_back(t); }

  std::string hex(const unsigned char *p, std::size_t n)
  {
    static const char D[] = "0123456789abcdef";
    std::string r; r.reserve(2 * n);
    for (std::size_t i = 0; i < n; ++i) { r += D[p[i] >> 4]; r += D[p[i] & 15]; }
    return r;
  }
  std::string hex(const std::string &s) { return hex((const unsigned char*)s.data(), s.size()); }
  std::string hex(const std::vector<unsigned char> &v) { return hex(v.data(), v.size()); }

  static std::string json(const std::string &s)
  {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }

  static void dump()
  {
    std::ofstream os(out_file);
    os << "{\"cases\":" << index_ << ",\"executed\":" << executed_ << ",\"transitions\":" << transitions_
       << ",\"traces\":" << traces_ << ",\"nviolations\":" << nviolations_ << ",\"outcomes\":{";
    const char *sep = "";
    for (auto &o : outcomes_) { os << sep << json(o.first) << ":" << o.second; sep = ","; }
    os << "},\"samples\":["; sep = "";
    for (auto &s : samples_) { os << sep << json(s.size() > 4000 ? s.substr(0, 4000) : s); sep = ","; }
    os << "],\"violations\":["; sep = "";
    for (auto &v : violations_) { os << sep << "[" << json(v.first) << "," << json(v.second.size() > 4000 ? v.second.substr(0, 4000) : v.second) << "]"; sep = ","; }
    os << "]}\n";
    os.close();
    if (!states_file.empty()) {
      std::ofstream st(states_file, std::ios::binary);
      std::vector<std::uint64_t> v(states_.begin(), states_.end());
      st.write((const char*)v.data(), v.size() * 8);
    }
  }

  int run(int argc, char **argv, void (*body)())
  {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string o = argv[i], v = argv[i + 1];
      if (o == "--tier") quick = v == "quick";
      else if (o == "--shard") sscanf(v.c_str(), "%d/%d", &shard, &nshards);
      else if (o == "--start") start_ = strtoull(v.c_str(), 0, 10);
      else if (o == "--out") out_file = v;
      else if (o == "--states") states_file = v;
      else if (o == "--scratch") scratch = v;
      else if (o == "--mode") mode = v;
      else if (o == "--cpu-limit") case_cpu_limit_ = atoi(v.c_str());
      else if (o == "--replay") { replaying = true; std::ifstream f(v, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); replay_id = ss.str(); }
      else if (o == "--cur") {
        int fd = open(v.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(shared))) { perror("cur"); return 3; }
        void *p = mmap(0, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { perror("mmap"); return 3; }
        cur_ = (shared*)p;
        close(fd);
      }
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval tv = { {1, 0}, {1, 0} };
    setitimer(ITIMER_PROF, &tv, 0);
    try {
      body();
    } catch (const std::exception &e) {
      fail(std::string("unexpected exception escaped the case: ") + typeid(e).name() + ": " + e.what());
      dump();
      return 4;   // rest of the shard not explored: the driver resumes after this case
    } catch (...) {
      fail("unexpected non-standard exception escaped the case");
      dump();
      return 4;
    }
    cur_->index = index_ + 1;
    struct itimerval off = { {0, 0}, {0, 0} };
    setitimer(ITIMER_PROF, &off, 0);
    dump();
    return 0;
  }
}
