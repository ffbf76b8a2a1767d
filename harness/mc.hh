// Explicit-state exploration support shared by the harnesses.
//
// A harness enumerates a finite space of cases in a fixed order and calls
// mc::begin(id) for each; it runs the case only if that returns true (the case
// belongs to this shard, or is the one being replayed).  Ids are readable and
// complete: an id alone identifies the case, so it is the replay artefact.
#ifndef VERIF_MC_HH
#define VERIF_MC_HH

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

  extern bool quick;            // tier
  extern bool replaying;
  extern int  shard, nshards;
  extern std::string mode;      // which of its checks a shared harness runs
  extern std::string scratch;   // a directory of our own, removed by the driver

  // Is this case ours? Marks it as the current one if so.
  bool begin(const std::string &id);
  // As above, when the id is costly to make
  bool begin(const std::function<std::string()> &id);

  // The property does not hold for the current case.
  void fail(const std::string &msg);

  // Measured coverage.
  void transition(std::uint64_t n = 1);            // operations executed on the implementation
  void trace(std::uint64_t n = 1);                 // complete traces compared with the model
  bool state(const std::string &key);              // canonical model state; true if new in this shard
  bool state_hash(std::uint64_t h);
  void outcome(const std::string &cls);            // tally of observed outcome classes
  void sample(const std::string &text);            // a few are kept
  std::uint64_t hash(const std::string &s);

  std::string hex(const unsigned char *p, std::size_t n);
  std::string hex(const std::string &s);
  std::string hex(const std::vector<unsigned char> &v);

  int run(int argc, char **argv, void (*body)());

  template <typename T> std::string str(const T &x)
  { std::ostringstream s; s << x; return s.str(); }
}

#define MC_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream mc_s_; mc_s_ << msg; mc::fail(mc_s_.str()); } } while (0)

#endif
