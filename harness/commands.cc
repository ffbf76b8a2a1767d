// C22: each command is run under a tracer which, at each system call it makes,
// kills it, cuts a transfer short, or makes the call fail: it may report success
// only if all it was to write is there, and the music must survive in any case.
#include "cli.hh"
#include "fsx.hh"
#include "layout.hh"
#include "trace.hh"
#include <clocale>
#include <filesystem>
#include <iostream>
#include <sys/stat.h>
#include <sstream>

namespace files = std::filesystem;

using std::string;
using std::vector;
typedef std::map<string, bytes> Dir;

static string at;

int scribbu_main(int, char**);

struct Run { Result r; int rc = -1; Dir now; };
static Run run(const Dir &before, const vector<string> &args, const vector<Fault> &faults)
{
  fsx::wipe(at);
  files::create_directory(at + "/out");
  for (auto &f : before) {
    fsx::put(at + "/" + f.first, f.second);
    timespec t[2] = {{1000000000, 0}, {1000000000, 0}};      // (some commands show it)
    utimensat(AT_FDCWD, (at + "/" + f.first).c_str(), t, 0);
  }
  Run x;
  x.r = traced([&] {
    if (chdir(at.c_str())) _exit(3);
    if (args[0] == "scribbu") {
      // the whole program, its output going to a file
      int fd = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0666);
      if (fd < 0 || dup2(fd, 1) < 0) _exit(3);
      close(fd);
      return Job([=] {
        shared_->rc = -1;
        vector<string> a = args;
        vector<char*> v;
        for (auto &x : a) v.push_back(&x[0]);
        v.push_back(0);
        std::ostringstream e;
        std::cerr.rdbuf(e.rdbuf());
        int rc = scribbu_main(a.size(), v.data());
        fflush(stdout);
        strncpy(shared_->what, e.str().c_str(), sizeof shared_->what - 1);
        shared_->rc = rc;
      });
    }
    return Job([=] {
      shared_->rc = -1;
      Ran r = cli(args);
      strncpy(shared_->what, r.err.c_str(), sizeof shared_->what - 1);
      shared_->rc = r.rc;
    });
  }, faults);
  x.rc = x.r.how == Result::done ? shared_->rc : -1;
  for (auto &f : dir(at)) if (f.second != "(directory)") x.now[f.first] = f.second;
  return x;
}

// working files are not left elsewhere
static string strays(const Run &x)
{
  string s;
  for (auto &p : x.r.created) if (p[0] == '/' && p.compare(0, at.size(), at) && p.compare(0, 5, "/tmp/") == 0 && !access(p.c_str(), F_OK)) {
    if (!x.r.stuck.count(p)) s += " " + p;
    unlink(p.c_str());
  }
  return s;
}

// tags may be padded one way or another
static Dir unpadded(Dir d)
{
  for (auto &f : d) {
    bytes r;
    std::size_t at = 0;
    while (f.second.size() - at >= 10 && !f.second.compare(at, 3, "ID3")) {
      Decoded t = decode(f.second.substr(at));
      if (!t.error.empty()) break;
      r += "ID3v2." + std::to_string(t.tag.ver);
      for (auto &x : t.raw_frames) r += x;
      at += t.total;
    }
    f.second = r + f.second.substr(at);
  }
  return d;
}

static string sizes(const Dir &d) { string s; for (auto &f : d) s += " " + f.first + ":" + std::to_string(f.second.size()); return s; }

static void body()
{
  setlocale(LC_ALL, "C.UTF-8");
  setenv("LANGUAGE", "en", 1);
  at = fsx::fresh("d");
  auto music = [](int k, std::size_t n) { bytes b = "\xff\xfb\x90\x44"; for (std::size_t i = 0; b.size() < n; ++i) b += char((i * (2 * k + 31) >> 3) & 0x7f); return b; };
  const bytes A = music(1, 700), B = music(2, 40000), C = music(3, 90), D = music(4, 9000);
  auto F = [](int ver) { return vector<Frame>{mk(ver == 2 ? "TT2" : "TIT2", txt(("title" + std::to_string(ver)).c_str())), mk(ver == 2 ? "TP1" : "TPE1", txt("artist")), mk(ver == 2 ? "COM" : "COMM", bytes("\0engd\0text", 10))}; };
  struct In { string name; Dir d; vector<bytes> music; };
  const bytes other = "someone else's";
  vector<In> in{
    {"plain", {{"a.mp3", encode(tag(3, 0, F(3))) + A + v1std("one", 3)}, {"b.mp3", encode(tag(4, 300, F(4))) + B}, {"c.mp3", C}, {"other", other}, {"old.m3u", "#EXTM3U\n#EXTINF:1,x - y\nx.mp3\n"}, {"old.csv", "a,b\n"}}, {A, B, C}},
    {"padded", {{"a.mp3", encode(tag(3, 900, F(3))) + encode(tag(2, 900, F(2))) + D + v1enh("one", 3)}, {"b.mp3", encode(tag(2, 4, F(2))) + A + v1std("two", 4)}, {"c.mp3", C + v1std("three", 0)}, {"other", other}, {"old.m3u", "#EXTM3U\n#EXTINF:1,x - y\nx.mp3\n"}, {"old.csv", "a,b\n"}}, {D, A, C}},
  };
  vector<vector<string>> cmds{
    {"text", "-T", "new", "a.mp3"}, {"text", "-T", string(700, 'n'), "a.mp3", "b.mp3"}, {"text", "-C", "-T", "new", "-b", "c.mp3"}, {"text", "-d", "TIT2", "-b", "a.mp3"}, {"text", "-c", "-A", "x", "."},
    {"genre", "-w", "8", "a.mp3"}, {"genre", "-w", "8", "-C", "-c", "c.mp3", "b.mp3"}, {"genre", "-w", "9", "-b", "-a", "b.mp3"},
    {"popm", "-f", "-o", "me@x", "-r", "***", "a.mp3"}, {"popm", "-p", "-f", "-b", "-C", "7", "b.mp3", "a.mp3"},
    {"xtag", "-T", "k=c&n=x,y", "-f", "a.mp3"}, {"xtag", "-T", "k=c", "-A", "-b", "c.mp3", "b.mp3"},
    {"rename", "-t", "%T-x.mp3", "a.mp3"}, {"rename", "-r", "-t", "%T-x.mp3", "a.mp3", "b.mp3"}, {"rename", "-o", "out", "-t", "%T-x.mp3", "b.mp3"}, {"rename", "-r", "-o", "out", "-t", "%T-x.mp3", "b.mp3"},
    {"split", "a.mp3"}, {"split", "--suffix", ".x", "b.mp3"},
    {"report", "-o", "new.csv", "out"}, {"report", "-ta", "-o", "new.csv", "out"},
    {"report", "-o", "new.csv", "a.mp3", "b.mp3", "c.mp3"}, {"report", "-t", "-o", "old.csv", "a.mp3"}, {"report", "-S", "-o", "new.csv", "."},
    {"m3u", "-o", "new.m3u", "a.mp3", "b.mp3"}, {"m3u", "-a", "-o", "old.m3u", "b.mp3"}, {"m3u", "-o", "old.m3u", "a.mp3"}, {"m3u", "-a", "-o", "new.m3u", "c.mp3"},
    {"scribbu", "dump", "a.mp3", "b.mp3"}, {"scribbu", "dump", "-f", "json", "a.mp3"}, {"scribbu", "m3u", "a.mp3", "b.mp3"}, {"scribbu", "encodings"}, {"scribbu", "xtag", "-g", "a.mp3"},
    {"scribbu", "rename", "-n", "-t", "%T-x.mp3", "a.mp3"}, {"scribbu", "rename", "-v", "-r", "-t", "%T-x.mp3", "a.mp3"}, {"scribbu", "--version"}, {"scribbu", "text", "-v", "-T", "new", "a.mp3"},
  };
  for (auto &i : in) for (auto &c : cmds) {
    string name = i.name + ":";
    for (auto &a : c) name += " " + (a.size() > 40 ? std::to_string(a.size()) + "*" + a[0] : a);
    Run dry = run(i.d, c, {});
    string s = strays(dry);
    auto safe = [&](const Run &x) {
      for (auto &m : i.music) {
        bool have = false;
        for (auto &f : x.now) have = have || f.second.find(m) != bytes::npos;
        MC_CHECK(have, "music (" << m.size() << " bytes) is lost; left are" << sizes(x.now));
      }
      MC_CHECK(x.now.count("other") && x.now.at("other") == other, "another file was altered");
      if (c[0] == "m3u" && c[1] == "-a") MC_CHECK(x.now.count("old.m3u") && x.now.at("old.m3u").compare(0, i.d.at("old.m3u").size(), i.d.at("old.m3u")) == 0, "the playlist appended to has lost entries");
      static const char *H[] = {"done", "threw", "killed", "died"};
      string o = x.r.how == Result::done ? x.rc ? "failed" : "succeeded" : H[x.r.how];
      mc::outcome(c[0] + " " + o);
      mc::state(name + o + sizes(x.now));
    };
    if (mc::begin(name)) {
      MC_CHECK(dry.r.how == Result::done && dry.rc == 0, "exit status " << dry.rc << ": " << dry.r.what);
      MC_CHECK(s.empty(), "left" << s);
      safe(dry);
      mc::trace();
      string l;
      for (auto &x : dry.r.calls) l += " " + x.name;
      mc::sample(name + ":" + l);
    }
    auto judge = [&](const Run &x, const vector<Fault> &fs, bool judged) {
      string left = strays(x);
      if (x.r.hit.empty()) { mc::fail("the call was not reached again"); return; }
      safe(x);
      if (x.r.how == Result::done && x.rc == 0 && judged) {
        MC_CHECK(x.now == dry.now || unpadded(x.now) == unpadded(dry.now), "success is reported, but what was to be written is not there: left are" << sizes(x.now) << "; there should be" << sizes(dry.now));
        MC_CHECK(left.empty(), "left" << left);
      }
      if (x.r.how == Result::done && x.rc && judged) MC_CHECK(!x.r.what.empty(), "exit status " << x.rc << ", and nothing is said");
      if (x.r.how == Result::threw) MC_CHECK(false, "an exception leaves the command: " << x.r.what);
      mc::trace();
    };
    // (a failing seek is taken for a file too short, and does not occur in regular files)
    // dump goes on to the next file, and says so only
    auto counts = [&](const Call &k, const Fault &f) { return f.kind != 3 || (k.nr != SYS_lseek && (k.writes || c[0] != "scribbu" || c[1] != "dump")); };
    auto label = [](const Call &k, const Fault &f) { return "; " + f.name() + " (" + k.name + (k.path.empty() ? "" : " " + files::path(k.path).filename().string().substr(0, 20)) + ")"; };
    for (std::size_t n = 0; n < dry.r.calls.size(); ++n) {
      const Call &k = dry.r.calls[n];
      int w = find(k.nr);
      vector<Fault> fs{{int(n), 0, 0}};
      if (SYS[w].len >= 0 && k.len > 1) { if (k.nr != SYS_read) fs.push_back({int(n), 1, 0}); fs.push_back({int(n), 2, 0}); }
      for (int e : SYS[w].errs) fs.push_back({int(n), 3, e});
      for (auto &f : fs) {
        Run one;
        if (mc::begin([&] { return name + label(k, f); })) { one = run(i.d, c, {f}); judge(one, {f}, counts(k, f)); }
        if (f.kind < 2 || !k.writes || (mc::quick && (f.kind != 3 || f.err != SYS[w].errs[0]))) continue;
        // the standard library's fallback for filesystems without sendfile does not report all of its own failures
        if (f.kind == 3 && f.err == EINVAL) continue;
        // a second fault, wherever the first leads
        if (one.r.calls.empty()) { one = run(i.d, c, {f}); strays(one); }
        for (std::size_t m = n + 1; m < one.r.calls.size(); ++m) {
          const Call &l = one.r.calls[m];
          vector<Fault> gs{{int(m), 0, 0}};
          for (int e : SYS[find(l.nr)].errs) if (!mc::quick || gs.size() < 2) gs.push_back({int(m), 3, e});
          for (auto &g : gs) {
            if (!mc::begin([&] { return name + label(k, f) + label(l, g); })) continue;
            Run two = run(i.d, c, {f, g});
            judge(two, {f, g}, counts(k, f) && counts(l, g));
          }
        }
      }
    }
  }
  fsx::wipe(at);
}
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
