// C24: for each sub-command, every set of up to three of its options, in every
// order, spelling and place on the command line, or set in the environment: what
// is done must not depend on how the options were given.  And a command line with
// one thing wrong in it must be refused before anything is done.
#include "cli.hh"
#include "fsx.hh"
#include "layout.hh"
#include <clocale>
#include <iostream>
#include <sys/stat.h>
#include <sys/wait.h>

using std::string;
using std::vector;
typedef vector<string> Args;
typedef std::map<string, string> Dir;

int scribbu_main(int, char**);

struct Opt {
  string lng, sh;
  vector<string> good, bad;    // values (a switch has none)
  string env;
  bool list;                   // may be given repeatedly
};
struct Cmd { string name; vector<Opt> opts; vector<string> files; Args base; vector<Args> wrong; string id; };

static string at;
static Dir start;

struct Effect { int rc; string out, err; Dir now; };
static bool operator==(const Effect &a, const Effect &b) { return a.rc == b.rc && a.out == b.out && a.err == b.err && a.now == b.now; }
static std::uint64_t sum(const Effect &e) { string s; for (auto &f : e.now) s += f.first + "/" + f.second + "/"; return mc::hash(s); }
static string show(const Effect &e)
{
  string s = "status " + std::to_string(e.rc) + ", " + std::to_string(e.out.size()) + " characters of output, " + std::to_string(e.err.size()) + " of messages";
  for (auto &f : e.now) {
    auto p = start.find(f.first);
    if (p == start.end()) s += ", new " + f.first; else if (p->second != f.second) s += ", changed " + f.first;
  }
  for (auto &f : start) if (!e.now.count(f.first)) s += ", " + f.first + " gone";
  return s;
}

static void reset()
{
  fsx::wipe(at);
  for (auto &f : start) {
    if (f.second == "(directory)") { mkdir((at + "/" + f.first).c_str(), 0755); continue; }
    fsx::put(at + "/" + f.first, f.second);
    timespec t[2] = {{1000000000, 0}, {1000000000, 0}};
    utimensat(AT_FDCWD, (at + "/" + f.first).c_str(), t, 0);
  }
}

static Effect run(const Args &a)
{
  reset();
  Ran r = cli(a);
  mc::transition();
  return {r.rc, r.out, r.err, dir(at)};
}

// In a process of its own, for what ends the process
static Effect run_forked(const Args &a)
{
  reset();
  string o = at + ".out", e = at + ".err";
  fflush(0);
  pid_t pid = fork();
  if (!pid) {
    int x = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), y = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_RDONLY);
    dup2(z, 0); dup2(x, 1); dup2(y, 2);
    setenv("PATH", "/nonexistent", 1);                       // no pager, no man
    vector<string> s = a;
    if (a[0] != "scribbu") s.insert(s.begin(), "scribbu");
    vector<char*> v;
    for (auto &q : s) v.push_back(&q[0]);
    v.push_back(0);
    int rc = scribbu_main(s.size(), v.data());
    std::cout.flush(); fflush(0);
    _exit(rc);
  }
  int st;
  waitpid(pid, &st, 0);
  mc::transition();
  return {WIFEXITED(st) ? WEXITSTATUS(st) : -1, fsx::get(o), fsx::get(e), dir(at)};
}

// One option with one of its values
struct Given { const Opt *o; string v; };
enum Spelling { eq, sep, joined, apart, nspell };              // --o=v, --o v, -ov, -o v
static const char *spelling[] = {"--o=v", "--o v", "-ov", "-o v"};
static Args spell(const Given &g, int s)
{
  bool sw = g.o->good.empty();
  if (g.o->sh.empty() && s > sep) s -= 2;
  if (sw) return {s <= sep ? "--" + g.o->lng : "-" + g.o->sh};
  switch (s) {
  case eq: return {"--" + g.o->lng + "=" + g.v};
  case sep: return {"--" + g.o->lng, g.v};
  case joined: return {"-" + g.o->sh + g.v};
  default: return {"-" + g.o->sh, g.v};
  }
}

enum Place { after, before, between, nplace };
static const char *place[] = {"before the files", "after the files", "among the files"};
static Args line(const Cmd &c, const vector<Args> &opts, int where)
{
  Args a{c.name};
  std::size_t f = where == after ? 0 : where == before ? c.files.size() : 1;
  f = std::min(f, c.files.size());
  a.insert(a.end(), c.base.begin(), c.base.end());
  a.insert(a.end(), c.files.begin(), c.files.begin() + f);
  for (auto &o : opts) a.insert(a.end(), o.begin(), o.end());
  a.insert(a.end(), c.files.begin() + f, c.files.end());
  return a;
}

static string text(const Args &a) { string s; for (auto &x : a) s += (s.empty() ? "" : " ") + (x.empty() ? string("''") : x); return s; }
static string text(const vector<Given> &s)
{
  string t;
  for (auto &g : s) t += (t.empty() ? "" : " ") + g.o->lng + (g.o->good.empty() ? "" : "=" + g.v);
  return t.empty() ? "-" : t;
}

static vector<Cmd> commands()
{
  const vector<string> num{"x", "1x", "1.5", ""};
  const Opt U{"adjust-unsync", "u", {}, {}, "SCRIBBU_ADJUST_UNSYNC", false},
    B{"create-backups", "b", {}, {}, "SCRIBBU_CREATE_BACKUPS", false},
    N{"dry-run", "n", {}, {}, "SCRIBBU_DRY_RUN", false},
    T{"tag", "t", {"0", "1"}, num, "", true};
  auto v = [](const char *n, const char *s, vector<string> good, vector<string> bad, const char *env) { return Opt{n, s, good, bad, env, false}; };
  auto sw = [](const char *n, const char *s, const char *env) { return Opt{n, s, {}, {}, env, false}; };
  return {
    {"text", {U, B, T,
              v("album", "a", {"Al", "-x y="}, {}, ""), sw("always-create-v2", "C", "SCRIBBU_ALWAYS_CREATE_V2"),
              v("artist", "A", {"Ar", "\xc3\xa9"}, {}, ""), sw("create-v2", "c", "SCRIBBU_CREATE_V2"),
              Opt{"delete", "d", {"TIT2", "TPE1"}, {"nonesuch"}, "", true},
              v("encoding", "E", {"ISO-8859-1", "UTF-8"}, {"nonesuch"}, "SCRIBBU_ENCODING"),
              v("encoded-by", "e", {"En", "e2"}, {}, ""), v("genre", "g", {"Rock", "g2"}, {}, ""),
              v("title", "T", {"Ti", "t2"}, {}, ""), v("track", "k", {"3", "4"}, {}, ""),
              v("year", "y", {"1999", "2000"}, {}, ""), sw("verbose", "v", "")},
     {"a.mp3", "b.mp3", "c.mp3"}, {}, {{"--create-v2", "--always-create-v2"}}},
    {"genre", {U, B, N, T, sw("always-create-v2", "a", "SCRIBBU_ALWAYS_CREATE_V2"), sw("always-create-v1", "A", "SCRIBBU_ALWAYS_CREATE_V1"),
               sw("create-v2", "c", "SCRIBBU_CREATE_V2"), sw("create-v1", "C", "SCRIBBU_CREATE_V1"),
               v("genre", "g", {"Rock", "blues"}, {}, ""), v("Genre", "G", {"Mine", "g2"}, {}, ""),
               v("v1", "v", {"7", "255"}, {"256", "x", "1x"}, ""), sw("v1-only", "1", "SCRIBBU_V1_ONLY"), sw("v2-only", "2", "SCRIBBU_V2_ONLY"),
               sw("verbose", "", "SCRIBBU_VERBOSE"), v("winamp", "w", {"9", "191"}, {"192", "x", "1x"}, "")},
     {"a.mp3", "b.mp3", "c.mp3"}, {}, {{"--v1-only", "--v2-only", "--winamp=3"}, {"--winamp=3", "--genre=Rock"}}, ""},
    {"genre", {U, B, N, T, sw("always-create-v2", "a", "SCRIBBU_ALWAYS_CREATE_V2"), sw("always-create-v1", "A", "SCRIBBU_ALWAYS_CREATE_V1"),
               sw("create-v2", "c", "SCRIBBU_CREATE_V2"), sw("create-v1", "C", "SCRIBBU_CREATE_V1"),
               v("v1", "v", {"7", "255"}, {"256"}, ""), sw("v1-only", "1", "SCRIBBU_V1_ONLY"), sw("v2-only", "2", "SCRIBBU_V2_ONLY"),
               sw("verbose", "", "SCRIBBU_VERBOSE")},
     {"a.mp3", "b.mp3", "c.mp3"}, {"-w", "9"}, {{"--v1-only", "--v2-only"}, {"--winamp=3"}, {"-GMine"}}, " -w 9"},
    {"popm", {U, B, N, T, sw("always-create-v2", "a", ""), v("count", "C", {"7", "300"}, num, ""), sw("create-v2", "c", ""),
              sw("create-frame", "f", "SCRIBBU_CREATE"), v("increment", "i", {"2", "255"}, num, ""), v("owner", "o", {"me", "you"}, {}, "SCRIBBU_OWNER"),
              sw("playcount-only", "p", ""), sw("popularimeter-only", "m", ""), v("rating", "r", {"**", "200"}, {"256", "******", "0x7", "1.5"}, ""),
              sw("verbose", "v", "SCRIBBU_VERBOSE")},
     {"a.mp3", "b.mp3", "c.mp3"}, {}, {{"--count=3", "--increment=2"}, {"--playcount-only", "--popularimeter-only"}, {"--create-v2", "--always-create-v2"}}},
    {"xtag", {U, B, N, T, sw("always-create-v2", "A", "SCRIBBU_ALWAYS_CREATE_V2"), sw("create-frame", "f", "SCRIBBU_CREATE"), sw("create-v2", "c", "SCRIBBU_CREATE_V2"),
              sw("get", "g", ""), sw("merge", "m", ""), v("owner", "o", {"me", "you"}, {}, "SCRIBBU_OWNER"), v("xtags", "T", {"k=v&fast", "a=b,c"}, {}, "")},
     {"a.mp3", "b.mp3", "c.mp3"}, {}, {{"--create-v2", "--always-create-v2", "--xtags=a=b"}, {"--merge"}, {"--create-frame"}}, ""},
    {"xtag", {U, B, N, T, sw("always-create-v2", "A", "SCRIBBU_ALWAYS_CREATE_V2"), sw("create-frame", "f", "SCRIBBU_CREATE"), sw("create-v2", "c", "SCRIBBU_CREATE_V2"),
              sw("merge", "m", ""), v("owner", "o", {"me", "you"}, {}, "SCRIBBU_OWNER")},
     {"a.mp3", "b.mp3", "c.mp3"}, {"-T", "k=v&fast"}, {{"--create-v2", "--always-create-v2"}, {"--xtags=x=y"}}, " -T"},
    {"rename", {N, v("output", "o", {"out", "out2"}, {}, "SCRIBBU_OUTPUT"), sw("rename", "r", ""), v("template", "t", {"%T", "%A%E"}, {"%Z", "%"}, ""),
                sw("verbose", "v", "SCRIBBU_VERBOSE")},
     {"a.mp3", "c.mp3"}, {}, {}},
    {"split", {v("suffix", "", {".x", ".y"}, {}, "")}, {"a.mp3"}, {}, {{"c.mp3"}}},
    {"report", {v("num-comments", "c", {"0", "2"}, num, ""), sw("tsv", "t", ""), v("v1-encoding", "1", {"UTF-8", "ISO-8859-1"}, {"nonesuch"}, ""),
                sw("no-directory", "d", ""), sw("ascii-delimited", "a", ""), sw("no-summary", "S", "")},
     {"a.mp3", "b.mp3", "c.mp3"}, {"--output=r.csv"}, {}},
    {"m3u", {sw("append", "a", ""), v("on-encoding-failure", "e", {"ignore", "transliterate"}, {"nonesuch"}, ""), v("output", "o", {"out.m3u", "old.m3u"}, {}, ""),
             v("source-encoding", "s", {"UTF-8", "ISO-8859-1"}, {"nonesuch"}, ""), sw("use-utf8", "8", ""), sw("verbose", "v", "")},
     {"a.mp3", "b.mp3", "c.mp3"}, {}, {{"--append"}, {"--use-utf8"}}},
    {"dump", {sw("id3v1-tags", "1", ""), sw("track-data", "D", ""), sw("id3v2-tags", "2", ""), v("indent", "i", {"2", "5"}, num, ""),
              sw("no-expand-genre", "g", ""), v("expression", "e", {"a.*", "c.*"}, {"["}, ""), v("format", "f", {"csv", "json"}, {"nonesuch"}, ""),
              v("num-comments", "m", {"0", "2"}, num, "SCRIBBU_NUM_COMMENTS"), v("v1-encoding", "c", {"UTF-8", "ISO-8859-1"}, {"nonesuch"}, "SCRIBBU_V1_ENCODING")},
     {"a.mp3", "b.mp3", "c.mp3"}, {}, {}},
  };
}

// Every set of up to n options, each with each of its values
static void sets(const Cmd &c, std::size_t n, const std::function<void(const vector<Given>&)> &f)
{
  vector<Given> s;
  std::function<void(std::size_t)> go = [&](std::size_t from) {
    f(s);
    if (s.size() == n) return;
    for (std::size_t i = from; i < c.opts.size(); ++i) {
      auto &o = c.opts[i];
      if (o.good.empty()) { s.push_back({&o, ""}); go(i + 1); s.pop_back(); }
      else for (std::size_t k = 0; k < (s.size() == 2 ? 1 : o.good.size()); ++k) { s.push_back({&o, o.good[k]}); go(i + 1); s.pop_back(); }
    }
  };
  go(0);
}

struct Env {
  vector<string> names;
  void set(const string &n, const string &v) { setenv(n.c_str(), v.c_str(), 1); names.push_back(n); }
  ~Env() { for (auto &n : names) unsetenv(n.c_str()); }
};

static void same()
{
  for (auto &c : commands())
    sets(c, mc::quick ? 2 : 3, [&](const vector<Given> &s) {
      if (s.empty() || !mc::begin(c.name + c.id + ": " + text(s))) return;
      auto all = [&](int sp, int pl, const vector<int> &order) {
        vector<Args> o;
        for (int i : order) o.push_back(spell(s[i], sp));
        return line(c, o, pl);
      };
      vector<int> id;
      for (std::size_t i = 0; i < s.size(); ++i) id.push_back(i);
      Effect want = run(all(eq, after, id));
      mc::outcome(want.rc ? "status " + std::to_string(want.rc) : want.now != start ? string("files changed") : string("nothing changed"));
      mc::state(c.name + "/" + show(want) + "/" + std::to_string(mc::hash(want.out)) + "/" + std::to_string(sum(want)));
      auto check = [&](const Args &a) {
        Effect got = run(a);
        MC_CHECK(got == want, "\"" << text(a) << "\": " << show(got) << "; \"" << text(all(eq, after, id)) << "\": " << show(want));
        mc::trace();
      };
      vector<int> order = id;
      do {
        for (int sp = 0; sp < nspell; ++sp) for (int pl = 0; pl < nplace; ++pl)
          if (s.size() < 3 || order == id || (sp == apart && pl == before)) check(all(sp, pl, order));
      } while (std::next_permutation(order.begin(), order.end()));
      // each option where another is not
      if (s.size() == 2) {
        Args a{c.name};
        for (auto &x : spell(s[0], apart)) a.push_back(x);
        a.insert(a.end(), c.files.begin(), c.files.end());
        a.insert(a.end(), c.base.begin(), c.base.end());
        for (auto &x : spell(s[1], sep)) a.push_back(x);
        check(a);
      }
      // switches run together
      if (s.size() > 1) {
        string g = "-";
        for (auto &x : s) if (x.o->sh.empty() || (!x.o->good.empty() && &x != &s.back())) g = ""; else if (!g.empty()) g += x.o->sh + x.v;
        if (!g.empty()) check(line(c, {{g}}, after));
      }
    });
}

static void environment()
{
  for (auto &c : commands())
    sets(c, 2, [&](const vector<Given> &s) {
      bool any = false;
      for (auto &g : s) any = any || !g.o->env.empty();
      if (!any || !mc::begin(c.name + c.id + ": " + text(s))) return;
      vector<Args> o;
      for (auto &g : s) o.push_back(spell(g, eq));
      Effect want = run(line(c, o, after));
      mc::state(c.name + "/" + show(want) + "/" + std::to_string(mc::hash(want.out)) + "/" + std::to_string(sum(want)));
      auto check = [&](const Args &a, const Env &e, const string &v, const Effect &w) {
        Effect got = run(a);
        string n;
        for (auto &x : e.names) n += x + "=" + v + " ";
        MC_CHECK(got == w, "\"" << n << text(a) << "\": " << show(got) << "; without the environment: " << show(w));
        mc::trace();
      };
      for (unsigned m = 1; m < (1u << s.size()); ++m) {
        // those in m by the environment, the rest on the command line
        vector<Args> rest;
        bool can = true;
        for (std::size_t i = 0; i < s.size(); ++i) if (!(m >> i & 1)) rest.push_back(o[i]); else if (s[i].o->env.empty()) can = false;
        if (!can) continue;
        for (string yes : {"1", "true", "yes", "on"}) {
          Env e;
          for (std::size_t i = 0; i < s.size(); ++i) if (m >> i & 1) e.set(s[i].o->env, s[i].o->good.empty() ? yes : s[i].v);
          check(line(c, rest, after), e, yes, want);
          // and on the command line too
          check(line(c, o, after), e, yes, want);
        }
        // a switch that is off is as one not given
        Effect without = run(line(c, rest, after));
        bool sw = true;
        for (std::size_t i = 0; i < s.size(); ++i) if ((m >> i & 1) && !s[i].o->good.empty()) sw = false;
        if (sw) for (string no : {"0", "false", "no", "off"}) {
          Env e;
          for (std::size_t i = 0; i < s.size(); ++i) if (m >> i & 1) e.set(s[i].o->env, no);
          check(line(c, rest, after), e, no, without);
          check(line(c, o, after), e, no, want);
        }
        // the command line has the last word
        bool val = true;
        for (std::size_t i = 0; i < s.size(); ++i) if ((m >> i & 1) && s[i].o->good.empty()) val = false;
        if (val) {
          Env e;
          for (std::size_t i = 0; i < s.size(); ++i) if (m >> i & 1) e.set(s[i].o->env, s[i].o->good[s[i].v == s[i].o->good[0]]);
          check(line(c, o, after), e, "(another)", want);
        }
      }
      // variables which are not ours
      Env e;
      e.set("SCRIBBU_NONESUCH", "1"); e.set("SCRIBBU", "x"); e.set("DRY_RUN", "1");
      check(line(c, o, after), e, "1", want);
    });
}

static void refused()
{
  auto judge = [&](const Args &a, const Effect &got) {
    MC_CHECK(got.rc > 0, "\"" << text(a) << "\" was taken: " << show(got));
    MC_CHECK(got.now == start, "\"" << text(a) << "\": " << show(got));
    MC_CHECK(got.out.empty(), "\"" << text(a) << "\" wrote " << got.out.size() << " characters on standard output: " << got.out.substr(0, 60));
    MC_CHECK(!got.err.empty(), "\"" << text(a) << "\" was refused without a word");
    mc::outcome("status " + std::to_string(got.rc));
    mc::trace();
  };
  for (auto &c : commands()) {
    // what is wrong, and where it may stand
    struct Wrong { Args a; bool last; string env, val; bool alone = false; };
    vector<Wrong> w;
    for (string u : {"--nonesuch", "--nonesuch=1", "-Z", "-Zx"}) w.push_back({{u}, false, "", ""});
    for (auto &x : c.wrong) w.push_back({x, false, "", "", true});
    for (auto &o : c.opts) {
      for (auto &b : o.bad) for (int sp = 0; sp < nspell; ++sp) {
        if (b.empty() && sp == joined) continue;
        if (sp > sep && o.sh.empty()) continue;
        w.push_back({spell({&o, b}, sp), false, "", ""});
      }
      if (o.good.empty()) w.push_back({{"--" + o.lng + "=1"}, false, "", ""});
      else {
        w.push_back({{"--" + o.lng}, true, "", ""});
        if (!o.sh.empty()) w.push_back({{"-" + o.sh}, true, "", ""});
        if (!o.list) for (int sp = 0; sp < nspell; ++sp) {
          Args a = spell({&o, o.good[0]}, eq), b = spell({&o, o.good[1]}, sp);
          a.insert(a.end(), b.begin(), b.end());
          w.push_back({a, false, "", ""});
        }
      }
      if (!o.env.empty()) {
        if (o.good.empty()) w.push_back({{}, false, o.env, "perhaps"});
        for (auto &b : o.bad) w.push_back({{}, false, o.env, b});
      }
    }
    for (auto &x : w)
      sets(c, 1, [&](const vector<Given> &s) {
        // (an option already at fault is not the bystander)
        bool clash = false;
        for (auto &g : s) {
          for (auto &t : x.a) if (t == "--" + g.o->lng || !t.compare(0, g.o->lng.size() + 3, "--" + g.o->lng + "=") || (!g.o->sh.empty() && !t.compare(0, 2, "-" + g.o->sh))) clash = true;
          if (!x.env.empty() && g.o->env == x.env) clash = true;
          if (x.alone && c.name == "xtag" && c.base.empty() && (g.o->lng == "xtags" || g.o->lng == "get")) clash = true;
          if (x.alone && c.name == "m3u" && g.o->lng == "output") clash = true;
        }
        if (clash || !mc::begin(c.name + c.id + ": " + (x.env.empty() ? text(x.a) : x.env + "=" + x.val) + (x.last ? " (last)" : "") + " with " + text(s))) return;
        for (int pl = 0; pl < nplace; ++pl) for (int order = 0; order < 2; ++order) {
          if (x.last && (order || pl != before)) continue;
          vector<Args> o;
          if (order) o.push_back(x.a);
          for (auto &g : s) o.push_back(spell(g, eq));
          if (!order) o.push_back(x.a);
          Args a = line(c, o, pl);
          Env e;
          if (!x.env.empty()) e.set(x.env, x.val);
          judge(a, run(a));
        }
      });
    // nothing to work on
    sets(c, 2, [&](const vector<Given> &s) {
      if (!mc::begin(c.name + c.id + ": no files with " + text(s))) return;
      Args a{c.name};
      a.insert(a.end(), c.base.begin(), c.base.end());
      for (auto &g : s) for (auto &x : spell(g, eq)) a.push_back(x);
      judge(a, run(a));
    });
  }
}

static void help()
{
  for (auto &c : commands())
    sets(c, 1, [&](const vector<Given> &s) {
      if (!mc::begin(c.name + c.id + ": -h with " + text(s))) return;
      for (int pl = 0; pl < nplace; ++pl) for (int order = 0; order < 2; ++order) {
        vector<Args> o;
        if (order) o.push_back({"-h"});
        for (auto &g : s) o.push_back(spell(g, eq));
        if (!order) o.push_back({"-h"});
        Args a = line(c, o, pl);
        Effect got = run_forked(a);
        MC_CHECK(got.rc == 0 && got.now == start, "\"" << text(a) << "\": " << show(got));
        for (auto &x : c.opts) MC_CHECK(got.out.find("--" + x.lng) != string::npos, "\"" << text(a) << "\" does not mention --" << x.lng);
        mc::trace();
      }
    });
}

// The program as a whole
static void program()
{
  for (auto &c : commands())
    sets(c, 1, [&](const vector<Given> &s) {
      if (!mc::begin(c.name + c.id + ": " + text(s))) return;
      vector<Args> o;
      for (auto &g : s) o.push_back(spell(g, apart));
      Args a = line(c, o, after);
      Effect want = run(a), got = run_forked(a);
      MC_CHECK(got == want, "\"scribbu " << text(a) << "\": " << show(got) << "; the command itself: " << show(want));
      mc::trace();
    });
  vector<Args> wrong;
  for (string w : {"nonesuch", "--nonesuch", "--hepl", "-Z", "-Zx", "TEXT", "tex", "texts", "", "encoding", "-L", "-C", "-x", "-l", "-e", "-c", "-s"}) {
    wrong.push_back({"scribbu", w});
    if (w.size() != 2 || w == "-Z") { wrong.push_back({"scribbu", w, "a.mp3"}); wrong.push_back({"scribbu", w, "text", "--title=x", "a.mp3"}); }
  }
  for (auto &a : wrong) {
    if (!mc::begin(text(a))) continue;
    Effect got = run_forked(a);
    MC_CHECK(got.rc > 0 && got.now == start, "\"" << text(a) << "\": " << show(got));
    MC_CHECK(got.out.empty(), "\"" << text(a) << "\" wrote " << got.out.size() << " characters on standard output: " << got.out.substr(0, 60));
    MC_CHECK(!got.err.empty(), "\"" << text(a) << "\" was refused without a word");
    mc::trace();
  }
  for (Args a : vector<Args>{{"-h"}, {"-h", "text"}, {"-h", "text", "--title=x", "a.mp3"}, {"-v"}, {"--version"}, {"-v", "text", "--title=x", "a.mp3"}, {"-h", "-v"}, {"--version", "-h"}}) {
    if (!mc::begin(text(a))) continue;
    a.insert(a.begin(), "scribbu");
    Effect got = run_forked(a);
    MC_CHECK(got.rc == 0 && got.now == start && got.err.empty(), "\"" << text(a) << "\": " << show(got));
    bool v = false;
    for (auto &x : a) v = v || x == "-v" || x == "--version";
    if (v) MC_CHECK(got.out.compare(0, 8, "scribbu ") == 0, "\"" << text(a) << "\" said " << got.out);
    else for (auto &c : commands()) MC_CHECK(got.out.find("\n    " + c.name + "\n") != string::npos, "\"" << text(a) << "\" does not list " << c.name);
    mc::trace();
  }
}

static void body()
{
  setlocale(LC_ALL, "C.UTF-8");
  setenv("LANGUAGE", "en", 1);
  at = fsx::fresh("d");
  if (chdir(at.c_str())) abort();
  bytes audio = "\xff\xfb\x90\x44";
  for (int i = 0; i < 400; ++i) audio += char(i & 0x7f);
  bytes popm("me\0\x20\0\0\0\5", 8), pcnt("\0\0\0\7", 4);
  vector<Frame> f{mk("TIT2", txt("title")), mk("TPE1", txt("artist")), mk("TALB", txt("album")), mk("TCON", txt("(17)")), mk("COMM", bytes("\0engd\0text", 10)),
    mk("POPM", popm), mk("PCNT", pcnt), mk("XTAG", bytes("\1me\0a\0\0\0\0\2b\0", 12))};
  start["a.mp3"] = encode(tag(3, 40, f)) + encode(tag(3, 0, {mk("TIT2", txt("\xff\xe0zwei"))})) + audio + v1std("one", 3);
  start["b.mp3"] = audio + "b" + v1std("two", 8);
  start["c.mp3"] = encode(tag(4, 20, {mk("TIT2", txt("third")), mk("TPE1", txt("other"))})) + audio + "c";
  start["out"] = start["out2"] = "(directory)";
  start["old.m3u"] = "#EXTM3U\n#EXTINF:1,x - y\nx.mp3\n";
  if (mc::mode == "same") same();
  else if (mc::mode == "env") environment();
  else if (mc::mode == "refused") refused();
  else if (mc::mode == "help") help();
  else if (mc::mode == "program") program();
}

int main(int argc, char **argv) { return mc::run(argc, argv, body); }
