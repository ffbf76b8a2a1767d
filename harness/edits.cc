// The editing commands, run on every bounded layout of tags and compared with a
// model of what they were asked to do.
//
//   c12  text, genre, popm & xtag: what was asked for is done and nothing else
//   c13  play counts and popularimeters: through the library, and by popm
#include "cli.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <boost/optional.hpp>
#include <filesystem>
#include <functional>
#include <iostream>
#include <fstream>

typedef std::string S;
typedef std::uint64_t U;
typedef std::map<S, std::set<S>> Map;
namespace fs = std::filesystem;
#define BL(x) S(x, sizeof(x) - 1)

static const char *const NAMES[] = {
#include "genres.inc"
};

static S idof(int ver, const S &id4)
{
  static const std::map<S, S> M{{"TIT2", "TT2"}, {"TPE1", "TP1"}, {"TALB", "TAL"}, {"COMM", "COM"}, {"PCNT", "CNT"}, {"POPM", "POP"}, {"XTAG", "XTG"},
    {"TCON", "TCO"}, {"TENC", "TEN"}, {"TRCK", "TRK"}, {"TYER", "TYE"}, {"APIC", "PIC"}, {"WXYZ", "WXY"}, {"PRIV", "PRI"}};
  return ver == 2 ? M.at(id4) : id4;
}

// --- texts ---------------------------------------------------------------
static void utf8(S &o, unsigned c)
{
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 0x3f)); }
  else { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 0x3f)); o += char(0x80 | (c & 0x3f)); }
}
static S decoded(int e, const bytes &b)
{
  S o;
  if (e == 0) { for (unsigned char c : b) utf8(o, c); return o; }
  if (e == 3) return b;
  std::size_t i = 0; bool le = false;
  if (e == 1 && b.size() >= 2) { if (S(b, 0, 2) == "\xff\xfe") { le = true; i = 2; } else if (S(b, 0, 2) == "\xfe\xff") i = 2; else le = true; }
  for (; i + 1 < b.size(); i += 2) { unsigned char x = b[i], y = b[i+1]; utf8(o, le ? x | y << 8 : x << 8 | y); }
  return o;
}
static S chomp(S s) { while (s.size() && !s.back()) s.pop_back(); return s; }
static S upto0(const S &s) { return S(s.c_str()); }

// --- numbers -------------------------------------------------------------
static std::size_t width(U n) { std::size_t w = 1; while (n >>= 8) ++w; return w; }
static bytes big(U n, std::size_t w) { bytes b; for (std::size_t i = w; i--; ) b += i < 8 ? char(n >> (8 * i)) : char(0); return b; }
static bool num(const bytes &b, U &n) { n = 0; for (unsigned char c : b) { if (n >> 56) return false; n = n << 8 | c; } return true; }

// --- clouds --------------------------------------------------------------
static bytes stored(const S &own, const Map &m)
{
  bytes b = "\x01" + own + bytes(1, 0);
  for (auto &k : m) { bytes v; for (auto &x : k.second) v += x + bytes(1, 0); b += k.first + bytes(1, 0) + be(v.size(), 4) + v; }
  return b;
}
static S url(const Map &m)
{
  S r;
  for (auto &k : m) { r += (r.empty() ? "" : "&") + k.first; S sep = "="; for (auto &v : k.second) { r += sep + v; sep = ","; } }
  return r;
}

// --- the model of a file -------------------------------------------------
struct Want {
  enum How { exact, text, count, popm, cloud, comment } how = exact;
  Frame f;                // identity, flags; the body if nothing was done to it
  bool fresh = false;     // new
  S s;                    // text, or owner
  U n = 0; int rating = 0; std::size_t was = 0;   // counters, & the bytes there used to be
  Map m;
  S name() const
  {
    switch (how) {
    case exact: return f.name();
    case text: return f.id + "='" + s + "'";
    case count: return f.id + "=" + std::to_string(n);
    case popm: return f.id + "=" + s + ":" + std::to_string(rating) + ":" + std::to_string(n);
    case cloud: return f.id + "=" + s + ":" + url(m);
    default: return f.id + "=comment '" + s + "'";
    }
  }
};
struct MTag { Tag h; std::vector<Want> fr; bool fresh = false; };
struct File {
  std::vector<MTag> tags; bytes audio, v1;
  bool v1fresh = false; S v1t, v1ar, v1al; int v1g = 0;       // a new ID3v1 tag, & what may be in it
  bool v1text = false;                                        // the title, artist & album may have been edited
  std::map<S, S> v1set;
};

static bool counter(const bytes &b, U n, std::size_t was)
{
  U x;
  return num(b, x) && x == n && b.size() >= width(n) && b.size() <= std::max(std::max(width(n), was), std::size_t(4));
}
static bool sat(const Want &w, const Frame &g)
{
  if (w.f.id != g.id) return false;
  if (!w.fresh && (w.f.tap != g.tap || w.f.fap != g.fap || w.f.ro != g.ro || w.f.cmp != g.cmp || w.f.gid != g.gid || w.f.dli != g.dli)) return false;
  switch (w.how) {
  case Want::exact: return w.f.body == g.body;
  case Want::text: return g.body.size() && (unsigned char)g.body[0] < 4 && chomp(decoded(g.body[0], g.body.substr(1))) == w.s;
  case Want::count: return counter(g.body, w.n, w.was);
  case Want::popm: {
    std::size_t p = g.body.find('\0');
    return p != S::npos && g.body.substr(0, p) == w.s && g.body.size() > p + 1 && (unsigned char)g.body[p+1] == w.rating && counter(g.body.substr(p + 2), w.n, w.was);
  }
  case Want::cloud: return g.body == stored(w.s, w.m);
  case Want::comment: {
    if (g.body.size() < 5 || (unsigned char)g.body[0] > 3) return false;
    int e = g.body[0];
    bytes r = g.body.substr(4);
    if (e == 0 || e == 3) { std::size_t p = r.find('\0'); return p != S::npos && chomp(decoded(e, r.substr(p + 1))) == w.s; }
    for (std::size_t i = 0; i + 1 < r.size(); i += 2) if (!r[i] && !r[i+1]) return chomp(decoded(e, r.substr(i + 2))) == w.s;
    return false;
  }
  }
  return false;
}

static S show(const MTag &t) { S s = "2." + std::to_string(t.h.ver) + "["; for (auto &w : t.fr) s += w.name() + " "; return s + "]"; }
static S show(const Tag &t) { S s = "2." + std::to_string(t.ver) + "["; for (auto &w : t.frames) s += w.name() + " "; return s + "]"; }

static S same(const MTag &t, const Decoded &d)
{
  if (t.h.ver != d.tag.ver) return "version";
  if (!t.fresh && (t.h.exp != d.tag.exp || t.h.ext != d.tag.ext || (t.h.ver == 4 && t.h.ext >= 0 && t.h.ext & 4 && t.h.restr != d.tag.restr))) return "header";
  if (!t.fresh && t.h.footer != d.tag.footer && !(t.h.footer && d.tag.pad)) return "footer";
  if (d.has_crc && !d.crc_ok && !(d.unsynced && d.tag.ver == 4)) return "CRC";
  std::vector<Frame> g = d.tag.frames;
  if (g.size() != t.fr.size()) return "number of frames";
  for (auto &w : t.fr) if (w.fresh || t.fresh) {
    std::size_t i = g.size();
    while (i && !sat(w, g[i-1])) --i;
    if (!i) return "no frame like " + w.name();
    g.erase(g.begin() + i - 1);
  }
  std::size_t i = 0;
  for (auto &w : t.fr) if (!w.fresh && !t.fresh) { if (!sat(w, g[i])) return "frame " + w.name() + ", but " + g[i].name(); ++i; }
  return "";
}
// does what is in this file agree?
static S judge(const File &f, const bytes &b)
{
  std::size_t at = 0;
  for (std::size_t i = 0; i < f.tags.size(); ++i) {
    Decoded d = decode(b.substr(at));
    if (!d.error.empty()) return "tag " + std::to_string(i) + " is no longer one (" + d.error + ")";
    S e = same(f.tags[i], d);
    if (!e.empty()) return "tag " + std::to_string(i) + " should be " + show(f.tags[i]) + "\nbut is " + show(d.tag) + " (" + e + ")";
    at += d.total;
  }
  bytes rest = b.substr(at);
  std::size_t n = f.v1fresh ? 128 : f.v1.size();
  if (rest.size() != f.audio.size() + n) return "after the tags there are " + std::to_string(rest.size()) + " bytes, not " + std::to_string(f.audio.size() + n);
  if (rest.substr(0, f.audio.size()) != f.audio) return "the audio has changed";
  bytes v = rest.substr(f.audio.size());
  if (f.v1fresh) {
    auto ok = [&](int off, int len, const S &x) { S got = chomp(v.substr(off, len)); while (got.size() && got.back() == ' ') got.pop_back(); return got.empty() || got == x.substr(0, len); };
    if (v.substr(0, 3) != "TAG" || (unsigned char)v[127] != f.v1g || !ok(3, 30, f.v1t) || !ok(33, 30, f.v1ar) || !ok(63, 30, f.v1al)) return "the ID3v1 tag made is " + mc::hex(v);
    return "";
  }
  if (v == f.v1) return "";
  if (f.v1text) {
    bytes w = f.v1;
    std::size_t o = w.size() - 128;
    static const std::map<S, std::pair<int, int>> at{{"TIT2", {0, 4}}, {"TPE1", {1, 64}}, {"TALB", {2, 124}}};
    bytes masked = v;
    for (auto &x : f.v1set) if (at.count(x.first)) {
      auto p = at.at(x.first);
      if (!o) w.replace(3 + 30 * p.first, 30, fix(x.second, 30));
      else { w.replace(o + 3 + 30 * p.first, 30, bytes(30, '?')); w.replace(p.second, 60, bytes(60, '?')); masked.replace(o + 3 + 30 * p.first, 30, bytes(30, '?')); masked.replace(p.second, 60, bytes(60, '?')); }
    }
    if (w == masked) return "";
  }
  return "the ID3v1 tag is " + mc::hex(v) + "\nnot " + mc::hex(f.v1);
}

// --- commands ------------------------------------------------------------
struct Cmd {
  S cmd;
  std::vector<S> args;
  bool usage = false;                      // to be refused
  bool n = false, b = false, c = false, a = false, f = false, get = false;
  std::vector<std::size_t> t;
  std::map<S, S> set; std::vector<S> del;                                     // text
  bool one = false, two = false, C = false, A = false; S genre; int v1g = 0;   // genre
  bool p = false, m = false; boost::optional<U> count; U inc = 1; boost::optional<int> rating; boost::optional<S> owner;  // popm
  bool merge = false; Map cloud;                                              // xtag
  S name() const { S s = cmd; for (auto &x : args) s += " " + x; return s; }
};

static S v1field(const bytes &v1, int k)      // 0 title, 1 artist, 2 album
{
  static const int off[] = {4, 64, 124};
  bytes b = v1.substr(v1.size() - 128);
  S s = upto0(b.substr(3 + 30 * k, 30));
  if (v1.size() == 355) { S e = upto0(v1.substr(off[k], 60)); if (e.size()) s = e; }
  while (s.size() && s.back() == ' ') s.pop_back();
  return s;
}
static Want wtext(int ver, const S &id4, const S &v) { Want w; w.how = Want::text; w.f.id = idof(ver, id4); w.fresh = true; w.s = v; return w; }
static void settext(MTag &t, const S &id4, const S &v)
{
  S id = idof(t.h.ver, id4);
  for (auto &w : t.fr) if (w.f.id == id) { w.how = Want::text; w.s = v; return; }
  t.fr.push_back(wtext(t.h.ver, id4, v));
}
static S gettext(const MTag &t, const S &id4)
{
  S id = idof(t.h.ver, id4);
  for (auto &w : t.fr) if (w.f.id == id) return w.how == Want::text ? w.s : chomp(decoded(w.f.body[0], w.f.body.substr(1)));
  return "";
}
static MTag fresh(const bytes &v1)
{
  MTag t; t.h.ver = 3; t.fresh = true;
  if (v1.empty()) return t;
  const char *ids[] = {"TIT2", "TPE1", "TALB"};
  for (int k = 0; k < 3; ++k) if (v1field(v1, k).size()) t.fr.push_back(wtext(3, ids[k], v1field(v1, k)));
  bytes b = v1.substr(v1.size() - 128);
  S c = upto0(b.substr(97, b[125] ? 30 : 28));
  if (c.size()) { Want w; w.how = Want::comment; w.f.id = "COMM"; w.s = c; w.fresh = true; t.fr.push_back(w); }
  if ((unsigned char)b[127] < 192) t.fr.push_back(wtext(3, "TCON", NAMES[(unsigned char)b[127]]));
  S y = b.substr(93, 4);
  if (upto0(y).size() == 4) t.fr.push_back(wtext(3, "TYER", y));
  return t;
}

enum Upd { no, may, must, fails };
static void popm_counts(Want &w, U &n) { if (w.how == Want::count || w.how == Want::popm) { n = w.n; return; } std::size_t p = w.f.id[1] == 'O' ? w.f.body.find('\0') + 2 : 0; num(w.f.body.substr(p), n); }

static Upd edit(const Cmd &c, MTag &t, bool create)
{
  int V = t.h.ver;
  Upd u = no;
  if (c.cmd == "text") {
    u = c.set.empty() ? may : must;
    for (auto &d : c.del) {
      S id = idof(V, d);
      for (std::size_t i = 0; i < t.fr.size(); ++i) if (t.fr[i].f.id == id) { t.fr.erase(t.fr.begin() + i); u = must; break; }
    }
    for (auto &s : c.set) settext(t, s.first, s.second);
  } else if (c.cmd == "genre") {
    if (gettext(t, "TCON") == c.genre) return no;
    settext(t, "TCON", c.genre);
    u = must;
  } else if (c.cmd == "popm") {
    U most = 0; bool np = false, nm = false;
    S pc = idof(V, "PCNT"), po = idof(V, "POPM");
    for (auto &w : t.fr) {
      U n = 0;
      if (w.f.id != pc && w.f.id != po) continue;
      popm_counts(w, n);
      bool mine = w.f.id == pc ? !c.m : !c.p;
      S own; int rating = 0; std::size_t was;
      if (w.f.id == po) {
        if (w.how == Want::popm) { own = w.s; rating = w.rating; was = w.was; }
        else { own = upto0(w.f.body); rating = (unsigned char)w.f.body[own.size() + 1]; was = w.f.body.size() - own.size() - 2; }
        if (c.owner && *c.owner != own) mine = false;
      } else was = w.how == Want::count ? w.was : w.f.body.size();
      if (mine) {
        U x = c.count ? *c.count : n + c.inc;
        if (!c.count && x < n) return fails;
        n = x;
        w.n = n; w.was = std::max(was, std::size_t(4));
        if (w.f.id == po) { w.how = Want::popm; w.s = own; w.rating = c.rating ? *c.rating : rating; nm = true; } else { w.how = Want::count; np = true; }
        u = must;
      }
      most = std::max(most, n);
    }
    if (create) {
      U given = c.count ? *c.count : c.inc, n = most ? most : given;
      if (!c.m && !np) { Want w; w.how = Want::count; w.f.id = pc; w.fresh = true; w.n = n; t.fr.push_back(w); u = must; }
      if (!c.p && !nm && c.owner && c.rating) { Want w; w.how = Want::popm; w.f.id = po; w.fresh = true; w.s = *c.owner; w.rating = *c.rating; w.n = n; t.fr.push_back(w); u = must; }
    }
  } else {
    S xt = idof(V, "XTAG"); bool any = false;
    for (auto &w : t.fr) if (w.f.id == xt) {
      if (w.how != Want::cloud) {       // "\1owner\0" { key \0 length values }
        S b = w.f.body.substr(1);
        w.s = upto0(b); b = b.substr(w.s.size() + 1);
        w.m.clear();
        while (b.size()) { S k = upto0(b); b = b.substr(k.size() + 1); std::size_t l = unbe(b.substr(0, 4)); S v = b.substr(4, l); b = b.substr(4 + l); w.m[k]; while (v.size()) { S x = upto0(v); v = v.substr(x.size() + 1); w.m[k].insert(x); } }
        w.how = Want::cloud;
      }
      if (c.owner && c.owner->size() && *c.owner != w.s) continue;
      any = true;
      if (c.get) continue;
      if (!c.merge) w.m = c.cloud; else for (auto &k : c.cloud) w.m[k.first].insert(k.second.begin(), k.second.end());
      u = must;
    }
    if (!any && create && !c.get) { Want w; w.how = Want::cloud; w.f.id = xt; w.fresh = true; w.s = c.owner ? *c.owner : ""; w.m = c.cloud; t.fr.push_back(w); u = must; }
  }
  return u;
}

// what the command is to make of a file
static Upd edit(const Cmd &c, File &f)
{
  Upd u = no;
  auto up = [&](Upd x) { u = std::max(u, x); };
  bool had = !f.tags.empty(), v1 = f.v1.size() || f.v1fresh;
  if (!had) {
    if (!c.get && (c.a || (c.c && v1))) {
      MTag t = fresh(f.v1);
      edit(c, t, true);
      t.fresh = true;
      f.tags.push_back(t);
      up(must);
    }
  } else if (!c.one)
    for (std::size_t i = 0; i < f.tags.size(); ++i)
      if (c.t.empty() || std::find(c.t.begin(), c.t.end(), i) != c.t.end()) up(edit(c, f.tags[i], c.f));
  if (u == fails) return u;
  if (c.cmd == "genre") {
    if (!v1) {
      if (c.A || (c.C && had)) {
        f.v1fresh = true; f.v1g = c.v1g;
        if (had) {
          auto first = [&](const char *id) { for (auto &t : f.tags) { S s = gettext(t, id); if (s.size()) return s; } return S(); };
          f.v1t = first("TIT2"); f.v1ar = first("TPE1"); f.v1al = first("TALB");
        }
        up(must);
      }
    } else if (!c.two) {
      bytes w = f.v1;
      w[w.size() - 1] = char(c.v1g);
      if (w.size() == 355 && c.v1g < 192) w.replace(185, 30, fix(NAMES[c.v1g], 30));
      if (w != f.v1) up(must);
      f.v1 = w;
    }
  }
  if (c.cmd == "text" && c.t.size() && v1) {
    f.v1text = true;
    for (auto &d : c.del) f.v1set[d] = "";
    for (auto &s : c.set) f.v1set[s.first] = s.second;
    if (u == no) up(may);
  }
  return u;
}

// --- running them --------------------------------------------------------
struct Layout { S name; File f; bytes b; };

// an extended tag whose texts fit the plain one: readers differ on how longer ones are split
static std::vector<std::pair<S, bytes>> v1s_()
{
  auto r = v1s();
  for (int i = 4; i < 184; ++i) r[3].second[i] = 0;
  return r;
}
#define v1s v1s_

// The files of a directory, as the model has them, and as they are
typedef std::map<S, Layout> Dir;

// Run a command over some files; what becomes of each of them?
static bool step(Dir &D, const Cmd &c, const std::vector<S> &paths, const std::vector<S> &order)
{
  auto before = dir();
  std::vector<S> args{c.cmd};
  args.insert(args.end(), c.args.begin(), c.args.end());
  args.insert(args.end(), paths.begin(), paths.end());
  Ran r = cli(args);
  mc::transition();
  auto after = dir();
  auto untouched = [&](const char *why) {
    for (auto &x : before) { MC_CHECK(after.count(x.first), why << ", yet " << x.first << " is gone"); MC_CHECK(after[x.first] == x.second, why << ", yet " << x.first << " changed, from\n" << brief(x.second) << "\nto\n" << brief(after[x.first])); }
    for (auto &x : after) MC_CHECK(before.count(x.first), why << ", yet there is now " << x.first);
  };
  if (c.usage) { MC_CHECK(r.rc != 0, c.name() << " is not refused"); untouched("the command is not a proper one"); return true; }
  std::map<S, Upd> what;
  Dir was = D;
  bool failed = false;
  for (auto &p : order) {
    Upd u = edit(c, D[p].f);
    if (u == fails) { D[p] = was[p]; failed = true; break; }
    what[p] = u;
  }
  if (failed) { MC_CHECK(r.rc != 0, "the count overflows, and nothing is said of it"); }
  else MC_CHECK(r.rc == 0, c.name() << " fails: " << r.err.substr(0, 200));
  mc::outcome(failed ? "refused" : c.n ? "dry run" : c.get ? "query" : "run");
  if (c.n || c.get) {
    D = was;
    untouched(c.n ? "a dry run" : "only asked for");
    return true;
  }
  std::set<S> backups;
  for (auto &x : before) {
    MC_CHECK(after.count(x.first), x.first << " is gone");
    Upd u = what.count(x.first) ? what[x.first] : no;
    const bytes &now = after[x.first];
    if (u == no || failed) {
      MC_CHECK(now == x.second, x.first << " is not to be touched, but became\n" << brief(now) << "\nfrom\n" << brief(x.second));
      continue;
    }
    bool changed = now != x.second;
    S e = judge(D[x.first].f, now);
    if (!e.empty() && u == may && !changed) e = "";
    MC_CHECK(e.empty(), x.first << ": " << e);
    // the next command starts from what is there now
    D[x.first].b = now;
    if (u == must || changed) { if (c.b) backups.insert(x.first); }
  }
  std::size_t nb = 0;
  for (auto &x : after) if (!before.count(x.first)) {
    ++nb;
    MC_CHECK(c.b, "there is now " << x.first);
    bool ok = false;
    for (auto &q : what) if (x.first.compare(0, q.first.size() + 1, q.first + ".") == 0) { ok = q.second != no; MC_CHECK(x.second == before[q.first], x.first << " is not what " << q.first << " was"); }
    MC_CHECK(ok, "there is now " << x.first);
  }
  if (c.b) MC_CHECK(nb >= backups.size(), "there are " << nb << " backups of " << backups.size() << " files");
  return true;
}

// --- building blocks -----------------------------------------------------
static MTag mtag(const Tag &t) { MTag m; m.h = t; for (auto &f : t.frames) { Want w; w.f = f; m.fr.push_back(w); } return m; }
static Layout lay(const std::vector<std::pair<S, Tag>> &ts, const std::pair<S, bytes> &a, const std::pair<S, bytes> &v, bool un = false)
{
  Layout l;
  l.name = "[";
  for (auto &t : ts) { l.name += (l.name.size() > 1 ? "," : "") + t.first; l.f.tags.push_back(mtag(t.second)); l.b += encode(t.second, un); }
  l.name += un ? "]! " : "] "; l.name += a.first + " " + v.first;
  l.f.audio = a.second; l.f.v1 = v.second;
  l.b += a.second + v.second;
  return l;
}
static Frame fr(int ver, const char *id, const bytes &b) { return mk(idof(ver, id), b); }
static std::vector<Frame> many(int v)
{
  std::vector<Frame> r{fr(v, "TIT2", txt("old title")), fr(v, "TCON", txt("Rock")), fr(v, "WXYZ", "xyz"), fr(v, "PCNT", BL("\0\0\0\x03")), fr(v, "POPM", BL("me@x\0\x80\0\0\0\5")),
    fr(v, "POPM", BL("u@x\0\x20\0\0\1\0")), fr(v, "XTAG", stored("own", {{"k", {"a", "b"}}, {"z", {}}})), fr(v, "APIC", BL("\0image/x\0\0\0\xff\xe0\xff\0\xff"))};
  if (v == 2) r.back().body = BL("\0PNG\0\0\xff\xe0\xff\0\xff");
  return r;
}
static std::vector<std::pair<S, Tag>> pieces()
{
  std::vector<std::pair<S, Tag>> r;
  for (int v : {2, 3, 4}) {
    S n = std::to_string(v);
    r.push_back({"m" + n, tag(v, 40, many(v))});
    r.push_back({"p" + n, tag(v, 0, {fr(v, "TPE1", txt("someone"))})});
  }
  r.push_back({"e3", tag(3, 12, {})});
  auto flags = [](Frame f, bool cmp, int gid) { f.cmp = cmp; f.gid = gid; f.fap = true; f.dli = cmp && f.id == "POPM"; return f; };
  Tag x = tag(3, 300, {flags(fr(3, "TIT2", txt("old old old old old old")), true, 0x81), flags(fr(3, "TCON", txt("Jazz")), false, 0x80), flags(fr(3, "PCNT", BL("\xff\xff\xff\xff")), true, -1), fr(3, "XTAG", stored("me@x", {{"k", {"v"}}}))});
  x.ext = 1;
  r.push_back({"x3", x});
  Tag y = tag(4, 0, {flags(fr(4, "TALB", txt("album")), false, 0x82), flags(fr(4, "POPM", BL("me@x\0\xff\0\0\xff\xff")), true, -1), fr(4, "XTAG", stored("own", {}))}, true);
  y.ext = 4; y.restr = 0x20;
  r.push_back({"y4", y});
  return r;
}
static Tag piece(const S &n) { for (auto &p : pieces()) if (p.first == n) return p.second; abort(); }

static std::vector<Layout> layouts(bool small)
{
  std::vector<Layout> r;
  auto P = pieces(); auto V = v1s();
  std::vector<std::pair<S, bytes>> A;
  for (auto &a : audios()) if (a.first == "frames" || (!small && (a.first == "none" || a.first == "TAG-129"))) A.push_back(a);
  std::vector<std::vector<std::pair<S, Tag>>> sets{{}};
  for (auto &p : P) if (!small || p.first == "m2" || p.first == "p3" || p.first == "m4" || p.first == "x3") sets.push_back({p});
  std::vector<S> few = small ? std::vector<S>{"m3"} : std::vector<S>{"m3", "p2", "x3", "y4"};
  for (auto &i : few) for (auto &j : few) { if (small || i != j) sets.push_back({{i, piece(i)}, {j, piece(j)}}); }
  if (!small) for (auto &i : {"m3", "p4"}) for (auto &j : {"m2", "p3"}) for (auto &k : {"p2", "m4"}) sets.push_back({{i, piece(i)}, {j, piece(j)}, {k, piece(k)}});
  for (auto &s : sets) for (auto &a : A) for (auto &v : V) {
    if (small && v.first == "v1.1") continue;
    r.push_back(lay(s, a, v));
    if (!small && s.size() == 1 && s[0].first[0] == 'm' && a.first == "frames") r.push_back(lay(s, a, v, true));
  }
  return r;
}

// commands, with the options common to all of them
static void common(std::vector<Cmd> &out, const Cmd &c, int how)
{
  struct O { std::vector<S> a; std::function<void(Cmd&)> f; };
  bool dry = c.cmd != "text";
  S always = c.cmd == "text" ? "-C" : c.cmd == "xtag" ? "-A" : "-a";
  std::vector<O> T{{{}, [](Cmd&) {}}, {{"-t", "0"}, [](Cmd &c) { c.t = {0}; }}, {{"-t", "1"}, [](Cmd &c) { c.t = {1}; }}, {{"--tag=2"}, [](Cmd &c) { c.t = {2}; }},
    {{"-t", "1", "-t", "0"}, [](Cmd &c) { c.t = {1, 0}; }}, {{"-t", "0", "-t", "2"}, [](Cmd &c) { c.t = {0, 2}; }}, {{"-t", "7"}, [](Cmd &c) { c.t = {7}; }}, {{"-t", "0", "-t", "0"}, [](Cmd &c) { c.t = {0, 0}; }}};
  std::vector<O> K{{{}, [](Cmd&) {}}, {{"-c"}, [](Cmd &c) { c.c = true; }}, {{always}, [](Cmd &c) { c.a = true; }}};
  std::vector<O> W{{{}, [](Cmd&) {}}, {{"-b"}, [](Cmd &c) { c.b = true; }}, {{"-u"}, [](Cmd&) {}}, {{"-u", "-b"}, [](Cmd &c) { c.b = true; }}};
  if (dry) { W.push_back({{"-n"}, [](Cmd &c) { c.n = true; }}); W.push_back({{"--dry-run", "-b", "-u"}, [](Cmd &c) { c.n = true; c.b = true; }}); }
  int ti = 0;
  for (auto &t : T) { int ki = 0; for (auto &k : K) { int wi = 0; for (auto &w : W) {
    bool take = how == 2 ? (ti < 5) : how == 1 ? ((ti == 0) + (ki == 0) + (wi == 0) >= 2 || (ti == 2 && ki == 2) || (ti == 1 && wi == 1)) : (ti == 0 && ki == 0 && wi == 0);
    if (take) {
      Cmd x = c;
      for (auto *o : {&t, &k, &w}) { x.args.insert(x.args.end(), o->a.begin(), o->a.end()); o->f(x); }
      out.push_back(x);
    }
    ++wi; } ++ki; } ++ti; }
}
static Cmd cmd(const S &c, std::vector<S> a, std::function<void(Cmd&)> f = [](Cmd&) {}) { Cmd x; x.cmd = c; x.args = a; f(x); return x; }

static std::vector<Cmd> commands(bool core)
{
  std::vector<Cmd> r;
  int lo = core ? 0 : 1, hi = core ? 0 : 2;
  // text
  common(r, cmd("text", {"--title=new"}, [](Cmd &c) { c.set["TIT2"] = "new"; }), hi);
  common(r, cmd("text", {"-d", "TIT2"}, [](Cmd &c) { c.del = {"TIT2"}; }), lo);
  if (!core) {
    common(r, cmd("text", {"-A", "artist the new", "-a", "an album", "-e", "me", "-k", "3/7", "-y", "1977", "-g", "Jazz"}, [](Cmd &c) { c.set = {{"TPE1", "artist the new"}, {"TALB", "an album"}, {"TENC", "me"}, {"TRCK", "3/7"}, {"TYER", "1977"}, {"TCON", "Jazz"}}; }), lo);
    common(r, cmd("text", {"-E", "UTF-8", "-T", "\xc3\xa9t\xc3\xa9 \xe2\x82\xac"}, [](Cmd &c) { c.set["TIT2"] = "\xc3\xa9t\xc3\xa9 \xe2\x82\xac"; }), 0);
    common(r, cmd("text", {"-d", "TIT2", "--delete=TCON", "-A", "x"}, [](Cmd &c) { c.del = {"TIT2", "TCON"}; c.set["TPE1"] = "x"; }), lo);
    common(r, cmd("text", {"-d", "artist", "-T", S(400, 'T')}, [](Cmd &c) { c.del = {"TPE1"}; c.set["TIT2"] = S(400, 'T'); }), lo);
    common(r, cmd("text", {"-d", "TIT2", "-T", "again"}, [](Cmd &c) { c.del = {"TIT2"}; c.set["TIT2"] = "again"; }), 0);
    r.push_back(cmd("text", {"-c", "-C", "-T", "x"}, [](Cmd &c) { c.usage = true; }));
    r.push_back(cmd("text", {"-d", "WXYZ"}, [](Cmd &c) { c.usage = true; }));
    r.push_back(cmd("text", {"-t", "x", "-T", "x"}, [](Cmd &c) { c.usage = true; }));
  }
  // genre
  auto g = [](int v1, const S &t) { return [=](Cmd &c) { c.genre = t; c.v1g = v1; }; };
  common(r, cmd("genre", {"-w", "8"}, g(8, "Jazz")), hi);
  common(r, cmd("genre", {"-G", "my own", "--v1", "9"}, g(9, "my own")), lo);
  if (!core) {
    common(r, cmd("genre", {"-g", "rok"}, g(17, "Rock")), lo);
    common(r, cmd("genre", {"-G", "Blues"}, g(0, "Blues")), lo);
    common(r, cmd("genre", {"-G", "x", "-v", "255"}, [](Cmd &c) { c.genre = "x"; c.v1g = -1; }), 0);   // the ID3v1 genre is then the best match
    r.pop_back();
    for (auto *o : {"-C", "-A"}) for (auto *k : {"", "-c", "-a"}) for (auto *w : {"", "-b", "-n"}) {
      std::vector<S> a{"--winamp=12", o}; if (*k) a.push_back(k); if (*w) a.push_back(w);
      r.push_back(cmd("genre", a, [&](Cmd &c) { c.genre = "Other"; c.v1g = 12; c.C = o[1] == 'C'; c.A = o[1] == 'A'; c.c = k[0] && k[1] == 'c'; c.a = k[0] && k[1] == 'a'; c.b = w[0] && w[1] == 'b'; c.n = w[0] && w[1] == 'n'; }));
    }
    for (auto *w : {"", "-b", "-n", "-u"}) {
      auto ww = [=](Cmd &c) { c.b = w[0] && w[1] == 'b'; c.n = w[0] && w[1] == 'n'; };
      std::vector<S> x; if (*w) x.push_back(w);
      auto with = [&](std::vector<S> a) { a.insert(a.end(), x.begin(), x.end()); return a; };
      r.push_back(cmd("genre", with({"-w", "191", "-1"}), [&](Cmd &c) { c.genre = NAMES[191]; c.v1g = 191; c.one = true; ww(c); }));
      r.push_back(cmd("genre", with({"-w", "0", "-2"}), [&](Cmd &c) { c.genre = NAMES[0]; c.v1g = 0; c.two = true; ww(c); }));
      r.push_back(cmd("genre", with({"-w", "5", "--v2-only", "-t", "1"}), [&](Cmd &c) { c.genre = NAMES[5]; c.v1g = 5; c.two = true; c.t = {1}; ww(c); }));
      r.push_back(cmd("genre", with({"-w", "5", "--v1-only", "-A"}), [&](Cmd &c) { c.genre = NAMES[5]; c.v1g = 5; c.one = true; c.A = true; ww(c); }));
      r.push_back(cmd("genre", with({"-w", "5", "--v2-only", "-a"}), [&](Cmd &c) { c.genre = NAMES[5]; c.v1g = 5; c.two = true; c.a = true; ww(c); }));
    }
    for (auto &a : std::vector<std::vector<S>>{{"-w", "192"}, {"-w", "-1"}, {}, {"-w", "1", "-g", "x"}, {"-g", "x", "-G", "y"}, {"-w", "1", "-1", "-2"}, {"-w", "1", "-1", "-t", "0"}, {"-w", "1", "-a", "-c"}, {"-w", "1", "-A", "-C"}, {"-G", "x", "--v1", "256"}})
      r.push_back(cmd("genre", a, [](Cmd &c) { c.usage = true; }));
  }
  // popm
  common(r, cmd("popm", {}), hi);
  common(r, cmd("popm", {"-C", "300", "-f", "-o", "me@x", "-r", "***"}, [](Cmd &c) { c.count = 300; c.f = true; c.owner = S("me@x"); c.rating = 128; }), lo);
  if (!core) {
    common(r, cmd("popm", {"-p", "-f"}, [](Cmd &c) { c.p = c.f = true; }), lo);
    common(r, cmd("popm", {"-m", "-o", "u@x", "--rating=7"}, [](Cmd &c) { c.m = true; c.owner = S("u@x"); c.rating = 7; }), lo);
    common(r, cmd("popm", {"--increment=5", "--owner=new@y", "-r", "#####", "--create-frame"}, [](Cmd &c) { c.inc = 5; c.owner = S("new@y"); c.rating = 255; c.f = true; }), lo);
    common(r, cmd("popm", {"-v", "-p", "--count=0"}, [](Cmd &c) { c.p = true; c.count = 0; }), 0);
    for (auto &a : std::vector<std::vector<S>>{{"-p", "-m"}, {"-C", "1", "-i", "1"}, {"-a", "-c"}, {"-r", "256"}, {"-r", "******"}, {"-r", ""}, {"-C", "x"}, {"-i"}}) r.push_back(cmd("popm", a, [](Cmd &c) { c.usage = true; }));
  }
  // xtag
  Map m1{{"k", {"c"}}, {"n", {"x", "y"}}};
  common(r, cmd("xtag", {"-T", "k=c&n=x,y"}, [&](Cmd &c) { c.cloud = m1; }), hi);
  common(r, cmd("xtag", {"--xtags=k=c&n=x,y", "-m", "-f"}, [&](Cmd &c) { c.cloud = m1; c.merge = c.f = true; }), lo);
  if (!core) {
    common(r, cmd("xtag", {"-T", "new", "-f", "-o", "own"}, [&](Cmd &c) { c.cloud = {{"new", {}}}; c.f = true; c.owner = S("own"); }), lo);
    common(r, cmd("xtag", {"-T", "k=c", "-m", "-o", "nobody"}, [&](Cmd &c) { c.cloud = {{"k", {"c"}}}; c.merge = true; c.owner = S("nobody"); }), lo);
    common(r, cmd("xtag", {"-T", "k=c", "--merge", "--create-frame", "--owner=third"}, [&](Cmd &c) { c.cloud = {{"k", {"c"}}}; c.merge = c.f = true; c.owner = S("third"); }), 0);
    for (auto &a : std::vector<std::vector<S>>{{"-g"}, {"--get", "-o", "own"}, {"-g", "-b", "-A"}, {"-g", "-T", "x=y", "-m", "-f"}, {"-g", "-u", "-c"}}) r.push_back(cmd("xtag", a, [&](Cmd &c) { c.get = true; }));
    r.push_back(cmd("xtag", {"-g", "-t", "1"}, [&](Cmd &c) { c.get = true; c.t = {1}; }));
    for (auto &a : std::vector<std::vector<S>>{{}, {"-f"}, {"-T", "x", "-A", "-c"}}) r.push_back(cmd("xtag", a, [](Cmd &c) { c.usage = true; }));
  }
  return r;
}

static void one(const Layout &l, const std::vector<const Cmd*> &cs)
{
  if (!mc::begin([&] { S s = l.name; for (auto *c : cs) s += " | " + c->name(); return s; })) return;
  wipe();
  spew("x.mp3", l.b);
  spew("y.mp3", l.b);       // not named: not to be touched
  fs::create_directory("x");
  spew("x/x.mp3", "x");
  Dir D; D["x.mp3"] = l;
  mc::trace();
  for (auto *c : cs) { step(D, *c, {"x.mp3"}, {"x.mp3"}); mc::state_hash(mc::hash(slurp("x.mp3"))); }
}

static void c12()
{
  auto L = layouts(false), l = layouts(true);
  auto C = commands(false), c = commands(true);
  for (auto &x : L) for (auto &k : C) one(x, {&k});
  // two in a row
  for (auto &x : mc::quick ? l : L) for (auto &k : c) for (auto &k2 : c) one(x, {&k, &k2});
  if (!mc::quick) for (auto &x : l) for (auto &k : C) for (auto &k2 : c) one(x, {&k, &k2});
  // trees of files
  auto none = v1s()[0];
  auto V = v1s();
  bytes music = audios()[0].second;
  std::vector<std::pair<S, Layout>> files{
    {"t/a.mp3", lay({{"m3", piece("m3")}}, audios()[0], V[1])}, {"t/b.mp3", lay({}, audios()[0], V[2])}, {"t/empty", lay({}, {"none", ""}, none)}, {"t/notes.txt", lay({}, {"text", "some notes\n"}, none)},
    {"t/u/c.mp3", lay({{"m2", piece("m2")}, {"p4", piece("p4")}}, audios()[0], none)}, {"t/u/v/d.mp3", lay({{"y4", piece("y4")}}, audios()[0], V[3])}, {"o.mp3", lay({{"m4", piece("m4")}}, audios()[0], V[1])}};
  struct A { S name; std::vector<S> args; std::vector<S> reach; };
  std::vector<A> args{
    {"tree", {"t"}, {"t/a.mp3", "t/b.mp3", "t/empty", "t/notes.txt", "t/u/c.mp3", "t/u/v/d.mp3"}},
    {"subtree", {"t/u"}, {"t/u/c.mp3", "t/u/v/d.mp3"}},
    {"files", {"t/b.mp3", "o.mp3"}, {"t/b.mp3", "o.mp3"}},
    {"both", {"t/u/v", "o.mp3", "t/empty"}, {"t/u/v/d.mp3", "o.mp3", "t/empty"}},
  };
  for (auto &k : C) for (auto &a : args) {
    if (!mc::begin([&] { return "files " + a.name + " | " + k.name(); })) continue;
    wipe();
    fs::create_directories("t/u/v");
    fs::create_symlink("o.mp3", "link");
    Dir D;
    for (auto &f : files) { spew(f.first, f.second.b); D[f.first] = f.second; }
    mc::trace();
    step(D, k, a.args, a.reach);
    for (auto &f : files) mc::state_hash(mc::hash(slurp(f.first)));
  }
}

// --- counters ------------------------------------------------------------
static std::vector<U> numbers()
{
  std::vector<U> r{0, 1, 2, 9, 0x7f, 0x80};
  for (int k = 8; k < 64; k += 8) for (int d = -1; d < 2; ++d) r.push_back((U(1) << k) + d);
  for (U x : {U(0x7fffffff), U(0x80000000), ~U(0) - 1, ~U(0), ~U(0) >> 1, (U(1) << 63)}) r.push_back(x);
  return r;
}
static bytes body(const id3v2_frame &f, std::size_t hdr) { std::ostringstream os; f.write(os, false); return os.str().substr(hdr); }
static std::size_t size(const id3v2_frame &f) { return f.size(); }

struct CntOp { S name; int kind; U n; };     // 0 count, 1 inc, 2 rating, 3 owner

template <int V, class Cnt, class Pop> static void library(Cnt (*mkc)(U), Pop (*mkp)(const S&, unsigned char, U), std::size_t hdr)
{
  auto N = numbers();
  std::vector<CntOp> ops;
  for (U n : N) ops.push_back({"count(" + std::to_string(n) + ")", 0, n});
  ops.push_back({"inc", 1, 0});
  for (int r : {0, 1, 128, 255}) ops.push_back({"rating(" + std::to_string(r) + ")", 2, (U)r});
  S v = "2." + std::to_string(V);
  int depth = mc::quick ? 2 : 3;
  // a frame made, or read: with its counter in w bytes
  for (int pop = 0; pop < 2; ++pop) for (int w = -1; w <= 9; ++w) for (U n0 : N) {
    if (w == 0 && (!pop || n0)) continue;
    if (w >= 0 && w < 8 && (std::size_t)w < width(n0) && !(w == 0)) continue;
    for (S own : {S("me@x"), S("")}) for (int rating : {0, 200}) {
      if (!pop && (rating || own.empty())) continue;
      std::function<void(std::vector<const CntOp*>)> go = [&](std::vector<const CntOp*> h) {
        bool mine = mc::begin([&] { S s = v + (pop ? " POPM(" + own + "," + std::to_string(rating) + ",": S(" PCNT(")) + std::to_string(n0) + ") " + (w < 0 ? "made" : "in " + std::to_string(w) + " bytes"); for (auto *o : h) s += " " + o->name; return s; });
        if (mine) {
          mc::trace();
          U n = n0; int r = rating; std::size_t was = w < 0 ? 4 : w;
          auto check = [&](auto &f, bool p, bool touched, const bytes &orig) {
            bytes b = body(f, hdr);
            MC_CHECK(f.count() == n, "the count is " << f.count() << ", not " << n);
            MC_CHECK(size(f) == b.size(), "the frame's size is " << size(f) << ", and " << b.size() << " are written");
            if (!touched) { MC_CHECK(orig.empty() || b == orig, "read from " << mc::hex(orig) << ", written as " << mc::hex(b)); }
            if (p) { MC_CHECK(b.substr(0, own.size() + 1) == own + bytes(1, 0), "the owner is written as " << mc::hex(b)); MC_CHECK((unsigned char)b[own.size() + 1] == r, "the rating is written as " << mc::hex(b)); b = b.substr(own.size() + 2); }
            MC_CHECK((!n && b.empty() && w == 0) || counter(b, n, was), n << " is written as " << mc::hex(b));
            mc::state_hash(mc::hash(b + char(r) + own));
          };
          auto run = [&](auto &f, bool p, const bytes &orig, auto &&rate) {
            bool t = w < 0;
            check(f, p, t, orig);
            for (auto *o : h) {
              mc::transition();
              if (o->kind == 0) { f.count(o->n); n = o->n; t = true; }
              else if (o->kind == 1) {
                bool threw = false;
                try { f.inc(); } catch (const std::exception &) { threw = true; }
                MC_CHECK(threw == (n == ~U(0)), (threw ? "cannot count on from " : "counted on from ") << n);
                if (!threw) ++n;
                t = true;
              } else { rate(f, o->n); r = o->n; t = true; }
              check(f, p, t, orig);
            }
          };
          bytes raw = w < 0 ? bytes() : pop ? own + bytes(1, 0) + char(rating) + big(n0, w) : big(n0, w);
          if (w > 8 && big(n0, w).size() > 8) was = w;
          Frame fm = mk(idof(V, pop ? "POPM" : "PCNT"), raw);
          if (w < 0) {
            if (pop) { Pop f = mkp(own, rating, n0); run(f, true, raw, [](Pop &f, U x) { f.rating((unsigned char)x); }); }
            else { Cnt f = mkc(n0); run(f, false, raw, [](Cnt&, U) {}); }
          } else {
            auto t = id3::read(encode(tag(V, 0, {fm})));
            auto fs = id3::frames(*t);
            MC_CHECK(fs.size() == 1, "the tag does not read");
            if (pop) {
              Pop f = dynamic_cast<const Pop&>(*fs[0]);
              if (w > 8) { try { MC_CHECK(f.count() == n0, "the count is " << f.count() << ", not " << n0); } catch (const std::exception &) { return; } }
              MC_CHECK(f.template email<S>() == own && f.rating() == rating, "read as " << f.template email<S>() << "," << (int)f.rating());
              run(f, true, raw, [](Pop &f, U x) { f.rating((unsigned char)x); });
            } else {
              Cnt f = dynamic_cast<const Cnt&>(*fs[0]);
              if (w > 8) { try { MC_CHECK(f.count() == n0, "the count is " << f.count() << ", not " << n0); } catch (const std::exception &) { return; } }
              else { MC_CHECK(t->has_play_count() && t->play_count() == n0, "the tag's play count is " << t->play_count() << ", not " << n0); }
              run(f, false, raw, [](Cnt&, U) {});
            }
          }
        }
        if ((int)h.size() == depth) return;
        if (h.size() && (w > 5 || rating || own.empty()) && mc::quick) return;
        for (auto &o : ops) { if (!pop && o.kind == 2) continue; auto k = h; k.push_back(&o); go(k); }
      };
      go({});
    }
  }
}

static void c13_library()
{
  typedef id3v2_3_plus_frame P;
  library<2, CNT, POP>([](U n) { return CNT(n); }, [](const S &e, unsigned char r, U n) { return POP(e, r, n); }, 6);
  library<3, PCNT, POPM>(
    [](U n) { return PCNT(n, P::tag_alter_preservation::preserve, P::file_alter_preservation::preserve, P::read_only::clear, boost::none, boost::none, boost::none); },
    [](const S &e, unsigned char r, U n) { return POPM(e, r, n, P::tag_alter_preservation::preserve, P::file_alter_preservation::preserve, P::read_only::clear, boost::none, boost::none, boost::none); }, 10);
  library<4, PCNT_2_4, POPM_2_4>(
    [](U n) { return PCNT_2_4(n, P::tag_alter_preservation::preserve, P::file_alter_preservation::preserve, P::read_only::clear, boost::none, boost::none, false, false, boost::none); },
    [](const S &e, unsigned char r, U n) { return POPM_2_4(e, r, n, P::tag_alter_preservation::preserve, P::file_alter_preservation::preserve, P::read_only::clear, boost::none, boost::none, false, false, boost::none); }, 10);
}

static void c13_command()
{
  auto N = numbers();
  std::vector<S> vals;
  std::vector<Cmd> C;
  // numbers & ratings in every form
  std::vector<std::pair<std::vector<S>, std::function<void(Cmd&)>>> counts{{{}, [](Cmd&) {}}}, few;
  for (U n : N) {
    S s = std::to_string(n);
    counts.push_back({{"-C", s}, [n](Cmd &c) { c.count = n; }});
    counts.push_back({{"-i", s}, [n](Cmd &c) { c.inc = n; }});
  }
  few = {counts[0], {{"-C", "0"}, [](Cmd &c) { c.count = 0; }}, {{"--count=256"}, [](Cmd &c) { c.count = 256; }}, {{"-i", "0"}, [](Cmd &c) { c.inc = 0; }}, {{"--increment=300"}, [](Cmd &c) { c.inc = 300; }}};
  std::vector<std::pair<S, int>> ratings{{"", -1}, {"0", 0}, {"1", 1}, {"255", 255}, {"128", 128}, {"*", 1}, {"##", 64}, {"xxx", 128}, {"@@@@", 196}, {"+++++", 255}};
  struct O { std::vector<S> a; std::function<void(Cmd&)> f; };
  std::vector<O> which{{{}, [](Cmd&) {}}, {{"-p"}, [](Cmd &c) { c.p = true; }}, {{"-m"}, [](Cmd &c) { c.m = true; }}};
  std::vector<O> make{{{}, [](Cmd&) {}}, {{"-f"}, [](Cmd &c) { c.f = true; }}, {{"-a"}, [](Cmd &c) { c.a = true; }}};
  auto put = [&](std::vector<Cmd> &to, const O &w, const O &m, const S &own, const std::pair<S, int> &rt, const std::pair<std::vector<S>, std::function<void(Cmd&)>> &n) {
    Cmd c; c.cmd = "popm";
    for (auto *a : {&w.a, &m.a, &n.first}) c.args.insert(c.args.end(), a->begin(), a->end());
    w.f(c); m.f(c); n.second(c);
    if (own.size()) { c.args.push_back("-o"); c.args.push_back(own); c.owner = own; }
    if (rt.second >= 0) { c.args.push_back("-r"); c.args.push_back(rt.first); c.rating = rt.second; }
    to.push_back(c);
  };
  std::vector<Cmd> wide, deep;
  for (auto &w : which) for (auto &m : make) for (S own : {"", "me@x", "u@x", "new@z"}) for (auto &rt : ratings) for (auto &n : few) {
    if (rt.first.size() > 1 && rt.first != "255" && &n != &few[0]) continue;
    put(wide, w, m, own, rt, n);
  }
  for (auto &w : which) for (auto &m : make) for (S own : {"", "me@x"}) for (auto &n : counts) put(deep, w, m, own, ratings[0], n);
  auto V = v1s();
  auto A = audios()[0];
  for (int v : {2, 3, 4}) {
    auto pc = [&](U n, int w = 4) { return fr(v, "PCNT", big(n, std::max((int)width(n), w))); };
    auto po = [&](const S &own, int r, U n, int w = 4) { return fr(v, "POPM", own + bytes(1, 0) + char(r) + big(n, w ? std::max((int)width(n), w) : 0)); };
    Frame t = fr(v, "TIT2", txt("t"));
    std::vector<std::pair<S, Tag>> T{
      {"none", tag(v, 50, {t})}, {"pc", tag(v, 0, {pc(5), t})}, {"me", tag(v, 7, {t, po("me@x", 100, 6)})}, {"u", tag(v, 7, {po("u@x", 3, 70000)})}, {"pc+me", tag(v, 9, {pc(5), po("me@x", 0, 900)})},
      {"me+pc", tag(v, 9, {po("me@x", 0, 2), pc(255)})}, {"me+u", tag(v, 0, {po("me@x", 9, 2), t, po("u@x", 255, 3)})}, {"two", tag(v, 0, {pc(1), pc(2), po("me@x", 1, 1), po("me@x", 2, 2), t})},
      {"bare", tag(v, 0, {po("me@x", 1, 0, 0), pc(0)})}, {"wide", tag(v, 0, {pc(300, 6), po("me@x", 1, 300, 8)})}, {"ff", tag(v, 0, {pc(0xffffffff), po("me@x", 255, 0xffffffff)})}};
    for (auto &x : T) { Layout l = lay({{std::to_string(v) + x.first, x.second}}, A, V[0]); for (auto &c : wide) one(l, {&c}); }
    for (U n : N) { Layout l = lay({{std::to_string(v) + "n" + std::to_string(n), tag(v, 3, {pc(n), t, po("me@x", 77, n)})}}, A, V[1]); for (auto &c : deep) { if (mc::quick && c.a) continue; one(l, {&c}); } }
    // counting on and on
    std::vector<const Cmd*> seq;
    for (U n : {U(0xfe), U(0xfffe), U(0xfffffffe), ~U(0) - 1}) {
      Layout l = lay({{std::to_string(v) + "n" + std::to_string(n), tag(v, 3, {pc(n), po("me@x", 77, n)})}}, A, V[1]);
      for (auto &c : wide) if (!c.a && !c.rating) one(l, {&c, &c, &c});
    }
  }
  for (auto &v : V) { Layout l = lay({}, A, v); for (auto &c : wide) one(l, {&c}); Layout e = lay({}, {"none", ""}, v); for (auto &c : deep) one(e, {&c}); }
  Cmd bad; bad.cmd = "popm"; bad.usage = true;
  Layout l = lay({{"m3", piece("m3")}}, A, V[0]);
  for (auto &r : {"256", "-1", "1.5", "******", "*1", "18446744073709551617", " "}) { bad.args = {"-f", "-o", "q", "-r", r}; one(l, {&bad}); }
  for (auto &r : {"18446744073709551616", "x", "1x", "", "0x10"}) for (auto &o : {"-C", "-i"}) { bad.args = {o, r}; one(l, {&bad}); }
}

static void go()
{
  scribbu::static_initialize();
  setenv("LC_ALL", "C.UTF-8", 1);
  setenv("LANGUAGE", "en", 1);         // comments are said to be in the language of the locale
  S d = mc::mode + "-" + std::to_string(mc::shard);
  fs::create_directories(d);
  fs::current_path(d);
  if (mc::mode == "c12") c12(); else if (mc::mode == "c13l") c13_library(); else c13_command();
}
int main(int argc, char **argv) { return mc::run(argc, argv, go); }
