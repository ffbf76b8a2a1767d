// Templates for names, and the command that renames by them.
//
//   c14t  templates: what they expand to, for every file
//   c14g  templates, good and ill-formed, as strings
//   c14r  the rename command in every arrangement of existing files
#include "cli.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/id3v2-utils.hh>
#include <boost/optional.hpp>
#include <openssl/evp.h>
#include <sys/resource.h>
#include <csignal>
#include <filesystem>
#include <algorithm>
#include <iostream>
#include <set>

typedef std::string S;
namespace fs = std::filesystem;
typedef boost::optional<S> O;

static S md5(const S &b)
{
  unsigned char d[16]; unsigned n = 0;
  EVP_Digest(b.data(), b.size(), d, &n, EVP_md5(), 0);
  return S((const char*)d, 16);
}

// --- texts -------------------------------------------------------------------
static void put(S &o, unsigned c)
{
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 0x3f)); }
  else { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 0x3f)); o += char(0x80 | (c & 0x3f)); }
}
static bool ascii(const S &s) { return std::all_of(s.begin(), s.end(), [](unsigned char c) { return c < 0x80; }); }
// code points of (our) UTF-8, which goes no further than three bytes
static bool points(const S &s, std::vector<unsigned> &v)
{
  for (std::size_t i = 0; i < s.size(); ) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : -1;
    if (n < 0 || i + n >= s.size()) return false;
    unsigned p = n == 0 ? c : n == 1 ? c & 0x1f : c & 0x0f;
    for (int j = 1; j <= n; ++j) { unsigned char d = s[i + j]; if ((d & 0xc0) != 0x80) return false; p = p << 6 | (d & 0x3f); }
    v.push_back(p); i += n + 1;
  }
  return true;
}
static unsigned cp1252(unsigned char c) { return c == 0x93 ? 0x201c : c == 0x94 ? 0x201d : c; }
// what the bytes of an ID3v1 field may be taken to say; none: not judged
static std::set<S> v1text(const S &b, const S &e)
{
  S o; std::vector<unsigned> v;
  S lat, cp;
  for (unsigned char c : b) { put(lat, c); put(cp, cp1252(c)); }
  if (e == "iso-8859-1") return {lat};
  if (e == "cp1252") return {cp};
  if (e == "ascii") return ascii(b) ? std::set<S>{b} : std::set<S>{};
  if (e == "utf-8") return !points(b, v) ? std::set<S>{} : b.compare(0, 3, "\xef\xbb\xbf") ? std::set<S>{b} : std::set<S>{b, b.substr(3)};
  if (e == "utf-16-be" || e == "utf-16-le") {
    if (b.size() % 2 || b.compare(0, 2, "\xff\xfe") == 0 || b.compare(0, 2, "\xfe\xff") == 0) return {};
    for (std::size_t i = 0; i < b.size(); i += 2) {
      unsigned char x = b[i], y = b[i+1]; unsigned p = e == "utf-16-be" ? x << 8 | y : y << 8 | x;
      if (p >= 0xd800 && p < 0xe000) return {};
      put(o, p);
    }
    return {o};
  }
  if (e == "utf-32") return {};
  if (b.compare(0, 3, "\xef\xbb\xbf") == 0) { if (points(b, v)) return {b, b.substr(3)}; return {}; }
  if (b.compare(0, 2, "\xff\xfe") == 0 || b.compare(0, 2, "\xfe\xff") == 0) {
    bool be = b[0] == '\xfe';
    if (b.size() % 2) return {};
    for (std::size_t i = 2; i < b.size(); i += 2) { unsigned char x = b[i], y = b[i+1]; put(o, be ? x << 8 | y : y << 8 | x); }
    return {o, "\xef\xbb\xbf" + o};
  }
  if (ascii(b)) return {b};
  std::set<S> r{lat, cp};
  if (points(b, v)) r.insert(b);
  return r;
}
// in the encoding asked for; none: cannot be
static O encoded(const S &s, const S &e)
{
  if (e == "utf-8") return s;
  std::vector<unsigned> v;
  if (!points(s, v)) return boost::none;
  S o;
  for (unsigned p : v) {
    if (p < 0x80) o += char(p);
    else if (e == "ascii") return boost::none;
    else if (e == "cp1252" && (p == 0x201c || p == 0x201d)) o += p == 0x201c ? '\x93' : '\x94';
    else if (p < 0x100 && (e == "iso-8859-1" || p >= 0xa0)) o += char(p);
    else return boost::none;
  }
  return o;
}

// --- files -------------------------------------------------------------------
struct File {
  S name, bytes, audio;
  std::map<S, O> v2, v1;      // by replacement; none if there is no such tag or frame
  bool has1 = false;
};
static const char *const FIELDS[] = {"album", "artist", "content-type", "title"};
static S frame_for(int ver, const S &f)
{
  static const std::map<S, std::pair<S, S>> M{{"album", {"TAL", "TALB"}}, {"artist", {"TP1", "TPE1"}}, {"content-type", {"TCO", "TCON"}}, {"title", {"TT2", "TIT2"}},
    {"year", {"TYE", "TYER"}}, {"encoded-by", {"TEN", "TENC"}}};
  auto &p = M.at(f); return ver == 2 ? p.first : p.second;
}
// UTF-8 text as a frame says it
static S body(int ver, const S &s)
{
  if (ascii(s)) return S(1, 0) + s;
  if (ver == 4) return S(1, 3) + s;
  std::vector<unsigned> v; points(s, v);
  S o = S(1, 1) + "\xff\xfe";
  for (unsigned p : v) { o += char(p & 255); o += char(p >> 8); }
  return o;
}
// ver 0: no ID3v2 tag
static File file(const S &name, int ver, const std::map<S, S> &t2, bool one, std::map<S, S> t1, const S &audio = "no audio, really")
{
  File f; f.name = name; f.audio = audio;
  if (ver) {
    std::vector<Frame> fr;
    for (auto &x : t2) { fr.push_back(mk(frame_for(ver, x.first), body(ver, x.second))); f.v2[x.first] = x.second; }
    f.bytes = encode(tag(ver, 7, fr));
  }
  f.bytes += audio;
  if (one) {
    f.has1 = true;
    f.bytes += "TAG" + fix(t1["title"], 30) + fix(t1["artist"], 30) + fix(t1["album"], 30) + fix(t1["year"], 4) + fix("c", 30) + (t1.count("content-type") ? char(17) : char(255));
    if (t1.count("content-type")) t1["content-type"] = "Rock";
    for (auto &x : t1) if (x.second.size()) f.v1[x.first] = x.second;
  }
  return f;
}

// --- templates ---------------------------------------------------------------
struct Term {
  enum Kind { lit, rep, sub } kind = lit;
  S text;                     // literal, or the name of the replacement
  std::vector<std::pair<S, S>> opts;
  std::vector<Term> in;
};
typedef std::vector<Term> Templ;

// The texts a template may stand for; `missing' if the file does not have what it takes
struct Value { std::set<S> may; bool missing = false, any = false; };

static S the(const S &s, const S &how)
{
  auto low = [](S x) { for (auto &c : x) c = c >= 'A' && c <= 'Z' ? c + 32 : c; return x; };
  std::size_t n = s.size();
  if (how == "prefix" && n >= 5 && low(s.substr(n - 5)) == ", the") return "The " + s.substr(0, n - 5);
  if (how == "suffix" && n >= 5 && low(s.substr(0, 4)) == "the ") return s.substr(4) + ", The";
  return s;
}
static S cap(S s, const S &how)
{
  auto up = [](char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; };
  if (how == "capitalize" && s.size()) s[0] = up(s[0]);
  if (how == "all-upper") for (auto &c : s) c = up(c);
  if (how == "all-lower") for (auto &c : s) c = c >= 'A' && c <= 'Z' ? c + 32 : c;
  return s;
}
static S white(const S &s, bool compress, const S &ws)
{
  if (!compress && ws.empty()) return s;
  S o; bool in = false;
  for (char c : s) { bool w = c == ' ' || c == '\t'; if (w && !in) o += ws.empty() ? " " : ws; if (!w) o += c; in = w; }
  return o;
}
static Value value(const Templ &t, const File &f);
static Value value(const Term &t, const File &f)
{
  Value r;
  if (t.kind == Term::lit) { r.may = {t.text}; return r; }
  if (t.kind == Term::sub) {
    r = value(t.in, f);
    if (r.missing) { r.missing = false; r.may = {""}; }
    return r;
  }
  std::map<S, S> o(t.opts.begin(), t.opts.end());
  auto get = [&](const S &k, const S &d) { return o.count(k) ? o[k] : d; };
  bool compress = o.count("compress"); S ws = get("ws", "");
  const S &n = t.text;
  if (n == "basename" || n == "extension") {
    std::size_t dot = f.name.rfind('.');
    if (dot == S::npos || dot == 0) dot = f.name.size();
    S s = n == "basename" ? f.name.substr(0, dot) : f.name.substr(dot);
    r.may = {white(cap(the(s, get("the", "")), get("cap", "")), compress, ws)};
    return r;
  }
  if (n == "size" || n == "md5") {
    S hexs, u; std::ostringstream d, h;
    bool upper = get("hex-case", "L") == "U";
    if (n == "size") {
      d << f.bytes.size(); h << std::hex << (upper ? std::uppercase : std::nouppercase) << f.bytes.size();
      r.may = {get("base", "decimal") == "hex" ? h.str() : d.str()};
    } else {
      S m = md5(f.audio);
      if (get("base", "decimal") != "hex") { r.any = true; return r; }     // digits, but the manual does not say which
      for (unsigned char c : m) { char b[3]; snprintf(b, 3, upper ? "%02X" : "%02x", c); hexs += b; }
      r.may = {hexs};
    }
    return r;
  }
  auto two = [&](const std::map<S, O> &m) { auto p = m.find(n); return p == m.end() || !p->second || p->second->empty() ? O() : p->second; };
  O a = two(f.v2), b = n == "encoded-by" ? O() : two(f.v1);
  S src = n == "encoded-by" ? "v2-only" : get("source", "prefer-v2");
  std::set<S> text;
  if (get("v1-encoding", "") == "utf-32" && f.has1 && src != "v2-only" && !(src == "prefer-v2" && a)) { r.any = true; return r; }    // blanks are not UTF-32
  bool first2 = src == "prefer-v2" || src == "v2-only", only = src == "v1-only" || src == "v2-only";
  if (first2 ? bool(a) : only ? false : !b && a) text = {*a};
  else if (b && src != "v2-only") {
    text = v1text(*b, get("v1-encoding", "auto"));
    if (text.empty()) { r.any = true; return r; }
  }
  else { r.missing = true; return r; }
  if (n == "year") {
    for (auto &s : text) if (s.size() != 4) { r.any = true; return r; } else r.may.insert(o.count("yy") ? s.substr(2) : s);
    return r;
  }
  for (auto &s : text) {
    O e = encoded(white(cap(the(s, get("the", "suffix")), get("cap", "capitalize")), compress, ws), get("output", "utf-8"));
    if (!e) { r.any = true; return r; }
    r.may.insert(*e);
  }
  return r;
}
static Value value(const Templ &t, const File &f)
{
  Value r; r.may = {""};
  for (auto &x : t) {
    Value v = value(x, f);
    if (v.missing) { v.any = v.any || r.any; return v; }
    if (v.any) { r.any = true; continue; }
    std::set<S> n;
    for (auto &p : r.may) for (auto &q : v.may) n.insert(p + q);
    r.may = n;
  }
  return r;
}

// what the real thing makes of it
struct Got { S text; enum { ok, missing, other } how = ok; S what; };
static Got expand(const scribbu::template_processor &P, const S &path)
{
  Got g;
  try { g.text = P(path); }
  catch (const scribbu::tbt_support::missing_source_text &e) { g.how = Got::missing; g.what = e.what(); }
  catch (const std::exception &e) { g.how = Got::other; g.what = e.what(); }
  mc::transition();
  return g;
}
static void judge(const Got &g, const Value &v)
{
  if (v.any) { if (v.missing) MC_CHECK(g.how != Got::ok, "expanded to " << mc::hex(g.text) << ", though something is missing"); mc::outcome("not judged"); return; }
  if (v.missing) { MC_CHECK(g.how == Got::missing, "something is missing, but it expanded to '" << g.text << "' " << g.what); mc::outcome("missing"); return; }
  MC_CHECK(g.how == Got::ok, "does not expand: " << g.what << "; should be '" << *v.may.begin() << "'");
  MC_CHECK(v.may.count(g.text), "expands to '" << g.text << "' (" << mc::hex(g.text) << "), not '" << *v.may.begin() << "' (" << mc::hex(*v.may.begin()) << ")");
  mc::outcome("expanded");
}

static void put(const File &f) { spew(f.name, f.bytes); }
static S shown(const S &s)
{
  S o;
  for (unsigned char c : s) if (c < 0x20 || c >= 0x7f || c == '\'') { char b[5]; snprintf(b, 5, "\\x%02x", c); o += b; } else o += c;
  return o;
}

static void one(const S &templ, const Templ &t, const File &f)
{
  put(f);
  try { scribbu::template_processor P(templ); judge(expand(P, f.name), value(t, f)); }
  catch (const scribbu::tbt_support::error &e) { mc::fail(S("not accepted as a template: ") + e.what()); }
  mc::trace();
}

struct Opt { S kind, arg, text; };
static const std::vector<std::vector<Opt>> KINDS{
  {{"source", "prefer-v2", "prefer-v2"}, {"source", "prefer-v1", "prefer-v1"}, {"source", "v2-only", "v2-only"}, {"source", "v1-only", "v1-only"}},
  {{"v1-encoding", "auto", "v1-encoding=auto"}, {"v1-encoding", "iso-8859-1", "v1-encoding=iso-8859-1"}, {"v1-encoding", "ascii", "v1-encoding=ascii"},
   {"v1-encoding", "cp1252", "v1-encoding=cp1252"}, {"v1-encoding", "utf-8", "v1-encoding=utf-8"}, {"v1-encoding", "utf-16-be", "v1-encoding=utf-16-be"},
   {"v1-encoding", "utf-16-le", "v1-encoding=utf-16-le"}, {"v1-encoding", "utf-32", "v1-encoding=utf-32"}},
  {{"the", "suffix", "the"}, {"the", "suffix", "the=suffix"}, {"the", "prefix", "the=prefix"}},
  {{"cap", "capitalize", "capitalization"}, {"cap", "all-upper", "capitalization=all-upper"}, {"cap", "all-lower", "capitalization=all-lower"}, {"cap", "capitalize", "capitalization=capitalize"},
   {"cap", "all-upper", "cap=all-upper"}, {"cap", "all-lower", "cap=all-lower"}},
  {{"compress", "", "compress"}, {"ws", "_", "ws=_"}, {"ws", "- -", "ws=- -"}, {"ws", "%)", "ws=\\%\\)"}},
  {{"output", "utf-8", "output=utf-8"}, {"output", "ascii", "output=ascii"}, {"output", "cp1252", "output=cp1252"}, {"output", "iso-8859-1", "output=iso-8859-1"}}};

static std::pair<S, Term> replacement(const S &name, const std::vector<Opt> &os)
{
  Term t; t.kind = Term::rep; t.text = name == "genre" ? "content-type" : name == "file-basename" ? "basename" : name == "file-extension" ? "extension" : name;
  S s = "%(" + name; char sep = ':';
  for (auto &o : os) { s += sep + o.text; sep = '&'; t.opts.push_back({o.kind, o.arg}); }
  return {s + ")", t};
}
// all choices of at most one option of each kind from `from' on
static void options(const std::vector<std::size_t> &kinds, std::size_t i, std::vector<Opt> &cur, const std::function<void(const std::vector<Opt>&)> &fn)
{
  if (i == kinds.size()) { fn(cur); return; }
  options(kinds, i + 1, cur, fn);
  for (auto &o : KINDS[kinds[i]]) { cur.push_back(o); options(kinds, i + 1, cur, fn); cur.pop_back(); }
}

static void c14t()
{
  const std::vector<S> T2{"The Pogues", "the x", "ab, the", "a  b\t c", "The", "y, The", " lead", "The\ty", "\xc3\xa9l\xc3\xa8ve", "\xe2\x80\x9cq\xe2\x80\x9d", "x", "THE  Z, The", "z"};
  const std::vector<S> T1{"The One", "one  two", "\xe9t\xe9", "\xc3\xa9", "\x93q\x94", "\x4e\x2d\x65\x67", "\xef\xbb\xbfq", "\xff\xfe\x2d\x4e", "\xfe\xff\x4e\x2d", "123456789012345678901234567890", "x"};
  std::vector<Opt> cur;
  auto go = [&](const S &what, const std::pair<S, Term> &r, const File &f) {
    if (mc::begin([&] { return "'" + shown(r.first) + "' on " + what; })) one(r.first, {r.second}, f);
  };
  // where text comes from
  for (S field : FIELDS)
    for (int ver : {0, 2, 3, 4})
      for (int i = -2; i < int(T2.size()); ++i) {
        if (!ver && i != -2) continue;
        for (int j = -2; j < int(T1.size()); ++j) {
          std::map<S, S> t2, t1;
          if (i >= 0) t2[field] = T2[i]; else if (i == -1) t2[field] = "";
          for (S g : FIELDS) if (g != field) { t2[g] = "other " + g; t1[g] = "other one " + g; }
          if (j >= 0) t1[field] = field == "content-type" ? "" : T1[j];
          if (j > 0 && field == "content-type") continue;
          File f = file("x.mp3", ver, t2, j != -2, t1);
          S what = "v2." + mc::str(ver) + " " + (i >= 0 ? "'" + shown(T2[i]) + "'" : i == -1 ? "empty" : "absent") + ", v1 " + (j >= 0 ? "'" + shown(T1[j]) + "'" : j == -1 ? "blank" : "none");
          options({0, 1}, 0, cur, [&](const std::vector<Opt> &os) { go(what, replacement(field, os), f); });
          if (field == "content-type") options({0}, 0, cur, [&](const std::vector<Opt> &os) { go(what, replacement("genre", os), f); });
        }
      }
  // what becomes of it
  for (S field : FIELDS)
    for (int ver : {2, 3, 4}) for (auto &s : T2) {
      if (mc::quick && ver != 3 && field != "artist") continue;
      File f = file("x.mp3", ver, {{field, s}}, false, {});
      options({2, 3, 4, 5}, 0, cur, [&](const std::vector<Opt> &os) { go("v2." + mc::str(ver) + " '" + shown(s) + "'", replacement(field, os), f); });
    }
  // from ID3v1, too
  for (S field : FIELDS) for (auto &s : T1) {
    if (field == "content-type") continue;
    File f = file("x.mp3", 0, {}, true, {{field, s}});
    options({1, 2, 3, 4, 5}, 0, cur, [&](const std::vector<Opt> &os) {
      if (mc::quick && os.size() > 3) return;
      go("v1 '" + shown(s) + "'", replacement(field, os), f); });
  }
  // any order of options
  {
    File f = file("x.mp3", 3, {{"artist", "the  \xc3\xa9t\xc3\xa9 b"}}, true, {{"artist", "The  \xe9t\xe9  c"}});
    for (std::size_t n = 2; n <= (mc::quick ? 3u : 4u); ++n) {
      std::vector<int> ks;
      std::function<void()> rec = [&] {
        if (ks.size() == n) {
          std::vector<Opt> os;
          std::function<void(std::size_t)> ch = [&](std::size_t i) {
            if (i == n) { go("both tags", replacement("artist", os), f); return; }
            for (auto &o : KINDS[ks[i]]) { os.push_back(o); ch(i + 1); os.pop_back(); }
          };
          ch(0); return;
        }
        for (int k = 0; k < int(KINDS.size()); ++k) if (std::find(ks.begin(), ks.end(), k) == ks.end()) { ks.push_back(k); rec(); ks.pop_back(); }
      };
      rec();
    }
  }
  // names of files
  for (S name : {"x.mp3", "The  y z.MP3", "noext", "a.b.mp3", ".mp3", "ab, the.the a", "q .  w", "the x", "trail."}) {
    File f = file(name, 3, {}, false, {});
    for (S field : {"basename", "extension", "file-basename", "file-extension"})
      options({2, 3, 4}, 0, cur, [&](const std::vector<Opt> &os) { go("'" + name + "'", replacement(field, os), f); });
  }
  // sizes and digests
  for (std::size_t n = 0; n < (mc::quick ? 64u : 400u); ++n) {
    S a; for (std::size_t i = 0; i < n; ++i) a += char('a' + (i * 7 + n) % 26);
    File f = file("x.mp3", 3, {{"title", "t"}}, n % 2, {{"title", "t"}}, a);
    std::vector<std::vector<Opt>> all{{}};
    for (S b : {"decimal", "hex"}) all.push_back({{"base", b, "base=" + b}});
    for (S c : {"U", "L"}) all.push_back({{"hex-case", c, "hex-case=" + c}});
    for (S b : {"decimal", "hex"}) for (S c : {"U", "L"}) {
      all.push_back({{"base", b, "base=" + b}, {"hex-case", c, "hex-case=" + c}});
      all.push_back({{"hex-case", c, "hex-case=" + c}, {"base", b, "base=" + b}});
    }
    for (auto &os : all) for (S field : {"size", "md5"}) {
      auto r = replacement(field, os);
      if (!mc::begin([&] { return "'" + r.first + "' of " + mc::str(n) + " bytes"; })) continue;
      one(r.first, {r.second}, f);
      if (field == "md5") {
        scribbu::template_processor P(r.first);
        Got g = expand(P, f.name);
        MC_CHECK(g.how == Got::ok && g.text.size() && g.text.find_first_not_of("0123456789abcdefABCDEF") == S::npos, "the checksum '" << shown(g.text) << "' is not a number");
      }
    }
  }
  // years
  for (int ver : {0, 2, 3, 4}) for (S y2 : {"", "1999", "2004", "7", "20"}) for (S y1 : {"-", "", "1987", "12", "3"}) for (S o : {"", "yy", "yyyy"}) {
    std::map<S, S> t2, t1; if (y2.size()) t2["year"] = y2; if (y1 != "-") t1["year"] = y1;
    if (!ver && y2.size()) continue;
    File f = file("x.mp3", ver, t2, y1 != "-", t1);
    std::vector<Opt> os; if (o.size()) os.push_back({o, "", o});
    go("v2." + mc::str(ver) + " year '" + y2 + "', v1 '" + y1 + "'", replacement("year", os), f);
    if (o.empty()) { Term t; t.kind = Term::rep; t.text = "year"; go("v2." + mc::str(ver) + " year '" + y2 + "', v1 '" + y1 + "'", {"%Y", t}, f); }
  }
  // sequences
  auto L = [](const S &s) { Term t; t.text = s; return t; };
  auto R = [](const S &n) { Term t; t.kind = Term::rep; t.text = n; return t; };
  auto B = [](const Templ &v) { Term t; t.kind = Term::sub; t.in = v; return t; };
  std::vector<std::pair<S, Term>> E{
    {"%A", R("artist")}, {"%T", R("title")}, {"%L", R("album")}, {"%G", R("content-type")}, {"%e", R("encoded-by")}, {"%Y", R("year")}, {"%b", R("basename")}, {"%E", R("extension")}, {"%S", R("size")},
    {"%(artist)", R("artist")}, {"%(encoded-by)", R("encoded-by")}, {"x - y", L("x - y")}, {"\\%A", L("%A")}, {"\\(\\)\\?\\:\\&\\=\\\\", L("()?:&=\\")}, {"artist", L("artist")}, {"the", L("the")},
    {"(%L - )?", B({R("album"), L(" - ")})}, {"(%T(%A)?)?", B({R("title"), B({R("artist")})})}, {"(q)?", B({L("q")})}};
  std::vector<std::pair<S, File>> F{
    {"full", file("The a.mp3", 3, {{"artist", "The B"}, {"title", "tt"}, {"album", "al"}, {"content-type", "gen"}, {"encoded-by", "the enc"}, {"year", "1999"}}, false, {})},
    {"bare", file("b", 0, {}, false, {})},
    {"artist", file("c.mp3", 4, {{"artist", "art"}}, false, {})},
    {"one", file("d.mp3", 0, {}, true, {{"artist", "ones"}, {"title", "the one"}, {"content-type", ""}, {"year", "1987"}})},
    {"both", file("e.mp3", 2, {{"title", "two"}, {"encoded-by", "me"}}, true, {{"artist", "ones"}, {"title", "one"}, {"album", "oa"}})}};
  for (auto &f : F) put(f.second);
  const std::size_t depth = mc::quick ? 3 : 4;
  S s; Templ t;
  std::function<void(std::size_t)> seq = [&](std::size_t d) {
    if (d) {
      if (mc::begin([&] { return "'" + s + "' on all"; })) {
        try {
          scribbu::template_processor P(s);
          for (auto &f : F) judge(expand(P, f.second.name), value(t, f.second));
          // and again, other way round: nothing is remembered
          for (auto p = F.rbegin(); p != F.rend(); ++p) judge(expand(P, p->second.name), value(t, p->second));
        } catch (const scribbu::tbt_support::error &e) { mc::fail(S("not accepted as a template: ") + e.what()); }
        mc::trace();
        if (mc::state(s)) mc::sample("'" + s + "' on 5 files, twice");
      }
    }
    if (d == depth) return;
    for (auto &e : E) {
      S s0 = s; s += e.first; t.push_back(e.second);
      // "%b" followed by the rest of a longer word is that word
      bool word = false;
      for (S w : {"%base", "%encoded-by", "%extension"}) word = word || s.find(w) != S::npos;
      if (!word) seq(d + 1);
      s = s0; t.pop_back();
    }
  };
  seq(0);
  S dig; { Term m = R("md5"); scribbu::template_processor P("%5"), Q("%(md5)"); if (mc::begin("%5 is %(md5)")) for (auto &f : F) { Got a = expand(P, f.second.name), b = expand(Q, f.second.name); MC_CHECK(a.how == Got::ok && b.how == Got::ok && a.text == b.text, "they differ"); } }
}

// --- templates as strings ----------------------------------------------------
// A recogniser of our own. Yes, no, or the manual does not say.
struct Parser {
  const S &s; std::size_t i = 0; bool vague = false;
  explicit Parser(const S &t): s(t) { }
  static bool special(char c) { return S("?%:&)(=\\").find(c) != S::npos; }
  bool at(const S &w) const { return s.compare(i, w.size(), w) == 0; }
  bool eat(const S &w) { if (!at(w)) return false; i += w.size(); return true; }
  bool run(S &out)
  {
    std::size_t was = i;
    for (; i < s.size(); ++i) {
      if (s[i] == '\\') { if (i + 1 < s.size() && special(s[i+1])) out += s[++i]; else { vague = true; return false; } }
      else if (special(s[i])) break;
      else out += s[i];
    }
    return i != was;
  }
  bool terms(Templ &t, bool inner)
  {
    while (i < s.size() && !(inner && s[i] == ')')) {
      Term x;
      if (s[i] == '(') {
        ++i; x.kind = Term::sub;
        if (!terms(x.in, true) || x.in.empty() || !eat(")") || !eat("?")) return false;
      }
      else if (s[i] == '%') { if (!repl(x)) return false; }
      else if (!run(x.text)) return false;
      t.push_back(x);
    }
    return true;
  }
  bool repl(Term &x)
  {
    x.kind = Term::rep;
    ++i;
    for (S w : {"base", "encoded-by", "extension"}) if (at(w)) { vague = true; return false; }
    static const std::map<char, S> A{{'L', "album"}, {'A', "artist"}, {'b', "basename"}, {'G', "content-type"}, {'e', "encoded-by"}, {'E', "extension"}, {'5', "md5"}, {'S', "size"}, {'T', "title"}, {'Y', "year"}};
    if (i < s.size() && A.count(s[i])) { x.text = A.at(s[i++]); return true; }
    if (!eat("(")) return false;
    static const std::vector<std::pair<S, S>> N{{"album", "album"}, {"artist", "artist"}, {"file-basename", "basename"}, {"basename", "basename"}, {"content-type", "content-type"}, {"genre", "content-type"},
      {"encoded-by", "encoded-by"}, {"file-extension", "extension"}, {"extension", "extension"}, {"md5", "md5"}, {"size", "size"}, {"title", "title"}, {"year", "year"}};
    for (auto &n : N) if (eat(n.first)) { x.text = n.second; break; }
    if (x.text.empty()) return false;
    if (eat(")")) return true;
    if (!eat(":")) return false;
    std::set<S> kinds;
    bool odd = false;         // documented of all replacements, but not to be had for this one
    do {
      S k, v;
      if (!opt(x.text, k, v, odd)) return false;
      S kind = k == "compress" ? "ws" : k == "yyyy" ? "yy" : k;
      if (!kinds.insert(kind).second) { if (kind == "ws") vague = true; return false; }
      x.opts.push_back({k, v});
    } while (eat("&"));
    if (at("compress") || at("ws")) { vague = true; return false; }
    if (!eat(")")) return false;
    if (odd) { vague = true; return false; }
    if (x.text == "year" && x.opts.size() > 1) return false;
    return true;
  }
  bool opt(const S &name, S &k, S &v, bool &odd)
  {
    bool aacet = name == "album" || name == "artist" || name == "content-type" || name == "title", tagged = aacet || name == "encoded-by" || name == "year", file = name == "basename" || name == "extension";
    if (name == "size" || name == "md5") {
      if (eat("base=")) { k = "base"; return param(v) && (v == "decimal" || v == "hex"); }
      if (eat("hex-case=")) { k = "hex-case"; return param(v) && (v == "U" || v == "L"); }
      return false;
    }
    if (name == "year") for (S w : {"yyyy", "yy"}) if (eat(w)) { k = w; return true; }
    if (tagged) {
      for (S w : {"prefer-v1", "prefer-v2", "v1-only", "v2-only"}) if (eat(w)) { k = "source"; v = w; odd = odd || !aacet; return true; }
      if (eat("v1-encoding=")) {
        k = "v1-encoding"; odd = odd || !aacet;
        static const std::set<S> E{"auto", "iso-8859-1", "ascii", "cp1252", "utf-8", "utf-16-be", "utf-16-le", "utf-32"};
        return param(v) && E.count(v);
      }
      if (eat("output=")) {
        k = "output"; odd = odd || !aacet;
        static const std::set<S> E{"iso-8859-1", "ascii", "cp1252", "utf-8"};
        return param(v) && E.count(v);
      }
    }
    if (tagged || file) {
      if (tagged && !aacet) odd = true;
      if (eat("the")) { k = "the"; if (!eat("=")) { v = "suffix"; return true; } return param(v) && (v == "suffix" || v == "prefix"); }
      if (eat("capitalization") || eat("cap")) { k = "cap"; if (!eat("=")) { v = "capitalize"; return true; } return param(v) && (v == "all-upper" || v == "all-lower" || v == "capitalize"); }
      if (eat("compress")) { k = "compress"; return true; }
      if (eat("ws=")) {
        k = "ws";
        if (!param(v)) return false;
        static const std::set<S> W{"ascii", "auto", "all-lower", "all-upper", "capitalize", "cp1252", "decimal", "hex", "hex-case", "iso-8859-1", "L", "U", "prefix", "suffix", "utf-8", "utf-16-be", "utf-16-le", "utf-32", "v1-only", "v2-only", "yy", "yyyy"};
        if (W.count(v)) { vague = true; return false; }
        return true;
      }
    }
    return false;
  }
  bool param(S &v) { return run(v); }
};

static void c14g()
{
  File f = file("The f.mp3", 3, {{"artist", "the  ab"}, {"title", "tt"}, {"year", "1999"}}, true, {{"artist", "one, the"}, {"album", "al"}});
  File g = file("g.mp3", 4, {{"title", "tt"}}, false, {});
  put(f); put(g);
  auto try_ = [&](const S &s) {
    if (!mc::begin([&] { return "'" + shown(s) + "'"; })) return;
    Parser p(s); Templ t;
    bool good = s.size() && p.terms(t, false) && p.i == s.size();
    bool vague = p.vague || s.empty();
    bool accepted = false;
    try {
      scribbu::template_processor P(s); accepted = true;
      mc::transition();
      if (!vague) {
        MC_CHECK(good, "an ill-formed template is accepted");
        if (good) for (auto *x : {&f, &g}) judge(expand(P, x->name), value(t, *x));
      }
    }
    catch (const scribbu::tbt_support::error &e) { mc::transition(); mc::outcome(S("refused: ") + e.what()); }
    catch (const std::exception &e) { mc::fail(S("fails with ") + e.what()); }
    MC_CHECK(vague || !good || accepted, "a good template is refused");
    // what comes after is not affected
    for (S next : {"%A", "x(%L)?"}) {
      Templ u; Parser q(next); q.terms(u, false);
      try { scribbu::template_processor P(next); judge(expand(P, f.name), value(u, f)); }
      catch (const scribbu::tbt_support::error &e) { mc::fail("after it, " + next + " is refused"); }
    }
    mc::trace(); mc::state(s);
  };
  const std::vector<S> A{"x", "\\%", "%", "(", ")", "?", ":", "&", "=", "A", "artist", "year", "the", "yy", "ws", "suffix", "\n", "\\"};
  const std::vector<S> A2{"compress", "v1-only", "size", "hex-case", "base", "hex", "U", "basename", "title", "capitalization", "\\)"};
  // every short string of tokens
  std::size_t depth = mc::quick ? 4 : 5;
  S s;
  std::function<void(std::size_t)> rec = [&](std::size_t d) {
    try_(s);
    if (d == depth) return;
    for (auto &a : A) { std::size_t n = s.size(); s += a; rec(d + 1); s.resize(n); }
  };
  rec(0);
  // every template near a good one
  typedef std::vector<S> V;
  const std::vector<V> good{
    {"%", "(", "artist", ")"}, {"%", "(", "artist", ":", "the", ")"}, {"%", "(", "artist", ":", "the", "=", "suffix", ")"}, {"%", "(", "artist", ":", "v1-only", "&", "the", "=", "prefix", ")", "x"},
    {"%", "(", "year", ":", "yy", ")"}, {"%", "(", "size", ":", "base", "=", "hex", "&", "hex-case", "=", "U", ")"}, {"%", "(", "title", ":", "ws", "=", "_", ")", "%", "A"},
    {"(", "x", "%", "A", ")", "?"}, {"(", "%", "L", "(", "x", ")", "?", ")", "?", "\\%"}, {"%", "(", "basename", ":", "capitalization", "=", "all-upper", "&", "compress", ")"},
    {"%", "(", "title", ":", "output", "=", "ascii", "&", "v1-encoding", "=", "utf-8", ")"}, {"%", "A", " - ", "%", "T", ".mp3"}, {"%", "(", "md5", ":", "hex-case", "=", "L", ")"}};
  V all = A; all.insert(all.end(), A2.begin(), A2.end());
  auto join = [](const V &v) { S r; for (auto &x : v) r += x; return r; };
  std::function<void(const V&, int)> edit = [&](const V &v, int n) {
    try_(join(v));
    if (!n) return;
    for (std::size_t i = 0; i <= v.size(); ++i) {
      if (i < v.size()) {
        V w = v; w.erase(w.begin() + i); edit(w, n - 1);
        for (auto &a : all) { V x = v; x[i] = a; edit(x, n - 1); }
      }
      for (auto &a : all) { V w = v; w.insert(w.begin() + i, a); edit(w, n - 1); }
    }
  };
  for (std::size_t i = 0; i < good.size(); ++i) edit(good[i], mc::quick && good[i].size() > 8 ? 1 : mc::quick && i > 7 ? 1 : 2);
}

// --- rename ------------------------------------------------------------------
typedef std::map<S, S> Dir;
struct Job { S src, dst; bool ok; };     // not ok: cannot be given a name

// every directory that may result; with whether all went well
static std::vector<std::pair<Dir, bool>> results(const Dir &was, std::vector<Job> jobs, bool ordered, bool rename, bool spelled)
{
  std::vector<std::pair<Dir, bool>> r;
  std::sort(jobs.begin(), jobs.end(), [&](const Job &a, const Job &b) { return !ordered && a.src < b.src; });
  do {
    for (int how = 0; how < (spelled ? 4 : 2); ++how) {
      bool stop = how & 1;
      Dir d = was; bool fine = true;
      for (auto &j : jobs) {
        if (!j.ok || !d.count(j.src) || (j.src == j.dst && !(how & 2))) continue;
        if (d.count(j.dst)) { fine = false; if (stop) break; continue; }
        d[j.dst] = d[j.src];
        if (rename) d.erase(j.src);
      }
      r.push_back({d, fine});
    }
  } while (!ordered && std::next_permutation(jobs.begin(), jobs.end(), [](const Job &a, const Job &b) { return a.src < b.src; }));
  return r;
}
static Dir files(const S &p) { Dir d = dir(p); for (auto i = d.begin(); i != d.end(); ) if (i->second == "(directory)") i = d.erase(i); else ++i; return d; }
static S listing(const Dir &d) { S r; for (auto &x : d) r += (r.size() ? ", " : "") + x.first + "(" + mc::str(x.second.size()) + ")"; return r; }

static void c14r()
{
  struct Src { S path; S artist, title; };
  const std::vector<std::vector<Src>> SETS{
    {{"a.mp3", "Ar", "T"}}, {{"a.mp3", "The Ar", "T"}, {"b.mp3", "Ar", "U"}}, {{"a.mp3", "Ar", "T"}, {"b.mp3", "Ar", "T"}}, {{"a.mp3", "", "T"}, {"b.mp3", "Ar", "U"}},
    {{"b.mp3", "Ar", "U"}, {"a.mp3", "", ""}, {"c.mp3", "Ar", "V"}}, {{"Ar - T.mp3", "Ar", "T"}, {"a.mp3", "Ar", "T"}}, {{"Ar - T.mp3", "Ar", "U"}, {"Ar - U.mp3", "Ar", "T"}},
    {{"a.mp3", "Ar", "T"}, {"sub/a.mp3", "Ar", "U"}, {"sub/t/b.mp3", "Br", "U"}}, {{"T.mp3", "Ar", "a"}, {"a.mp3", "Ar", "T"}}};
  struct Tm { S text; std::function<O(const Src&)> name; };
  auto stem = [](const S &p) { return fs::path(p).stem().string(); };
  auto the = [](S s) { s = ::the(s, "suffix"); return s.empty() ? s : cap(s, "capitalize"); };
  const std::vector<Tm> TM{
    {"", [&](const Src &s) { return s.artist.empty() || s.title.empty() ? O() : O(the(s.artist) + " - " + the(s.title) + ".mp3"); }},
    {"%T%E", [&](const Src &s) { return s.title.empty() ? O() : O(the(s.title) + ".mp3"); }},
    {"x%b%E", [&](const Src &s) { return O("x" + stem(s.path) + ".mp3"); }},
    {"%b%E", [&](const Src &s) { return O(stem(s.path) + ".mp3"); }},
    {"(%A-)?%b.mp3", [&](const Src &s) { return O((s.artist.size() ? the(s.artist) + "-" : "") + stem(s.path) + ".mp3"); }},
    {"same.mp3", [&](const Src &) { return O("same.mp3"); }}};
  const S there = "was here already";
  for (std::size_t si = 0; si < SETS.size(); ++si) for (auto &tm : TM) for (int how = 0; how < 3; ++how) for (S out : {"", "out", "."}) for (int bits = 0; bits < 8; ++bits) {
    bool dry = bits & 1, rename = bits & 2, verbose = bits & 4;
    auto &set = SETS[si];
    // how: 0 files named in order, 1 the directory, 2 the directory by another name
    Dir base;
    std::vector<Job> jobs;
    std::set<S> targets;
    for (std::size_t k = 0; k < set.size(); ++k) {
      auto &s = set[k];
      std::map<S, S> t; if (s.artist.size()) t["artist"] = s.artist; if (s.title.size()) t["title"] = s.title;
      base[s.path] = file("x", 3, t, false, {}, "audio of " + s.path + S(k * 10, 'x')).bytes;
      Job j; j.src = s.path;
      O n = tm.name(s); j.ok = bool(n);
      if (n) { S d = out.empty() ? fs::path(s.path).parent_path().string() : out == "." ? "" : out; j.dst = d.empty() ? *n : d + "/" + *n; targets.insert(j.dst); }
      jobs.push_back(j);
    }
    base["notes.txt"] = "not to be touched";
    base["sub/cover.jpg"] = "nor this";
    base["out/keep"] = "nor that";
    std::vector<S> tv;
    for (auto &x : targets) if (!base.count(x)) tv.push_back(x);
    for (unsigned m = 0; m < 1u << tv.size(); ++m) {
      if (mc::quick && verbose && m) continue;
      Dir was = base;
      S pre;
      for (std::size_t i = 0; i < tv.size(); ++i) if (m >> i & 1) { was[tv[i]] = there + tv[i]; pre += " " + tv[i]; }
      // what is there already is also found, in a directory
      bool clash = false;
      if (how) for (auto &x : tv) if (was.count(x) && x.size() > 4) clash = true;
      if (!mc::begin([&] { return "set " + mc::str(si) + ", template '" + tm.text + "', " + (how == 0 ? "files" : how == 1 ? "directory" : "./directory/") + ", -o '" + out + "'" + (dry ? " -n" : "") + (rename ? " -r" : "") + (verbose ? " -v" : "") + ", there already:" + pre; })) continue;
      wipe();
      fs::create_directories("w/sub/t"); fs::create_directories("w/out");
      for (auto &x : was) { spew("w/" + x.first, x.second); }
      std::vector<S> args{"rename"};
      if (dry) args.push_back("-n");
      if (rename) args.push_back("-r");
      if (verbose) args.push_back("-v");
      if (out.size()) { args.push_back("-o"); args.push_back(out == "." ? "w" : "w/" + out); }
      if (tm.text.size()) args.push_back("--template=" + tm.text);
      if (how == 0) for (auto &j : jobs) args.push_back("w/" + j.src);
      else args.push_back(how == 1 ? "w" : "./w/");
      Ran r = cli(args);
      mc::transition();
      Dir now = files("w");
      std::vector<Job> js = jobs;
      if (how && clash) {
        // the files in the way are processed too: they have no tags
        for (auto &x : tv) if (was.count(x)) {
          Src s{x, "", ""}; O n = tm.name(s); Job j; j.src = x; j.ok = bool(n);
          if (n) { S d = out.empty() ? fs::path(x).parent_path().string() : out == "." ? "" : out; j.dst = d.empty() ? *n : d + "/" + *n; }
          js.push_back(j);
        }
      }
      if (dry) {
        MC_CHECK(now == was, "a dry run changed the directory: " << listing(now));
        MC_CHECK(r.rc == 0, "a dry run fails: " << r.err);
      } else {
        auto rs = results(was, js, how == 0, rename, how == 2 && out.size());
        bool found = false;
        for (auto &x : rs) if (x.first == now && (x.second ? r.rc == 0 : true)) found = true;
        MC_CHECK(found, "the directory is then: " << listing(now) << "; might be: " << listing(rs[0].first) << "; exit " << r.rc << " " << r.err);
      }
      if (dry || verbose) {
        // what is to happen is said
        bool fine = true;
        if (!dry) { auto rs = results(was, js, how == 0, rename, how == 2 && out.size()); for (auto &x : rs) fine = fine && x.second; }
        if (fine) for (auto &j : js) if (j.ok) {
          S pre2 = how == 2 ? "./w/" : "w/";
          S want = "\"" + pre2 + j.src + "\" => \"" + (out.empty() ? pre2 : S("w/")) + j.dst + "\"";
          MC_CHECK(r.out.find(want) != S::npos, "does not say " << want << ": " << r.out);
        }
      }
      mc::trace();
      if (mc::state(listing(now))) mc::sample(listing(was) + " became " + listing(now));
      mc::outcome(r.rc ? "refused" : dry ? "dry run" : now == was ? "nothing to do" : "done");
    }
  }
  // no room: however much is written, nothing is lost
  std::signal(SIGXFSZ, SIG_IGN);
  for (std::size_t len : {10u, 300u, 5000u, 20000u}) {
    File f = file("a.mp3", 3, {{"artist", "Ar"}, {"title", "T"}}, false, {}, S(len, 'q'));
    for (std::size_t lim = 0; lim <= f.bytes.size() + 1; lim += len < 1000 ? 1 : (mc::quick ? 97 : 13)) for (bool rename : {false, true}) {
      if (!mc::begin([&] { return mc::str(f.bytes.size()) + " bytes, room for " + mc::str(lim) + (rename ? " -r" : ""); })) continue;
      wipe();
      fs::create_directory("w");
      spew("w/a.mp3", f.bytes);
      rlimit old; getrlimit(RLIMIT_FSIZE, &old);
      rlimit now = old; now.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &now);
      std::vector<S> args{"rename", "w/a.mp3"}; if (rename) args.push_back("-r");
      Ran r{0, "", ""};
      r = cli(args);
      setrlimit(RLIMIT_FSIZE, &old);
      mc::transition();
      Dir d = files("w");
      bool room = lim >= f.bytes.size();
      if (d.count("a.mp3")) MC_CHECK(d["a.mp3"] == f.bytes, "the source changed");
      MC_CHECK(d.count("a.mp3") || (d.count("Ar - T.mp3") && d["Ar - T.mp3"] == f.bytes), "the file is lost: " << listing(d));
      if (room) MC_CHECK(r.rc == 0 && d["Ar - T.mp3"] == f.bytes && d.count("a.mp3") == !rename, "not done, though there is room: " << listing(d) << " " << r.err);
      else MC_CHECK(r.rc != 0, "it did not fit, but that is not reported: " << listing(d));
      mc::trace(); mc::outcome(r.rc ? "did not fit" : "fit");
    }
  }
}

static void body_()
{
  setenv("LC_ALL", "C", 1);
  scribbu::static_initialize();
  std::cerr.setstate(std::ios::badbit);    // the parser complains there
  fs::create_directories("t" + mc::str(mc::shard)); fs::current_path("t" + mc::str(mc::shard));
  if (mc::mode == "c14t") c14t(); else if (mc::mode == "c14g") c14g(); else c14r();
}
int main(int argc, char **argv) { return mc::run(argc, argv, body_); }
