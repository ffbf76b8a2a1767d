// What is reported of files, read back by parsers of our own.
//
//   c20r  report, as comma-, tab- and ASCII-separated values
//   c20j  tags & frames as JSON, and dump --format=json
//   c20m  m3u
#include "cli.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/json-pprinter.hh>
#include <scribbu/ostream.hh>
#include <openssl/evp.h>
#include <clocale>
#include <filesystem>
#include <iostream>
#include <memory>
#include <sstream>

typedef std::string S;
typedef std::vector<S> Row;
namespace fs = std::filesystem;
#define BL(x) S(x, sizeof(x) - 1)

static S md5(const S &b)
{
  unsigned char d[16]; unsigned n = 0;
  EVP_Digest(b.data(), b.size(), d, &n, EVP_md5(), 0);
  return mc::hex(S((const char*)d, 16));
}
static S shown(const S &s)
{
  S o;
  for (unsigned char c : s) if (c < 0x20 || c >= 0x7f) { char b[5]; snprintf(b, 5, "\\x%02x", c); o += b; } else o += c;
  return o;
}
static bool points(const S &s, std::vector<unsigned> &v)
{
  for (std::size_t i = 0; i < s.size(); ) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : -1;
    if (n < 0 || i + n >= s.size()) return false;
    unsigned p = n == 0 ? c : n == 1 ? c & 0x1f : c & 0x0f;
    for (int j = 1; j <= n; ++j) { unsigned char d = s[i + j]; if ((d & 0xc0) != 0x80) return false; p = p << 6 | (d & 0x3f); }
    v.push_back(p); i += n + 1;
  }
  return true;
}
// UTF-8 text, as frames say it: the byte for the encoding, and the text
static std::pair<char, S> framed(int ver, const S &s)
{
  bool plain = true; for (unsigned char c : s) plain = plain && c < 0x80;
  if (plain) return {0, s};
  if (ver == 4) return {3, s};
  std::vector<unsigned> v;
  if (!points(s, v)) return {0, s};
  S o = "\xff\xfe";
  for (unsigned p : v) { o += char(p & 255); o += char(p >> 8); }
  return {1, o};
}
static S text_body(int ver, const S &s) { auto f = framed(ver, s); return S(1, f.first) + f.second; }
static S comm_body(int ver, const S &s) { auto f = framed(ver, s); return S(1, f.first) + "eng" + (f.first == 1 ? BL("\xff\xfe\0\0") : BL("\0")) + f.second; }
static S idof(int ver, const S &id)
{
  static const std::map<S, S> M{{"TPE1", "TP1"}, {"TIT2", "TT2"}, {"TALB", "TAL"}, {"TCON", "TCO"}, {"TENC", "TEN"}, {"TYER", "TYE"}, {"TLAN", "TLA"}, {"PCNT", "CNT"}, {"COMM", "COM"},
    {"POPM", "POP"}, {"TXXX", "TXX"}, {"UFID", "UFI"}, {"APIC", "PIC"}, {"XTAG", "XTG"}};
  return ver == 2 ? M.at(id) : id;
}
static S counter(std::uint64_t n) { int w = n >> 32 ? 8 : 4; S b; while (w--) b += char(n >> (8 * w)); return b; }

// --- a file, and what is in it ------------------------------------------------
static const char *const TEXTS[] = {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"};
static const char *const ONES[] = {"artist", "title", "album", "year", "comment"};
struct F {
  S name = "a.mp3", dir;           // as given on the command line
  int ver = 0;                     // 0: no ID3v2 tag
  std::map<S, S> text;             // frames
  std::vector<S> comments;
  std::vector<std::uint64_t> counts;
  bool bad2 = false;               // text that is not in the encoding it is said to be in
  bool one = false; int track = -1; int genre = 17;
  std::map<S, S> v1;               // in UTF-8; the file has CP1252
  bool bad1 = false;
  S audio = "abc";
  bool exp = false, footer = false, unsync = false;
  int enh = 0;                     // an enhanced tag: its texts have up to 90 characters
  bool ok() const { return !bad1 && !bad2; }
  S tag_bytes() const
  {
    if (!ver) return "";
    std::vector<Frame> fr;
    for (auto &x : text) fr.push_back(mk(idof(ver, x.first), text_body(ver, x.second)));
    for (auto &x : comments) fr.push_back(mk(idof(ver, "COMM"), comm_body(ver, x)));
    for (auto &x : counts) fr.push_back(mk(idof(ver, "PCNT"), counter(x)));
    if (bad2) fr.push_back(mk("TENC", "\x03\xff\xfe\xff"));
    Tag t = tag(ver, ver == 4 ? 0 : 5, fr, footer); t.exp = exp;
    return encode(t, unsync);
  }
  S narrow(const S &k) const
  {
    S s = v1.count(k) ? v1.at(k) : "", o;
    std::vector<unsigned> v; points(s, v);
    for (unsigned p : v) o += char(p);
    return o;
  }
  S v1_bytes() const
  {
    if (!one) return "";
    S t = narrow("title"); if (bad1) t += '\x81';
    S e;
    if (enh) {
      auto rest = [](const S &x) { return fix(x.size() > 30 ? x.substr(30) : "", 60); };
      e = "TAG+" + rest(t) + rest(narrow("artist")) + rest(narrow("album")) + char(2) + fix("eg", 30) + "000:00" + "003:21";
    }
    return e + "TAG" + fix(t, 30) + fix(narrow("artist"), 30) + fix(narrow("album"), 30) + fix(narrow("year"), 4) +
      (track < 0 ? fix(narrow("comment"), 30) : fix(narrow("comment"), 28) + S(1, 0) + char(track)) + char(genre);
  }
  S more;                          // another tag, after the first
  S bytes() const { return tag_bytes() + more + audio + v1_bytes(); }
  S path() const { return dir.empty() ? name : dir + "/" + name; }
  void put() const { if (dir.size()) fs::create_directories(dir); spew(path(), bytes()); }
  Row row(std::size_t ncomm, bool with_dir) const
  {
    Row r;
    if (with_dir) r.push_back("*dir");
    r.push_back(name);
    char b[64]; snprintf(b, 64, "%.3f", double(bytes().size()) / 1048576); r.push_back(b);
    if (!ver) r.insert(r.end(), 15 + ncomm, "");
    else {
      r.push_back(mc::str(ver)); r.push_back("0"); r.push_back(unsync ? S("*any") : mc::str(tag_bytes().size() - 10)); snprintf(b, 64, "0x%02x", (unsync ? 0x80 : 0) | (exp ? 0x20 : 0) | (footer ? 0x10 : 0)); r.push_back(b); r.push_back(unsync ? "1" : "0");
      for (S id : TEXTS) r.push_back(text.count(id) ? text.at(id) : "");
      r.push_back(mc::str(counts.size())); r.push_back(counts.empty() ? "" : counts.size() == 1 ? mc::str(counts[0]) : "*any");
      r.push_back(mc::str(comments.size()));
      for (std::size_t i = 0; i < ncomm; ++i) r.push_back(i < comments.size() ? comments[i] : "");
    }
    r.push_back(mc::str(audio.size())); r.push_back(md5(audio));
    if (!one) r.insert(r.end(), 8, "");
    else {
      r.push_back(track >= 0 ? "1" : "0"); r.push_back(enh ? "1" : "0");
      for (S k : ONES) r.push_back(v1.count(k) ? v1.at(k) : "");
      r.push_back(mc::str(genre));
    }
    return r;
  }
  S str() const
  {
    S s = path() + "{";
    if (ver) {
      s += "2." + mc::str(ver);
      for (auto &x : text) s += " " + x.first + "='" + shown(x.second) + "'";
      for (auto &x : comments) s += " comment '" + shown(x) + "'";
      for (auto &x : counts) s += " count " + mc::str(x);
      if (exp) s += " exp"; if (footer) s += " footer"; if (unsync) s += " unsync";
      if (bad2) s += " bad";
    }
    if (one) { s += " v1"; if (track >= 0) s += ".1"; if (enh) s += " enhanced"; for (auto &x : v1) s += " " + x.first + "='" + shown(x.second) + "'"; if (bad1) s += " bad"; }
    if (more.size()) s += " and another tag: " + mc::hex(more);
    return s + "}";
  }
};

// RFC 4180, to the letter but for the ends of lines
static bool parse_csv(const S &s, std::vector<Row> &rows, S &why)
{
  std::size_t i = 0;
  while (i < s.size()) {
    Row r;
    for ( ; ; ) {
      S f;
      if (i < s.size() && s[i] == '"') {
        for (++i; ; ) {
          if (i >= s.size()) { why = "an unfinished field"; return false; }
          if (s[i] != '"') { f += s[i++]; continue; }
          if (i + 1 < s.size() && s[i+1] == '"') { f += '"'; i += 2; continue; }
          ++i; break;
        }
        if (i >= s.size() || (s[i] != ',' && s[i] != '\n')) { why = "text after the quoted field '" + shown(f) + "'"; return false; }
      }
      else for ( ; i < s.size() && s[i] != ',' && s[i] != '\n'; ++i) {
        if (s[i] == '"' || s[i] == '\r') { why = "a quote or line break in a field without quotes"; return false; }
        f += s[i];
      }
      r.push_back(f);
      if (i >= s.size()) { why = "an unfinished line"; return false; }
      if (s[i++] == '\n') break;
    }
    rows.push_back(r);
  }
  return true;
}
static bool parse_tdf(const S &s, char sep, std::vector<Row> &rows, S &why)
{
  Row r{""};
  for (char c : s) {
    if (c == '\n') { rows.push_back(r); r = {""}; }
    else if (c == sep) r.push_back("");
    else r.back() += c;
  }
  if (r.size() > 1 || r[0].size()) { why = "an unfinished line"; return false; }
  return true;
}
// paths are written between quotes
static S unquoted(const S &s)
{
  if (s.size() < 2 || s[0] != '"' || s.back() != '"') return s;
  S o;
  for (std::size_t i = 1; i + 1 < s.size(); ++i) { if ((s[i] == '\\' || s[i] == '"') && i + 2 < s.size()) ++i; o += s[i]; }
  return o;
}

static void report(const S &what, const std::vector<F> &fsv, int fmt, bool nodir, std::size_t ncomm)
{
  // fmt: 0 commas, 1 tabs, 2 ASCII
  if (!mc::begin([&] {
        S s = what + ": " + (fmt == 0 ? "csv" : fmt == 1 ? "tsv" : "ascii") + (nodir ? " -d" : "") + " -c " + mc::str(ncomm);
        for (auto &f : fsv) s += " " + f.str();
        return s; })) return;
  wipe();
  std::vector<S> args{"report", "-o", "out.txt", "-c", mc::str(ncomm)};
  if (fmt) args.push_back("-t");
  if (fmt == 2) args.push_back("-a");
  if (nodir) args.push_back("-d");
  bool all = true;
  std::size_t good = 0;
  for (auto &f : fsv) { f.put(); args.push_back(f.path()); all = all && f.ok(); good += f.ok(); }
  Ran r = cli(args);
  mc::transition(fsv.size());
  S out = slurp("out.txt");
  std::vector<Row> rows; S why;
  if (what.compare(0, 6, "quotes") == 0 && r.rc == 0) {
    Row w = fsv[0].row(ncomm, false); S line = "\"" + w[0] + "\"";
    for (std::size_t i = 1; i < w.size(); ++i) line += "," + w[i];
    if (out.substr(out.find('\n') + 1) == line + "\n") { mc::trace(); mc::fail("a text with quotes is written as it stands: " + line); return; }
  }
  bool ok = fmt == 0 ? parse_csv(out, rows, why) : parse_tdf(out, fmt == 1 ? '\t' : '\x1f', rows, why);
  MC_CHECK(ok, "not well-formed: " << why << " in " << shown(out.substr(out.find('\n') + 1)));
  MC_CHECK(all == (r.rc == 0), "exit " << r.rc << " " << r.err);
  mc::trace();
  if (!ok) return;
  MC_CHECK(!rows.empty() && rows[0].size() == (nodir ? 27 : 28) + ncomm, "the header has " << (rows.empty() ? 0 : rows[0].size()) << " fields");
  for (auto &x : rows) MC_CHECK(x.size() == rows[0].size(), "a row of " << x.size() << " fields, for " << rows[0].size() << " columns");
  MC_CHECK(rows.size() == 1 + good, rows.size() << " lines, for " << good << " files");
  if (rows.size() != 1 + good) return;
  std::size_t k = 1;
  for (auto &f : fsv) {
    if (!f.ok()) continue;
    Row want = f.row(ncomm, !nodir); const Row &got = rows[k++];
    for (std::size_t i = 0; i < want.size() && i < got.size(); ++i) {
      S g = got[i], w = want[i];
      if (w == "*any") continue;
      if (fmt && i < (nodir ? 1u : 2u)) g = unquoted(g);
      if (w == "*dir") { w = fs::absolute(f.path()).parent_path().string(); if (f.dir == g || (f.dir.empty() && (g.empty() || g == "."))) continue; }
      if (f.ver == 2 && rows[0][i] == "ID3v2 Year" && g.empty() && w.size()) { mc::fail("the year of an ID3v2.2 tag is left out: " + shown(w)); continue; }
      MC_CHECK(g == w, "'" << rows[0][i] << "' is '" << shown(g) << "', not '" << shown(w) << "'");
    }
  }
  mc::outcome(all ? "reported" : "some unreadable");
}

static void c20r()
{
  const std::vector<S> T{"a", "a,b", ",", ",,x", "x\ny", "x\r\ny", "\rx", "q\"q,", "\",\"", "\"\n\"", "\xc3\xa9", "a;b", " lead", "'", "=1", "a|b", "\\", "0"};
  const std::vector<S> TT{"a", "a,b", "\"q\"", "\xc3\xa9", "\\", " lead", "0"};      // no separators: they cannot be had
  const std::vector<S> Q{"\"", "\"q\"", "q\"", "\"q", "a \"b\" c", "\"\""};           // quotes, and nothing else of note
  auto set = [](F &f, std::size_t k, const S &s) {
    // 0-6 frames, 7-9 comments, 10-14 ID3v1
    if (k < 7) { if (!f.ver) f.ver = 3; f.text[TEXTS[k]] = s; }
    else if (k < 10) { if (!f.ver) f.ver = 3; f.comments.resize(std::max<std::size_t>(f.comments.size(), k - 6), "c"); f.comments[k - 7] = s; }
    else { f.one = true; f.v1[ONES[k - 10]] = k == 13 ? s.substr(0, 4) : s; }
  };
  auto fits = [](std::size_t k, const S &s) { return k != 13 || (s.size() <= 4 && s.back() != ','); };
  // one text in one field
  for (int fmt = 0; fmt < 3; ++fmt) for (auto &s : fmt ? TT : T) for (std::size_t k = 0; k < 15; ++k) for (int ver : {2, 3, 4}) for (std::size_t nc : {0u, 1u, 2u, 3u, 6u}) for (bool nodir : {true, false}) {
    if (!fits(k, s) || (k >= 10 && ver != 3)) continue;
    if (mc::quick && !nodir && nc != 2) continue;
    F f; if (k < 10) f.ver = ver; set(f, k, s);
    report("field " + mc::str(k), {f}, fmt, nodir, nc);
  }
  // two
  for (auto &s : T) for (auto &t : T) for (std::size_t k = 0; k < 15; ++k) for (std::size_t l = k + 1; l < 15; ++l) {
    if (mc::quick && l > k + 2 && l % 4) continue;
    if (!fits(k, s) || !fits(l, t)) continue;
    F f; set(f, k, s); set(f, l, t);
    report("fields " + mc::str(k) + " & " + mc::str(l), {f}, 0, true, 3);
  }
  // numbers
  for (int fmt = 0; fmt < 3; ++fmt) for (int ver : {2, 3, 4}) for (std::size_t nc : {0u, 2u, 12u}) {
    for (std::uint64_t n : {0ull, 1ull, 9ull, 10ull, 15ull, 16ull, 255ull, 256ull, 65535ull, 4294967295ull, 4294967296ull, 1ull << 63, ~0ull})
      for (std::size_t m = 0; m < 20; ++m) { F f; f.ver = ver; f.counts = {n}; f.comments.assign(m, "c"); report("counts", {f}, fmt, true, nc); }
    for (std::size_t m = 0; m < 20; ++m) { F f; f.ver = ver; for (std::size_t i = 0; i < m; ++i) f.counts.push_back(i + 10); report("counts", {f}, fmt, true, nc); }
  }
  for (int fmt = 0; fmt < 3; ++fmt) for (int g = 0; g < 256; ++g) for (int tr : {-1, 1, 11, 255}) { F f; f.one = true; f.genre = g; f.track = tr; f.v1["artist"] = "x"; report("genre " + mc::str(g), {f}, fmt, true, 1); }
  for (std::size_t n = 0; n < (mc::quick ? 300u : 3000u); n += n < 20 ? 1 : 7) { F f; f.ver = 3; f.text["TPE1"] = S(n + 1, 'x'); f.audio = S(n * 37, 'y'); report("sizes", {f}, n % 3, true, 1); }
  for (int fmt = 0; fmt < 3; ++fmt) for (std::size_t n : {1u << 19, 1u << 20, 3u << 19, 10u << 20, 123456789u / 10}) { F f; f.ver = 3; f.audio = S(n, 'y'); report("large", {f}, fmt, true, 1); }
  // flags, and enhanced tags
  for (int fmt = 0; fmt < 3; ++fmt) for (int ver : {2, 3, 4}) for (int fl = 0; fl < 8; ++fl) for (std::uint64_t n : {1ull, 200ull, 0xffffull}) for (std::size_t m : {0u, 1u, 11u}) {
    F f; f.ver = ver; f.exp = fl & 1; f.footer = fl & 2; f.unsync = fl & 4;
    if ((ver == 2 && f.exp) || (ver < 4 && f.footer)) continue;
    f.counts = {n}; f.comments.assign(m, "\xc3\xbf" "c"); f.text["TPE1"] = "\xc3\xbf\xc3\xb0";
    report("flags", {f}, fmt, true, 2);
  }
  for (int fmt = 0; fmt < 3; ++fmt) for (S k : {"title", "artist", "album"}) for (std::size_t n : {0u, 1u, 29u, 30u, 31u, 60u, 89u, 90u}) for (int tr : {-1, 3}) for (S x : {"x", "x,", "xy\n"}) {
    if (fmt && x[x.size() - 1] == '\n') continue;
    F f; f.one = true; f.enh = 1; f.track = tr; S v; while (v.size() < n) v += x; v = v.substr(0, n); while (v.size() && v.back() == '\n') v.back() = 'z'; if (v.size()) f.v1[k] = v;
    report("enhanced", {f}, fmt, true, 1);
  }
  // several files
  std::vector<F> P(9);
  P[1].ver = 3; P[1].text["TPE1"] = "a,b"; P[1].counts = {17};
  P[2].ver = 2; P[2].comments = {"x", "y\nz", "w"};
  P[3].ver = 4; P[3].text["TIT2"] = "t"; P[3].one = true; P[3].v1 = {{"title", "t,u"}, {"comment", "q"}}; P[3].genre = 80;
  P[4].one = true; P[4].track = 12; P[4].v1 = {{"artist", "\xc3\xa9"}};
  P[5].one = true; P[5].bad1 = true; P[5].ver = 3; P[5].text["TPE1"] = "z";
  P[6].ver = 4; P[6].bad2 = true; P[6].text["TPE1"] = "z";
  P[7].ver = 3; P[7].audio = "";
  P[8].ver = 4; P[8].counts = {300, 2};
  for (std::size_t i = 0; i < P.size(); ++i) P[i].name = "f" + mc::str(i) + ".mp3";
  for (std::size_t i = 0; i < P.size(); ++i) for (std::size_t j = 0; j < P.size(); ++j) for (std::size_t k = 0; k < P.size(); ++k) for (int fmt = 0; fmt < 3; ++fmt) for (std::size_t nc : {0u, 2u}) {
    std::vector<F> v{P[i], P[j], P[k]};
    if (fmt) for (auto &f : v) for (auto &c : f.comments) for (auto &x : c) if (x == '\n') x = ' ';
    report("three", v, fmt, nc, nc);
  }
  // names
  for (S n : {"a,b.mp3", "a\"b.mp3", "\"q\".mp3", "sp ace.mp3", "back\\slash.mp3", "new\nline.mp3", "\xc3\xa9.mp3", "x,\"y\",.mp3"})
    for (S d : {"", "d,e", "d\"e", "d\\e", "\"", "d e/\"f\",g"}) for (int fmt = 0; fmt < 3; ++fmt) for (bool nodir : {true, false}) {
      if (fmt && n.find('\n') != S::npos) continue;
      F f; f.name = n; f.dir = d; f.ver = 3; f.text["TPE1"] = "x";
      report("names", {f, f}, fmt, nodir, 1);
    }
  // quotes alone
  for (auto &s : Q) for (std::size_t k = 0; k < 15; ++k) { if (!fits(k, s)) continue; F f; set(f, k, s); report("quotes in field " + mc::str(k), {f}, 0, true, 2); }
}

// --- JSON ----------------------------------------------------------------------
struct J {
  enum { null, boolean, number, string, array, object } kind = null;
  S s; std::vector<J> a; std::vector<std::pair<S, J>> o;
  const J *get(const S &k) const { for (auto &x : o) if (x.first == k) return &x.second; return 0; }
};
struct Json {
  const S &s; std::size_t i = 0; S why;
  explicit Json(const S &t): s(t) { }
  void ws() { while (i < s.size() && S(" \t\r\n").find(s[i]) != S::npos) ++i; }
  bool bad(const S &w) { if (why.empty()) why = w + " at " + mc::str(i); return false; }
  bool lit(const S &w) { if (s.compare(i, w.size(), w)) return bad("not " + w); i += w.size(); return true; }
  bool value(J &j)
  {
    ws();
    if (i >= s.size()) return bad("the end");
    char c = s[i];
    if (c == '{') {
      j.kind = J::object; ++i; ws();
      if (i < s.size() && s[i] == '}') { ++i; return true; }
      for ( ; ; ) {
        J k; ws();
        if (i >= s.size() || s[i] != '"' || !value(k)) return bad("no name");
        for (auto &x : j.o) if (x.first == k.s) return bad("'" + k.s + "' twice");
        ws(); if (!lit(":")) return false;
        J v; if (!value(v)) return false;
        j.o.push_back({k.s, v}); ws();
        if (i < s.size() && s[i] == ',') { ++i; continue; }
        return lit("}");
      }
    }
    if (c == '[') {
      j.kind = J::array; ++i; ws();
      if (i < s.size() && s[i] == ']') { ++i; return true; }
      for ( ; ; ) {
        J v; if (!value(v)) return false;
        j.a.push_back(v); ws();
        if (i < s.size() && s[i] == ',') { ++i; continue; }
        return lit("]");
      }
    }
    if (c == '"') {
      j.kind = J::string; ++i;
      for ( ; ; ) {
        if (i >= s.size()) return bad("an unfinished string");
        unsigned char d = s[i++];
        if (d == '"') break;
        if (d < 0x20) return bad("a control character");
        if (d != '\\') { j.s += d; continue; }
        if (i >= s.size()) return bad("an unfinished string");
        switch (s[i++]) {
        case '"': j.s += '"'; break; case '\\': j.s += '\\'; break; case '/': j.s += '/'; break; case 'b': j.s += '\b'; break;
        case 'f': j.s += '\f'; break; case 'n': j.s += '\n'; break; case 'r': j.s += '\r'; break; case 't': j.s += '\t'; break;
        case 'u': {
          if (i + 4 > s.size() || s.substr(i, 4).find_first_not_of("0123456789abcdefABCDEF") != S::npos) return bad("no four digits");
          unsigned p = std::stoul(s.substr(i, 4), 0, 16); i += 4;
          if (p < 0x80) j.s += char(p); else if (p < 0x800) { j.s += char(0xc0 | p >> 6); j.s += char(0x80 | (p & 0x3f)); }
          else { j.s += char(0xe0 | p >> 12); j.s += char(0x80 | (p >> 6 & 0x3f)); j.s += char(0x80 | (p & 0x3f)); }
          break; }
        default: return bad("an unknown escape");
        }
      }
      std::vector<unsigned> v; if (!points(j.s, v)) return bad("a string that is not UTF-8");
      return true;
    }
    if (c == 't') { j.kind = J::boolean; j.s = "true"; return lit("true"); }
    if (c == 'f') { j.kind = J::boolean; j.s = "false"; return lit("false"); }
    if (c == 'n') return lit("null");
    std::size_t b = i;
    if (i < s.size() && s[i] == '-') ++i;
    std::size_t d = i; while (i < s.size() && isdigit(s[i])) ++i;
    if (i == d || (s[d] == '0' && i > d + 1)) return bad("not a number");
    if (i < s.size() && s[i] == '.') { d = ++i; while (i < s.size() && isdigit(s[i])) ++i; if (i == d) return bad("not a number"); }
    j.kind = J::number; j.s = s.substr(b, i - b);
    return true;
  }
  bool all(std::vector<J> &v) { for (ws(); i < s.size(); ws()) { J j; if (!value(j)) return false; v.push_back(j); } return true; }
};

struct Fr { S id, text, desc; std::uint64_t n = 0; int rating = 0; };
static std::set<S> values(std::uint64_t i, const S &d) { std::set<S> r; if (i > 0) r.insert("v" + d); for (std::uint64_t k = 1; k < i; ++k) r.insert(d + mc::str(k)); return r; }
static Frame frame(int ver, const Fr &f)
{
  S id = idof(ver, f.id), b;
  auto t = framed(ver, f.text), d = framed(ver, f.desc);
  auto two = [&](const S &pre) {
    char e = std::max(t.first, d.first);
    auto in = [&](const S &s) { std::vector<unsigned> v; points(s, v); S o = e == 1 ? "\xff\xfe" : ""; if (e != 1) return s; for (unsigned p : v) { o += char(p & 255); o += char(p >> 8); } return o; };
    return S(1, e) + pre + in(f.desc) + (e == 1 ? BL("\0\0") : BL("\0")) + in(f.text);
  };
  if (f.id == "TXXX") b = two("");
  else if (f.id == "COMM") b = two("eng");
  else if (f.id == "UFID") b = f.text + BL("\0") + "id";
  else if (f.id == "PCNT") b = counter(f.n);
  else if (f.id == "POPM") b = f.text + BL("\0") + char(f.rating) + counter(f.n);
  else if (f.id == "PRIV") b = f.text + BL("\0") + "data";
  else if (f.id == "ENCR") b = f.text + BL("\0") + char(f.rating) + "data";
  else if (f.id == "XTAG") {   // a cloud of n tags, with none to n - 1 values
    b = S(1, 1) + f.text + BL("\0");
    for (std::uint64_t i = 0; i < f.n; ++i) {
      S v; for (auto &x : values(i, f.desc)) v += x + BL("\0");
      b += "k" + mc::str(i) + f.desc + BL("\0") + be(v.size(), 4) + v;
    }
  }
  else if (f.id == "APIC") b = "some \"bytes\"";
  else b = text_body(ver, f.text);
  return mk(id, b);
}
static void judge(const J &j, int ver, const Fr &f)
{
  auto str = [&](const char *k, const S &w) { const J *p = j.get(k); MC_CHECK(p && p->kind == J::string && p->s == w, k << " of the frame is '" << (p ? shown(p->s) : "(none)") << "', not '" << shown(w) << "'"); };
  auto num = [&](const char *k, const S &w) { const J *p = j.get(k); MC_CHECK(p && p->kind == J::number && p->s == w, k << " of the frame is " << (p ? p->s : "(none)") << ", not " << w); };
  str("id", idof(ver, f.id));
  if (f.id == "TXXX" || f.id == "COMM") { str("description", f.desc); str("text", f.text); }
  else if (f.id == "UFID") str("owner", f.text);
  else if (f.id == "PCNT") num("count", mc::str(f.n));
  else if (f.id == "POPM") { str("email", f.text); num("rating", mc::str(f.rating)); num("count", mc::str(f.n)); }
  else if (f.id == "PRIV" || f.id == "ENCR") str("email", f.text);
  else if (f.id == "XTAG") {
    str("owner", f.text);
    const J *c = j.get("cloud");
    MC_CHECK(c && c->kind == J::array && c->a.size() == f.n, "the cloud of the frame is not " << f.n << " tags");
    if (c) for (std::uint64_t i = 0; i < f.n && i < c->a.size(); ++i) {
      const J &e = c->a[i]; S key = "k" + mc::str(i) + f.desc; auto want = values(i, f.desc);
      if (want.empty()) { MC_CHECK(e.kind == J::string && e.s == key, "a tag is " << shown(e.s) << ", not " << shown(key)); continue; }
      const J *v = e.kind == J::object && e.o.size() == 1 ? e.get(key) : 0;
      MC_CHECK(v, "no tag " << shown(key));
      std::multiset<S> got; if (v && v->kind == J::string) got.insert(v->s); if (v) for (auto &x : v->a) got.insert(x.s);
      MC_CHECK(got == std::multiset<S>(want.begin(), want.end()), "other values of " << shown(key));
    }
  }
  else if (f.id[0] == 'T') str("text", f.text);
}
static void judge(const J &j, int ver, const std::vector<Fr> &fr, std::size_t size, std::size_t pad)
{
  auto get = [&](const char *k) { const J *p = j.get(k); return p ? p->s : S("(none)"); };
  MC_CHECK(get("version") == "2." + mc::str(ver), "version is " << get("version"));
  MC_CHECK(get("size") == mc::str(size), "size is " << get("size") << ", not " << size);
  MC_CHECK(get("padding") == mc::str(pad), "padding is " << get("padding") << ", not " << pad);
  MC_CHECK(get("flags") == "0", "flags are " << get("flags"));
  const J *a = j.get("frames");
  MC_CHECK(a && a->kind == J::array && a->a.size() == fr.size(), "frames are missing");
  if (a) for (std::size_t i = 0; i < a->a.size() && i < fr.size(); ++i) judge(a->a[i], ver, fr[i]);
}
static void c20j()
{
  const std::vector<S> T{"", "a", "\"", "\\", "\\\"", "a\nb", "a\tb", "\x01x", "\x1f" "1", "\x7f", "\xc3\xa9", "\xe4\xb8\xad", "/", "{}", "\b\f\r.", "\\u0041", "</x>", "x\x08y\x0by"};
  auto plain = [](const S &s) { for (unsigned char c : s) if (c >= 0x80) return false; return true; };
  auto all = [&](const S &what, int ver, const std::vector<Fr> &fr) {
    if (!mc::begin([&] { S s = what + " 2." + mc::str(ver); for (auto &f : fr) s += " " + f.id + "('" + shown(f.text) + "','" + shown(f.desc) + "'," + mc::str(f.n) + "," + mc::str(f.rating) + ")"; return s; })) return;
    std::vector<Frame> v; for (auto &f : fr) v.push_back(frame(ver, f));
    std::size_t pad = ver == 4 ? 0 : 3;
    bytes b = encode(tag(ver, pad, v));
    std::istringstream is(b);
    auto t = maybe_read_id3v2(is);
    // twice: the state of the stream does not matter
    std::ostringstream os; os << std::hex << std::showbase; os << scribbu::print_as_json(); os << *t << "\n" << *t;
    S out = os.str();
    Json p(out); std::vector<J> js;
    bool ok = p.all(js);
    MC_CHECK(ok && js.size() == 2, "not JSON: " << p.why << " in " << shown(out));
    if (ok) for (auto &j : js) judge(j, ver, fr, b.size() - 10, pad);
    mc::transition(2); mc::trace(); mc::state(out);
    mc::outcome("tag");
    mc::sample(out);
  };
  std::vector<Fr> fr;
  for (S id : {"TPE1", "TIT2", "TCON", "TLAN"}) for (auto &s : T) if (s.size()) { Fr f; f.id = id; f.text = s; fr.push_back(f); }
  for (S id : {"TXXX", "COMM"}) for (auto &s : T) for (auto &d : T) { Fr f; f.id = id; f.text = s; f.desc = d; fr.push_back(f); }
  for (S id : {"UFID", "POPM"}) for (auto &s : T) if (plain(s)) { Fr f; f.id = id; f.text = s; f.rating = 200; f.n = 17; fr.push_back(f); }
  for (std::uint64_t n : {0ull, 1ull, 10ull, 255ull, 4294967295ull, 4294967296ull, ~0ull}) for (S id : {"PCNT", "POPM"}) for (int r : {0, 9, 255}) { Fr f; f.id = id; f.text = "x"; f.n = n; f.rating = r; fr.push_back(f); }
  { Fr f; f.id = "APIC"; fr.push_back(f); }
  for (S id : {"PRIV", "ENCR"}) for (auto &s : T) if (plain(s)) { Fr f; f.id = id; f.text = s; f.rating = 200; fr.push_back(f); }
  for (auto &s : T) for (auto &d : {S("d"), s}) for (int n = 0; n < 4; ++n) { Fr f; f.id = "XTAG"; f.text = s; f.desc = d; f.n = n; fr.push_back(f); }
  const auto every = fr;
  for (int ver : {2, 3, 4}) {
    fr.clear(); for (auto &f : every) if (ver > 2 || (f.id != "PRIV" && f.id != "ENCR")) fr.push_back(f);
    all("none", ver, {});
    for (auto &f : fr) all("one", ver, {f});
    for (std::size_t i = 0; i < fr.size(); ++i) for (std::size_t j = 0; j < fr.size(); ++j) { if ((i * 7 + j) % (mc::quick ? 23 : 5) || (fr[i].id == "ENCR" && fr[j].id == "ENCR")) continue; all("two", ver, {fr[i], fr[j]}); }
  }
  // what the header says
  for (int ver : {2, 3, 4}) for (int fl = 0; fl < 4; ++fl) for (int made = 0; made < 2; ++made) for (bool sync : {true, false}) {
    if (ver == 2 && (fl & 2)) continue;
    if (!mc::begin([&] { return S(sync ? "unsynchronisation" : "header") + " 2." + mc::str(ver) + (fl & 1 ? " unsync" : "") + (fl & 2 ? " exp" : "") + (made ? " made" : " read"); })) continue;
    Tag t = tag(ver, 0, {mk(idof(ver, "TIT2"), txt("t"))}); t.exp = fl & 2;
    if (made && (fl & 1)) { mc::outcome("no such"); continue; }
    bytes b = encode(t, fl & 1);
    auto q = made ? make(t) : read(b);
    std::ostringstream os; os << scribbu::print_as_json() << *q;
    S out = os.str();
    Json p(out); std::vector<J> js;
    bool ok = p.all(js) && js.size() == 1;
    MC_CHECK(ok, "not JSON: " << p.why << " in " << shown(out));
    if (ok && !sync) {
      const J *v = js[0].get("flags"); MC_CHECK(v && v->s == mc::str(int((unsigned char)b[5])), "flags are " << (v ? v->s : "(none)"));
      v = js[0].get("experimental"); MC_CHECK(ver < 4 || (v && v->s == (fl & 2 ? "true" : "false")), "experimental is " << (v ? v->s : "(none)"));
    }
    if (ok && sync) { const J *v = js[0].get("unsynchronised"); MC_CHECK(v && v->s == (fl & 1 ? "true" : "false"), "it says unsynchronised: " << (v ? v->s : "(none)")); }
    mc::transition(); mc::trace(); mc::state(out); mc::outcome("header");
  }
  // ID3v1
  for (S k : ONES) for (auto &s : T) for (int tr : {-1, 0, 1, 255}) for (int g : {0, 17, 255}) {
    F f; f.one = true; f.track = tr; f.genre = g; f.v1[k] = k == "year" ? s.substr(0, 4) : s;
    if (!plain(s) && s[0] != '\xc3') continue;
    if (k == "year" && s.size() > 4) continue;
    if (!mc::begin([&] { return "v1 " + k + "='" + shown(s) + "' track " + mc::str(tr) + " genre " + mc::str(g); })) continue;
    std::istringstream is(f.bytes());
    auto t = process_id3v1(is);
    std::ostringstream os; os << std::hex; os << scribbu::print_as_json(encoding::CP1252); os << *t;
    S out = os.str();
    Json p(out); std::vector<J> js;
    bool ok = p.all(js) && js.size() == 1;
    MC_CHECK(ok, "not JSON: " << p.why << " in " << shown(out));
    if (ok) {
      for (S x : ONES) { const J *v = js[0].get(x); S w = f.v1.count(x) ? f.v1[x] : ""; MC_CHECK(v && v->kind == J::string && v->s == w, x << " is '" << (v ? shown(v->s) : "(none)") << "', not '" << shown(w) << "'"); }
      const J *v = js[0].get("genre"); MC_CHECK(v && v->s == mc::str(g), "the genre is " << (v ? v->s : "(none)"));
      v = js[0].get("track"); if (tr > 0) MC_CHECK(v && v->s == mc::str(tr), "the track is " << (v ? v->s : "(none)")); else if (tr < 0) MC_CHECK(!v, "there is no track");
    }
    mc::transition(); mc::trace(); mc::state(out); mc::outcome("ID3v1");
  }
  // dump
  std::vector<F> P(6);
  P[1].ver = 3; P[1].text["TPE1"] = "a\"b"; P[1].counts = {17};
  P[2].ver = 2; P[2].comments = {"x", "y\nz"};
  P[3].ver = 4; P[3].text["TIT2"] = "t\\"; P[3].one = true; P[3].v1 = {{"title", "t\"u"}, {"comment", "q"}}; P[3].genre = 80;
  P[4].one = true; P[4].track = 12; P[4].v1 = {{"artist", "\xc3\xa9"}};
  P[5].ver = 3; P[5].audio = "";
  for (std::size_t i = 0; i < P.size(); ++i) P[i].name = "f" + mc::str(i) + ".mp3";
  for (std::size_t n = 1; n < 1u << P.size(); ++n) for (int what = 0; what < 8; ++what) {
    if (!mc::begin([&] { return "dump of files " + mc::str(n) + ", options " + mc::str(what); })) continue;
    wipe();
    std::vector<S> args{"dump", "--format=json"};
    if (what & 1) args.push_back("-1");
    if (what & 2) args.push_back("-2");
    if (what & 4) args.push_back("-D");
    std::vector<std::pair<S, F>> want;
    int w = what ? what : 7;
    for (std::size_t i = 0; i < P.size(); ++i) if (n >> i & 1) {
      P[i].put(); args.push_back(P[i].name);
      if ((w & 2) && P[i].ver) want.push_back({"2", P[i]});
      if (w & 4) want.push_back({"D", P[i]});
      if ((w & 1) && P[i].one) want.push_back({"1", P[i]});
    }
    Ran r = cli(args);
    Json p(r.out); std::vector<J> js;
    bool ok = p.all(js);
    MC_CHECK(ok && r.rc == 0, "not JSON: " << p.why << " in " << shown(r.out) << r.err);
    MC_CHECK(js.size() == want.size(), js.size() << " things, not " << want.size());
    for (std::size_t i = 0; i < js.size() && i < want.size(); ++i) {
      const F &f = want[i].second;
      if (want[i].first == "D") { const J *m = js[i].get("md5"); MC_CHECK(m && m->s == md5(f.audio), "another MD5"); }
      else if (want[i].first == "2") {
        std::vector<Fr> v;
        for (auto &x : f.text) { Fr y; y.id = x.first; y.text = x.second; v.push_back(y); }
        for (auto &x : f.comments) { Fr y; y.id = "COMM"; y.text = x; v.push_back(y); }
        for (auto &x : f.counts) { Fr y; y.id = "PCNT"; y.n = x; v.push_back(y); }
        judge(js[i], f.ver, v, f.tag_bytes().size() - 10, f.ver == 4 ? 0 : 5);
      }
      else for (S x : ONES) { const J *v = js[i].get(x); S q = f.v1.count(x) ? f.v1.at(x) : ""; MC_CHECK(v && v->s == q, x << " is '" << (v ? shown(v->s) : "(none)") << "'"); }
    }
    mc::transition(); mc::trace(); mc::outcome("dump");
  }
}

// --- playlists -------------------------------------------------------------------
static S mpeg(std::size_t n)
{
  S f = BL("\xff\xfb\x10\x00"); f.resize(104, 0);        // 32 kbps, 44.1 kHz: 1152 samples in 104 bytes
  S r; while (n--) r += f;
  return r;
}
static S entry(const F &f, std::size_t frames, const S &title)
{ return "#EXTINF:" + mc::str(long(double(frames) * 1152 / 44100 + 0.5)) + "," + title + "\n" + f.path() + "\n"; }

static void c20m()
{
  setlocale(LC_ALL, "");
  // what a file is called
  struct T { S name, a2, t2, a1, t1; int ver; bool one; };
  auto make = [&](const T &t, std::size_t n, const S &name) {
    F f; f.name = name; f.audio = mpeg(n); f.ver = t.ver; f.one = t.one;
    if (t.a2 != "-") f.text["TPE1"] = t.a2;
    if (t.t2 != "-") f.text["TIT2"] = t.t2;
    if (t.a1.size()) f.v1["artist"] = t.a1;
    if (t.t1.size()) f.v1["title"] = t.t1;
    return f;
  };
  auto title = [&](const T &t, const S &name) {
    if (t.ver && t.a2 != "-" && t.t2 != "-" && t.a2.size() && t.t2.size()) return t.a2 + " - " + t.t2;
    if (t.one && t.a1.size() && t.t1.size()) return t.a1 + " - " + t.t1;
    return fs::path(name).stem().string();
  };
  // the text, whatever stands for line breaks
  auto same = [](const S &got, const S &want) {
    S a, b;
    for (std::size_t i = 0; i < want.size(); ++i) { if (want[i] == '\r' && i + 1 < want.size() && want[i+1] == '\n') continue; b += want[i] == '\n' || want[i] == '\r' ? ' ' : want[i]; }
    for (char c : got) a += c;
    if (a == b) return true;
    S c; for (char x : want) c += x == '\n' || x == '\r' ? ' ' : x;
    return a == c;
  };
  auto check = [&](const S &out, const S &head, const std::vector<std::pair<F, std::pair<std::size_t, S>>> &want) {
    MC_CHECK(out.compare(0, head.size(), head) == 0, "it begins " << shown(out) << ", not with " << shown(head));
    if (out.compare(0, head.size(), head)) return;
    std::vector<S> lines; S cur;
    for (char c : out.substr(head.size())) if (c == '\n') { lines.push_back(cur); cur = ""; } else cur += c;
    MC_CHECK(cur.empty() && lines.size() == 2 * want.size(), lines.size() << " lines for " << want.size() << " files: " << shown(out));
    if (lines.size() != 2 * want.size()) return;
    for (std::size_t i = 0; i < want.size(); ++i) {
      S pre = "#EXTINF:" + mc::str(long(double(want[i].second.first) * 1152 / 44100 + 0.5)) + ",";
      MC_CHECK(lines[2*i].compare(0, pre.size(), pre) == 0 && same(lines[2*i].substr(pre.size()), want[i].second.second), "'" << shown(lines[2*i]) << "', not '" << pre << shown(want[i].second.second) << "'");
      MC_CHECK(lines[2*i+1] == want[i].first.path(), "'" << shown(lines[2*i+1]) << "' for the path " << want[i].first.path());
    }
  };
  std::vector<T> P;
  for (int ver : {0, 2, 3, 4}) for (S a2 : {"-", "", "Art", "A,\"B\"", "l1\nl2"}) for (S t2 : {"-", "", "Tit", "x\r\ny"}) for (bool one : {false, true}) for (S a1 : {"", "one"}) for (S t1 : {"", "uno", "q\nr"}) {
    if (!ver && (a2 != "-" || t2 != "-")) continue;
    if (!one && (a1.size() || t1.size())) continue;
    P.push_back({"", a2, t2, a1, t1, ver, one});
  }
  for (auto &t : P) for (std::size_t n : {0u, 3u, 20u}) for (S name : {"a.mp3", "x y.z.mp3", "noext"}) for (int how = 0; how < 3; ++how) {
    F f = make(t, n, name);
    if (!mc::begin([&] { return (how == 0 ? "to stdout " : how == 1 ? "-o " : "-8 -o ") + mc::str(n) + " frames " + f.str(); })) continue;
    wipe(); f.put();
    std::vector<S> args{"m3u"};
    if (how) { args.push_back("-o"); args.push_back("out.m3u"); }
    if (how == 2) args.push_back("-8");
    args.push_back(name);
    Ran r = cli(args);
    MC_CHECK(r.rc == 0, "exit " << r.rc << ": " << r.err);
    check(how ? slurp("out.m3u") : r.out, how ? "#EXTM3U\n" : "", {{f, {n, title(t, name)}}});
    mc::transition(); mc::trace(); mc::outcome("title");
  }
  // several tags: the first that has both
  for (int ver : {2, 3, 4}) for (S a2 : {"-", "Art"}) for (S t2 : {"-", "Tit"}) for (int v2 : {2, 3, 4}) for (S a3 : {"-", "Brt"}) for (S t3 : {"-", "Uit"}) for (S a4 : {"-", "Crt"}) for (S t4 : {"-", "Vit"}) for (bool one : {false, true}) {
    T t{"", a2, t2, one ? "one" : "", one ? "uno" : "", ver, one};
    F f = make(t, 3, "a.mp3");
    S want = one ? "one - uno" : "a";
    int n = 0;
    for (auto x : {std::make_pair(a4, t4), std::make_pair(a3, t3), std::make_pair(a2, t2)}) {
      if (x.first != "-" && x.second != "-") want = x.first + " - " + x.second;
      if (n++ == 2) break;
      std::vector<Frame> fr; int v = n == 1 ? 3 : v2;
      if (x.first != "-") fr.push_back(mk(idof(v, "TPE1"), text_body(v, x.first)));
      if (x.second != "-") fr.push_back(mk(idof(v, "TIT2"), text_body(v, x.second)));
      f.more = encode(tag(v, 2, fr)) + f.more;
    }
    if (!mc::begin([&] { return "three tags " + f.str(); })) continue;
    wipe(); f.put();
    Ran r = cli({"m3u", "a.mp3"});
    MC_CHECK(r.rc == 0, "exit " << r.rc << ": " << r.err);
    check(r.out, "", {{f, {3, want}}});
    mc::transition(); mc::trace(); mc::outcome("several tags");
  }
  // how long it is
  for (std::size_t n = 0; n < (mc::quick ? 200u : 2000u); ++n) for (int one = 0; one < 2; ++one) for (int ver : {0, 3}) {
    T t{"", "A", "B", "A", "B", ver, bool(one)}; if (!ver) { t.a2 = t.t2 = "-"; }
    F f = make(t, n, "a.mp3");
    if (!mc::begin([&] { return mc::str(n) + " frames, 2." + mc::str(ver) + (one ? " v1" : ""); })) continue;
    wipe(); f.put();
    Ran r = cli({"m3u", "a.mp3"});
    check(r.out, "", {{f, {n, title(t, "a.mp3")}}});
    mc::transition(); mc::trace(); mc::outcome("duration");
  }
  // runs in a row: overwriting, appending
  const std::vector<T> Q{{"", "A", "B", "", "", 3, false}, {"", "-", "-", "", "", 0, false}, {"", "-", "-", "o", "p", 0, true}};
  const std::size_t depth = mc::quick ? 3 : 4;
  for (S before : {"(none)", "", "#EXTM3U\n", "#EXTM3U\n#EXTINF:1,x\nx.mp3\n", "x.mp3\n"}) {
    struct Op { bool append; std::vector<int> which; };
    std::vector<Op> ops;
    for (bool ap : {false, true}) for (std::vector<int> w : {std::vector<int>{0}, {1}, {2, 0}, {0, 1, 2}}) ops.push_back({ap, w});
    std::vector<std::size_t> h;
    std::function<void()> rec = [&] {
      if (h.size() && mc::begin([&] { S s = "'" + shown(before) + "'"; for (auto i : h) { s += ops[i].append ? " -a" : " -o"; for (int w : ops[i].which) s += mc::str(w); } return s; })) {
        wipe();
        if (before != "(none)") spew("out.m3u", before);
        std::vector<F> fv; for (std::size_t i = 0; i < Q.size(); ++i) { fv.push_back(make(Q[i], 5 * i, "f" + mc::str(i) + ".mp3")); fv.back().put(); }
        S cur = before == "(none)" ? "" : before;
        for (auto i : h) {
          std::vector<S> args{"m3u", "-o", "out.m3u"}; if (ops[i].append) args.push_back("-a");
          for (int w : ops[i].which) args.push_back(fv[w].name);
          Ran r = cli(args); mc::transition();
          MC_CHECK(r.rc == 0, "exit " << r.rc << ": " << r.err);
          S head = ops[i].append && cur.size() ? cur : "#EXTM3U\n";
          std::vector<std::pair<F, std::pair<std::size_t, S>>> want;
          for (int w : ops[i].which) want.push_back({fv[w], {5 * w, title(Q[w], fv[w].name)}});
          check(slurp("out.m3u"), head, want);
          cur = slurp("out.m3u");
        }
        mc::trace(); mc::state(cur); mc::outcome("history");
      }
      if (h.size() == depth) return;
      for (std::size_t i = 0; i < ops.size(); ++i) { h.push_back(i); rec(); h.pop_back(); }
    };
    rec();
  }
  // directories, and encodings
  for (S arg : {"w", "./w", "w/"}) for (unsigned m = 0; m < 8; ++m) {
    if (!mc::begin("directory " + arg + " with " + mc::str(m))) continue;
    wipe(); fs::create_directories("w/sub");
    std::set<S> want;
    S pre = arg.back() == '/' ? arg : arg + "/";
    for (std::size_t i = 0; i < 3; ++i) if (m >> i & 1) { F f = make(Q[i], 0, S(i == 1 ? "sub/" : "") + "f" + mc::str(i) + ".mp3"); spew("w/" + f.name, f.bytes()); want.insert("#EXTINF:0," + (i == 1 ? S("f1") : title(Q[i], f.name)) + "\n" + pre + f.name + "\n"); }
    Ran r = cli({"m3u", arg});
    std::multiset<S> got; std::istringstream is(r.out); S a, b; while (std::getline(is, a) && std::getline(is, b)) got.insert(a + "\n" + b + "\n");
    MC_CHECK(std::set<S>(got.begin(), got.end()) == want && got.size() == want.size(), "it is " << shown(r.out));
    mc::transition(); mc::trace(); mc::outcome("directory");
  }
  for (S e : {"ISO-8859-1", "CP1252", "ISO-8859-2", "UTF-8"}) for (int ver : {0, 2, 3}) {
    if (!mc::begin("-s " + e + " 2." + mc::str(ver))) continue;
    wipe();
    S raw = e == "UTF-8" ? "\xc3\xa9" : "\xe9", out = "\xc3\xa9";
    S b;
    if (ver) b = encode(tag(ver, 0, {mk(idof(ver, "TPE1"), S(1, 0) + raw), mk(idof(ver, "TIT2"), S(1, 0) + "t" + raw)}));
    else b = "TAG" + fix("t" + raw, 30) + fix(raw, 30) + fix("", 30) + fix("", 4) + fix("", 30) + char(3);
    spew("a.mp3", b);
    Ran r = cli({"m3u", "-8", "-s", e, "-o", "out.m3u", "a.mp3"});
    MC_CHECK(r.rc == 0 && slurp("out.m3u") == "#EXTM3U\n#EXTINF:0," + out + " - t" + out + "\na.mp3\n", "it is " << shown(slurp("out.m3u")) << r.err);
    mc::transition(); mc::trace(); mc::outcome("encoding");
  }
}

static void go()
{
  setenv("LC_ALL", "C.UTF-8", 1);
  scribbu::static_initialize();
  S d = mc::mode + "-" + mc::str(mc::shard);
  fs::create_directories(d); fs::current_path(d);
  if (mc::mode == "c20r") c20r(); else if (mc::mode == "c20j") c20j(); else c20m();
}
int main(int argc, char **argv) { return mc::run(argc, argv, go); }
