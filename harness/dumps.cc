// What is shown of tags & tracks, in the standard format of dump.
//
//   frame   every kind of frame, with every value of each of its fields
//   tag     what is said of a whole tag
//   v1      ID3v1 tags
//   seq     what is printed does not depend on what was printed before
//   stream  histories of streams' settings
//   cmd     the command
#include "cli.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/csv-pprinter.hh>
#include <scribbu/json-pprinter.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/ostream.hh>
#include <scribbu/pprinter.hh>
#include <scribbu/tdf-pprinter.hh>
#include <scribbu/winamp-genres.hh>
#include <openssl/evp.h>
#include <algorithm>
#include <filesystem>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

typedef std::string S;
typedef std::vector<S> V;
namespace fs = std::filesystem;
#define BL(x) S(x, sizeof(x) - 1)

static S shown(const S &s)
{
  S o;
  for (unsigned char c : s) if (c == '\n') o += "\\n"; else if (c < 0x20 || c >= 0x7f) { char b[5]; snprintf(b, 5, "\\x%02x", c); o += b; } else o += c;
  return o.size() > 700 ? o.substr(0, 700) + "..." : o;
}
static S md5(const S &b)
{
  unsigned char d[16]; unsigned n = 0;
  EVP_Digest(b.data(), b.size(), d, &n, EVP_md5(), 0);
  return mc::hex(S((const char*)d, 16));
}
// The first of `want' that cannot be found, each after the one before it
static S missing(const S &s, const V &want)
{
  std::size_t at = 0;
  for (auto &w : want) {
    auto p = s.find(w, at);
    if (p == S::npos) return "'" + shown(w) + "'";
    at = p + w.size();
  }
  return "";
}
static S hex2(const S &b) { return mc::hex(b); }
static S spaced(const S &b) { S o; for (unsigned char c : b) { char x[4]; snprintf(x, 4, "%s%02x", o.empty() ? "" : " ", c); o += x; } return o; }

// --- frames ------------------------------------------------------------------
struct P { Frame f; V want; S what; };
static S idof(int ver, const S &id)
{
  static const std::map<S, S> M{{"TIT2", "TT2"}, {"TPE1", "TP1"}, {"TALB", "TAL"}, {"TXXX", "TXX"}, {"COMM", "COM"}, {"UFID", "UFI"}, {"PCNT", "CNT"},
    {"POPM", "POP"}, {"XTAG", "XTG"}, {"WXYZ", "WXY"}, {"APIC", "PIC"}, {"TRCK", "TRK"}, {"TYER", "TYE"}, {"TCON", "TCO"}, {"TENC", "TEN"}, {"TSRC", "TRC"}, {"TBPM", "TBP"}};
  return ver == 2 ? M.at(id) : id;
}
// a text in UTF-8 (of the basic plane), as stored
static S wide(const S &u, bool le)
{
  S o;
  for (std::size_t i = 0; i < u.size(); ) {
    unsigned char c = u[i]; unsigned x; int n;
    if (c < 0x80) { x = c; n = 1; } else if (c < 0xe0) { x = c & 31; n = 2; } else { x = c & 15; n = 3; }
    for (int k = 1; k < n; ++k) x = x << 6 | (u[i + k] & 63);
    i += n;
    if (le) { o += char(x); o += char(x >> 8); } else { o += char(x >> 8); o += char(x); }
  }
  return o;
}
static bool stored(int enc, const S &u, S &out)
{
  if (enc == 3) { out = u; return true; }
  if (enc == 1) { out = "\xff\xfe" + wide(u, true); return true; }
  if (enc == 2) { out = wide(u, false); return true; }
  out.clear();
  S w = wide(u, false);
  for (std::size_t i = 0; i < w.size(); i += 2) { if (w[i]) return false; out += w[i + 1]; }
  return true;
}
static std::vector<int> encs(int ver) { return ver == 4 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1}; }
static S nul(int enc) { return S(enc == 1 || enc == 2 ? 2 : 1, 0); }
static std::vector<S> TEXTS()
{ return {"Aja", "", "a", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "two\nlines", "a, \"b\"; c/d", "%s%n", " lead", "0x1f", S(300, 'l'), "\xc3\xbf\xc3\xbf"}; }

static S full(int ver, const Frame &f) { return "2." + mc::str(ver) + " " + f.id + " " + mc::hex(f.body.substr(0, 60)) + (f.body.size() > 60 ? "+" + mc::str(f.body.size()) : ""); }
static void push(std::vector<P> &v, int ver, const S &id, const S &body, V want)
{
  want.insert(want.begin(), idof(ver, id));
  want.erase(std::remove(want.begin(), want.end(), S()), want.end());
  P p{mk(idof(ver, id), body), want, ""}; p.what = full(ver, p.f); v.push_back(p);
}
static std::vector<P> all(int ver)
{
  std::vector<P> v;
  auto T = TEXTS(); S a, b;
  for (S id : {"TIT2", "TPE1", "TALB", "TRCK", "TYER", "TCON", "TENC", "TSRC", "TBPM"}) for (int e : encs(ver)) for (auto &t : T)
    if (stored(e, t, a)) push(v, ver, id, S(1, e) + a, {t});
  for (int e : encs(ver)) for (auto &d : T) for (auto &t : T) if (stored(e, d, a) && stored(e, t, b)) {
    push(v, ver, "TXXX", S(1, e) + a + nul(e) + b, {d, t});
    for (S l : {S("eng"), S("fra"), S("zho"), S("QQQ"), BL("\0\0\0"), BL("\xff\x01z")}) {
      if (l != "eng" && l != "fra" && d.size() > 5 && !mc::quick && t.size() > 5) continue;
      S name = l;
      if (l[0] < 'a') { name.clear(); for (unsigned char c : l) { char x[6]; snprintf(x, 6, "%s0x%02x", name.empty() ? "" : ",", c); name += x; } }
      push(v, ver, "COMM", S(1, e) + l + a + nul(e) + b, {name, d, t});
    }
  }
  V D{"", BL("\0"), BL("\x0f\xf0"), BL("\x00\x01\x0a\xff"), "id", S(64, '\x09')};
  for (S o : {"", "own", "http://x/y?z=1"}) {
    for (auto &d : D) push(v, ver, "UFID", o + BL("\0") + d, {o, hex2(d)});
    for (int r : {0, 1, 9, 10, 128, 255}) for (S c : {BL("\0\0\0\0"), BL("\0\0\0\1"), BL("\x01\x0a\xff\0"), BL("\x01\0\0\0\0")})
      push(v, ver, "POPM", o + BL("\0") + char(r) + c, {o, mc::str(r), hex2(c)});
    if (ver > 2) {
      for (int n = 0; n <= 20; ++n) for (int from : {0, 8, 30, 120, 250}) {
        S d; for (int i = 0; i < n; ++i) d += char(from + i);
        S head = d.substr(0, 16), ascii; for (unsigned char c : head) ascii += c > 31 && c < 127 ? char(c) : '.';
        push(v, ver, "PRIV", o + BL("\0") + d, {o, mc::str(n), spaced(head), ">" + ascii + "<"});
      }
      for (int m : {0, 7, 16, 65, 128, 255}) for (auto &d : D) push(v, ver, "ENCR", o + BL("\0") + char(m) + d, {o, mc::str(m), hex2(d)});
    }
  }
  for (unsigned long long n : {0ull, 1ull, 9ull, 10ull, 255ull, 65535ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull}) push(v, ver, "PCNT", be(n, 4), {mc::str(n)});
  for (unsigned long long n : {0x100000000ull, 0x1234567890ull, 0xffffffffffull}) push(v, ver, "PCNT", S(1, char(n >> 32)) + be(n, 4), {mc::str(n)});
  auto kv = [](const S &k, const V &x) { S b; for (auto &s : x) b += s + BL("\0"); return k + BL("\0") + be(b.size(), 4) + b; };
  for (S o : {"", "own", "me@x"}) for (int m = 0; m < 8; ++m) {
    S b; V w{o}; b = be(0, 0);
    std::vector<std::pair<S, V>> all{{"genre", {"rock"}}, {"mood", {"calm", "dark", "sad"}}, {"new", {}}};
    int n = 0;
    for (int i = 0; i < 3; ++i) if (m >> i & 1) { ++n; b += kv(all[i].first, all[i].second); w.push_back(all[i].first); for (auto &x : all[i].second) w.push_back(x); }
    push(v, ver, "XTAG", S(1, 1) + o + BL("\0") + b, w);
  }
  for (S id : {"WXYZ", "APIC"}) for (S b : {S("x"), S(40, 'y'), BL("\xff\0")}) push(v, ver, id, b, {});
  return v;
}
static S text_of(const P &p, int ver, const std::function<void(std::ostream&)> &set)
{
  std::ostringstream o;
  set(o);
  if (ver == 2) o << *make2(p.f); else if (ver == 3) o << *make3(p.f); else o << *make4(p.f);
  return o.str();
}
static void frame()
{
  for (int ver : {2, 3, 4}) {
    auto A = all(ver);
    for (auto &p : A) for (int in : {-1, 0, 4}) {
      if (!mc::begin([&] { return "indent " + mc::str(in) + ": " + p.what + " #" + mc::str(&p - &A[0]); })) continue;
      S s;
      try { s = text_of(p, ver, [&](std::ostream &o) { if (in >= 0) o << pretty_print(in, true, encoding::ASCII, boost::none); }); }
      catch (const std::exception &x) { mc::fail(S("printing it: ") + x.what()); continue; }
      mc::transition(); mc::trace();
      S m = missing(s, p.want);
      MC_CHECK(m.empty(), "no " << m << " in " << shown(s));
      MC_CHECK(!s.empty() && s.back() == '\n', "it does not end its line: " << shown(s));
      // the same within a tag, made and read
      Tag t = tag(ver, 3, {mk(idof(ver, "TIT2"), txt("before")), p.f, mk(idof(ver, "TPE1"), txt("after"))});
      S b = text_of({t.frames[0], {}, ""}, ver, [&](std::ostream &o) { if (in >= 0) o << pretty_print(in, true, encoding::ASCII, boost::none); });
      S a = text_of({t.frames[2], {}, ""}, ver, [&](std::ostream &o) { if (in >= 0) o << pretty_print(in, true, encoding::ASCII, boost::none); });
      for (int k = 0; k < 2; ++k) {
        std::ostringstream o;
        if (in >= 0) o << pretty_print(in, true, encoding::ASCII, boost::none);
        auto q = k ? read(encode(t)) : make(t);
        o << *q;
        mc::transition(); mc::trace();
        S u = o.str();
        auto at = u.rfind(b + s + a);
        MC_CHECK(at != S::npos && at && u[at - 1] == '\n', (k ? "read" : "made") << " in a tag: " << shown(u) << " where the frames are " << shown(b + s + a));
        if (at == S::npos) continue;
        S rest = u.substr(at + (b + s + a).size());
        MC_CHECK(rest.find("3 ") != S::npos && std::count(rest.begin(), rest.end(), '\n') == 1, "after the frames: " << shown(rest));
        mc::state(u);
      }
      mc::outcome(p.f.id);
      mc::sample(p.what);
    }
  }
}

// --- tags --------------------------------------------------------------------
static void tags()
{
  const V ids{"TPE1", "TIT2", "TALB", "TRCK", "TYER", "TCON", "TENC"};   // as they appear
  for (int ver : {2, 3, 4}) for (int m = 0; m < 128; ++m) for (int order = 0; order < 3; ++order) for (int pad : {0, 1, 12, 300})
    for (int fl = 0; fl < 4; ++fl) for (int e : {0, 1}) for (int in : {0, 3}) {
      if (ver == 2 && (fl & 2)) continue;
      if (mc::quick && (in || e) && order) continue;
      if (!mc::begin([&] { return "2." + mc::str(ver) + " fields " + mc::str(m) + " order " + mc::str(order) + " padding " + mc::str(pad) + (fl & 1 ? " unsync" : "") + (fl & 2 ? " exp" : "") + (e ? " UTF-16" : "") + (in ? " indented" : ""); })) continue;
      Tag t; t.ver = ver; t.exp = fl & 2; t.pad = pad;
      V want; S texts[7];
      for (int i = 0; i < 7; ++i) { texts[i] = (i == 4 ? "19" + mc::str(71) : i == 3 ? S("7/12") : "text of " + ids[i]); }
      for (int i = 0; i < 7; ++i) if (m >> i & 1) {
        S a; stored(e, texts[i], a);
        Frame f = mk(idof(ver, ids[i]), S(1, e) + a);
        if (order == 1) t.frames.insert(t.frames.begin(), f); else t.frames.push_back(f);
        if (order == 2) { S b; stored(e, "second " + texts[i], b); t.frames.push_back(mk(f.id, S(1, e) + b)); }   // the first is the one
      }
      S b = encode(t, fl & 1);
      std::unique_ptr<id3v2_tag> q = read(b);
      std::ostringstream o; o << pretty_print(in, true, encoding::ASCII, boost::none) << *q;
      mc::transition(); mc::trace();
      want.push_back("2." + mc::str(ver));
      if (!(ver == 4 && pad) && decode(b).declared == decode(encode(t)).declared) want.push_back(mc::str(decode(encode(t)).declared) + " ");   // the size of padded ID3v2.4 tags: see C20
      want.push_back(((unsigned char)b[5] & 0x80) ? " unsynchronised" : " synchronised");
      { char x[8]; snprintf(x, 8, "0x%02x\n", (unsigned char)b[5] & (ver == 4 ? 0xf0 : ver == 3 ? 0xe0 : 0xc0)); want.push_back(x); }
      for (int i = 0; i < 7; ++i) if (m >> i & 1) want.push_back(texts[i]);
      for (auto &f : t.frames) want.push_back(f.id);
      want.push_back(mc::str(pad) + " ");
      S s = o.str(), x = missing(s, want);
      MC_CHECK(x.empty(), "no " << x << " in " << shown(s));
      // each field that is absent is not made up
      for (int i = 0; i < 7; ++i) if (!(m >> i & 1)) MC_CHECK(s.find(texts[i]) == S::npos, "it has no " << ids[i] << " but: " << shown(s));
      for (std::size_t k = 0; in && k < 4; ++k) {
        std::istringstream is(s); S l; for (std::size_t j = 0; j <= k; ++j) std::getline(is, l);
        MC_CHECK(l.compare(0, 3, "   ") == 0, "line " << k << " is not indented: " << shown(s));
      }
      mc::state(s); mc::outcome(mc::str(m)); mc::sample(shown(s).substr(0, 100));
    }
}

// --- ID3v1 -------------------------------------------------------------------
static bytes v1of(bool enh, const S &title, const S &artist, const S &album, const S &year, const S &comment, int track, int genre, int speed, const S &egenre, const S &from, const S &to)
{
  S b;
  if (enh) b = "TAG+" + fix(title.size() > 30 ? title.substr(30) : "", 60) + fix(artist.size() > 30 ? artist.substr(30) : "", 60) + fix(album.size() > 30 ? album.substr(30) : "", 60) + char(speed) + fix(egenre, 30) + fix(from, 6) + fix(to, 6);
  b += "TAG" + fix(title, 30) + fix(artist, 30) + fix(album, 30) + fix(year, 4);
  b += track < 0 ? fix(comment, 30) : fix(comment, 28) + bytes(1, 0) + char(track);
  return b + char(genre);
}
static S genre_name(int g)
{
  auto x = text_for_genre((unsigned char)g);
  return x ? *x : S();
}
static void judge_v1(bool enh, const S &title, const S &artist, const S &album, const S &year, const S &comment, int track, int genre, int speed, const S &egenre, const S &from, const S &to, bool expand, int in)
{
  S b = v1of(enh, title, artist, album, year, comment, track, genre, speed, egenre, from, to);
  std::istringstream is(b);
  auto q = process_id3v1(is);
  if (!q) { mc::fail("not read"); return; }
  std::ostringstream o; o << pretty_print(in, expand, encoding::ISO_8859_1, boost::none) << *q;
  mc::transition(); mc::trace();
  auto utf = [](const S &x) { S r; for (unsigned char c : x) if (c < 0x80) r += c; else { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); } return r; };
  V w{track >= 0 ? "ID3v1.1" : "ID3v1"};
  for (auto &x : {artist, title, album}) w.push_back(utf(enh ? x : x.substr(0, 30)));
  if (track >= 0) w.push_back(" " + mc::str(track) + ")");
  w.push_back(utf(year)); w.push_back(utf(comment.substr(0, track < 0 ? 30 : 28)));
  if (enh) w.push_back(utf(egenre));
  S g = expand ? genre_name(genre) : mc::str(genre);
  if (g.size()) w.push_back(g); else if (!enh) w.push_back(mc::str(genre));
  if (enh) { w.push_back(utf(from)); w.push_back(to); w.push_back(" " + mc::str(speed) + "\n"); }
  w.erase(std::remove(w.begin(), w.end(), S()), w.end());
  S s = o.str(), m = missing(s, w);
  MC_CHECK(m.empty(), "no " << m << " in " << shown(s));
  MC_CHECK(track >= 0 || (s.find("(track") == S::npos && s.find("ID3v1.1") == S::npos), "it has no track number but: " << shown(s));
  MC_CHECK((s.find("enhanced") != S::npos) == enh, (enh ? "enhanced, which is not said: " : "not enhanced, but: ") << shown(s));
  MC_CHECK(!s.empty() && s.back() == '\n', "it does not end its line");
  mc::state(s); mc::outcome(enh ? "enhanced" : "standard"); mc::sample(shown(s).substr(0, 80));
}
static void v1()
{
  V T{"t", "", S(29, 'a'), S(30, 'b'), S(31, 'c'), S(60, 'd'), S(89, 'e'), S(90, 'f'), "caf\xe9", "two\nlines", "%s", "a-bcd,e"};
  for (int enh = 0; enh < 2; ++enh) for (int field = 0; field < 7; ++field) for (auto &t : T) for (int track : {-1, 1, 9, 12, 255}) for (int in : {0, 3}) for (int ex = 0; ex < 2; ++ex) {
    if (field >= 5 && !enh) continue;
    if (!mc::begin([&] { return S(enh ? "enhanced " : "") + "field " + mc::str(field) + " '" + shown(t) + "' track " + mc::str(track) + (in ? " indented" : "") + (ex ? " expand" : ""); })) continue;
    S f[7] = {"title", "artist", "album", "1999", "comment", "egenre", "001:23"};
    std::size_t lim[7] = {std::size_t(enh ? 90 : 30), std::size_t(enh ? 90 : 30), std::size_t(enh ? 90 : 30), 4, std::size_t(track < 0 ? 30 : 28), 30, 6};
    f[field] = t.substr(0, lim[field]);
    judge_v1(enh, f[0], f[1], f[2], f[3], f[4], track, 17, 2, f[5], f[6], "004:56", ex, in);
  }
  for (int enh = 0; enh < 2; ++enh) for (int g = 0; g < 256; ++g) for (int ex = 0; ex < 2; ++ex) for (int track : {-1, 3}) for (int sp : {0, 1, 4, 255}) {
    if (sp && !enh) continue;
    if (!mc::begin([&] { return S(enh ? "enhanced " : "") + "genre " + mc::str(g) + (ex ? " expand" : "") + " track " + mc::str(track) + " speed " + mc::str(sp); })) continue;
    judge_v1(enh, "title", "artist", "album", "1999", "comment", track, g, sp, "egenre", "000:01", "003:21", ex, 0);
  }
}

// --- sequences ---------------------------------------------------------------
// things that can be printed
// (made when they are first printed, that is within a case)
struct Thing { S name; std::function<std::function<void(std::ostream&)>()> make; std::function<void(std::ostream&)> p;
  void print(std::ostream &o) { if (!p) p = make(); p(o); } };
typedef std::function<void(std::ostream&)> Set_;
static Thing of_frame(int ver, const Frame &f)
{
  return {full(ver, f), [=]() -> Set_ {
    if (ver == 2) { std::shared_ptr<id3v2_2_frame> x = make2(f); return [x](std::ostream &o) { o << *x; }; }
    if (ver == 3) { std::shared_ptr<id3v2_3_frame> x = make3(f); return [x](std::ostream &o) { o << *x; }; }
    std::shared_ptr<id3v2_4_frame> x = make4(f); return [x](std::ostream &o) { o << *x; };
  }, {}};
}
static Thing of_tag(const S &n, const Tag &t) { return {n, [=]() -> Set_ { std::shared_ptr<id3v2_tag> x = read(encode(t)); return [x](std::ostream &o) { o << *x; }; }, {}}; }
static Thing of_track(const S &a) { return {"track of " + mc::str(a.size()), [=]() -> Set_ { std::istringstream is(a); auto x = std::make_shared<track_data>(is); return [x](std::ostream &o) { o << *x; }; }, {}}; }
static Thing of_v1(const S &n, const S &b) { return {n, [=]() -> Set_ { std::istringstream is(b); std::shared_ptr<id3v1_tag> x = process_id3v1(is); return [x](std::ostream &o) { o << *x; }; }, {}}; }
static std::vector<Thing> wholes()
{
  std::vector<Thing> v;
  for (int ver : {2, 3, 4}) {
    v.push_back(of_tag("empty 2." + mc::str(ver), tag(ver, 17, {})));
    v.push_back(of_tag("2." + mc::str(ver), tag(ver, 300, {mk(idof(ver, "TIT2"), txt("title")), mk(idof(ver, "UFID"), BL("o\0\x0a\x01")), mk(idof(ver, "PCNT"), BL("\0\0\0\x1f")), mk(idof(ver, "POPM"), BL("e\0\x1f\0\0\0\x11"))})));
  }
  v.push_back(of_track(S(10, 'x'))); v.push_back(of_track(S(300, 'y')));
  v.push_back(of_v1("v1", v1std("t", -1))); v.push_back(of_v1("v1.1", v1std("t", 30))); v.push_back(of_v1("enhanced", v1enh("t", 31)));
  return v;
}
static void seq()
{
  std::vector<std::pair<S, Set_>> how{
    {"default", [](std::ostream&) {}},
    {"std", [](std::ostream &o) { o << pretty_print(2, true, encoding::ISO_8859_1, boost::none); }},
    {"json", [](std::ostream &o) { o << print_as_json(encoding::ISO_8859_1, boost::none); }},
    {"csv", [](std::ostream &o) { o << print_as_csv(2, encoding::ISO_8859_1); }},
    {"tdf", [](std::ostream &o) { o << print_as_tdf(2, encoding::ISO_8859_1); }}};
  std::vector<Thing> W = wholes(), F;
  for (int ver : {2, 3, 4}) for (auto &f : kinds(ver)) F.push_back(of_frame(ver, f));
  for (auto &h : how) {
    bool rec = h.first == "csv" || h.first == "tdf";
    std::vector<Thing> A = W;
    if (!rec) A.insert(A.end(), F.begin(), F.end());
    std::map<std::size_t, std::pair<bool, S>> one;   // each on a stream of its own
    auto alone = [&](std::size_t i) -> std::pair<bool, S>& {
      auto p = one.find(i);
      if (p == one.end()) {
        std::ostringstream o; h.second(o);
        bool ok = true;
        try { A[i].print(o); } catch (const std::exception&) { ok = false; }
        p = one.insert({i, {ok, o.str()}}).first;
      }
      return p->second;
    };
    std::vector<std::vector<std::size_t>> Q;
    for (std::size_t i = 0; i < A.size(); ++i) {
      Q.push_back({i});
      for (std::size_t j = 0; j < A.size(); ++j) {
        Q.push_back({i, j});
        if (i < W.size() && j < W.size()) for (std::size_t k = 0; k < A.size(); ++k) if (k < W.size() || !mc::quick) Q.push_back({i, j, k});
      }
    }
    for (auto &q : Q) {
      if (!mc::begin([&] { S n = h.first + ":"; for (auto i : q) n += " [" + A[i].name + "]"; return n; })) continue;
      bool all = true; S want;
      for (auto i : q) { all = all && alone(i).first; want += alone(i).second; }
      if (q.size() == 1) MC_CHECK(alone(q[0]).first && alone(q[0]).second.size(), "it cannot be printed");
      if (!all) { mc::outcome("unprintable"); continue; }
      for (int k = 0; k < 2; ++k) {
        std::ostringstream o; h.second(o);
        if (k) o << std::hex << std::setfill('*') << std::left << 255;
        S skip = o.str();
        for (auto i : q) A[i].print(o), mc::transition();
        mc::trace();
        S got = o.str().substr(skip.size());
        if (k) continue;   // no more than that it is printed: the caller's own settings may show
        MC_CHECK(got == want, "together " << shown(got) << " but one by one " << shown(want));
        mc::state(got);
      }
      mc::outcome(h.first);
    }
  }
}

// --- streams -----------------------------------------------------------------
// two streams; each has a printer, an encoding and what it will do with what cannot be encoded
struct St { int pp = 0, enc = 0; };
static void stream()
{
  std::shared_ptr<id3v2_tag> T; std::shared_ptr<id3v2_3_frame> F; std::shared_ptr<id3v1_tag> V1;
  auto imbue = [](std::ostream &o, int p) {
    if (p == 1) o << pretty_print(0, true, encoding::ISO_8859_1, boost::none);
    else if (p == 2) o << pretty_print(4, false, encoding::ISO_8859_2, encoding::ISO_8859_2);
    else if (p == 3) o << print_as_json(encoding::ISO_8859_1, boost::none);
    else if (p == 4) o << print_as_csv(1, encoding::ISO_8859_1);
  };
  auto encode_as = [](std::ostream &o, int e) {
    if (e == 1) o << ienc(encoding::ISO_8859_1, on_no_encoding::fail);
    else if (e == 2) o << ienc(encoding::ASCII, on_no_encoding::ignore);
  };
  auto print = [&](std::ostream &o, int p) -> S {
    S r;
    if (!T) {
      Tag t3 = tag(3, 0, {mk("TIT2", S(1, 0) + "caf\xe9"), mk("TPE1", S(1, 0) + "artist\xe6")});
      std::istringstream is(v1std("caf\xe9\xe6", 3));
      T = read(encode(t3)); F = make3(t3.frames[0]); V1 = process_id3v1(is);
    }
    for (int k = 0; k < 3; ++k) try {
      if (k == 0) o << *T; else if (k == 1 && p != 4) o << *F; else if (k == 2 && p) o << *V1;
    } catch (const std::exception &) { r += "!"; }
    return r;
  };
  // what each setting prints, on a stream of its own that has known no other
  std::map<std::pair<int, int>, S> known;
  auto ref = [&](int p, int e) -> S {
    if (!known.count({p, e})) { std::ostringstream o; if (p) imbue(o, p); if (e) encode_as(o, e); S r = print(o, p); known[{p, e}] = o.str() + r; }
    return known[{p, e}];
  };
  if (mc::begin("the settings differ")) {
    for (int p = 0; p < 5; ++p) for (int e = 0; e < 3; ++e) {
      if (p == 3 && e) continue;   // JSON is in UTF-8
      S s = ref(p, e), c = e == 0 ? "caf\xc3\xa9" : e == 1 ? "caf\xe9" : "caf";
      MC_CHECK(s.find(c) != S::npos, "printer " << p << ", encoding " << e << ": " << shown(s));
      MC_CHECK(e == 0 || s.find("\xc3\xa9") == S::npos, "printer " << p << ", encoding " << e << ": " << shown(s));
      MC_CHECK(e != 2 || s.find("\xe9") == S::npos, "printer " << p << ", encoding " << e << ": " << shown(s));
      if (!e) for (S a : {"artist", "caf\xc3\xa9"}) MC_CHECK(s.find(a + (p == 2 ? "\xc4\x87" : "\xc3\xa6")) != S::npos || (!p && a[0] == 'c'), "printer " << p << ": " << shown(s));
      for (int q = 0; q < p; ++q) MC_CHECK((p == 1 || ref(q, e) != s), "printers " << p << " & " << q << " print the same");
      mc::transition(); mc::outcome(mc::str(p));
    }
  }
  // 0-3 imbue a, 4-5 encoding of a, 6 imbue b, 7 encoding of b, 8 a := b, 9 b := a, 10 swap, 11 a anew, 12 b anew, 13 print a, 14 print b
  static const char *N[] = {"a std", "a indented", "a json", "a csv", "a latin1", "a ascii", "b json", "b latin1", "copy b to a", "copy a to b", "swap", "new a", "new b", "print a", "print b"};
  const int ops = 15, depth = mc::quick ? 4 : 5;
  std::vector<int> h;
  std::function<void()> rec = [&] {
    if (!h.empty() && mc::begin([&] { S n; for (int x : h) n += (n.empty() ? "" : ", ") + S(N[x]); return n; })) {
      std::unique_ptr<std::ostringstream> a(new std::ostringstream), b(new std::ostringstream);
      St A, B;
      auto look = [&](std::ostringstream &o, const St &s, const char *n) {
        o.str("");
        S r = print(o, s.pp), got = o.str() + r;
        MC_CHECK((got == ref(s.pp, s.enc)), n << " prints " << shown(got) << " not " << shown(ref(s.pp, s.enc)));
      };
      for (int x : h) {
        mc::transition();
        if (x < 4) { imbue(*a, x + 1); A.pp = x + 1; }
        else if (x < 6) { encode_as(*a, x - 3); A.enc = x - 3; }
        else if (x == 6) { imbue(*b, 3); B.pp = 3; }
        else if (x == 7) { encode_as(*b, 1); B.enc = 1; }
        else if (x == 8) { a->copyfmt(*b); A = B; }
        else if (x == 9) { b->copyfmt(*a); B = A; }
        else if (x == 10) { a->swap(*b); std::swap(A, B); }
        else if (x == 11) { a.reset(new std::ostringstream); A = St(); }
        else if (x == 12) { b.reset(new std::ostringstream); B = St(); }
        else if (x == 13) look(*a, A, "a");
        else look(*b, B, "b");
      }
      look(*a, A, "a"); look(*b, B, "b");
      b.reset();
      look(*a, A, "a");
      mc::trace();
      mc::state(mc::str(A.pp) + "," + mc::str(A.enc) + "," + mc::str(B.pp) + "," + mc::str(B.enc));
      mc::outcome(mc::str(A.pp) + "/" + mc::str(B.pp));
    }
    if ((int)h.size() == depth) return;
    for (int x = 0; x < ops; ++x) { h.push_back(x); rec(); h.pop_back(); }
  };
  rec();
}

// --- the command -------------------------------------------------------------
static void cmd()
{
  struct F { S name, data; V v2, tr, v1; };
  std::vector<F> fs_;
  auto add = [&](const S &n, const Set &tags, const S &audio, const S &v1, V v2w, V v1w) {
    F f; f.name = n; f.data = enc(tags) + audio + v1; f.v2 = v2w; f.v1 = v1w; f.tr = {mc::str(audio.size()) + " ", md5(audio)}; fs_.push_back(f);
  };
  add("a.mp3", {tag(3, 7, {mk("TIT2", txt("title of a")), mk("PRIV", BL("priv@a\0\x01\x02"))})}, S(50, 'a'), v1std("v1 of a", 3), {"ID3v2.3", "title of a", "PRIV", "priv@a", "01 02"}, {"ID3v1.1", "v1 of a"});
  add("b.mp3", {tag(2, 0, {mk("TT2", txt("first of b"))}), tag(4, 0, {mk("TIT2", txt("second of b")), mk("PRIV", BL("priv@b\0\x03")), mk("XTAG", BL("\1owner of b\0"))})}, S(61, 'b'), "", {"ID3v2.2", "first of b", "ID3v2.4", "second of b", "priv@b", "owner of b"}, {});
  add("sub/c.mp3", {}, S(72, 'c'), v1enh("v1 of c", -1), {}, {"ID3v1", "v1 of c", "egenre"});
  add("sub/d.ogg", {tag(4, 0, {mk("TIT2", S(1, 3) + "title of d")})}, "", v1std("v1 of d", -1), {"ID3v2.4", "title of d"}, {"ID3v1", "v1 of d"});
  add("e e.mp3", {}, "", "", {}, {});
  for (int m = 1; m < 32; ++m) for (int sel = 0; sel < 8; ++sel) for (int in : {0, 4}) for (int g = 0; g < 2; ++g) for (int rx = 0; rx < 4; ++rx) for (int as = 0; as < 2; ++as) {
    if (as == 1 && (in || g)) continue;
    V args{"dump"}, files;
    if (sel & 1) args.push_back(in ? "--id3v2-tags" : "-2");
    if (sel & 2) args.push_back(in ? "--track-data" : "-D");
    if (sel & 4) args.push_back(in ? "--id3v1-tags" : "-1");
    if (in) { args.push_back("-i"); args.push_back(mc::str(in)); }
    if (g) args.push_back("-g");
    if (rx) { args.push_back("-e"); args.push_back(rx == 1 ? ".*mp3" : rx == 2 ? ".*/?[bd]\\..*" : "mp3"); }
    std::vector<std::size_t> in_;
    for (std::size_t i = 0; i < 5; ++i) if (m >> i & 1) in_.push_back(i);
    if (as) args.push_back("."); else for (auto i : in_) args.push_back(fs_[i].name);
    if (!mc::begin([&] { S n; for (auto &a : args) n += (n.empty() ? "" : " ") + a; if (as) { n += " of"; for (auto i : in_) n += " " + fs_[i].name; } return n; })) continue;
    wipe();
    for (auto i : in_) { fs::create_directories("sub"); spew(fs_[i].name, fs_[i].data); }
    Ran r = cli(args);
    mc::transition(); mc::trace();
    MC_CHECK(r.rc == 0 && r.err.empty(), "it returned " << r.rc << ": " << r.err);
    // divide the output by file
    std::vector<std::pair<std::size_t, std::size_t>> at;
    for (auto i : in_) {
      S key = "\"" + S(as ? "./" : "") + fs_[i].name + "\":\n";
      auto p = r.out.find(key);
      bool wanted = rx == 0 || (rx == 1 && i != 3) || (rx == 2 && (i == 1 || i == 3));
      MC_CHECK((p != S::npos) == wanted, fs_[i].name << (wanted ? " is not shown: " : " is shown: ") << shown(r.out));
      if (p != S::npos) {
        MC_CHECK(r.out.find(key, p + 1) == S::npos, fs_[i].name << " is shown twice");
        at.push_back({p, i});
      }
    }
    auto sorted = at; std::sort(sorted.begin(), sorted.end());
    if (!as) MC_CHECK(sorted == at, "the files are not in the order given: " << shown(r.out));
    for (std::size_t k = 0; k < sorted.size(); ++k) {
      const F &f = fs_[sorted[k].second];
      S part = r.out.substr(sorted[k].first, k + 1 < sorted.size() ? sorted[k + 1].first - sorted[k].first : S::npos);
      V w;
      int s = sel ? sel : 7;
      if (s & 1) w.insert(w.end(), f.v2.begin(), f.v2.end());
      if (s & 2) w.insert(w.end(), f.tr.begin(), f.tr.end());
      if (s & 4) w.insert(w.end(), f.v1.begin(), f.v1.end());
      if ((s & 4) && f.v1.size()) w.push_back(g ? " 17" : "Rock");
      if (g && (s & 4) && f.v1.size()) w.back() = "17";
      S x = missing(part, w);
      MC_CHECK(x.empty(), "no " << x << " in " << shown(part));
      if (!(s & 1)) MC_CHECK(part.find("ID3v2") == S::npos, "ID3v2 tags are shown: " << shown(part));
      if (!(s & 2)) MC_CHECK(part.find(f.tr[1]) == S::npos, "track data are shown: " << shown(part));
      if (!(s & 4)) MC_CHECK(part.find("ID3v1") == S::npos, "an ID3v1 tag is shown: " << shown(part));
      if (f.v1.empty()) MC_CHECK(part.find("ID3v1") == S::npos, "there is no ID3v1 tag but: " << shown(part));
    }
    for (auto i : in_) MC_CHECK(slurp(fs_[i].name) == fs_[i].data, fs_[i].name << " has changed");
    mc::state(r.out.substr(0, 0) + mc::str(m) + "/" + mc::str(sel) + "/" + mc::str(rx)); mc::outcome(mc::str(sel));
  }
  // all sequences of three runs in different formats
  const std::vector<V> runs{{"dump", "a.mp3"}, {"dump", "-i", "3", "a.mp3"}, {"dump", "-f", "json", "a.mp3"}, {"dump", "-f", "csv", "a.mp3"}, {"dump", "-g", "a.mp3"}, {"dump", "-1", "a.mp3"}, {"report", "-o", "x.csv", "a.mp3"}, {"dump", "nosuch"}};
  std::vector<int> h;
  std::vector<Ran> alone;
  auto strip = [](S s) { auto p = s.find("Last Modified"); while (p != S::npos) { s.erase(p, s.find('\n', p) - p); p = s.find("Last Modified"); } return s; };
  std::function<void()> rec = [&] {
    if (h.size() == 3) {
      if (!mc::begin([&] { S n = "runs"; for (int x : h) { n += " |"; for (auto &a : runs[x]) n += " " + a; } return n; })) return;
      wipe(); spew("a.mp3", fs_[0].data);
      if (alone.empty()) for (auto &a : runs) { alone.push_back(cli(a)); }
      for (int x : h) {
        Ran r = cli(runs[x]); mc::transition();
        MC_CHECK(r.rc == alone[x].rc && strip(r.out) == strip(alone[x].out), runs[x][1] << " after others: " << shown(r.out));
      }
      mc::trace(); mc::outcome("runs"); return;
    }
    for (std::size_t x = 0; x < runs.size(); ++x) { h.push_back(x); rec(); h.pop_back(); }
  };
  rec();
}

static void go()
{
  setenv("LC_ALL", "C.UTF-8", 1);
  scribbu::static_initialize();
  S d = mc::mode + "-" + mc::str(mc::shard);
  fs::create_directories(d); fs::current_path(d);
  if (mc::mode == "frame") frame(); else if (mc::mode == "tag") tags(); else if (mc::mode == "v1") v1();
  else if (mc::mode == "seq") seq(); else if (mc::mode == "stream") stream(); else cmd();
}
int main(int argc, char **argv) { return mc::run(argc, argv, go); }
