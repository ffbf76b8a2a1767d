// C16: text through conversions and frames, against encoders of our own for the
// Unicode encodings, ASCII and Latin-1 and iconv driven directly for the others.
#include "mc.hh"
#include <scribbu/charsets.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#include <algorithm>
#include <iconv.h>
#include <locale>

using namespace scribbu;
typedef std::string bytes;
typedef std::u32string text_t;

#define ENCODINGS(F) \
  F(ASCII) F(ISO_8859_1) F(ISO_8859_2) F(ISO_8859_3) F(ISO_8859_4) F(ISO_8859_5) F(ISO_8859_7) F(ISO_8859_9) F(ISO_8859_10) \
  F(ISO_8859_13) F(ISO_8859_14) F(ISO_8859_15) F(ISO_8859_16) F(KOI8_R) F(KOI8_U) F(KOI8_RU) F(CP1250) F(CP1251) F(CP1252) \
  F(CP1253) F(CP1254) F(CP1257) F(CP850) F(CP866) F(CP1131) F(MacRoman) F(MacCentralEurope) F(MacIceland) F(MacCroatian) \
  F(MacRomania) F(MacCyrillic) F(MacUkraine) F(MacGreek) F(MacTurkish) F(Macintosh) F(ISO_8859_6) F(ISO_8859_8) F(CP1255) \
  F(CP1256) F(CP862) F(MacHebrew) F(MacArabic) F(EUC_JP) F(SHIFT_JIS) F(CP932) F(ISO_2022_JP) F(ISO_2022_JP_2) F(ISO_2022_JP_1) \
  F(ISO_2022_JP_MS) F(EUC_CN) F(HZ) F(GBK) F(CP936) F(GB18030) F(EUC_TW) F(BIG5) F(CP950) F(BIG5_HKSCS) F(BIG5_HKSCS_2004) \
  F(BIG5_HKSCS_2001) F(BIG5_HKSCS_1999) F(ISO_2022_CN) F(ISO_2022_CN_EXT) F(EUC_KR) F(CP949) F(ISO_2022_KR) F(JOHAB) F(ARMSCII_8) \
  F(Georgian_Academy) F(Georgian_PS) F(KOI8_T) F(PT154) F(RK1048) F(TIS_620) F(CP874) F(MacThai) F(MuleLao_1) F(CP1133) F(VISCII) \
  F(TCVN) F(CP1258) F(HP_ROMAN8) F(NEXTSTEP) F(UTF_8) F(UCS_2) F(UCS_2BE) F(UCS_2LE) F(UCS_4) F(UCS_4BE) F(UCS_4LE) F(UTF_16) \
  F(UTF_16BE) F(UTF_16LE) F(UTF_32) F(UTF_32BE) F(UTF_32LE) F(UTF_7) F(C99) F(JAVA)

struct Enc {
  encoding e; bytes name;
  bool wide;                    // not of single chars, by the library's own lights
  bool known;                   // to the system
};
static std::vector<Enc> encs;
static bytes name_of(bytes s)
{
  std::replace(s.begin(), s.end(), '_', '-');
  if (s.compare(0, 11, "BIG5-HKSCS-") == 0) s[10] = ':';
  return s;
}
static std::vector<iconv_t> held;    // keeps the system's modules loaded
static void init()
{
#define F(x) encs.push_back({ encoding::x, name_of(#x), false, false });
  ENCODINGS(F)
#undef F
  for (auto &x : encs) {
    bytes n = x.name.substr(0, 3);
    x.wide = n == "UCS" || n == "C99" || n == "JAV" || (n == "UTF" && x.name != "UTF-8");
    iconv_t a = iconv_open(x.name.c_str(), "UTF-32LE"), b = iconv_open("UTF-32LE", x.name.c_str());
    x.known = a != iconv_t(-1) && b != iconv_t(-1);
    if (a != iconv_t(-1)) held.push_back(a);
    if (b != iconv_t(-1)) held.push_back(b);
  }
}
static const Enc &enc(encoding e) { for (auto &x : encs) if (x.e == e) return x; abort(); }

static void u8(bytes &r, char32_t c)
{
  if (c < 0x80) r += char(c);
  else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
  else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
}
static bytes u8(const text_t &t) { bytes r; for (char32_t c : t) u8(r, c); return r; }
static void unit(bytes &r, std::uint32_t x, int n, bool big)
{
  for (int i = 0; i < n; ++i) r += char(x >> 8 * (big ? n - 1 - i : i));
}
static bytes u32(const text_t &t, bool big = false) { bytes r; for (char32_t c : t) unit(r, c, 4, big); return r; }
static bool u16(const text_t &t, bool big, bool ucs2, bytes &r)
{
  for (char32_t c : t)
    if (c < 0x10000) unit(r, c, 2, big);
    else if (ucs2) return false;
    else { unit(r, 0xd800 + ((c - 0x10000) >> 10), 2, big); unit(r, 0xdc00 + ((c - 0x10000) & 0x3ff), 2, big); }
  return true;
}
static bool big_end(const bytes &n) { return n.size() > 2 && n.substr(n.size() - 2) == "BE"; }

// All of a text through iconv, properly: in one piece, with the end flushed
static bool direct(const bytes &to, const bytes &from, const bytes &in, bytes &out)
{
  iconv_t cd = iconv_open(to.c_str(), from.c_str());
  if (cd == iconv_t(-1)) return false;
  out.assign(in.size() * 40 + 100, 0);
  bytes copy = in;
  char *p = &copy[0], *q = &out[0];
  std::size_t n = in.size(), m = out.size();
  std::size_t r, was;
  do { was = n; r = iconv(cd, &p, &n, &q, &m); } while (r == std::size_t(-1) && errno == EILSEQ && n && n < was);
  if (r == std::size_t(-1) && errno == EILSEQ && n == 0) r = 0;   // told to ignore, and did
  if (r != std::size_t(-1)) r = iconv(cd, nullptr, nullptr, &q, &m);
  iconv_close(cd);
  if (r == std::size_t(-1)) return false;
  out.resize(q - out.data());
  return true;
}

static bool exact(const Enc &x)         // done by ourselves below
{
  return (x.name.compare(0, 2, "UT") == 0 && x.name != "UTF-7") || x.name.compare(0, 2, "UC") == 0 || x.name == "ASCII" || x.name == "ISO-8859-1";
}
// The text in an encoding; false if that cannot be
static bool encode(const Enc &x, const text_t &t, bytes &r)
{
  r.clear();
  const bytes &n = x.name;
  if (n == "UTF-8") { r = u8(t); return true; }
  if (n == "ASCII" || n == "ISO-8859-1") {
    for (char32_t c : t) { if (c > (n == "ASCII" ? 0x7f : 0xff)) return false; r += char(c); }
    return true;
  }
  if (n == "UCS-2" || n == "UCS-2LE" || n == "UCS-2BE") return u16(t, big_end(n), true, r);
  if (n == "UTF-16") r = "\xff\xfe";
  if (n.compare(0, 6, "UTF-16") == 0) return u16(t, big_end(n), false, r);
  if (n == "UTF-32") r = bytes("\xff\xfe\0\0", 4);
  if (n.compare(0, 6, "UTF-32") == 0) { r += u32(t, big_end(n)); return true; }
  if (n == "UCS-4" || n == "UCS-4BE") { r = u32(t, true); return true; }
  if (n == "UCS-4LE") { r = u32(t); return true; }
  return direct(n, "UTF-32LE", u32(t), r);
}
static bytes bom(const Enc &x)
{
  const bytes &n = x.name;
  if (n == "UTF-8") return "\xef\xbb\xbf";
  if (n == "UCS-2" || n == "UCS-2LE" || n == "UTF-16LE") return "\xff\xfe";
  if (n == "UCS-2BE" || n == "UTF-16BE") return "\xfe\xff";
  if (n == "UCS-4LE" || n == "UTF-32LE") return bytes("\xff\xfe\0\0", 4);
  if (n == "UCS-4" || n == "UCS-4BE" || n == "UTF-32BE") return bytes("\0\0\xfe\xff", 4);
  return bytes();               // none to add: not Unicode, or there anyway
}
static bytes trim(bytes s) { while (!s.empty() && (s.back() == 0 || s.back() == ' ')) s.pop_back(); return s; }
static bytes unbom(const bytes &s) { return s.compare(0, 3, "\xef\xbb\xbf") == 0 ? s.substr(3) : s; }

struct Res { bool ok; bytes b; std::string err; };
template <typename F> static Res attempt(F f)
{
  mc::transition();
  try { auto v = f(); return { true, bytes(v.begin(), v.end()), "" }; }
  catch (const std::exception &e) { return { false, "", e.what() }; }
}
static std::string show(const Res &r) { return r.ok ? mc::hex(r.b) : "error: " + r.err; }
static void same(const std::string &what, const Res &got, bool ok, const bytes &want)
{
  MC_CHECK(got.ok == ok && (!ok || got.b == want), what << " gives " << show(got) << ", should be " << (ok ? mc::hex(want) : "an error"));
  mc::outcome(ok ? "converted" : "refused");
  static unsigned long n;
  if (n++ % 100003 == 0) mc::sample(what + ": " + show(got));
}

static const on_no_encoding POL[] = { on_no_encoding::fail, on_no_encoding::transliterate, on_no_encoding::ignore };
static const char *POLN[] = { "fail", "translit", "ignore" };

static void texts(const std::vector<char32_t> &alpha, std::size_t len, const std::function<void(const text_t&)> &f)
{
  std::function<void(text_t&)> go = [&](text_t &t) {
    f(t);
    if (t.size() == len) return;
    for (char32_t c : alpha) { t += c; go(t); t.pop_back(); }
  };
  text_t t; go(t);
}
static std::string id(const text_t &t)
{
  std::string s; char b[12];
  if (t.size() > 8 && std::count(t.begin(), t.end(), t[0]) == long(t.size())) { snprintf(b, 12, "%x*", unsigned(t[0])); return b + mc::str(t.size()); }
  for (char32_t c : t) { snprintf(b, 12, "%s%x", s.empty() ? "" : ".", unsigned(c)); s += b; }
  return s.empty() ? "-" : s;
}

// text (in encoding s, which is of chars) to anything, in a vector
static void to_any(const Enc &s, const Enc &d, const text_t &t, bool add, int pol)
{
  bytes in, want;
  if (!encode(s, t, in) || (t.empty() && !in.empty())) return;
  if (!mc::begin([&] { return "any " + s.name + " " + d.name + " " + id(t) + (add ? " bom " : " ") + POLN[pol]; })) return;
  Res got = attempt([&] { return convert_encoding(in, s.e, d.e, add, POL[pol]); });
  mc::trace();
  if (in.empty()) { same("nothing", got, true, ""); return; }
  bool ok = d.known && s.known && (exact(s) || exact(d) ? encode(d, t, want) : direct(d.name, s.name, in, want));
  if (ok) {
    same("conversion", got, true, (add ? bom(d) : bytes()) + want);
    // and back
    if (t.find(U'﻿') == text_t::npos) {
      bytes chk;
      if (exact(d) || (direct("UTF-8", d.name, want, chk) && chk == u8(t))) {
        // a mark is text to encodings that name a byte order; UTF-8 has it removed
        bytes back = want;
        Res r = attempt([&] { return convert_encoding<std::string>((const unsigned char*)back.data(), back.size(), d.e, encoding::UTF_8); });
        same("back", r, true, trim(unbom(u8(t))));
        if (add && exact(d)) {
          r = attempt([&] { return convert_encoding<std::string>((const unsigned char*)got.b.data(), got.b.size(), d.e, encoding::UTF_8); });
          same("back, with the mark", r, true, trim(u8(t)));
        }
      }
    }
  }
  else if (!pol || !d.known || !s.known) same("conversion", got, false, "");
  else if (pol == 1) {
    bool tr = direct(d.name + "//TRANSLIT", s.name, in, want);
    same("transliteration", got, tr, (add ? bom(d) : bytes()) + want);
  }
  else {
    text_t u;
    for (char32_t c : t) { bytes b; if (encode(d, text_t(1, c), b)) u += c; }
    encode(d, u, want);
    same("ignoring conversion", got, true, (add ? bom(d) : bytes()) + want);
  }
}

// bytes in any encoding to text of chars
static void to_chars(const Enc &s, const Enc &d, const bytes &in, int pol, const std::string &what)
{
  if (!mc::begin([&] { return "chars " + s.name + " " + d.name + " " + what + " " + POLN[pol]; })) return;
  Res got = attempt([&] { return convert_encoding<std::string>(in.data(), in.size(), s.e, d.e, POL[pol]); });
  mc::trace();
  if (d.wide) { same("conversion", got, false, ""); return; }
  if (in.empty()) { same("nothing", got, true, ""); return; }
  bytes want;
  bool ok = direct(d.name + (pol == 1 ? "//TRANSLIT" : pol == 2 ? "//IGNORE" : ""), s.name, in, want);
  if (d.name == "UTF-8") want = unbom(want);
  same("conversion", got, ok, trim(want));
}

////////////////////////////////////////////////////////////////////////////////
// frames and tags

// what a reader makes of an encoding byte and text
static bool understand(int ver, int e, bytes b, text_t &t)
{
  t.clear();
  bool big = e == 2;
  switch (e) {
  case 0: for (unsigned char c : b) t += c; return true;
  case 2: if (ver < 4) return false; // fall through
  case 1:
    if (b.size() % 2) return false;
    if (b.compare(0, 2, "\xfe\xff") == 0) { big = true; b.erase(0, 2); }
    else if (b.compare(0, 2, "\xff\xfe") == 0) { big = false; b.erase(0, 2); }
    for (std::size_t i = 0; i < b.size(); i += 2) {
      char32_t c = big ? (unsigned char)b[i] << 8 | (unsigned char)b[i+1] : (unsigned char)b[i+1] << 8 | (unsigned char)b[i];
      if (c >= 0xd800 && c < 0xdc00 && ver == 4 && i + 3 < b.size()) {
        i += 2;
        char32_t l = big ? (unsigned char)b[i] << 8 | (unsigned char)b[i+1] : (unsigned char)b[i+1] << 8 | (unsigned char)b[i];
        c = 0x10000 + ((c - 0xd800) << 10) + (l - 0xdc00);
      }
      t += c;
    }
    return true;
  case 3: {
    if (ver < 4) return false;
    bytes w;
    if (!direct("UTF-32LE", "UTF-8", unbom(b), w)) return false;
    for (std::size_t i = 0; i < w.size(); i += 4) t += char32_t((unsigned char)w[i] | (unsigned char)w[i+1] << 8 | (unsigned char)w[i+2] << 16);
    return true;
  }
  }
  return false;
}
static bytes body(const id3v2_2_frame &f) { std::ostringstream s; f.write(s, false); return s.str().substr(6); }
static bytes body(const id3v2_3_frame &f) { std::ostringstream s; f.write(s, false); return s.str().substr(10); }
static bytes body(const id3v2_4_frame &f) { std::ostringstream s; f.write(s, false); return s.str().substr(10); }
static text_t cut(text_t t) { while (!t.empty() && (t.back() == 0 || t.back() == ' ')) t.pop_back(); return t; }

static void stored(int ver, const bytes &b, const text_t &t, const std::string &what)
{
  text_t u;
  MC_CHECK(!b.empty() && understand(ver, (unsigned char)b[0], b.substr(1), u) && u == t, what << " stored as " << mc::hex(b) << ": not the text");
}
// reading a text frame in several ways
template <typename F> static void reading(const F &f, const text_t &t, const std::string &what)
{
  for (encoding d : { encoding::UTF_8, encoding::ISO_8859_1, encoding::ASCII, encoding::SHIFT_JIS, encoding::UTF_16 }) {
    const Enc &x = enc(d);
    bytes want;
    if (x.wide && t.empty()) continue;
    Res r = attempt([&] { return f.template as_str<std::string>(d); });
    bool ok = t.empty() || (!x.wide && encode(x, t, want));
    same(what + " read as " + x.name, r, ok, trim(d == encoding::UTF_8 ? unbom(want) : want));
  }
}
static const std::vector<char32_t> &source_texts()
{
  static const std::vector<char32_t> A = { 'A', ' ', 0xe9, 0xfe, 0xff, 0x100, 0x20ac, 0x3042, 0x1f600, 0 };
  return A;
}
static const encoding SRC[] = { encoding::UTF_8, encoding::ISO_8859_1, encoding::CP1252, encoding::SHIFT_JIS, encoding::ISO_2022_JP, encoding::CP1258 };

// does the frame format have an encoding for the text?
static bool room(int ver, const text_t &t)
{
  if (ver == 4) return true;
  for (char32_t c : t) if (c > 0xffff) return false;
  return true;
}

template <typename T> static bytes written(const T &t) { std::ostringstream s; t.write(s); return s.str(); }

typedef void (id3v2_tag::*Set)(const std::string&, encoding, bool, on_no_encoding);
typedef std::string (id3v2_tag::*Get)(encoding, on_no_encoding, const boost::optional<encoding>&) const;
struct Field { const char *name; Set set; Get get; id3v2_text_frames id; };
#define FIELD(n, i) { #n, (Set)&id3v2_tag::n, (Get)&id3v2_tag::n, id3v2_text_frames::i }

static void frames_v24(const text_t &t, const Enc &s, bool add)
{
  typedef id3v2_4_text_frame::frame_encoding FE;
  static const struct { FE fe; const char *n; encoding e; int b; } FES[] = {
    { FE::ISO_8859_1, "Latin-1", encoding::ISO_8859_1, 0 }, { FE::UTF_16_BOM, "UTF-16", encoding::UTF_16, 1 },
    { FE::UTF_16_BE, "UTF-16BE", encoding::UTF_16BE, 2 }, { FE::UTF_8, "UTF-8", encoding::UTF_8, 3 } };
  bytes in;
  if (!encode(s, t, in)) return;
  for (auto &fe : FES)
    for (int how = 0; how < 2; ++how) {
      if (!mc::begin([&] { return std::string("frame 2.4 ") + (how ? "set " : "made ") + fe.n + " " + s.name + " " + id(t) + (add ? " bom" : ""); })) continue;
      bytes want;
      bool ok = encode(enc(fe.e), t, want) || t.empty();
      std::unique_ptr<id3v2_4_text_frame> p;
      if (how) p.reset(new id3v2_4_text_frame("TIT2", std::string("before"), encoding::UTF_8, FE::UTF_8));
      bytes was = how ? body(*p) : bytes();
      Res r = attempt([&] {
        if (how) p->set(in, s.e, fe.fe, add);
        else p.reset(new id3v2_4_text_frame("TIT2", in, s.e, fe.fe, add));
        return bytes();
      });
      MC_CHECK(r.ok == ok, (how ? "set() " : "constructor ") << (r.ok ? "does not fail" : "fails: " + r.err));
      if (ok) {
        bytes b = body(*p);
        if (!t.empty()) {
          want = (add ? bom(enc(fe.e)) : bytes()) + want;
          MC_CHECK(b == bytes(1, char(fe.b)) + want, "stored as " << mc::hex(b) << ", should be " << fe.b << " and " << mc::hex(want));
        }
        stored(4, b, t, "text");
        reading(*p, t, "text");
      }
      else if (how) MC_CHECK(body(*p) == was, "changed, though refused: " << mc::hex(body(*p)));
      mc::trace();
    }
}
template <typename F, typename M> static void frames_v23(int ver, M make, const text_t &t, const Enc &s, bool add)
{
  bytes in;
  if (!encode(s, t, in)) return;
  for (int how = 0; how < 3; ++how) {
    static const char *HOW[] = { "set", "made Latin-1", "made UCS-2" };
    if (!mc::begin([&] { return "frame 2." + mc::str(ver) + " " + HOW[how] + " " + s.name + " " + id(t) + (add ? " bom" : ""); })) continue;
    bytes x;
    bool ok = how == 1 ? encode(enc(encoding::ISO_8859_1), t, x) : encode(enc(encoding::UCS_2), t, x);
    std::unique_ptr<F> p;
    if (!how) p = make(std::string("before"), encoding::UTF_8, false, false);
    bytes was = how ? bytes() : body(*p);
    Res r = attempt([&] {
      if (how) p = make(in, s.e, add, how == 2); else p->set(in, s.e, add);
      return bytes();
    });
    MC_CHECK(r.ok == (ok || t.empty()), HOW[how] << (r.ok ? " does not fail" : " fails: " + r.err));
    if (ok) {
      bytes b = body(*p);
      if (how == 2 && !t.empty()) MC_CHECK(b == "\x01" + (add ? bytes("\xff\xfe") : bytes()) + x, "stored as " << mc::hex(b));
      else if (b[0] == 1 && !t.empty()) MC_CHECK((b.compare(1, 2, "\xff\xfe") == 0) == add, "byte-order mark: " << mc::hex(b));
      if (how == 1) MC_CHECK(b[0] == 0, "not Latin-1: " << mc::hex(b));
      stored(ver, b, t, "text");
      reading(*p, t, "text");
    }
    else if (!how) MC_CHECK(body(*p) == was, "changed, though refused: " << mc::hex(body(*p)));
    mc::trace();
  }
}

// what others wrote
static void foreign(int ver, const text_t &t)
{
  struct W { int e; encoding x; bool b; const char *n; };
  static const W WS[] = { { 0, encoding::ISO_8859_1, false, "Latin-1" }, { 1, encoding::UTF_16LE, true, "LE, marked" }, { 1, encoding::UTF_16BE, true, "BE, marked" },
                          { 2, encoding::UTF_16BE, false, "BE" }, { 2, encoding::UTF_16BE, true, "BE marked" }, { 3, encoding::UTF_8, false, "UTF-8" }, { 3, encoding::UTF_8, true, "UTF-8 marked" } };
  for (auto &w : WS) {
    if (ver < 4 && w.e > 1) continue;
    bytes b;
    if (!encode(enc(ver < 4 && w.e ? encoding::UCS_2 : w.x), t, b)) continue;
    if (ver < 4 && w.e) { b.clear(); u16(t, w.x == encoding::UTF_16BE, true, b); }
    if (w.b) b = bom(enc(w.x)) + b;
    if (!mc::begin([&] { return "foreign 2." + mc::str(ver) + " " + w.n + " " + id(t); })) continue;
    bytes all = bytes(1, char(w.e)) + b;
    const unsigned char *p = (const unsigned char*)all.data(), *q = p + all.size();
    std::string what = mc::hex(all);
    if (ver == 2) reading(id3v2_2_text_frame("TT2", p, q), t, what);
    else if (ver == 3) reading(id3v2_3_text_frame("TIT2", p, q, id3v2_3_frame::tag_alter_preservation::preserve, id3v2_3_frame::file_alter_preservation::preserve,
                                                  id3v2_3_frame::read_only::clear, boost::none, boost::none, boost::none), t, what);
    else reading(id3v2_4_text_frame("TIT2", p, q, id3v2_4_frame::tag_alter_preservation::preserve, id3v2_4_frame::file_alter_preservation::preserve,
                                    id3v2_4_frame::read_only::clear, boost::none, boost::none, false, false, boost::none), t, what);
    mc::trace();
  }
}

// the fields of whole tags, over nothing or another text
static std::unique_ptr<id3v2_tag> make_tag(int ver)
{
  switch (ver) {
  case 2: return std::unique_ptr<id3v2_tag>(new id3v2_2_tag(0));
  case 3: return std::unique_ptr<id3v2_tag>(new id3v2_3_tag(0));
  default: return std::unique_ptr<id3v2_tag>(new id3v2_4_tag(0));
  }
}
static std::unique_ptr<id3v2_tag> again(const id3v2_tag &t)
{
  std::stringstream s; t.write(s);
  std::unique_ptr<id3v2_tag> p = maybe_read_id3v2(s);
  MC_CHECK(p.get(), "not read back");
  return p;
}
static void tag_fields(int ver, const text_t &t, const Enc &s, bool add, const text_t *before)
{
  static const Field FS[] = { FIELD(title, tit2), FIELD(album, talb), FIELD(artist, tpe1), FIELD(content_type, tcon), FIELD(encoded_by, tenc),
                              FIELD(languages, tlan), FIELD(track, trck), FIELD(year, tyer) };
  bytes in;
  if (!encode(s, t, in)) return;
  for (auto &f : FS)
    for (int via = 0; via < 2; ++via) {
      if (&f != FS && (t.size() > 1 || s.e != encoding::UTF_8)) continue;
      if (!mc::begin([&] { return "tag 2." + mc::str(ver) + " " + f.name + (via ? " text() " : " ") + s.name + " " + id(t) + (add ? " bom" : "") + (before ? " over " + id(*before) : ""); })) continue;
      std::unique_ptr<id3v2_tag> p = make_tag(ver);
      if (before) (p.get()->*f.set)(u8(*before), encoding::UTF_8, false, on_no_encoding::fail);
      bytes was = written(*p);
      Res r = attempt([&] {
        if (via) p->text(f.id, in, s.e, add, on_no_encoding::fail); else (p.get()->*f.set)(in, s.e, add, on_no_encoding::fail);
        return bytes();
      });
      bool ok = room(ver, t);
      MC_CHECK(r.ok == ok, "setting it " << (r.ok ? "does not fail" : "fails: " + r.err));
      if (ok)
        for (int k = 0; k < 2; ++k) {
          if (k) p = again(*p);
          Res g = attempt([&] { return (p.get()->*f.get)(encoding::UTF_8, on_no_encoding::fail, boost::none); });
          same(k ? "read back" : "got", g, true, trim(u8(t)));
          g = attempt([&] { return p->text(f.id); });
          same(k ? "text() read back" : "text()", g, true, trim(u8(t)));
        }
      else MC_CHECK(written(*p) == was, "changed, though refused");
      mc::trace();
    }
}

// comments and user-defined texts
static bytes the_frame(int ver, const id3v2_tag &t)     // the body of the only frame
{
  bytes b = written(t);
  std::size_t h = ver == 2 ? 6 : 10, n = ver == 2 ? (unsigned char)b[13] << 16 | (unsigned char)b[14] << 8 | (unsigned char)b[15]
    : ver == 3 ? (unsigned char)b[14] << 24 | (unsigned char)b[15] << 16 | (unsigned char)b[16] << 8 | (unsigned char)b[17]
    : (unsigned char)b[14] << 21 | (unsigned char)b[15] << 14 | (unsigned char)b[16] << 7 | (unsigned char)b[17];
  MC_CHECK(10 + h + n <= b.size(), "frame of " << n << " bytes in " << b.size());
  return b.substr(10 + h, n);
}
static bool two(int ver, const bytes &b, text_t &d, text_t &t)   // encoding, description, nil, text
{
  int e = (unsigned char)b[0];
  std::size_t w = e == 1 || e == 2 ? 2 : 1, i = 1;
  while (i + w <= b.size() && !(b[i] == 0 && (w == 1 || b[i+1] == 0))) i += w;
  return i + w <= b.size() && understand(ver, e, b.substr(1, i - 1), d) && understand(ver, e, b.substr(i + w), t);
}
template <typename F> static void two_read(const F &f, const text_t &d, const text_t &t)
{
  same("description()", attempt([&] { return f.template description<std::string>(); }), true, trim(u8(d)));
  same("text()", attempt([&] { return f.template text<std::string>(); }), true, trim(u8(t)));
}
static void comments_etc(int ver, const text_t &d, const text_t &t, const Enc &s)
{
  bytes din, tin;
  if (d.find(U'\0') != text_t::npos || !encode(s, t, tin) || !encode(s, d, din)) return;
  static const struct { use_unicode u; const char *n; } US[] = { { use_unicode::no, "Latin-1" }, { use_unicode::yes, "Unicode" }, { use_unicode::with_bom, "marked" } };
  for (auto &u : US)
    for (int kind = 0; kind < 2; ++kind) {
      if (!mc::begin([&] { return (kind ? "user text 2." : "comment 2.") + mc::str(ver) + " " + u.n + " " + s.name + " " + id(d) + " " + id(t); })) continue;
      auto p = make_tag(ver);
      Res r = attempt([&] {
        if (kind) p->add_user_defined_text(tin, s.e, u.u, din); else p->add_comment(tin, language::eng, s.e, u.u, din);
        return bytes();
      });
      bytes x;
      bool ok = u.u == use_unicode::no ? encode(enc(encoding::ISO_8859_1), d + t, x) : room(ver, d + t);
      MC_CHECK(r.ok == ok, "adding it " << (r.ok ? "does not fail" : "fails: " + r.err));
      if (!ok) { MC_CHECK(p->num_frames() == 0, "a frame is there, though refused"); mc::trace(); continue; }
      bytes b = the_frame(ver, *p);
      bytes rest = kind ? b : b.substr(0, 1) + b.substr(4);
      text_t gd, gt;
      if (!kind) MC_CHECK(b.substr(1, 3) == "eng", "language: " << mc::hex(b));
      MC_CHECK(two(ver, rest, gd, gt) && gd == d && gt == t, "stored as " << mc::hex(b));
      MC_CHECK((b[0] == 0) == (u.u == use_unicode::no), "encoding: " << mc::hex(b));
      const unsigned char *q = (const unsigned char*)b.data(), *e = q + b.size();
      if (ver == 2) { if (kind) two_read(TXX(q, e), d, t); else two_read(COM(q, e), d, t); }
      else if (ver == 3) {
        typedef id3v2_3_frame F;
        if (kind) two_read(TXXX(q, e, F::tag_alter_preservation::preserve, F::file_alter_preservation::preserve, F::read_only::clear, boost::none, boost::none, boost::none), d, t);
        else two_read(COMM(q, e, F::tag_alter_preservation::preserve, F::file_alter_preservation::preserve, F::read_only::clear, boost::none, boost::none, boost::none), d, t);
      }
      else {
        typedef id3v2_4_frame F;
        if (kind) two_read(TXXX_2_4(q, e, F::tag_alter_preservation::preserve, F::file_alter_preservation::preserve, F::read_only::clear, boost::none, boost::none, false, false, boost::none), d, t);
        else two_read(COMM_2_4(q, e, F::tag_alter_preservation::preserve, F::file_alter_preservation::preserve, F::read_only::clear, boost::none, boost::none, false, false, boost::none), d, t);
      }
      mc::trace();
    }
}

// ID3v1
static void v1(const text_t &t, const Enc &s, const Enc &d, bool enh)
{
  bytes in, want;
  if (!encode(s, t, in)) return;
  if (!mc::begin([&] { return std::string(enh ? "v1+ " : "v1 ") + s.name + " " + d.name + " " + id(t); })) return;
  struct F { const char *n; std::size_t w; };
  for (int k = 0; k < 5; ++k) {
    static const char *N[] = { "title", "artist", "album", "comment", "enhanced genre" };
    id3v1_tag tag(true, enh);
    std::size_t w = k == 3 ? 28 : k == 4 ? 30 : enh ? 90 : 30;
    boost::optional<encoding> de(d.e);
    Res r = attempt([&] {
      switch (k) {
      case 0: tag.set_title<std::string>(in, s.e, de); break;
      case 1: tag.set_artist<std::string>(in, s.e, de); break;
      case 2: tag.set_album<std::string>(in, s.e, de); break;
      case 3: tag.set_comment<std::string>(in, s.e, de); break;
      case 4: tag.set_enh_genre<std::string>(in, s.e, de); break;
      }
      return bytes();
    });
    bool ok = t.empty() || encode(d, t, want);
    MC_CHECK(r.ok == ok, N[k] << (r.ok ? " is taken" : " is refused: " + r.err));
    if (!ok || want.size() > w) continue;
    bytes raw;
    switch (k) {
    case 0: tag.title(std::back_inserter(raw)); break;
    case 1: tag.artist(std::back_inserter(raw)); break;
    case 2: tag.album(std::back_inserter(raw)); break;
    case 3: tag.comment(std::back_inserter(raw)); break;
    case 4: tag.enh_genre(std::back_inserter(raw)); break;
    }
    bytes full = want; full.resize(w, 0);
    MC_CHECK(raw == full, N[k] << " is stored as " << mc::hex(raw));
    bytes chk;
    if (!direct("UTF-8", d.name, want, chk) || chk != u8(t)) continue;
    Res g = attempt([&] {
      switch (k) {
      case 0: return tag.title<std::string>(de);
      case 1: return tag.artist<std::string>(de);
      case 2: return tag.album<std::string>(de);
      case 3: return tag.comment<std::string>(de);
      default: return tag.enh_genre<std::string>(de);
      }
    });
    same(N[k], g, true, trim(u8(t)));
  }
  mc::trace();
}

static void body_()
{
  init();
  if (mc::mode == "convert") {
    const Enc &U8 = enc(encoding::UTF_8);
    // the names
    for (auto &x : encs)
      if (mc::begin("name " + x.name)) {
        encoding e = encoding::MAX_ENCODING;
        Res r = attempt([&] { return mc::str(x.e); });
        same("its name", r, true, x.name);
        std::istringstream s(x.name);
        r = attempt([&] { s >> e; return bytes(); });
        MC_CHECK(r.ok && e == x.e, "the name stands for another encoding");
        mc::trace();
      }
    for (auto n : { "C", "C.UTF-8", "C.utf8", "POSIX" })
      if (mc::begin(std::string("locale ") + n)) {
        try { std::locale::global(std::locale(n)); } catch (const std::runtime_error&) { mc::outcome("no such locale"); continue; }
        Res r = attempt([&] { return mc::str(encoding_from_system_locale()); });
        same("its encoding", r, true, "UTF-8");
        std::locale::global(std::locale::classic());
        mc::trace();
      }

    const std::vector<char32_t> A = { 'A', ' ', 0, 0xe9, 0xfe, 0xff, 0x20ac, 0x301, 0x1a1, 0x3042, 0x1f600 };
    const std::vector<char32_t> B = { 'A', 0xe9, 0xfe, 0xff, 0x20ac, 0x301, 0x416, 0x3042, 0x4e2d, 0xd55c, 0xe01, 0x1f600, ' ' };
    for (auto &d : encs)
      for (int add = 0; add < 2; ++add)
        for (int pol = 0; pol < 3; ++pol) {
          texts(A, mc::quick ? 3 : 4, [&](const text_t &t) { mc::state_hash(mc::hash(d.name + id(t))); to_any(U8, d, t, add, pol); });
          for (text_t t : { text_t(U"ï»¿x"), text_t(U"﻿"), text_t(U"﻿x"), text_t(U"x﻿"), text_t(U"þÿ\0\0x", 5), text_t(U"\0\0þÿx", 5) })
            to_any(U8, d, t, add, pol);
          // lengths: room for the result
          for (char32_t c : B)
            for (std::size_t n = 4; n <= (mc::quick ? 40 : 300); ++n) to_any(U8, d, text_t(n, c), add, pol);
          for (std::size_t n : { 2039, 2040, 2041, 4097, 9001 }) for (char32_t c : { U'A', U'é', U'あ' }) to_any(U8, d, text_t(n, c), add, pol);
        }
    // every other kind of source, to vectors and from any to chars
    for (auto &s : encs)
      for (auto &d : encs) {
        if (!s.wide && s.e != encoding::UTF_8)
          texts(B, mc::quick ? 1 : 2, [&](const text_t &t) { for (int add = 0; add < 2; ++add) to_any(s, d, t, add, 0); });
        texts(B, d.wide ? 1 : mc::quick ? 2 : 3, [&](const text_t &t) {
          bytes in;
          if (encode(s, t, in)) for (int pol = 0; pol < (t.size() < 2 ? 3 : 1); ++pol) to_chars(s, d, in, pol, id(t));
        });
        for (text_t t : { text_t(U"ï»¿x"), text_t(U"﻿"), text_t(U"﻿x"), text_t(U"þÿx") }) {
          bytes in;
          if (encode(s, t, in)) to_chars(s, d, in, 0, id(t));
        }
        for (char32_t c : { U'A', U'é', U'あ', U'한' }) {
          bytes in;
          for (std::size_t n : { 5, 16, 17, 40, 100 }) if (encode(s, text_t(n, c), in)) to_chars(s, d, in, 0, id(text_t(n, c)));
        }
      }
  }
  else if (mc::mode == "malformed") {
    // any bytes at all: what the system can convert is converted and the rest is refused
    std::vector<unsigned char> W = { 0, 0x1b, ' ', '$', 'A', 'B', '~', '{', 0x80, 0x81, 0x8e, 0x90, 0xa1, 0xb0, 0xbf, 0xc3, 0xd8, 0xdc, 0xe3, 0xed, 0xef, 0xf0, 0xf4, 0xfe, 0xff };
    if (!mc::quick)
      for (int c : std::vector<int>{ '(', '+', '-', 0x5c, 0x7f, 0x8f, 0x9f, 0xa0, 0xa4, 0xbb, 0xc0, 0xcc, 0xd7, 0xe0, 0xea, 0xf5, 0xf8, 0xfc }) W.push_back(c);
    auto in_w = [&](int c) { return std::find(W.begin(), W.end(), c) != W.end(); };
    for (auto &s : encs)
      for (encoding de : { encoding::UTF_8, encoding::ISO_8859_1 }) {
        const Enc &d = enc(de);
        for (int a = 0; a < 256; ++a) to_chars(s, d, bytes(1, char(a)), 0, "bytes " + mc::hex(bytes(1, char(a))));
        bool all = s.e == encoding::UTF_8 || !mc::quick;
        for (int a = 0; a < 65536; ++a) {
          if (!all && !(in_w(a >> 8) && in_w(a & 255))) continue;
          bytes b; b += char(a >> 8); b += char(a);
          to_chars(s, d, b, 0, "bytes " + mc::hex(b));
        }
        if (de != encoding::UTF_8) continue;
        for (unsigned char a : W) for (unsigned char b : W) for (unsigned char c : W) {
          if (mc::quick && s.e != encoding::UTF_8 && !s.wide && !(a == 0x1b || a >= 0x80)) continue;
          bytes x; x += char(a); x += char(b); x += char(c);
          to_chars(s, d, x, 0, "bytes " + mc::hex(x));
        }
        bool four = s.e == encoding::UTF_8 || s.e == encoding::UTF_16 || s.e == encoding::UTF_16BE || s.e == encoding::UTF_16LE || s.e == encoding::GB18030
          || s.e == encoding::UTF_32 || s.e == encoding::UTF_32BE || s.e == encoding::UCS_4;
        if (!four) continue;
        for (unsigned char a : W) for (unsigned char b : W) for (unsigned char c : W) for (unsigned char e : W) {
          if (!(a >= 0xd7 || a == 0 || a == 0x81)) continue;
          bytes x; x += char(a); x += char(b); x += char(c); x += char(e);
          to_chars(s, d, x, 0, "bytes " + mc::hex(x));
        }
      }
    // malformed source for vectors
    for (int a = 0; a < 65536; ++a)
      for (encoding de : { encoding::UTF_8, encoding::ISO_8859_1, encoding::UCS_2, encoding::UTF_16, encoding::UTF_32 }) {
        bytes b; b += char(a >> 8); b += char(a);
        if (!mc::begin([&] { return "from UTF-8 bytes " + mc::hex(b) + " to " + enc(de).name; })) continue;
        Res got = attempt([&] { return convert_encoding(b, encoding::UTF_8, de); });
        bytes want;
        bool ok = direct(enc(de).name, "UTF-8", b, want);
        same("conversion", got, ok, want);
        mc::trace();
      }
  }
  else {
    const std::vector<char32_t> &A = source_texts();
    for (encoding se : SRC) {
      const Enc &s = enc(se);
      std::size_t len = se == encoding::UTF_8 ? (mc::quick ? 3 : 4) : (mc::quick ? 2 : 3);
      texts(A, len, [&](const text_t &t) {
        for (int add = 0; add < 2; ++add) {
          mc::state_hash(mc::hash(s.name + id(t)));
          frames_v24(t, s, add);
          frames_v23<id3v2_2_text_frame>(2, [](const std::string &x, encoding e, bool b, bool u) {
            return std::unique_ptr<id3v2_2_text_frame>(new id3v2_2_text_frame("TT2", x, e, b, on_no_encoding::fail, u)); }, t, s, add);
          frames_v23<id3v2_3_text_frame>(3, [](const std::string &x, encoding e, bool b, bool u) {
            return std::unique_ptr<id3v2_3_text_frame>(new id3v2_3_text_frame("TIT2", x, e, b, on_no_encoding::fail, u)); }, t, s, add);
          static const text_t B1 = U"old", B2 = U"あい";
          for (int ver = 2; ver < 5; ++ver)
            for (const text_t *b : { (const text_t*)nullptr, &B1, &B2 }) tag_fields(ver, t, s, add, b);
        }
        for (encoding d : { encoding::ASCII, encoding::ISO_8859_1, encoding::CP1251, encoding::SHIFT_JIS, encoding::ISO_2022_JP, encoding::UTF_8 })
          for (int enh = 0; enh < 2; ++enh) v1(t, s, enc(d), enh);
      });
      // lengths about the width of the fields
      for (char32_t c : { U'A', U'é', U'あ' })
        for (std::size_t n = 4; n <= 92; ++n)
          for (encoding d : { encoding::ISO_8859_1, encoding::SHIFT_JIS, encoding::UTF_8 })
            for (int enh = 0; enh < 2; ++enh) v1(text_t(n, c), s, enc(d), enh);
      for (int ver = 2; ver < 5; ++ver)
        texts(A, mc::quick && se != encoding::UTF_8 ? 1 : 2, [&](const text_t &d) { texts(A, 2, [&](const text_t &t) { comments_etc(ver, d, t, s); }); });
    }
    for (int ver = 2; ver < 5; ++ver)
      texts(A, mc::quick ? 3 : 4, [&](const text_t &t) { foreign(ver, t); });
  }
}

int main(int argc, char **argv) { return mc::run(argc, argv, body_); }
