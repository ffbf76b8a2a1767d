// Reading bytes nobody vouches for: every way in, every stream setting.
//
//   c08   under the sanitizers
//   c08u  without them: every reading done twice, with memory filled
//         differently; a difference means something not read was used
#include "mc.hh"
#include "id3.hh"
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/mp3.hh>
#include <scribbu/scribbu.hh>
#include <scribbu/csv-pprinter.hh>
#include <scribbu/tdf-pprinter.hh>
#include <scribbu/json-pprinter.hh>
#include <cstring>
#include <cstdlib>
#include <new>

using namespace scribbu;
using id3::bytes;
using id3::Frame;
typedef std::string S;
typedef std::ios_base::iostate IOS;
#define BL(x) S(x, sizeof(x) - 1)

static bool twice = false;
#ifdef VERIF_FILL
static unsigned char fill = 0;
void *operator new(std::size_t n)
{ void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (n < (1u << 20)) std::memset(p, fill, n); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
static void __attribute__((noinline)) smear(unsigned char c)
{
  volatile unsigned char a[32768];
  for (std::size_t i = 0; i < sizeof a; ++i) a[i] = c;
  __asm__ volatile("" : : "r"(a) : "memory");
}
#endif

// --- what is asked of a stream -------------------------------------------

struct Ctx { std::istream &is; std::streamoff start, end; std::ostringstream out; S err; };
struct Entry { const char *name; bool tags, audio; std::function<void(Ctx&)> run; };

static std::streamoff pos(std::istream &is)
{
  IOS m = is.exceptions(); is.exceptions(std::ios_base::goodbit);
  std::streamoff p = is.fail() ? -2 : std::streamoff(is.tellg());
  is.exceptions(m);
  return p;
}

// Ask a tag for everything
static void interrogate(const id3v2_tag &t, std::ostream &o)
{
  auto guard = [&](std::function<void()> f) { try { f(); } catch (const std::exception &e) { o << " !" << e.what(); } };
  o << id3::describe(t);
  guard([&]() { o << " " << t.size() << " " << t.size(true) << " " << t.needs_unsynchronisation() << int(t.flags()) << int(t.revision()); });
  for (int u = 0; u < 2; ++u) guard([&]() { std::ostringstream w; t.write(w, u); o << " w" << mc::hex(w.str()); });
  guard([&]() { o << t.album(); }); guard([&]() { o << t.artist(); }); guard([&]() { o << t.title(); }); guard([&]() { o << t.content_type(); });
  guard([&]() { o << t.year(); }); guard([&]() { o << t.track(); }); guard([&]() { o << t.play_count(); });
  guard([&]() { std::ostringstream w; w << t; o << w.str(); });
  guard([&]() { std::ostringstream w; w << print_as_csv(2); w << t; o << w.str(); });
  guard([&]() { std::ostringstream w; w << print_as_json(); w << t; o << w.str(); });
  guard([&]() { std::ostringstream w; w << print_as_tdf(2); w << t; o << w.str(); });
  guard([&]() { std::unique_ptr<id3v2_tag> c(t.clone()); o << id3::describe(*c); });
}
static bool quiet = false;     // skip the interrogation (where only the stream matters)
static void show(const id3v2_tag &t, std::ostream &o) { if (quiet) o << id3::describe(t); else interrogate(t, o); }

static void show1(const id3v1_tag &t, std::ostream &o)
{
  auto guard = [&](std::function<void()> f) { try { f(); } catch (const std::exception &e) { o << " !" << e.what(); } };
  auto raw = [&](auto f) { std::vector<unsigned char> v; f(std::back_inserter(v)); o << mc::hex(v) << "|"; };
  raw([&](auto p) { t.title(p); }); raw([&](auto p) { t.artist(p); }); raw([&](auto p) { t.album(p); }); raw([&](auto p) { t.comment(p); }); raw([&](auto p) { t.year(p); });
  o << int(t.genre()) << t.v1_1() << t.extended() << int(t.track_number().first ? t.track_number().second : 0) << " " << t.size();
  if (t.extended()) { raw([&](auto p) { t.enh_genre(p); }); raw([&](auto p) { t.start_time(p); }); raw([&](auto p) { t.end_time(p); }); o << int(t.speed().second); }
  guard([&]() { std::ostringstream w; t.write(w); o << mc::hex(w.str()); });
  guard([&]() { o << t.title<S>() << t.artist<S>() << t.album<S>() << t.comment<S>() << t.year<S>(); });
  guard([&]() { std::ostringstream w; w << t; o << w.str(); });
  guard([&]() { std::ostringstream w; w << print_as_csv(2); w << t; o << w.str(); });
  guard([&]() { std::ostringstream w; w << print_as_json(); w << t; o << w.str(); });
  guard([&]() { std::ostringstream w; w << print_as_tdf(2); w << t; o << w.str(); });
}

// where a tag that was read successfully must end
static bytes header_there(Ctx &c)
{
  std::streamoff here = pos(c.is);
  IOS m = c.is.exceptions(); c.is.exceptions(std::ios_base::goodbit);
  char h[10] = {0};
  c.is.seekg(c.start); c.is.read(h, 10);
  c.is.clear(); c.is.seekg(here);
  c.is.exceptions(m);
  return bytes(h, 10);
}
static int version_there(Ctx &c) { return header_there(c)[3]; }
static std::streamoff tag_end(Ctx &c)
{
  bytes h = header_there(c);
  std::streamoff n = 10 + id3::unsyncsafe(h.substr(6, 4));
  if (h[3] == 4 && (h[5] & 0x10)) n += 10;
  return c.start + n;
}
static void expect_at(Ctx &c, std::streamoff want, const char *when)
{
  std::streamoff p = pos(c.is);
  if (p != want && c.err.empty()) c.err = S("stream is at ") + std::to_string(p) + ", not " + std::to_string(want) + ", " + when;
}

template <typename Tag, int V> static void ctor(Ctx &c)
{
  Tag t(c.is);
  if (version_there(c) == V) expect_at(c, tag_end(c), "after reading a tag");
  show(t, c.out);
}

static const std::vector<Entry> &entries()
{
  static const std::vector<Entry> E{
    {"looking_at_id3v2", true, false, [](Ctx &c) {
      id3v2_info i = looking_at_id3v2(c.is);
      c.out << i.present_;
      if (i.present_) c.out << int(i.version_) << int(i.revision_) << int(i.flags_) << " " << i.size_;
      expect_at(c, c.start, "after looking");
    }},
    {"looking_at_id3v2(false)", true, false, [](Ctx &c) {
      id3v2_info i = looking_at_id3v2(c.is, false);
      c.out << i.present_;
      expect_at(c, c.start + (i.present_ ? 10 : 0), "after looking");
    }},
    {"maybe_read_id3v2", true, false, [](Ctx &c) {
      auto p = maybe_read_id3v2(c.is);
      if (p) { expect_at(c, tag_end(c), "after reading a tag"); show(*p, c.out); } else { c.out << "none"; expect_at(c, c.start, "having found no tag"); }
    }},
    {"read_id3v2(0)", true, false, [](Ctx &c) {
      auto p = read_id3v2(c.is, 0);
      expect_at(c, tag_end(c), "after reading a tag");
      show(*p, c.out);
    }},
    {"read_id3v2(1)", true, false, [](Ctx &c) { auto p = read_id3v2(c.is, 1); c.out << id3::describe(*p); }},
    {"read_all_id3v2", true, false, [](Ctx &c) {
      std::vector<std::unique_ptr<id3v2_tag>> v;
      read_all_id3v2(c.is, std::back_inserter(v));
      c.out << v.size() << " at " << pos(c.is);
      if (v.empty()) expect_at(c, c.start, "having found no tag");
      if (v.size() == 1) expect_at(c, tag_end(c), "after reading a tag");
    }},
    {"id3v2_2_tag", true, false, ctor<id3v2_2_tag, 2>},
    {"id3v2_3_tag", true, false, ctor<id3v2_3_tag, 3>},
    {"id3v2_4_tag", true, false, ctor<id3v2_4_tag, 4>},
    {"ends_in_id3v1", false, false, [](Ctx &c) { id3v1_info i = ends_in_id3v1(c.is); c.out << int(i.type_); if (i.type_ != id3_v1_tag_type::none) c.out << " " << i.start_ << " " << i.end_; expect_at(c, c.start, "after looking"); }},
    {"process_id3v1", false, false, [](Ctx &c) {
      auto p = process_id3v1(c.is);
      c.out << (p ? "tag " : "none ");
      if (p) show1(*p, c.out);
      expect_at(c, c.start, "after looking");
    }},
    {"id3v1_tag", false, false, [](Ctx &c) { id3v1_tag t(c.is); show1(t, c.out); }},
    {"track_data", true, true, [](Ctx &c) { track_data t(c.is); unsigned char m[16]; t.get_md5(m); auto d = t.duration(); c.out << t.size() << " " << mc::hex(m, 16) << " " << (d ? *d : -1.0); }},
    {"get_mp3_duration", false, true, [](Ctx &c) { c.out << get_mp3_duration(c.is) << " at " << pos(c.is); }},
    {"find_sync", false, true, [](Ctx &c) { find_sync(c.is); c.out << pos(c.is); }},
    {"mp3_audio_frame", false, true, [](Ctx &c) { mp3_audio_frame f(c.is, false); c.out << f.bps() << " " << f.sample_rate_hz() << " " << f.size() << " " << f.duration().first; }},
    {"mp3_audio_frame(vbr)", false, true, [](Ctx &c) { mp3_audio_frame f(c.is, true); auto v = f.vbri(); c.out << f.size(); if (v) c.out << " " << v->first << " " << v->second; }},
  };
  return E;
}

static const IOS MASKS[] = {
  std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit,
  std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit };

static S attempt(const Entry &e, const bytes &b, std::streamoff at, IOS mask, S &result)
{
  std::istringstream is(b);
  is.seekg(at);
  is.exceptions(mask);
  Ctx c{is, at, std::streamoff(b.size()), {}, {}};
  S err;
  try { e.run(c); }
  catch (const std::exception &x) { c.out << " threw " << x.what(); mc::outcome(S(e.name) + " throws"); }
  catch (...) { return S(e.name) + " threw something that is not an exception"; }
  mc::transition();
  result = c.out.str();
  if (is.exceptions() != mask) return S(e.name) + " left the stream's exceptions as " + std::to_string(int(is.exceptions())) + ", they were " + std::to_string(int(mask)) + " (" + result.substr(0, 80) + ")";
  return c.err.empty() ? S() : S(e.name) + ", exceptions " + std::to_string(int(mask)) + ": " + c.err;
}
static void reads(const bytes &b, std::streamoff at, int which, bool masks)   // which: 1 tags, 2 ID3v1, 4 audio
{
  for (auto &e : entries()) {
    if (!((which & 1 && e.tags) || (which & 2 && !e.tags && !e.audio) || (which & 4 && e.audio))) continue;
    for (IOS m : MASKS) {
      if (!masks && (m == MASKS[1] || m == MASKS[2])) continue;
      if (twice && m != MASKS[0]) continue;
      quiet = m != MASKS[0];
      S r1, r2;
#ifdef VERIF_FILL
      fill = 0x55; smear(0x55);
#endif
      S err = attempt(e, b, at, m, r1);
      if (!err.empty()) { mc::fail(err); return; }
      mc::state_hash(mc::hash(S(e.name) + r1));
#ifdef VERIF_FILL
      fill = 0xaa; smear(0xaa);
      attempt(e, b, at, m, r2);
      if (r1 != r2) {
        std::size_t i = 0; while (i < r1.size() && i < r2.size() && r1[i] == r2[i]) ++i;
        std::size_t k = i > 40 ? i - 40 : 0;
        mc::fail(S(e.name) + " gives something that depends on what was in memory: ..." + r1.substr(k, 120) + "... / ..." + r2.substr(k, 120)); return;
      }
#endif
    }
  }
  mc::trace();
}
static void one(const S &id, const bytes &b, int which, bool masks = true, std::streamoff at = 0)
{
  if (!mc::begin(id)) return;
  reads(b, at, which, masks);
}

// --- inputs --------------------------------------------------------------

static const char *ID2[] = {"UFI", "TXX", "COM", "CNT", "POP", "XTG", "TT2", "TCO", "WXY", "PIC", "ULT", "CRM", "ZZZ"};
static const char *ID4[] = {"UFID", "ENCR", "TXXX", "COMM", "PCNT", "POPM", "XTAG", "PRIV", "TIT2", "TCON", "WXYZ", "APIC", "USLT", "ZZZZ"};
static std::vector<S> ids(int ver)
{
  if (ver == 2) return std::vector<S>(std::begin(ID2), std::end(ID2));
  return std::vector<S>(std::begin(ID4), std::end(ID4));
}
static bytes header(int ver, int rev, int flags, const bytes &size4) { return bytes("ID3") + char(ver) + char(rev) + char(flags) + size4; }
static bytes frame(int ver, const S &id, std::size_t n, int f1, int f2, const bytes &body)
{
  if (ver == 2) return id + id3::be(n, 3) + body;
  return id + (ver == 3 ? id3::be(n, 4) : id3::syncsafe(n)) + char(f1) + char(f2) + body;
}
static bytes tag(int ver, int flags, const bytes &body) { return header(ver, 0, flags, id3::syncsafe(body.size())) + body; }

static void headers()
{
  static const bytes SZ[] = {BL("\0\0\0\0"), BL("\0\0\0\1"), BL("\0\0\0\xa"), BL("\0\0\0\x19"), BL("\0\0\0\x7f"), BL("\0\0\1\0"), BL("\0\0\0\x80"),
    BL("\0\0\x80\0"), BL("\x80\0\0\0"), BL("\x7f\x7f\x7f\x7f"), BL("\xff\xff\xff\xff"), BL("\0\1\0\0"), BL("\1\0\0\0")};
  for (int ver : {0, 1, 2, 3, 4, 5, 0x7f, 0xff})
    for (int rev : {0, 1, 0xff})
      for (int fl = 0; fl < 256; ++fl) {
        if ((ver < 2 || ver > 4) && fl % 64) continue;
        if (rev && fl % 16) continue;
        for (auto &sz : SZ)
          for (int k = 0; k < 5; ++k) {
            if (sz[0] > 0 && (fl % 32 || k > 1)) continue;        // (asks for a lot of memory)
            bytes body;
            int v = ver < 2 || ver > 4 ? 3 : ver;
            if (k == 1) body = frame(v, v == 2 ? "TT2" : "TIT2", 4, 0, 0, BL("\0Aja"));
            if (k == 2) body = bytes(25, 0);
            if (k == 3) body = BL("\0\0\0\xa\0\0\0\0\0\0") + frame(v, v == 2 ? "TT2" : "TIT2", 4, 0, 0, BL("\0Aja"));
            if (k == 4) body = bytes(130, '\xff');
            bytes b = header(ver, rev, fl, sz) + body;
            one("header " + mc::hex(b.substr(3, 7)) + " body " + std::to_string(k), b, 1, rev == 0 && sz[0] <= 0);
            if (rev == 0 && fl % 32 == 0 && sz[0] <= 0) one("header " + mc::hex(b.substr(3, 7)) + " body " + std::to_string(k) + " at 7", bytes("ID3TAGx") + b, 1, true, 7);
          }
      }
}

static std::vector<unsigned char> values(unsigned char o)
{
  if (!mc::quick) { std::vector<unsigned char> v; for (int i = 0; i < 256; ++i) v.push_back(i); return v; }
  std::set<unsigned char> s{0, 1, 2, 3, 4, 0x10, 0x40, 0x7f, 0x80, 0xc0, 0xe0, 0xfe, 0xff, 'A'};
  s.insert(o - 1); s.insert(o + 1); s.insert(o ^ 0x80); s.insert(o ^ 8);
  return std::vector<unsigned char>(s.begin(), s.end());
}

// well-formed tags with any one byte changed, cut short anywhere, and with pairs of sizes changed
static void damaged()
{
  for (int ver = 2; ver <= 4; ++ver) {
    std::vector<id3::Tag> base;
    for (auto &k : id3::kinds(ver)) {
      id3::Tag t; t.ver = ver; t.frames = {k}; base.push_back(t);
      t.frames.push_back(id3::kinds(ver)[0]); t.pad = 4; base.push_back(t);
      if (ver > 2) {
        t.ext = ver == 3 ? 1 : 7; base.push_back(t);
        t = base[base.size() - 3]; t.frames[0].cmp = true; t.frames[0].dli = ver == 4; t.frames[0].gid = 0x42; base.push_back(t);
      }
      if (ver == 4) { t = id3::Tag(); t.ver = 4; t.frames = {k}; t.footer = true; base.push_back(t); }
    }
    for (auto &t : base)
      for (int u = 0; u < 2; ++u) {
        bytes b = id3::encode(t, u);
        S n = t.name() + (u ? " unsynchronised" : "");
        for (std::size_t i = 0; i <= b.size(); ++i) {
          one("cut " + n + " at " + std::to_string(i), b.substr(0, i), 1);
          // the same, with the tag's size put right: the frame says more than there is
          if (i >= 10) { bytes c = b.substr(0, i); c.replace(6, 4, id3::syncsafe(i - 10)); one("cut with size " + n + " at " + std::to_string(i), c, 1, false); }
        }
        for (std::size_t i = 3; i < b.size(); ++i)
          for (unsigned char v : values(b[i])) {
            if (v == (unsigned char)b[i] || (i == 6 && v > 1 && v < 0x80)) continue;
            bytes c = b; c[i] = v;
            one("byte " + n + " " + std::to_string(i) + "=" + mc::hex(&v, 1), c, 1, false);
          }
        if (u || t.frames.size() > 1) continue;
        // a byte of the tag's header and one of what follows
        for (std::size_t i = 5; i < 10; ++i)
          for (std::size_t j = 10; j < std::min<std::size_t>(b.size(), 24); ++j)
            for (int v : {0, 1, 0x40, 0x7f, 0x80, 0xff})
              for (int w : {0, 1, 3, 0x10, 0x7f, 0x80, 0xff}) {
                if (i == 6 && v > 1 && v < 0x80) continue;
                bytes c = b; c[i] = v; c[j] = w;
                one("bytes " + n + " " + std::to_string(i) + "=" + std::to_string(v) + " " + std::to_string(j) + "=" + std::to_string(w), c, 1, false);
              }
      }
  }
}

// every short body of every kind of frame
static void bodies()
{
  static const S A = BL("\0\1\2\3a\xff");
  std::size_t depth = 4;
  std::vector<bytes> B{bytes()};
  for (std::size_t i = 0; i < B.size(); ++i) if (B[i].size() < depth) for (char c : A) { bytes b = B[i] + c; B.push_back(b); }
  // and those that look right, cut short or run on
  for (auto &x : std::vector<bytes>{BL("\1eng\xff\xfe" "d\0\0\0\xff\xfe" "t\0"), BL("\1eng\xfe\xff\0d\0\0\xfe\xff\0t"), BL("\3eng" "d\0t"), BL("\1\xff\xfe" "a\0\0\0b\0"), BL("own\0\1\2\3"),
      BL("e\0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"), BL("\1o\0k\0\0\0\0\4a\0b\0"), BL("\1o\0k\0\xff\xff\xff\xff" "a\0"), BL("\1o\0k\0\0\0\0\2a\0k\0\0\0\0\1\0"), BL("\0(1)(255)Pop"), BL("\0image/png\0\3d\0xyz"), BL("\0((foo"), BL("\0(4")})
    for (std::size_t i = 0; i <= x.size(); ++i) B.push_back(x.substr(0, i));
  for (int ver = 2; ver <= 4; ++ver)
    for (auto &id : ids(ver))
      for (auto &b : B) {
        one("body 2." + std::to_string(ver) + " " + id + " " + mc::hex(b), tag(ver, 0, frame(ver, id, b.size(), 0, 0, b)), 1, false);
        if (ver > 2 && b.size() <= 3) {
          // what the flags add, for every combination of flags
          for (int f2 = 0; f2 < 256; ++f2) {
            if (mc::quick && ver == 3 && f2 & 0x1f && f2 != 0x1f) continue;
            if (mc::quick && ver == 4 && f2 & 0xb0 && f2 != 0xb0) continue;
            if (b.size() == 3 && (mc::quick || (f2 & (f2 - 1)))) continue;
            if (!f2) continue;
            one("flags 2." + std::to_string(ver) + " " + id + " " + std::to_string(f2) + " " + mc::hex(b), tag(ver, 0, frame(ver, id, b.size(), 0xff, f2, b)), 1, false);
          }
        }
      }
  // compressed bodies: every size claimed, every cut
  for (int ver = 3; ver <= 4; ++ver)
    for (auto &id : ids(ver)) {
      bytes plain = BL("\0eng" "d\0text text text text");
      bytes z = id3::deflate(plain);
      for (std::uint32_t claim : {0u, 1u, 3u, std::uint32_t(plain.size() - 1), std::uint32_t(plain.size()), std::uint32_t(plain.size() + 1), 255u, 65536u, 0x0fffffffu, 0x7fffffffu, 0xffffffffu})
        for (std::size_t i = 0; i <= z.size(); ++i) {
          if (mc::quick && i % 3 && i != z.size()) continue;
          if (claim > 65536 && i != z.size() && i != z.size() / 2) continue;
          bytes b = (ver == 3 ? id3::be(claim, 4) : id3::syncsafe(claim)) + z.substr(0, i);
          one("compressed 2." + std::to_string(ver) + " " + id + " claims " + std::to_string(claim) + " cut " + std::to_string(i), tag(ver, 0, frame(ver, id, b.size(), 0, ver == 3 ? 0x80 : 0x09, b)), 1, false);
        }
    }
}

static void extended()
{
  static const S A = BL("\0\1\5\6\xa\x7f\x80\xff");
  // 2.3: size(4) flags(2) padding(4) crc(4); 2.4: size(4) #(1) flags(1) data
  for (int ver = 3; ver <= 4; ++ver)
    for (int hf : {0x40, 0xc0, 0x50, 0xff})
      for (char s0 : BL("\0\x7f\x80\xff"))
        for (char s3 : BL("\0\1\5\6\7\xa\xb\xe\x7f\x80\xff"))
          for (char a : A)
            for (char b : A)
              for (char c : BL("\0\1\5\xff"))
                for (int rest : {0, 1, 4, 20}) {
                  if (mc::quick && (s0 && a && b && c)) continue;
                  bytes x = bytes(1, s0) + bytes(2, '\0') + s3 + a + b + c + bytes(rest, '\x41');
                  one("extended 2." + std::to_string(ver) + " " + std::to_string(hf) + " " + mc::hex(x), tag(ver, hf, x), 1, false);
                }
}

static void audio()
{
  // every header, with something after it
  for (int b1 = 0xe0; b1 < 256; ++b1)
    for (int b2 = 0; b2 < 256; ++b2)
      for (int b3 = 0; b3 < 256; b3 += mc::quick ? 64 : 16)
        for (int n : {0, 1, 40, 500}) {
          if (mc::quick && n == 40 && (b2 & 0x0f)) continue;
          bytes b = bytes("\xff") + char(b1) + char(b2) + char(b3) + bytes(n, '\0');
          one("audio " + mc::hex(b.substr(0, 4)) + " +" + std::to_string(n), b, 4, (b2 & 0x0f) == 0);
        }
  // encoder's headers: boundary fields, each cut short anywhere
  static const std::uint32_t N[] = {0, 1, 2, 0x7fffffff, 0xffffffff};
  for (bytes h : {BL("\xff\xfb\x90\x00"), BL("\xff\xf3\x40\xc4"), BL("\xff\xfa\x92\xc0"), BL("\xff\xe3\x18\xc4")}) {
    int side = (unsigned char)h[1] & 8 ? ((h[3] & 0xc0) == (char)0xc0 ? 17 : 32) : ((h[3] & 0xc0) == (char)0xc0 ? 9 : 17);
    int crc = h[1] & 1 ? 0 : 2;
    for (int kind = 0; kind < 6; ++kind)
      for (std::uint32_t a : N)
        for (std::uint32_t z : N)
          for (int fl = 0; fl < 16; ++fl) {
            bytes x;
            if (kind < 4) {
              if (a != N[0] && z != N[0] && fl != 15 && fl != 3) continue;
              x = h + bytes(crc + side - (kind == 3 ? 2 : 0), '\0') + (kind == 1 ? "Info" : "Xing") + id3::be(fl, 4);
              if (fl & 1) x += id3::be(a, 4);
              if (fl & 2) x += id3::be(z, 4);
              if (fl & 4) x += bytes(100, '\x11');
              if (fl & 8) x += id3::be(50, 4);
              if (kind == 2) x += BL("L3.99r\0\0\0\x23") + bytes(30, '\x7f'); else x += BL("LAME3.99r\x23") + bytes(30, '\x7f');
            } else {
              x = h + bytes(32, '\0') + "VBRI" + BL("\0\1\2\3\4\5") + id3::be(z, 4) + id3::be(a, 4) + id3::be(kind == 4 ? fl : (fl & 1 ? 0xffff : 0x8000), 2) + BL("\0\1") + id3::be(fl & 1 ? 2 : fl & 2 ? 0 : 0xffff, 2) + BL("\0\1") + bytes(40, '\x22');
            }
            S n = "vbr " + mc::hex(h) + " " + std::to_string(kind) + " " + std::to_string(a) + " " + std::to_string(z) + " " + std::to_string(fl);
            one(n, x + bytes(400, '\0'), 4);
            bool cuts = (a == N[1] && z == N[2] && (fl == 15 || fl == 1)) || (kind > 3 && a == N[1] && z == N[1] && fl < 4);
            if (cuts) for (std::size_t i = 0; i <= x.size(); ++i) one(n + " cut " + std::to_string(i), x.substr(0, i), 4, i % 8 == 0);
          }
  }
  // every short string of the bytes that matter, by itself & before a frame
  std::vector<bytes> B{bytes()};
  for (std::size_t i = 0; i < B.size(); ++i) if (B[i].size() < (mc::quick ? 5u : 6u)) for (char c : BL("\xff\xfb\xe0\x90\x00")) { bytes b = B[i] + c; B.push_back(b); }
  for (auto &b : B) one("syncs " + mc::hex(b), b, 4);
}

static void id3v1s()
{
  std::vector<bytes> B{bytes()};
  for (std::size_t i = 0; i < B.size(); ++i) if (B[i].size() < (mc::quick ? 4u : 5u)) for (char c : BL("TAG+ID3\0\xff")) { bytes b = B[i] + c; B.push_back(b); }
  for (auto &b : B) {
    one("start " + mc::hex(b), b, 7);
    if (b.size() == 4 && b.substr(0, 2) == "TA") {
      for (std::size_t n : {0, 124, 125, 128, 223, 224, 351, 352, 355}) { one("start " + mc::hex(b) + " +" + std::to_string(n), b + bytes(n, '\xff'), 2); one("start " + mc::hex(b) + " +0x" + std::to_string(n), b + bytes(n, '\0'), 2); }
      for (bytes s : {bytes("TAG") + bytes(125, '\0'), bytes("TAG") + bytes(125, ' '), bytes("TAG") + bytes(125, '\xff')}) one("start " + mc::hex(b) + " then a tag " + mc::hex(s.substr(3, 1)), b + bytes(223, 'x') + s, 2);
    }
  }
  for (std::size_t n = 0; n < (mc::quick ? 140u : 400u); ++n)
    for (std::size_t at = 0; at <= n; at += n < 10 ? 1 : n / 3)
      for (int k = 0; k < 2; ++k) one("lengths " + std::to_string(n) + " at " + std::to_string(at) + (k ? " tag" : ""), k ? bytes(n, 'a') + "TAG" + bytes(125, '\x80') : bytes(n, '\xff'), 6, n % 7 == 0, at);
}

// one tag after another
static void several()
{
  for (int v = 2; v <= 4; ++v)
    for (int w = 2; w <= 4; ++w) {
      bytes a = tag(v, 0, frame(v, v == 2 ? "TT2" : "TIT2", 4, 0, 0, BL("\0Aja"))), b = tag(w, 0, frame(w, w == 2 ? "TT2" : "TIT2", 4, 0, 0, BL("\0Aja")) + BL("\0\0\0"));
      for (std::size_t i = 0; i <= b.size(); ++i) one("two 2." + std::to_string(v) + " 2." + std::to_string(w) + " cut " + std::to_string(i), a + b.substr(0, i), 1);
      for (std::size_t i = 3; i < a.size(); ++i)
        for (unsigned char x : values(a[i])) { if (i == 6 && x > 1 && x < 0x80) continue; bytes c = a; c[i] = x; one("two 2." + std::to_string(v) + " 2." + std::to_string(w) + " " + std::to_string(i) + "=" + mc::hex(&x, 1), c + b, 1, false); }
    }
}

static void body()
{
  twice = mc::mode == "c08u";
  headers(); damaged(); bodies(); extended(); audio(); id3v1s(); several();
}
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
