// C02, C03, C04: every tag in a bounded space is built by the real code, written
// both ways, decoded by an independent reader and read back by the real one.
#include "id3.hh"
#include "mc.hh"
#include <functional>

using namespace id3;
typedef std::function<void(const Tag&, bool)> Visit;

static Frame mk(const std::string &id, const bytes &b) { Frame f; f.id = id; f.body = b; return f; }
static std::string id34(int ver, const char *a, const char *b) { return ver == 2 ? a : b; }

// --- the space -------------------------------------------------------------

static void both(const Tag &t, const Visit &v) { v(t, false); v(t, true); }

// every combination of status and format flags on every kind of frame
static void flags_space(const Visit &v)
{
  for (int ver = 2; ver <= 4; ++ver)
    for (Frame f : kinds(ver))
      for (int m = 0; m < (ver == 2 ? 1 : ver == 3 ? 16 : 64); ++m)
        for (int g : {-1, 5, ver == 3 ? 255 : 240}) {
          if (ver == 2 && g >= 0) continue;
          f.tap = m & 1; f.fap = m & 2; f.ro = m & 4; f.cmp = m & 8; f.uns = m & 16; f.dli = m & 32; f.gid = g;
          for (std::size_t pad : {0, 3}) { Tag t; t.ver = ver; t.pad = pad; t.frames = {f}; both(t, v); }
        }
}

// every content of every variable field over the bytes that matter to the format
static void words(const std::string &alpha, int max, const std::function<void(const bytes&)> &f)
{
  std::function<void(bytes, int)> go = [&](bytes s, int n) { f(s); if (n) for (char c : alpha) go(s + c, n - 1); };
  go("", max);
}
static void contents_space(const Visit &v)
{
  const std::string A("\x00\x41\xdf\xe0\xff", 5), NZ("\x41\xdf\xe0\xff", 4);
  int L = mc::quick ? 4 : 6;
  for (int ver = 2; ver <= 4; ++ver) {
    struct { std::string id; bytes before; bool nz; bytes after; } T[] = {
      {id34(ver, "TT2", "TIT2"), bytes(1, 0), false, ""},
      {id34(ver, "TXX", "TXXX"), bytes("\0d\0", 3), false, ""},
      {id34(ver, "TXX", "TXXX"), bytes("\0", 1), true, bytes("\0v", 2)},
      {id34(ver, "COM", "COMM"), bytes("\0engd\0", 6), false, ""},
      {id34(ver, "COM", "COMM"), bytes("\0eng", 4), true, bytes("\0", 1)},
      {id34(ver, "UFI", "UFID"), bytes("o\0", 2), false, ""},
      {id34(ver, "CNT", "PCNT"), "", false, ""},
      {id34(ver, "POP", "POPM"), bytes("o\0\x01", 3), false, ""},
      {id34(ver, "POP", "POPM"), bytes(""), true, bytes("\0\x00\x01", 3)},
      {id34(ver, "XTG", "XTAG"), bytes("\0"), true, bytes("\0k\0\0\0\0\0", 7)},
      {id34(ver, "PIC", "APIC"), "", false, ""},
      {"ENCR", bytes("e\0\x81", 3), false, ""},
      {"PRIV", bytes("e\0", 2), false, ""},
    };
    for (auto &x : T) {
      if (ver == 2 && x.id.size() == 4) continue;
      if (x.id[0] == 'X') x.before = bytes(1, 1);
      words(x.nz ? NZ : A, L, [&](const bytes &w) {
        Frame f = mk(x.id, x.before + w + x.after);
        if (f.body.empty()) return;     // the standard requires at least one byte
        for (int shape = 0; shape < 3; ++shape) {
          Tag t; t.ver = ver; t.frames = {f}; t.pad = shape == 1 ? 2 : 0;
          if (shape == 2) {
            if (w.size() > (mc::quick ? 3u : 4u)) continue;
            t.frames.push_back(mk(id34(ver, "TP1", "TPE1"), bytes("\0\xff", 2)));
          }
          both(t, v);
        }
      });
    }
    // every encoding the version has: the width of its characters is that of the
    // terminator between two fields, which need not be where two zeros first meet
    for (int e = 0; e < (ver == 4 ? 4 : 2); ++e) {
      bool wide = e == 1 || e == 2;
      std::vector<bytes> U;
      if (wide) U = {bytes("\xff\xfe", 2), bytes("\x41\x00", 2), bytes("\x00\x41", 2), bytes("\xff\xe0", 2), bytes("\x00\xff", 2)};
      else U = {"\x41", "\xff", "\xe0", "\xc3\xa9"};
      std::vector<bytes> W{""};
      for (std::size_t i = 0, n = 0; n < (mc::quick ? 2u : 3u); ++n) for (std::size_t k = W.size(); i < k; ++i) for (auto &u : U) W.push_back(W[i] + u);
      bytes nil(wide ? 2 : 1, 0);
      for (int kind = 0; kind < 4; ++kind)
        for (auto &a : W)
          for (auto &b : W) {
            if (kind == 2 && a.size()) continue;
            bytes x = kind == 0 ? a + nil + b : kind == 1 ? "deu" + a + nil + b : kind == 2 ? b : b + nil + a + nil;
            Frame f = mk(kind == 0 ? id34(ver, "TXX", "TXXX") : kind == 1 ? id34(ver, "COM", "COMM") : id34(ver, "TP2", "TPE2"), bytes(1, e) + x);
            Tag t; t.ver = ver; t.frames = {f};
            both(t, v);
          }
    }
    // tag clouds of up to two values
    words(NZ, mc::quick ? 2 : 3, [&](const bytes &a) {
      words(NZ, 2, [&](const bytes &b) {
        if (!(a < b)) return;   // stored in order
        bytes vals = a + bytes(1, 0) + b + bytes(1, 0);
        Tag t; t.ver = ver; t.frames = {mk(id34(ver, "XTG", "XTAG"), bytes("\1o\0k\0", 5) + be(vals.size(), 4) + vals)};
        both(t, v);
      });
    });
  }
}

// sequences of frames, under every kind of tag
static void sequences_space(const Visit &v)
{
  for (int ver = 2; ver <= 4; ++ver) {
    auto K = kinds(ver);
    if (ver > 2) {      // the awkward flags take part too
      Frame f = K[1]; f.cmp = true; f.gid = ver == 3 ? 255 : 240; K.push_back(f);
      f = K[0]; f.gid = 7; f.uns = ver == 4; K.push_back(f);
      f = K[2]; f.dli = ver == 4; f.tap = true; K.push_back(f);
    }
    std::vector<std::vector<Frame>> seqs{{}};
    std::size_t from = 0;
    int depth = mc::quick ? 2 : 3;
    for (int d = 0; d < depth; ++d) {
      std::size_t n = seqs.size();
      for (std::size_t i = from; i < n; ++i)
        for (auto &f : K) {
          bool encr = false;    // a second ENCR for the same method is refused, as documented
          for (auto &g : seqs[i]) encr |= g.id == "ENCR";
          if (encr && f.id == "ENCR") continue;
          auto s = seqs[i]; s.push_back(f); seqs.push_back(s);
        }
      from = n;
    }
    for (auto &s : seqs) {
      Tag t; t.ver = ver; t.frames = s;
      bool deep = s.size() > 2;
      for (int exp = 0; exp < (ver == 2 || deep ? 1 : 2); ++exp)
        for (int ext = -1; ext < (ver == 2 ? 0 : ver == 3 ? 2 : 8); ++ext)
          for (int foot = 0; foot < (ver == 4 ? 2 : 1); ++foot)
            for (std::size_t pad : {0, 1, 2, 11}) {
              if (foot && pad) continue;                        // not allowed together
              if (deep && ((ext > 0 && ext != 2) || pad > 1)) continue;
              if (mc::quick && s.size() == 2 && ext >= 0 && ext != 1 && ext != 6) continue;
              t.exp = exp; t.ext = ext; t.footer = foot; t.pad = pad;
              both(t, v);
            }
    }
  }
}

// sizes: those whose own bytes need care, and the limits of each field
static void sizes_space(const Visit &v)
{
  std::vector<std::size_t> S;
  for (std::size_t n = 1; n <= (mc::quick ? 300u : 5000u); ++n) S.push_back(n);
  for (std::size_t n : {0x3ff0, 0x4000, 0x7f00, 0xdfff, 0xe000, 0xff00, 0xffe0, 0xffff, 0x10000, 0x100ff, 0x1ffff0, 0x200000})
    for (std::size_t k = 0; k < (n > 100000 ? 6u : mc::quick ? 16u : 64u); ++k) S.push_back(n + k - 3);
  for (int ver = 2; ver <= 4; ++ver)
    for (std::size_t n : S)
      for (int fill = 0; fill < 2; ++fill) {
        if (n > 100000 && fill && mc::quick) continue;
        for (int shape = 0; shape < 3; ++shape) {
          if (shape == 2 && ver == 2) continue;
          Tag t; t.ver = ver;
          Frame f = mk(id34(ver, "PIC", "APIC"), bytes(n, fill ? '\xff' : 'a'));
          if (shape == 2) { f.cmp = true; f.dli = ver == 4; }
          if (shape == 1) t.pad = 1;
          t.frames = {f};
          both(t, v);
        }
      }
}
static void padding_space(const Visit &v)
{
  std::vector<std::size_t> P;
  for (std::size_t n = 0; n <= (mc::quick ? 100u : 2100u); ++n) P.push_back(n);
  for (std::size_t n : {1023, 1024, 1025, 2047, 2048, 2049, 4096, 16383, 16384, 65535, 65536, 2097151, 2097152}) P.push_back(n);
  for (int ver = 2; ver <= 4; ++ver)
    for (std::size_t n : P)
      for (int e = -1; e < (ver == 2 ? 0 : 3); ++e)
        for (int tail = 0; tail < 2; ++tail) {
          if (ver == 3 && e == 2) continue;
          Tag t; t.ver = ver; t.pad = n; t.ext = e;
          t.frames = {mk(id34(ver, "TT2", "TIT2"), tail ? bytes("\0\xff", 2) : bytes("\0a", 2))};
          both(t, v);
        }
}

// 2.4: every combination of restrictions
static void restrictions_space(const Visit &v)
{
  for (int r = 0; r < 256; ++r)
    for (int ext = 4; ext < 8; ++ext)
      for (int shape = 0; shape < 3; ++shape) {
        Tag t; t.ver = 4; t.ext = ext; t.restr = r;
        if (shape) t.frames = {mk("TIT2", bytes("\0\xff", 2))};
        if (shape == 2) t.footer = true; else t.pad = shape;
        both(t, v);
      }
}

// --- the checks --------------------------------------------------------------

static Tag normal(Tag t) { for (auto &f : t.frames) { f.uns = false; f.dli = false; } return t; }

// the checksum a tag says was recorded in it
static std::uint32_t recorded(const scribbu::id3v2_tag &t)
{
  if (auto p = dynamic_cast<const scribbu::id3v2_3_tag*>(&t)) return p->extended_header().crc();
  return dynamic_cast<const scribbu::id3v2_4_tag&>(t).extended_header().crc();
}

static void c02(const Tag &t, bool u)
{
  if (!mc::begin([&] { return t.name() + (u ? " unsync" : ""); })) return;
  std::string want = describe(t), full = describe(t, true);
  auto real = make(t);
  mc::transition(1 + t.frames.size());
  MC_CHECK(describe(*real) == want, "built as " << describe(*real) << "\nnot " << want);
  bytes b = write(*real, u);
  Decoded d = decode(b);
  mc::transition(2);
  mc::state(want + (u ? "u" : ""));
  if (!d.error.empty()) { mc::fail("what is written is not a well-formed tag: " + d.error + ": " + brief(b)); return; }
  MC_CHECK(d.total == b.size(), d.total << " bytes declared, " << b.size() << " written: " << brief(b));
  MC_CHECK(describe(d.tag, true) == full, "written as " << describe(d.tag) << "\nnot " << want << "\nbytes " << brief(b));
  MC_CHECK(d.ext_pad_ok, "the extended header's size of padding is wrong: " << brief(b));
  if (d.has_crc) {
    bool plain = !u;
    for (auto &f : t.frames) if (f.uns) plain = false;
    if (plain) MC_CHECK(d.crc_ok, "wrong checksum in the extended header: " << brief(b));
  }
  std::unique_ptr<scribbu::id3v2_tag> r;
  try { r = read(b); } catch (const std::exception &e) { mc::fail(std::string("not read back: ") + e.what() + ": " + brief(b)); return; }
  mc::transition(2);
  if (!r) { mc::fail("not recognised when read back: " + brief(b)); return; }
  MC_CHECK(describe(*r) == want, "read back as " << describe(*r) << "\nnot " << want << "\nbytes " << brief(b));
  if (d.has_crc) MC_CHECK(recorded(*r) == d.crc, "the checksum is read back as " << recorded(*r) << ", not " << d.crc << ": " << brief(b));
  bytes b2 = write(*r, u);
  MC_CHECK(b2 == b, "rewritten as " << brief(b2) << "\nnot " << brief(b));
  if (t.ver < 4) {
    bytes x = write(*real, !u), y = write(*r, !u);
    MC_CHECK(x == y, "written the other way: " << brief(y) << "\nnot " << brief(x));
  }
  // and a tag laid out by someone else
  bytes e = encode(t, u);
  try { r = read(e); } catch (const std::exception &ex) { mc::fail(std::string("the standard's form is not read: ") + ex.what() + ": " + brief(e)); return; }
  if (!r) { mc::fail("the standard's form is not recognised: " + brief(e)); return; }
  MC_CHECK(describe(*r) == want, "the standard's form is read as " << describe(*r) << "\nnot " << want << "\nbytes " << brief(e));
  bytes b3 = write(*r, u);
  Decoded d3 = decode(b3);
  MC_CHECK(d3.error.empty() && describe(d3.tag, true) == full, "the standard's form is rewritten as " << brief(b3) << ": " << d3.error << " " << describe(d3.tag));
  mc::transition(4);
  mc::trace();
  mc::outcome("2." + std::to_string(t.ver) + (u ? " unsync" : " plain") + " frames " + std::to_string(t.frames.size()));
  if (t.frames.size() == 2 && u) mc::sample(t.name() + " -> " + brief(b, 100));
}

static void c03(const Tag &t, bool u)
{
  if (!mc::begin([&] { return t.name() + (u ? " unsync" : ""); })) return;
  auto real = make(t);
  std::size_t said = real->size(u);
  std::ostringstream os;
  std::size_t ret = real->write(os, u);
  bytes b = os.str();
  Decoded d = decode(b);
  mc::transition(2 + t.frames.size());
  mc::state(t.name() + (u ? "u" : ""));
  std::size_t foot = t.footer ? 10 : 0;
  MC_CHECK(ret == b.size(), "write() returns " << ret << "; it wrote " << b.size() << " bytes");
  MC_CHECK(d.declared + 10 + foot == b.size(), "the header declares " << d.declared << "; " << b.size() - 10 - foot << " bytes follow it");
  if (t.ver == 4 && t.pad && said == b.size() - 10 + t.pad) MC_CHECK(false, "size() counts the padding twice: " << said << " for " << b.size() - 10 << " with " << t.pad << " of padding");
  else MC_CHECK(said == b.size() - 10, "size() is " << said << "; " << b.size() - 10 << " bytes were written after the header");
  // frame by frame
  bytes rest;
  std::size_t i = 0;
  for (auto f : frames(*real)) {
    for (bool uu : {u, !u}) {
      std::ostringstream fs;
      std::size_t s = f->serialized_size(uu), w = f->write(fs, uu);
      mc::transition(2);
      MC_CHECK(s == fs.str().size(), frame_id(*f) << "'s serialized size is " << s << (uu ? " unsynchronised" : "") << "; it wrote " << fs.str().size());
      MC_CHECK(w == fs.str().size(), frame_id(*f) << " says it wrote " << w << "; it wrote " << fs.str().size());
    }
    MC_CHECK(f->size() == t.frames[i].body.size(), frame_id(*f) << "'s size is " << f->size() << "; its body has " << t.frames[i].body.size() << " bytes");
    ++i;
  }
  // the same of the tag as read
  auto r = read(encode(t, u));
  if (r) {
    std::ostringstream rs;
    std::size_t n = r->size(u);
    r->write(rs, u);
    std::size_t w = rs.str().size() - 10;
    if (t.ver == 4 && t.pad && n == w + t.pad) ;
    else MC_CHECK(n == w, "as read, size() is " << n << "; " << w << " bytes were written after the header");
    mc::transition(3);
  }
  mc::trace();
  mc::outcome("2." + std::to_string(t.ver) + (u ? " unsync" : " plain"));
  if (t.frames.size() == 1 && u) mc::sample(t.name() + ": " + std::to_string(said));
}

static void c04(const Tag &t, bool u)
{
  if (!mc::begin([&] { return t.name() + (u ? " unsync" : ""); })) return;
  auto real = make(t);
  bytes b = write(*real, u);
  Decoded d = decode(b);
  mc::transition(2);
  mc::state(t.name() + (u ? "u" : ""));
  if (b.size() < 10) { mc::fail("no header"); return; }
  bytes raw = b.substr(10);
  if (t.footer && raw.size() >= 10) raw.resize(raw.size() - 10);
  MC_CHECK(bool(b[5] & 0x80) == u, "the header's unsynchronisation flag is " << bool(b[5] & 0x80));
  if (u) {
    // in what is stored, ff is only ever followed by a byte below e0 -- and by 00
    // only where that 00 was inserted, which reading removes
    bool sync = false;
    for (std::size_t i = 0; i + 1 < raw.size(); ++i) if ((unsigned char)raw[i] == 0xff && (unsigned char)raw[i+1] >= 0xe0) sync = true;
    MC_CHECK(!sync, "a false sync is written: " << brief(raw));
    if (t.ver > 2 && !raw.empty() && !t.frames.empty()) MC_CHECK((unsigned char)raw.back() != 0xff, "ends in ff, which may make a sync with what follows: " << brief(raw));
    if (t.ver < 4) {
      bytes plain = write(*real, false).substr(10);
      MC_CHECK(resync(raw) == plain, "undoing it gives " << brief(resync(raw)) << "\nnot " << brief(plain));
      // the code's own
      std::vector<unsigned char> v(raw.begin(), raw.end());
      std::size_t n = v.empty() ? 0 : scribbu::resynchronise(&v[0], v.size());
      MC_CHECK(bytes(v.begin(), v.begin() + n) == plain, "resynchronise() gives " << mc::hex(v) << " length " << n);
      mc::transition(2);
    } else {
      MC_CHECK(d.error.empty() && describe(d.tag, true) == describe(t, true), "undoing it gives " << d.error << " " << describe(d.tag));
      for (auto &f : d.tag.frames) MC_CHECK(f.uns, "frame " << f.id << " is not flagged");
    }
    auto r = read(b);
    MC_CHECK(r && describe(*r) == describe(t), "read back as " << (r ? describe(*r) : "nothing"));
    if (r) MC_CHECK(r->unsynchronised().value_or(false), "the tag read back does not say it was unsynchronised");
  } else {
    bool cmp = false, uns = false;
    for (auto &f : t.frames) { cmp |= f.cmp; uns |= f.uns; }
    bytes want;
    if (!cmp) {
      for (auto &f : t.frames) want += encode_frame(t.ver, f);
      want += bytes(t.pad, 0);
      MC_CHECK(raw.size() >= want.size() && raw.substr(raw.size() - want.size()) == want, "not stored verbatim: " << brief(raw) << "\nrather than " << brief(want));
    }
    MC_CHECK(d.error.empty() && describe(d.tag, true) == describe(t, true), "does not read as it should: " << d.error << " " << describe(d.tag));
    // yes if there is a sync, no if there is nothing the scheme would alter;
    // for 2.4, whether every frame needs it
    auto hard = [](const bytes &x) {
      for (std::size_t i = 0; i + 1 < x.size(); ++i) if ((unsigned char)x[i] == 0xff && (unsigned char)x[i+1] >= 0xe0) return true;
      return false;
    };
    bool need, may;
    if (t.ver < 4) {
      need = hard(raw);
      may = unsync(raw.substr(0, raw.size() - t.pad)) != raw.substr(0, raw.size() - t.pad);
    } else {
      need = may = true;
      for (std::size_t i = 0; i < d.raw_frames.size(); ++i) {
        bytes x = d.raw_frames[i].substr(10);
        if (t.frames[i].uns) x = resync(x);
        need &= hard(x);
        may &= unsync(x) != x;
      }
    }
    bool says = real->needs_unsynchronisation();
    MC_CHECK(says || !need, "needs_unsynchronisation() is false: " << brief(raw));
    MC_CHECK(!says || may, "needs_unsynchronisation() is true: " << brief(raw));
    mc::outcome(need ? "needed" : "not needed");
    if (need) mc::sample(t.name());
  }
  mc::trace();
}

static void body()
{
  Visit v = mc::mode == "c02" ? Visit(c02) : mc::mode == "c03" ? Visit(c03) : Visit(c04);
  flags_space(v);
  contents_space(v);
  sequences_space(v);
  sizes_space(v);
  padding_space(v);
  restrictions_space(v);
}
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
