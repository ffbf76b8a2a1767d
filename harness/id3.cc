#include "id3.hh"
#include "mc.hh"
#include <scribbu/id3v2-utils.hh>
#include <sstream>
#include <stdexcept>
#include <zlib.h>

using namespace scribbu;

namespace id3 {

  std::string brief(const bytes &b, std::size_t n)
  { return b.size() <= n ? mc::hex(b) : mc::hex(b.substr(0, n)) + "...(" + std::to_string(b.size()) + ")"; }

  std::string Frame::name() const
  {
    std::string s = id + ":" + (body.size() > 64 ? mc::hex(body.substr(0, 8)) + "x" + std::to_string(body.size()) : mc::hex(body));
    std::string f;
    if (tap) f += "t";
    if (fap) f += "f";
    if (ro) f += "r";
    if (cmp) f += "z";
    if (uns) f += "u";
    if (dli) f += "d";
    if (gid >= 0) f += "g" + std::to_string(gid);
    return f.empty() ? s : s + "/" + f;
  }
  std::string Tag::name() const
  {
    std::string s = "2." + std::to_string(ver);
    if (exp) s += "e";
    if (ext >= 0) s += "x" + std::to_string(ext);
    if (restr != 0x5a) s += "r" + std::to_string(restr);
    if (footer) s += "f";
    s += "p" + std::to_string(pad) + "[";
    for (std::size_t i = 0; i < frames.size(); ++i) s += (i ? " " : "") + frames[i].name();
    return s + "]";
  }

  bytes be(std::uint32_t x, int n)
  { bytes b; while (n--) b += char(x >> (8 * n)); return b; }
  std::uint32_t unbe(const bytes &b)
  { std::uint32_t x = 0; for (unsigned char c : b) x = x << 8 | c; return x; }
  bytes syncsafe(std::uint32_t x, int n)
  { bytes b; while (n--) b += char((std::uint64_t(x) >> (7 * n)) & 0x7f); return b; }
  std::uint32_t unsyncsafe(const bytes &b)
  { std::uint32_t x = 0; for (unsigned char c : b) x = x << 7 | (c & 0x7f); return x; }

  bytes unsync(const bytes &b)
  {
    bytes r;
    for (std::size_t i = 0; i < b.size(); ++i) {
      r += b[i];
      if ((unsigned char)b[i] == 0xff && (i + 1 == b.size() || (unsigned char)b[i+1] >= 0xe0 || b[i+1] == 0)) r += '\0';
    }
    return r;
  }
  bytes resync(const bytes &b)
  {
    bytes r;
    for (std::size_t i = 0; i < b.size(); ++i) {
      r += b[i];
      if ((unsigned char)b[i] == 0xff && i + 1 < b.size() && b[i+1] == 0) ++i;
    }
    return r;
  }
  bool false_sync(const bytes &b)
  {
    for (std::size_t i = 0; i + 1 < b.size(); ++i)
      if ((unsigned char)b[i] == 0xff && ((unsigned char)b[i+1] >= 0xe0 || b[i+1] == 0)) return true;
    return false;
  }
  bytes deflate(const bytes &b)
  {
    uLongf n = compressBound(b.size());
    bytes r(n, 0);
    if (compress((Bytef*)&r[0], &n, (const Bytef*)b.data(), b.size()) != Z_OK) throw std::logic_error("compress");
    r.resize(n);
    return r;
  }
  bool inflate(const bytes &b, std::size_t want, bytes &out)
  {
    if (want > (1u << 26)) return false;
    uLongf n = want + 1;
    out.assign(n, 0);
    if (uncompress((Bytef*)&out[0], &n, (const Bytef*)b.data(), b.size()) != Z_OK) return false;
    out.resize(n);
    return n == want;
  }
  std::uint32_t crc(const bytes &b)
  { return crc32(crc32(0, 0, 0), (const Bytef*)b.data(), b.size()); }

  bytes encode_frame(int ver, const Frame &f, bool u)
  {
    if (ver == 2) return f.id + be(f.body.size(), 3) + f.body;
    bytes data = f.cmp ? deflate(f.body) : f.body;
    if (ver == 3) {
      bytes extra;
      if (f.cmp) extra += be(f.body.size(), 4);
      if (f.gid >= 0) extra += char(f.gid);
      bytes flags;
      flags += char((f.tap ? 0x80 : 0) | (f.fap ? 0x40 : 0) | (f.ro ? 0x20 : 0));
      flags += char((f.cmp ? 0x80 : 0) | (f.gid >= 0 ? 0x20 : 0));
      return f.id + be(extra.size() + data.size(), 4) + flags + extra + data;
    }
    bytes extra;
    bool dli = f.dli || f.cmp;
    if (f.gid >= 0) extra += char(f.gid);
    if (dli) extra += syncsafe(f.body.size());
    bytes flags;
    bool uu = u || f.uns;
    flags += char((f.tap ? 0x40 : 0) | (f.fap ? 0x20 : 0) | (f.ro ? 0x10 : 0));
    flags += char((f.gid >= 0 ? 0x40 : 0) | (f.cmp ? 0x08 : 0) | (uu ? 0x02 : 0) | (dli ? 0x01 : 0));
    // what is added to the header is not subject to the scheme: a group is at
    // most f0, and the data length is sync-safe
    bytes all = extra + (uu ? unsync(data) : data);
    return f.id + syncsafe(all.size()) + flags + all;
  }

  bytes encode(const Tag &t, bool u)
  {
    bytes fr;
    for (auto &f : t.frames) fr += encode_frame(t.ver, f, u);
    unsigned char flags = 0;
    bytes ext;
    if (t.ver >= 3 && t.exp) flags |= 0x20;
    if (t.ver == 3 && t.ext >= 0) {
      flags |= 0x40;
      ext = be(t.ext ? 10 : 6, 4) + be(t.ext ? 0x8000 : 0, 2) + be(t.pad, 4);
      if (t.ext) ext += be(crc(fr), 4);
    }
    if (t.ver == 4 && t.ext >= 0) {
      flags |= 0x40;
      bytes d;
      if (t.ext & 1) d += be(0, 1);
      if (t.ext & 2) { bytes plain; for (auto &f : t.frames) plain += encode_frame(4, f, false);
        d += "\x05" + syncsafe(crc(plain + bytes(t.pad, 0)), 5); }
      if (t.ext & 4) d += "\x01", d += char(t.restr);
      ext = syncsafe(6 + d.size()) + "\x01" + char((t.ext & 1 ? 0x40 : 0) | (t.ext & 2 ? 0x20 : 0) | (t.ext & 4 ? 0x10 : 0)) + d;
    }
    if (t.footer) flags |= 0x10;
    bytes all = ext + fr;
    if (t.ver < 4 && u) {
      all = unsync(all);
      // 2.2 leaves a final ff alone unless something of the tag follows it
      if (t.ver == 2 && t.pad == 0 && !fr.empty() && (unsigned char)fr.back() == 0xff) all.pop_back();
    }
    if (u) flags |= 0x80;
    all += bytes(t.pad, 0);
    bytes h; h += char(t.ver); h += '\0'; h += char(flags); h += syncsafe(all.size());
    bytes r = "ID3" + h + all;
    if (t.footer) r += "3DI" + h;
    return r;
  }

  Decoded decode(const bytes &b)
  {
    Decoded d;
    auto bad = [&](const std::string &m) { d.error = m; return d; };
    auto u8 = [&](const bytes &s, std::size_t i) { return (unsigned char)s[i]; };
    if (b.size() < 10 || b.compare(0, 3, "ID3")) return bad("no header");
    d.tag.ver = u8(b, 3);
    if (d.tag.ver < 2 || d.tag.ver > 4 || u8(b, 4) != 0) return bad("version");
    unsigned char hf = u8(b, 5);
    unsigned char known = d.tag.ver == 2 ? 0xc0 : d.tag.ver == 3 ? 0xe0 : 0xf0;
    if (hf & ~known) return bad("undefined header flags");
    for (int i = 6; i < 10; ++i) if (u8(b, i) & 0x80) return bad("header size not sync-safe");
    d.declared = unsyncsafe(b.substr(6, 4));
    d.unsynced = hf & 0x80;
    if (d.tag.ver == 2 && hf & 0x40) return bad("2.2 compression");
    d.tag.exp = d.tag.ver > 2 && hf & 0x20;
    bool ext = d.tag.ver > 2 && hf & 0x40;
    d.tag.footer = d.tag.ver == 4 && hf & 0x10;
    d.total = 10 + d.declared + (d.tag.footer ? 10 : 0);
    if (b.size() < d.total) return bad("tag declares " + std::to_string(d.total) + " bytes; there are " + std::to_string(b.size()));
    d.raw = b.substr(10, d.declared);
    if (d.tag.footer && b.substr(10 + d.declared, 10) != "3DI" + b.substr(3, 7)) return bad("footer");
    bytes s = d.tag.ver < 4 && d.unsynced ? resync(d.raw) : d.raw;
    std::size_t p = 0;
    std::uint32_t want_crc = 0, ext_pad = 0;
    if (ext && d.tag.ver == 3) {
      if (s.size() < 10) return bad("extended header");
      std::uint32_t n = unbe(s.substr(0, 4)), f = unbe(s.substr(4, 2));
      if ((n != 6 && n != 10) || f & 0x7fff || (f >> 15) != (n == 10)) return bad("extended header");
      ext_pad = unbe(s.substr(6, 4));
      if (s.size() < n + 4) return bad("extended header");
      d.has_crc = f;
      if (f) want_crc = unbe(s.substr(10, 4));
      d.tag.ext = f ? 1 : 0;
      p = n + 4;
    }
    if (ext && d.tag.ver == 4) {
      if (s.size() < 6) return bad("extended header");
      std::uint32_t n = unsyncsafe(s.substr(0, 4));
      if (n < 6 || n > s.size() || u8(s, 4) != 1 || u8(s, 5) & ~0x70) return bad("extended header");
      unsigned char f = u8(s, 5);
      d.tag.ext = 0;
      std::size_t q = 6;
      auto take = [&](unsigned char len) { bool ok = q + 1 + len <= n && u8(s, q) == len; q += 1 + len; return ok; };
      if (f & 0x40) { if (!take(0)) return bad("extended header: update"); d.tag.ext |= 1; }
      if (f & 0x20) { if (!take(5)) return bad("extended header: CRC"); d.tag.ext |= 2; d.has_crc = true;
        bytes c = s.substr(q - 5, 5);
        for (unsigned char x : c) if (x & 0x80) return bad("extended header: CRC not sync-safe");
        if (u8(c, 0) > 0xf) return bad("extended header: CRC too large");
        want_crc = unsyncsafe(c); }
      if (f & 0x10) { if (!take(1)) return bad("extended header: restrictions"); d.tag.ext |= 4; d.tag.restr = u8(s, q - 1); }
      if (q != n) return bad("extended header: size");
      p = n;
    }
    std::size_t hdr = d.tag.ver == 2 ? 6 : 10, idl = d.tag.ver == 2 ? 3 : 4;
    bytes stored;
    while (p < s.size() && s[p] != 0) {
      if (s.size() - p < hdr) return bad("frame header runs off the end at " + std::to_string(p));
      Frame f;
      f.id = s.substr(p, idl);
      for (char c : f.id) if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) return bad("frame id " + mc::hex(f.id) + " at " + std::to_string(p));
      std::uint32_t n;
      if (d.tag.ver == 2) n = unbe(s.substr(p + 3, 3));
      else if (d.tag.ver == 3) n = unbe(s.substr(p + 4, 4));
      else {
        for (int i = 4; i < 8; ++i) if (u8(s, p + i) & 0x80) return bad("frame size not sync-safe");
        n = unsyncsafe(s.substr(p + 4, 4));
      }
      if (n > s.size() - p - hdr) return bad("frame " + f.id + " of " + std::to_string(n) + " bytes runs off the end");
      bytes data = s.substr(p + hdr, n);
      d.raw_frames.push_back(s.substr(p, hdr + n));
      if (d.tag.ver == 3) {
        unsigned char a = u8(s, p + 8), c = u8(s, p + 9);
        if (a & 0x1f || c & 0x1f) return bad("undefined frame flags");
        f.tap = a & 0x80; f.fap = a & 0x40; f.ro = a & 0x20;
        f.cmp = c & 0x80;
        if (c & 0x40) return bad("encrypted");
        std::size_t q = 0;
        std::uint32_t want = 0;
        if (f.cmp) { if (data.size() < 4) return bad("decompressed size"); want = unbe(data.substr(0, 4)); q = 4; }
        if (c & 0x20) { if (data.size() < q + 1) return bad("group"); f.gid = u8(data, q); ++q; }
        data = data.substr(q);
        if (f.cmp) { bytes o; if (!inflate(data, want, o)) return bad("frame " + f.id + " does not decompress to the size recorded"); data = o; }
      }
      if (d.tag.ver == 4) {
        unsigned char a = u8(s, p + 8), c = u8(s, p + 9);
        if (a & 0x8f || c & 0xb0) return bad("undefined frame flags");
        f.tap = a & 0x40; f.fap = a & 0x20; f.ro = a & 0x10;
        f.cmp = c & 0x08; f.uns = c & 0x02; f.dli = c & 0x01;
        if (c & 0x04) return bad("encrypted");
        if (f.cmp && !f.dli) return bad("compressed without a data length");
        std::size_t q = 0;
        std::uint32_t want = 0;
        if (c & 0x40) { if (data.size() < 1) return bad("group"); f.gid = u8(data, 0); q = 1; }
        if (f.dli) {
          if (data.size() < q + 4) return bad("data length");
          for (int i = 0; i < 4; ++i) if (u8(data, q + i) & 0x80) return bad("data length not sync-safe");
          want = unsyncsafe(data.substr(q, 4)); q += 4;
        }
        data = data.substr(q);
        if (f.uns) data = resync(data);
        if (f.cmp) { bytes o; if (!inflate(data, want, o)) return bad("frame " + f.id + " does not decompress to the size recorded"); data = o; }
        else if (f.dli && want != data.size()) return bad("data length indicator " + std::to_string(want) + " for " + std::to_string(data.size()) + " bytes");
        if (d.unsynced && !f.uns) return bad("tag flagged unsynchronised, frame " + f.id + " not");
      }
      f.body = data;
      stored += s.substr(p, hdr + n);
      d.tag.frames.push_back(f);
      p += hdr + n;
    }
    for (std::size_t i = p; i < s.size(); ++i) if (s[i]) return bad("padding not zero at " + std::to_string(i));
    d.tag.pad = s.size() - p;
    // the 00 that protects a final ff was removed by resync along with the rest
    if (d.tag.ver == 3 && d.tag.ext >= 0) d.ext_pad_ok = ext_pad == d.tag.pad;
    d.crc = want_crc;
    if (d.has_crc) d.crc_ok = want_crc == crc(d.tag.ver == 3 ? stored : stored + bytes(d.tag.pad, 0));
    return d;
  }

  // --- fields ------------------------------------------------------------

  static std::string three(const std::string &id)
  {
    static const std::map<std::string, std::string> M{
      {"UFI", "UFID"}, {"TXX", "TXXX"}, {"COM", "COMM"}, {"CNT", "PCNT"}, {"POP", "POPM"}, {"XTG", "XTAG"}};
    auto p = M.find(id);
    return p == M.end() ? id : p->second;
  }
  static std::pair<bytes, bytes> cut(const bytes &b, std::size_t from, int width)
  {
    for (std::size_t i = from; i + width <= b.size(); i += width)
      if (b[i] == 0 && (width == 1 || b[i+1] == 0)) return {b.substr(from, i - from), b.substr(i + width)};
    return {b.substr(from), bytes()};
  }
  static int width(int ver, unsigned char enc) { return enc == 0 || (ver == 4 && enc == 3) ? 1 : 2; }

  std::string fields(int ver, const Frame &f)
  {
    std::string k = three(f.id), h;
    const bytes &b = f.body;
    auto H = [](const bytes &x) { return mc::hex(x); };
    if (k == "UFID") { auto c = cut(b, 0, 1); return "ufid owner=" + H(c.first) + " id=" + H(c.second); }
    if (k == "ENCR" && ver > 2) { auto c = cut(b, 0, 1); return "encr email=" + H(c.first) + " symbol=" + H(c.second.substr(0, 1)) + " data=" + H(c.second.substr(1)); }
    if (k == "TXXX") { auto c = cut(b, 1, width(ver, b[0])); return "txxx enc=" + H(b.substr(0, 1)) + " dsc=" + H(c.first) + " text=" + H(c.second); }
    if (k == "COMM") { auto c = cut(b, 4, width(ver, b[0])); return "comm enc=" + H(b.substr(0, 1)) + " lang=" + H(b.substr(1, 3)) + " dsc=" + H(c.first) + " text=" + H(c.second); }
    if (k == "PCNT") return "pcnt " + H(b);
    if (k == "POPM") { auto c = cut(b, 0, 1); return "popm email=" + H(c.first) + " rating=" + H(c.second.substr(0, 1)) + " count=" + H(c.second.substr(1)); }
    if (k == "PRIV" && ver > 2) { auto c = cut(b, 0, 1); return "priv email=" + H(c.first) + " data=" + H(c.second); }
    if (k == "XTAG") {
      auto c = cut(b, 1, 1);
      std::map<bytes, std::set<bytes>> m;
      bytes r = c.second;
      while (!r.empty()) {
        auto kv = cut(r, 0, 1);
        std::uint32_t n = unbe(kv.second.substr(0, 4));
        bytes vals = kv.second.substr(4, n);
        auto &s = m[kv.first];
        while (!vals.empty()) { auto v = cut(vals, 0, 1); s.insert(v.first); vals = v.second; }
        r = kv.second.substr(4 + n);
      }
      h = "xtag owner=" + H(c.first);
      for (auto &x : m) { h += " " + H(x.first) + "="; for (auto &v : x.second) h += H(v) + ","; }
      return h;
    }
    if (f.id[0] == 'T') return "text enc=" + H(b.substr(0, 1)) + " " + H(b.substr(1));
    return "data " + H(b);
  }

  template <typename F> static bytes get(F f)
  { std::vector<unsigned char> v; f(std::back_inserter(v)); return bytes(v.begin(), v.end()); }
#define GET(e) get([&](std::back_insert_iterator<std::vector<unsigned char>> o) { e; })
  static bytes one(unsigned char c) { return bytes(1, char(c)); }

  std::string fields(const id3v2_frame &f)
  {
    auto H = [](const bytes &x) { return mc::hex(x); };
    if (auto p = dynamic_cast<const unique_file_id*>(&f)) return "ufid owner=" + H(GET(p->ownerb(o))) + " id=" + H(GET(p->idb(o)));
    if (auto p = dynamic_cast<const encryption_method*>(&f)) return "encr email=" + H(GET(p->emailb(o))) + " symbol=" + H(one(p->method_symbol())) + " data=" + H(GET(p->datab(o)));
    if (auto p = dynamic_cast<const user_defined_text*>(&f)) return "txxx enc=" + H(one(p->unicode())) + " dsc=" + H(GET(p->descriptionb(o))) + " text=" + H(GET(p->textb(o)));
    if (auto p = dynamic_cast<const comments*>(&f)) {
      auto l = p->lang();
      return "comm enc=" + H(one(p->unicode())) + " lang=" + H(one(std::get<0>(l)) + one(std::get<1>(l)) + one(std::get<2>(l))) +
        " dsc=" + H(GET(p->descriptionb(o))) + " text=" + H(GET(p->textb(o)));
    }
    if (auto p = dynamic_cast<const play_count*>(&f)) return "pcnt " + H(GET(p->counterb(o)));
    if (auto p = dynamic_cast<const popularimeter*>(&f)) return "popm email=" + H(GET(p->emailb(o))) + " rating=" + H(one(p->rating())) + " count=" + H(GET(p->counterb(o)));
    if (auto p = dynamic_cast<const private_frame*>(&f)) return "priv email=" + H(GET(p->emailb(o))) + " data=" + H(GET(p->contentsb(o)));
    if (auto p = dynamic_cast<const tag_cloud*>(&f)) {
      std::string h = "xtag owner=" + H(p->owner());
      for (auto &x : *p) { h += " " + H(x.first) + "="; for (auto &v : x.second) h += H(v) + ","; }
      return h;
    }
#define TEXT(n) if (auto p = dynamic_cast<const id3v2_##n##_text_frame*>(&f)) return "text enc=" + H(one(p->unicode())) + " " + H(GET(p->text(o)));
    TEXT(2) TEXT(3) TEXT(4)
#define UNK(n) if (auto p = dynamic_cast<const unknown_id3v2_##n##_frame*>(&f)) return "data " + H(GET(p->data(o)));
    UNK(2) UNK(3) UNK(4)
    return "?";
  }

  // The unsynchronisation of a 2.4 frame is an artefact of how it was written
  std::string flags(const Frame &f, int ver, bool full)
  {
    if (ver == 2) return "";
    std::string s;
    if (f.tap) s += "t";
    if (f.fap) s += "f";
    if (f.ro) s += "r";
    if (f.cmp) s += "z";
    if (f.gid >= 0) s += full ? "g" + std::to_string(f.gid) : "g";
    return s;
  }
  std::string flags(const id3v2_frame &g)
  {
    std::string s;
    if (auto p = dynamic_cast<const id3v2_3_plus_frame*>(&g)) {
      if (p->tag_alter_preserve() == id3v2_3_plus_frame::tag_alter_preservation::discard) s += "t";
      if (p->file_alter_preserve() == id3v2_3_plus_frame::file_alter_preservation::discard) s += "f";
      if (p->readonly() == id3v2_3_plus_frame::read_only::set) s += "r";
      if (p->compressed()) s += "z";
      if (p->grouped()) s += "g";   // which group is only seen in what is written
    }
    return s;
  }
  std::string frame_id(const id3v2_frame &g)
  {
    std::ostringstream o;
    if (auto p = dynamic_cast<const id3v2_2_frame*>(&g)) o << p->id();
    else if (auto p = dynamic_cast<const id3v2_3_plus_frame*>(&g)) o << p->id();
    return o.str();
  }

  // --- the real thing ----------------------------------------------------

  typedef id3v2_3_plus_frame::tag_alter_preservation TAP;
  typedef id3v2_3_plus_frame::file_alter_preservation FAP;
  typedef id3v2_3_plus_frame::read_only RO;
  typedef boost::optional<unsigned char> OID;
  typedef boost::optional<std::size_t> OSZ;

#define RANGE(f) (const unsigned char*)(f).body.data(), (const unsigned char*)(f).body.data() + (f).body.size()
#define FL(f) (f).tap ? TAP::discard : TAP::preserve, (f).fap ? FAP::discard : FAP::preserve, (f).ro ? RO::set : RO::clear, OID()
#define GRP(f) (f).gid >= 0 ? OID((unsigned char)(f).gid) : OID()
#define FL3(f) FL(f), GRP(f), (f).cmp ? OSZ((f).body.size()) : OSZ()
#define FL4(f) FL(f), GRP(f), (f).cmp, (f).uns, ((f).dli || (f).cmp) ? OSZ((f).body.size()) : OSZ()

  std::unique_ptr<id3v2_2_frame> make2(const Frame &f)
  {
    typedef std::unique_ptr<id3v2_2_frame> P;
    if (f.id == "UFI") return P(new UFI(RANGE(f)));
    if (f.id == "TXX") return P(new TXX(RANGE(f)));
    if (f.id == "COM") return P(new COM(RANGE(f)));
    if (f.id == "CNT") return P(new CNT(RANGE(f)));
    if (f.id == "POP") return P(new POP(RANGE(f)));
    if (f.id == "XTG") return P(new XTG(RANGE(f)));
    frame_id3 id(f.id.c_str());
    if (f.id[0] == 'T') return P(new id3v2_2_text_frame(id, RANGE(f)));
    return P(new unknown_id3v2_2_frame(id, RANGE(f)));
  }
  std::unique_ptr<id3v2_3_frame> make3(const Frame &f)
  {
    typedef std::unique_ptr<id3v2_3_frame> P;
#define K(n) if (f.id == #n) return P(new n(RANGE(f), FL3(f)));
    K(UFID) K(ENCR) K(TXXX) K(COMM) K(PCNT) K(POPM) K(XTAG) K(PRIV)
#undef K
    frame_id4 id(f.id.c_str());
    if (f.id[0] == 'T') return P(new id3v2_3_text_frame(id, RANGE(f), FL3(f)));
    return P(new unknown_id3v2_3_frame(id, FL3(f), RANGE(f)));
  }
  std::unique_ptr<id3v2_4_frame> make4(const Frame &f)
  {
    typedef std::unique_ptr<id3v2_4_frame> P;
#define K(n) if (f.id == #n) return P(new n##_2_4(RANGE(f), FL4(f)));
    K(UFID) K(ENCR) K(TXXX) K(COMM) K(PCNT) K(POPM) K(XTAG) K(PRIV)
#undef K
    frame_id4 id(f.id.c_str());
    if (f.id[0] == 'T') return P(new id3v2_4_text_frame(id, RANGE(f), FL4(f)));
    return P(new unknown_id3v2_4_frame(id, FL4(f), RANGE(f)));
  }

  void push(id3v2_tag &t, const Frame &f)
  {
    if (auto p = dynamic_cast<id3v2_2_tag*>(&t)) {
      auto g = make2(f);
#define K(n) if (auto q = dynamic_cast<n*>(g.get())) { p->push_back(*q); return; }
      K(id3v2_2_text_frame) K(CNT) K(COM) K(POP)
      p->push_back(*g);
    } else if (auto p = dynamic_cast<id3v2_3_tag*>(&t)) {
      auto g = make3(f);
      K(id3v2_3_text_frame) K(PCNT) K(COMM) K(POPM)
      p->push_back(*g);
    } else if (auto p = dynamic_cast<id3v2_4_tag*>(&t)) {
      auto g = make4(f);
      K(id3v2_4_text_frame) K(PCNT_2_4) K(COMM_2_4) K(POPM_2_4)
      p->push_back(*g);
    }
  }

  std::unique_ptr<id3v2_tag> make(const Tag &t)
  {
    std::unique_ptr<id3v2_tag> r;
    if (t.ver == 2) r.reset(new id3v2_2_tag(t.pad));
    else if (t.ver == 3)
      r.reset(new id3v2_3_tag(t.pad, t.exp, t.ext < 0 ? id3v2_3_tag::want_extended_header::none : t.ext ? id3v2_3_tag::want_extended_header::with_crc : id3v2_3_tag::want_extended_header::present));
    else if (t.footer || t.ext >= 0) {
      // only the parser makes these: start from an empty one
      Tag e; e.ver = 4; e.exp = t.exp; e.ext = t.ext; e.restr = t.restr; e.footer = t.footer;
      r = read(encode(e));
      r->padding(t.pad);
    }
    else r.reset(new id3v2_4_tag(t.pad, t.exp));
    for (auto &f : t.frames) push(*r, f);
    return r;
  }

  std::unique_ptr<id3v2_tag> read(const bytes &b)
  {
    std::istringstream is(b);
    auto p = maybe_read_id3v2(is);
    if (p && is.tellg() != std::streampos(decode(b).total))
      throw std::runtime_error("stream left at " + std::to_string((long)is.tellg()) + " after a tag of " + std::to_string(decode(b).total) + " bytes");
    return p;
  }

  bytes write(const id3v2_tag &t, bool u)
  {
    std::ostringstream os;
    t.write(os, u);
    return os.str();
  }

  std::vector<const id3v2_frame*> frames(const id3v2_tag &t)
  {
    std::vector<const id3v2_frame*> v;
#define K(n) if (auto p = dynamic_cast<const n*>(&t)) for (auto q = p->begin(); q != p->end(); ++q) { const id3v2_frame &f = *q; v.push_back(&f); }
    K(id3v2_2_tag) K(id3v2_3_tag) K(id3v2_4_tag)
#undef K
    return v;
  }

  std::string describe(const id3v2_tag &t)
  {
    std::ostringstream o;
    o << "2." << int(t.version()) << " padding " << t.padding();
    if (auto p = dynamic_cast<const id3v2_3_tag*>(&t)) {
      o << " exp " << p->experimental() << " ext " << (p->has_extended_header() ? int(p->extended_header().has_crc()) : -1);
    }
    if (auto p = dynamic_cast<const id3v2_4_tag*>(&t)) {
      int x = -1;
      std::string restr;
      if (p->has_extended_header()) {
        auto e = p->extended_header();
        x = (e.is_update() ? 1 : 0) | (e.has_crc() ? 2 : 0) | (e.restricted() ? 4 : 0);
        if (e.restricted()) {
          auto r = e.get_restrictions();
          restr = " restr " + std::to_string(int(std::get<0>(r)) << 6 | int(std::get<1>(r)) << 5 | int(std::get<2>(r)) << 3 | int(std::get<3>(r)) << 2 | int(std::get<4>(r)));
        }
      }
      o << " exp " << p->experimental() << " ext " << x << restr << " footer " << p->has_footer();
    }
    for (auto f : frames(t)) o << "\n  " << frame_id(*f) << "/" << flags(*f) << " " << fields(*f);
    return o.str();
  }
  std::string describe(const Tag &t, bool full)
  {
    std::ostringstream o;
    o << "2." << t.ver << " padding " << t.pad;
    if (t.ver > 2) o << " exp " << t.exp << " ext " << t.ext;
    if (t.ver == 4 && t.ext > 3) o << " restr " << t.restr;
    if (t.ver == 4) o << " footer " << t.footer;
    for (auto &f : t.frames) o << "\n  " << f.id << "/" << flags(f, t.ver, full) << " " << fields(t.ver, f);
    return o.str();
  }

  std::vector<Frame> kinds(int ver)
  {
    typedef std::string S;
    auto B = [](const char *p, std::size_t n) { return S(p, n); };
#define BL(x) B(x, sizeof(x) - 1)
    std::vector<std::pair<S, S>> v{
      {"TIT2", BL("\0Aja")},
      {"TIT2", BL("\1\xff\xfe" "A\0\xff\0")},
      {"TPE1", BL("\0")},
      {"TALB", BL("\0\xff\xff")},
      {"TXXX", BL("\0dsc\0value")},
      {"TXXX", BL("\1\xff\xfe" "d\0\0\0\xff\xfe" "v\0")},
      {"COMM", BL("\0eng" "d\0text")},
      {"COMM", BL("\1fra" "\xff\xfe" "\0\0\xff\xfe" "x\xff")},
      {"UFID", BL("own\0\xff\xe0\x00")},
      {"PCNT", BL("\x00\x00\x00\x7f")},
      {"PCNT", BL("\x01\x00\x00\x00\xff")},
      {"POPM", BL("me@x\0\xff\x00\x00\x01\x00")},
      {"XTAG", BL("\1own\0k\0\0\0\0\4a\0b\0z\0\0\0\0\0")},
      {"WXYZ", BL("\xff\xe0")},
      {"APIC", BL("\x00\x01\xff")},
    };
    if (ver > 2) {
      v.push_back({"ENCR", BL("me\0\x80" "d\xff")});
      v.push_back({"PRIV", BL("own\0\xff\xf0" "da\0ta")});
    }
    if (ver == 4) v.push_back({"TIT3", BL("\3caf\xc3\xa9")});
    static const std::map<S, S> M{{"TIT2", "TT2"}, {"TPE1", "TP1"}, {"TALB", "TAL"}, {"TXXX", "TXX"}, {"COMM", "COM"}, {"UFID", "UFI"},
      {"PCNT", "CNT"}, {"POPM", "POP"}, {"XTAG", "XTG"}, {"WXYZ", "WXY"}, {"APIC", "PIC"}};
    std::vector<Frame> r;
    for (auto &x : v) { Frame f; f.id = ver == 2 ? M.at(x.first) : x.first; f.body = x.second; r.push_back(f); }
    return r;
  }
}
