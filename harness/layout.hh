// Files put together from parts: tags, audio (with look-alikes) and ID3v1 tags.
#ifndef VERIF_LAYOUT_HH
#define VERIF_LAYOUT_HH
#include "id3.hh"
#include <cstring>

using namespace id3;
using namespace scribbu;
typedef std::vector<Tag> Set;
typedef std::vector<std::unique_ptr<id3v2_tag>> Real;

[[maybe_unused]] static Frame mk(const std::string &id, const bytes &b) { Frame f; f.id = id; f.body = b; return f; }
[[maybe_unused]] static Tag tag(int ver, std::size_t pad, std::vector<Frame> fr, bool foot = false)
{ Tag t; t.ver = ver; t.pad = pad; t.frames = fr; t.footer = foot; return t; }
[[maybe_unused]] static bytes txt(const char *s) { return bytes(1, 0) + s; }

[[maybe_unused]] static std::vector<std::pair<std::string, Tag>> pool()
{
  return {
    {"a", tag(3, 0, {mk("TIT2", txt("a"))})},
    {"b", tag(3, 20, {mk("TIT2", txt("bb")), mk("TPE1", txt("b"))})},
    {"c", tag(2, 3, {mk("TT2", txt("ccc"))})},
    {"d", tag(4, 5, {mk("TIT2", txt("d"))})},
    {"f", tag(4, 0, {mk("TIT2", txt("ff"))}, true)},
    {"s", tag(3, 4, {mk("APIC", bytes("\xff\xe0\xff\x00\xff\xff", 6)), mk("TIT2", txt("\xff"))})},
    {"e", tag(3, 12, {})},
    {"S", tag(4, 0, {mk("APIC", bytes("\xff\xe0\xff\x00\xff\xff", 6))})},
    {"z", tag(2, 0, {mk("PIC", bytes("\xff\xfb\xff", 3))})},
  };
}
[[maybe_unused]] static std::string name(const Set &s) { std::string r = "{"; for (auto &t : s) r += (r.size() > 1 ? "," : "") + t.name(); return r + "}"; }
[[maybe_unused]] static Real build(const Set &s) { Real r; for (auto &t : s) r.push_back(make(t)); return r; }
[[maybe_unused]] static bytes enc(const Set &s) { bytes b; for (auto &t : s) b += encode(t); return b; }
// all sequences of up to n
[[maybe_unused]] static std::vector<Set> sets(const std::vector<Tag> &P, int n)
{
  std::vector<Set> r{{}};
  std::size_t from = 0;
  for (int d = 0; d < n; ++d) {
    std::size_t k = r.size();
    for (std::size_t i = from; i < k; ++i) for (auto &t : P) { Set s = r[i]; s.push_back(t); r.push_back(s); }
    from = k;
  }
  return r;
}

// --- ID3v1 -------------------------------------------------------------------
[[maybe_unused]] static bytes fix(const bytes &s, std::size_t n) { bytes b = s.substr(0, n); b.resize(n, 0); return b; }
[[maybe_unused]] static bytes v1std(const std::string &t, int track)
{
  bytes b = "TAG" + fix(t, 30) + fix("artist", 30) + fix("album", 30) + "1999";
  b += track < 0 ? fix("a comment", 30) : fix("a comment", 28) + bytes(1, 0) + char(track);
  return b + char(17);
}
[[maybe_unused]] static bytes v1enh(const std::string &t, int track)
{ return "TAG+" + fix(t, 60) + fix("artist", 60) + fix("album", 60) + char(2) + fix("egenre", 30) + "000:00" + "003:21" + v1std(t, track); }
[[maybe_unused]] static std::vector<std::pair<std::string, bytes>> v1s()
{ return {{"none", ""}, {"v1", v1std("t", -1)}, {"v1.1", v1std("tt", 3)}, {"enh", v1enh("te", 4)}}; }
// how much of the end of the file is an ID3v1 tag
[[maybe_unused]] static std::size_t v1len(const bytes &b)
{
  if (b.size() < 128 || b.compare(b.size() - 128, 3, "TAG")) return 0;
  if (b.size() >= 355 && !b.compare(b.size() - 355, 4, "TAG+")) return 355;
  return 128;
}

[[maybe_unused]] static std::vector<std::pair<std::string, bytes>> audios()
{
  bytes noise;
  for (int i = 0; i < 400; ++i) noise += char(i * 7 + 3);
  bytes big(70001, '\xfb');
  for (std::size_t i = 0; i < big.size(); i += 3) big[i] = char(i);
  auto at = [&](bytes b, int off, const char *s) { b.replace(b.size() - off, strlen(s), s); return b; };
  return {
    {"frames", bytes("\xff\xfb\x90\x00", 4) + noise},
    {"none", ""},
    {"one", "x"},
    {"ID3", "ID3"},
    {"ID3short", bytes("ID3\x03\0\0\0\0\0", 9)},
    {"ID3ver", bytes("ID3\xff\0\0\0\0\0\x05hello", 15)},
    {"ID3rev", bytes("ID3\x03\xff\0\0\0\0\x05hello", 15)},
    {"ID3size", bytes("ID3\x03\0\0\x80\0\0\x05hello", 15)},
    {"3DI", bytes("3DI\x04\0\x10\0\0\0\x05", 10) + noise},
    {"TAG-127", at(noise, 127, "TAG")},
    {"TAG-129", at(noise, 129, "TAG")},
    {"TAG+-355", at(noise, 355, "TAG+")},
    {"TAG+-354", at(noise, 354, "TAG+")},
    {"TAGs-227", at(noise, 227, "TAGs")},
    {"TAG-first", "TAG" + noise},
    {"zeros", bytes(50, 0)},
    {"big", big},
    {"cr", "\r\n\r\n\x1a\r\n"},
    {"4096", bytes(4096, '\xff')},
  };
}
#endif
