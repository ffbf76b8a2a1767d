// C18: the duration of MPEG audio.  Streams are put together from frames whose
// number of samples is known, and what the code says of them is compared with
// that sum.
#include "mc.hh"
#include "fsx.hh"
#include <scribbu/mp3.hh>
#include <scribbu/scribbu.hh>
#include <cmath>
#include <fstream>
#include <optional>

using namespace scribbu;
typedef std::string bytes;

// --- the standard ---------------------------------------------------------------
static const int RATE[3][3] = {{44100, 48000, 32000}, {22050, 24000, 16000}, {11025, 12000, 8000}};
static const int KBPS[2][16] = {{0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, -1},
                                {0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, -1}};
struct Hdr {
  unsigned char h[4];
  bool valid() const
  {
    return h[0] == 0xff && h[1] >= 0xe0 && ((h[1] >> 3) & 3) != 1 && ((h[1] >> 1) & 3) == 1 && (h[2] >> 4) && (h[2] >> 4) != 15 && ((h[2] >> 2) & 3) != 3;
  }
  int ver() const { int v = (h[1] >> 3) & 3; return v == 3 ? 0 : v == 2 ? 1 : 2; }
  int rate() const { return RATE[ver()][(h[2] >> 2) & 3]; }
  int kbps() const { return KBPS[ver() ? 1 : 0][h[2] >> 4]; }
  int samples() const { return ver() ? 576 : 1152; }
  bool crc() const { return !(h[1] & 1); }
  bool mono() const { return (h[3] >> 6) == 3; }
  int side() const { return ver() ? (mono() ? 9 : 17) : (mono() ? 17 : 32); }
  std::size_t size() const { return std::size_t(samples()) * kbps() * 1000 / 8 / rate() + ((h[2] >> 1) & 1); }
  bytes str() const { return bytes((const char*)h, 4); }
};
static Hdr hdr(int ver, int br, int sr, bool pad, int mode, bool crc)
{
  Hdr h;
  h.h[0] = 0xff;
  h.h[1] = 0xe0 | (ver == 0 ? 3 : ver == 1 ? 2 : 0) << 3 | 1 << 1 | !crc;
  h.h[2] = br << 4 | sr << 2 | pad << 1;
  h.h[3] = mode << 6;
  return h;
}
// a frame; what fills it never looks like a header
static bytes frame(const Hdr &h, int fill = 0)
{
  bytes b = h.str();
  for (std::size_t i = 4; i < h.size(); ++i) b += fill ? char(0x40 + i % 64) : char(0);
  return b;
}
static bytes be(std::uint32_t x, int n = 4) { bytes b; while (n--) b += char(x >> (8 * n)); return b; }

// --- what the code says ------------------------------------------------------------
struct Said { bool threw = false; std::string what; double dur = -1; long pos = -1; };
static Said ask(std::istream &is)
{
  Said s;
  try { s.dur = get_mp3_duration(is); } catch (const std::exception &e) { s.threw = true; s.what = e.what(); }
  if (!s.threw) s.pos = is.tellg();
  mc::transition();
  return s;
}
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
static std::string show(const Said &s) { std::ostringstream o; o.precision(12); if (s.threw) o << "an error (" << s.what << ")"; else o << s.dur << " s"; return o.str(); }
static void judge(const Said &s, double want, long pos = -1, const char *how = "")
{
  MC_CHECK(!s.threw && near(s.dur, want), how << "said " << show(s) << ", not " << want << " s");
  if (!s.threw && pos >= 0) MC_CHECK(s.pos == pos, how << "left the stream at " << s.pos << ", not " << pos);
}

// 1. headers
static void headers()
{
  for (int h1 = 0xe0; h1 < 0x100; ++h1)
    for (int h2 = 0; h2 < 0x100; ++h2)
      for (int h3 = 0; h3 < 0x100; ++h3) {
        Hdr h{{0xff, (unsigned char)h1, (unsigned char)h2, (unsigned char)h3}};
        if (!mc::begin([&] { return "header " + mc::hex(h.str()); })) continue;
        mc::state_hash(h1 << 16 | h2 << 8 | h3);
        bytes b = h.valid() ? frame(h) + frame(h, 1) + frame(h) : h.str() + bytes(3000, 0);
        std::istringstream is(b);
        Said s = ask(is);
        std::istringstream js(b);
        std::string what;
        mc::transition();
        try {
          mp3_audio_frame f(js, false);
          MC_CHECK(h.valid(), "accepted by mp3_audio_frame");
          if (h.valid()) {
            MC_CHECK(int(f.bps()) == h.kbps() * 1000, "bit rate " << f.bps());
            MC_CHECK(int(f.sample_rate_hz()) == h.rate(), "sampling rate " << f.sample_rate_hz());
            MC_CHECK(f.size() == h.size(), "size " << f.size() << " not " << h.size());
            auto d = f.duration();
            MC_CHECK(d.first * h.rate() == d.second * h.samples(), "duration " << d.first << "/" << d.second);
            MC_CHECK(js.tellg() == std::streampos(h.size()), "left at " << js.tellg());
          }
        } catch (const std::exception &e) { MC_CHECK(!h.valid(), "mp3_audio_frame failed: " << e.what()); }
        if (h.valid()) judge(s, 3.0 * h.samples() / h.rate(), b.size());
        else MC_CHECK(s.threw, "unusable, yet said " << show(s));
        mc::trace();
        mc::outcome(h.valid() ? "header: usable" : "header: reported");
      }
}

static std::vector<std::pair<std::string, Hdr>> kinds()
{
  return {
    {"a", hdr(0, 9, 0, false, 0, false)},       // 128 kb/s 44.1 kHz
    {"b", hdr(0, 9, 0, true, 1, false)},
    {"c", hdr(0, 1, 1, false, 3, true)},        // 32 kb/s 48 kHz mono, CRC
    {"d", hdr(0, 14, 2, true, 2, false)},       // 320 kb/s 32 kHz
    {"e", hdr(1, 8, 0, false, 0, false)},       // MPEG 2
    {"f", hdr(1, 1, 1, true, 3, true)},         // 8 kb/s 24 kHz mono: the smallest
    {"g", hdr(2, 14, 2, false, 1, false)},      // MPEG 2.5, 8 kHz
    {"h", hdr(2, 4, 0, false, 3, false)},
  };
}

// 2. sequences of frames, between what may be before and after them
static void sequences()
{
  auto K = kinds();
  bytes v1 = "TAG" + bytes(125, 'x'), enh = "TAG+" + bytes(223, 'y') + v1;
  bytes v1sync = v1; v1sync.replace(40, 4, bytes("\xff\xfb\x90\x00", 4));
  std::vector<std::pair<std::string, bytes>> before{{"", ""}, {"junk1", bytes(1, 'j')}, {"junk2", "jk"}, {"zeros", bytes(7, 0)}, {"ff00", bytes("\xff\x00", 2)},
    {"ffdf", "\xff\xdf"}, {"xff0", bytes("x\xff\x10", 3)}, {"junk300", bytes(300, '\xdf')}};
  std::vector<std::pair<std::string, bytes>> after{{"", ""}, {"v1", v1}, {"enhanced", enh}, {"v1sync", v1sync}, {"zero", bytes(1, 0)}, {"zeros", bytes(500, 0)},
    {"ff", "\xff"}, {"fffb", "\xff\xfb"}, {"fffb90", "\xff\xfb\x90"}, {"ff00", bytes("\xff\x00\xff\xfb\x90\x00", 6)}, {"APE", "APETAGEX" + bytes(40, 1)},
    {"lyrics", "LYRICSBEGIN" + bytes(20, 'l')}};
  int depth = mc::quick ? 5 : 6;
  std::function<void(std::vector<int>&)> go = [&](std::vector<int> &q) {
    if (!q.empty()) {
      bytes audio; double want = 0; std::string nm;
      for (int i : q) { audio += frame(K[i].second, q.size() & 1); want += double(K[i].second.samples()) / K[i].second.rate(); nm += K[i].first; }
      bool deep = q.size() > 2;
      for (auto &x : before)
        for (auto &y : after) {
          if (deep && (x.second.size() > 2 || (y.second.size() > 1 && y.first != "v1"))) continue;
          if (!mc::begin([&] { return "frames " + x.first + "+" + nm + "+" + y.first; })) continue;
          std::istringstream is(x.second + audio + y.second);
          mc::state(x.first + nm + y.first);
          judge(ask(is), want, x.second.size() + audio.size());
          mc::trace();
          mc::outcome(std::to_string(q.size()) + " frames");
          if (deep) mc::sample("frames " + x.first + "+" + nm + "+" + y.first + " = " + std::to_string(want));
        }
      // cut short anywhere in the last frame: counted or not
      if (q.size() <= 2) {
        const Hdr &l = K[q.back()].second;
        double last = double(l.samples()) / l.rate();
        for (std::size_t cut = 1; cut < l.size(); cut += (cut < 60 || l.size() - cut < 60 ? 1 : 7)) {
          if (!mc::begin([&] { return "cut " + nm + "-" + std::to_string(cut); })) continue;
          std::istringstream is(audio.substr(0, audio.size() - cut));
          Said s = ask(is);
          MC_CHECK(!s.threw && (near(s.dur, want) || near(s.dur, want - last)), "said " << show(s) << ", not " << want << " or " << want - last);
          mc::trace();
          mc::outcome("cut short");
        }
        // something that can't be a frame in between: reported
        for (const char *bad : {"\xff\xe9\x90\x01", "\xff\xfd\x90\x01", "\xff\xff\x90\x01", "\xff\xf9\x90\x01", "\xff\xfb\x01\x01", "\xff\xfb\xf1\x01", "\xff\xfb\x9d\x01"}) {
          if (!mc::begin([&] { return "bad " + nm + "+" + mc::hex(bytes(bad, 4)); })) continue;
          std::istringstream is(audio + bytes(bad, 4) + bytes(1000, 1));
          Said s = ask(is);
          MC_CHECK(s.threw, "said " << show(s));
          mc::trace();
          mc::outcome("unusable frame");
        }
      }
    }
    if (int(q.size()) == depth) return;
    for (std::size_t i = 0; i < K.size(); ++i) { q.push_back(i); go(q); q.pop_back(); }
  };
  std::vector<int> q;
  go(q);
  // none at all
  for (auto &x : before)
    for (auto &y : after) {
      if (y.first == "v1sync" || y.first == "fffb" || y.first == "fffb90" || y.first == "ff00") continue;
      if (!mc::begin("none " + x.first + "+" + y.first)) continue;
      std::istringstream is(x.second + y.second);
      Said s = ask(is);
      MC_CHECK(s.threw || s.dur == 0, "said " << show(s) << " of nothing");
      mc::trace();
    }
  // long runs
  for (auto &k : K)
    for (int n : {10, 100, 1000}) {
      if (!mc::begin("run " + k.first + std::to_string(n))) continue;
      bytes b;
      for (int i = 0; i < n; ++i) b += frame(k.second, i & 1);
      std::istringstream is(b);
      judge(ask(is), double(n) * k.second.samples() / k.second.rate(), b.size());
      mc::trace();
    }
}

// 3. information headers
static void info()
{
  std::vector<std::uint32_t> N = {0, 1, 2, 255, 256, 12345, 0x01020304, 0x7fffffff, 0x80000000u};
  for (int ver = 0; ver < 3; ++ver)
    for (int mode = 0; mode < 4; ++mode)
      for (int crc = 0; crc < 2; ++crc)
        for (int sr = 0; sr < 3; ++sr)
          for (int rest = 0; rest < 3; ++rest) {
            Hdr h = hdr(ver, ver ? 13 : 11, sr, false, mode, crc);
            double one = double(h.samples()) / h.rate();
            bytes tail = rest == 0 ? bytes() : rest == 1 ? frame(h) : frame(h) + frame(h, 1);
            auto put = [&](std::size_t at, const bytes &x) { bytes b = frame(h); b.replace(at, x.size(), x); return b.substr(0, h.size()); };
            // Xing or Info, after the side information; some encoders leave out the CRC they announce
            for (const char *id : {"Xing", "Info"})
              for (int off = 0; off < (crc ? 2 : 1); ++off)
                for (int flags = 0; flags < 16; ++flags)
                  for (std::size_t ni = 0; ni < N.size(); ++ni)
                    for (int lame = 0; lame < 3; ++lame) {
                      if (!(flags & 1) && ni) continue;
                      if (mc::quick && ni > 1 && (lame == 2 || (flags & 12) == 4)) continue;
                      std::uint32_t n = N[ni];
                      if (!mc::begin([&] { return std::string(id) + " 2." + std::to_string(ver) + " mode " + std::to_string(mode) + (crc ? off ? " crc missing" : " crc" : "") + " rate " + std::to_string(sr) +
                                           " flags " + std::to_string(flags) + " frames " + std::to_string(n) + " lame " + std::to_string(lame) + " rest " + std::to_string(rest); })) continue;
                      std::uint32_t total = h.size() + tail.size();
                      bytes x = id + be(flags);
                      if (flags & 1) x += be(n);
                      if (flags & 2) x += be(total);
                      if (flags & 4) for (int i = 0; i < 100; ++i) x += char(i);
                      if (flags & 8) x += be(57);
                      if (lame) x += lame == 1 ? "LAME3.100" : "L3.99r1\0\0", x += bytes(27, 1);
                      std::size_t at = 4 + h.side() + (crc && !off ? 2 : 0);
                      if (at + x.size() > h.size()) { mc::fail("does not fit: harness error"); continue; }
                      bytes b = put(at, x) + tail;
                      std::istringstream is(b);
                      Said s = ask(is);
                      mc::state(b.substr(0, 300) + std::to_string(rest));
                      double walk = one * (1 + rest), told = one * n;
                      if ((flags & 3) == 3) judge(s, told, b.size());
                      else if (!(flags & 1)) judge(s, walk, b.size());
                      else MC_CHECK(!s.threw && (near(s.dur, walk) || near(s.dur, told)), "said " << show(s) << ", not " << walk << " or " << told);
                      mc::trace();
                      mc::outcome((flags & 3) == 3 ? "from the header" : "walked");
                    }
            // the same text elsewhere means nothing
            for (const char *id : {"Xing", "Info", "VBRI"})
              for (int d : {-4, -3, -1, 1, 2, 3, 4, 40}) {
                std::size_t at = (id[0] == 'V' ? 36 : 4 + h.side() + (crc ? 2 : 0)) + d;
                if (id[0] == 'V' && crc && d == 2) continue;
                if (!mc::begin([&] { return std::string(id) + " 2." + std::to_string(ver) + " mode " + std::to_string(mode) + (crc ? " crc" : "") + " rate " + std::to_string(sr) + " rest " + std::to_string(rest) + " misplaced by " + std::to_string(d); })) continue;
                bytes x = id[0] == 'V' ? id + be(1, 2) + be(0, 2) + be(0, 2) + be(7777) + be(99) + be(0, 2) + be(1, 2) + be(2, 2) + be(1, 2) : id + be(3) + be(99) + be(7777);
                bytes b = put(at, x) + tail;
                std::istringstream is(b);
                judge(ask(is), one * (1 + rest), b.size());
                mc::trace();
                mc::outcome("misplaced");
              }
            // and so it does in a frame that is not the first
            for (const char *id : {"Xing", "VBRI"}) {
              if (!mc::begin([&] { return std::string(id) + " 2." + std::to_string(ver) + " mode " + std::to_string(mode) + (crc ? " crc" : "") + " rate " + std::to_string(sr) + " rest " + std::to_string(rest) + " in the second frame"; })) continue;
              bytes x = id[0] == 'V' ? id + be(1, 2) + be(0, 2) + be(0, 2) + be(7777) + be(99) + be(0, 2) + be(1, 2) + be(2, 2) + be(1, 2) : id + be(3) + be(99) + be(7777);
              bytes b = frame(h) + put(id[0] == 'V' ? 36 : 4 + h.side() + (crc ? 2 : 0), x) + tail;
              std::istringstream is(b);
              judge(ask(is), one * (2 + rest), b.size());
              mc::trace();
              mc::outcome("misplaced");
            }
            if (crc) continue;
            for (std::uint32_t n : N)
              for (int entries = 0; entries < 4; ++entries)
                for (int width = 1; width <= 4; ++width) {
                  if (!mc::begin([&] { return "VBRI 2." + std::to_string(ver) + " mode " + std::to_string(mode) + " rate " + std::to_string(sr) + " frames " + std::to_string(n) + " table " + std::to_string(entries) + "x" + std::to_string(width) +
                                       " rest " + std::to_string(rest); })) continue;
                  std::uint32_t total = h.size() + tail.size();
                  bytes x = "VBRI" + be(1, 2) + be(0x1234, 2) + be(75, 2) + be(total) + be(n) + be(entries, 2) + be(1, 2) + be(width, 2) + be(3, 2) + bytes(entries * width, 1);
                  bytes b = put(36, x) + tail;
                  std::istringstream is(b);
                  mc::state(b.substr(0, 100) + std::to_string(rest));
                  judge(ask(is), one * n, b.size());
                  mc::trace();
                  mc::outcome("from the header");
                }
          }
}

// 4. whole files
static void files()
{
  auto K = kinds();
  std::string dir = fsx::fresh("d"), file = dir + "/a.mp3";
  bytes v1 = "TAG" + bytes(125, 'x'), v1sync = v1;
  v1sync.replace(30, 4, bytes("\xff\xfb\x90\x00", 4));
  bytes enh = "TAG+" + bytes(223, 'y') + v1;
  auto id3 = [](int ver, const bytes &pay) {
    bytes f = ver == 2 ? bytes("PIC") + be(pay.size(), 3) + pay : bytes("APIC") + be(pay.size()) + be(0, 2) + pay;
    return bytes("ID3") + char(ver) + be(0, 2) + be(0, 2) + char(f.size() >> 7) + char(f.size() & 127) + f;
  };
  std::vector<std::pair<std::string, bytes>> before{{"", ""}, {"2.3", id3(3, "x")}, {"2.3sync", id3(3, bytes("\xff\xfb\x90\x00\xff\xfb\x90\x00", 8))}, {"2.2+2.4", id3(2, "\xff\xfb\x91") + id3(4, bytes(40, 'z'))}};
  std::vector<std::pair<std::string, bytes>> after{{"", ""}, {"v1", v1}, {"v1sync", v1sync}, {"enhanced", enh}};
  int depth = mc::quick ? 2 : 3;
  std::function<void(std::vector<int>&)> go = [&](std::vector<int> &q) {
    bytes audio; double want = 0; std::string nm;
    for (int i : q) { audio += frame(K[i].second, 1); want += double(K[i].second.samples()) / K[i].second.rate(); nm += K[i].first; }
    for (auto &x : before)
      for (auto &y : after)
        for (int form = 0; form < 2; ++form) {
          if (!mc::begin([&] { return std::string(form ? "file " : "stream ") + x.first + "+" + nm + "+" + y.first; })) continue;
          bytes b = x.second + audio + y.second;
          fsx::put(file, b);
          std::ifstream fs(file, std::ios::binary);
          std::istringstream ss(b);
          std::istream &is = form ? (std::istream&)fs : ss;
          mc::state(x.first + nm + y.first);
          is.seekg(x.second.size());
          track_data t(is);
          mc::transition();
          auto d = t.duration();
          if (q.empty()) MC_CHECK(!d || *d == 0, "said " << *d << " s of nothing");
          else MC_CHECK(d && near(*d, want), "said " << (d ? std::to_string(*d) : "nothing") << ", not " << want);
          mc::trace();
          mc::outcome("whole file");
        }
    if (int(q.size()) == depth) return;
    for (std::size_t i = 0; i < K.size(); ++i) { q.push_back(i); go(q); q.pop_back(); }
  };
  std::vector<int> q;
  go(q);
}

static void body() { headers(); sequences(); info(); files(); }
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
