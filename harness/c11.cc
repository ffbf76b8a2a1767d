// C11: ID3v1 tags built and edited through the API in every bounded way, against
// a model of the layout; and found in every bounded kind of ending of a stream.
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/id3v1.hh>
#include <cstring>
#include <memory>
#include <sstream>

using namespace scribbu;
typedef std::string bytes;

static bytes fix(const bytes &s, std::size_t n) { bytes b = s.substr(0, n); b.resize(n, 0); return b; }

struct Model {
  bool ext = false, v11 = false;
  bytes title, artist, album, comment, egenre, start, end, year;
  unsigned char genre = 0, speed = 0, track = 0;
  std::size_t n() const { return ext ? 90 : 30; }
  bytes layout() const
  {
    bytes b;
    auto head = [](const bytes &s) { return fix(s, 30); };
    auto tail = [](const bytes &s) { return fix(fix(s, 90).substr(30), 60); };
    if (ext) b = "TAG+" + tail(title) + tail(artist) + tail(album) + char(speed) + fix(egenre, 30) + fix(start, 6) + fix(end, 6);
    b += "TAG" + head(title) + head(artist) + head(album) + fix(year, 4);
    b += v11 ? fix(comment, 28) + bytes(1, 0) + char(track) : fix(comment, 30);
    return b + char(genre);
  }
  // what the bytes say
  static Model parse(const bytes &b)
  {
    Model m;
    m.ext = b.size() == 355;
    bytes s = b.substr(m.ext ? 227 : 0);
    auto fld = [&](int i) { return s.substr(3 + 30 * i, 30) + (m.ext ? b.substr(4 + 60 * i, 60) : ""); };
    m.title = fld(0); m.artist = fld(1); m.album = fld(2);
    if (m.ext) { m.speed = b[184]; m.egenre = b.substr(185, 30); m.start = b.substr(215, 6); m.end = b.substr(221, 6); }
    m.year = s.substr(93, 4);
    m.v11 = s[125] == 0 && s[126] != 0;
    m.comment = s.substr(97, m.v11 ? 28 : 30);
    if (m.v11) m.track = s[126];
    m.genre = s[127];
    return m;
  }
  std::string text() const
  {
    std::ostringstream o;
    o << (ext ? "enhanced " : "standard ") << (v11 ? "1.1" : "1") << " title=" << mc::hex(fix(title, n())) << " artist=" << mc::hex(fix(artist, n())) << " album=" << mc::hex(fix(album, n()))
      << " year=" << mc::hex(fix(year, 4)) << " comment=" << mc::hex(fix(comment, v11 ? 28 : 30)) << " genre=" << int(genre);
    if (v11) o << " track=" << int(track);
    if (ext) o << " speed=" << int(speed) << " egenre=" << mc::hex(fix(egenre, 30)) << " start=" << mc::hex(fix(start, 6)) << " end=" << mc::hex(fix(end, 6));
    return o.str();
  }
};

static std::string text(const id3v1_tag &t)
{
  std::ostringstream o;
  auto h = [](const std::string &s) { return mc::hex(s); };
  std::string title, artist, album, comment, eg, st, en, yr;
  t.title(std::back_inserter(title)); t.artist(std::back_inserter(artist)); t.album(std::back_inserter(album)); t.comment(std::back_inserter(comment)); t.year(std::back_inserter(yr));
  o << (t.enhanced() ? "enhanced " : "standard ") << (t.v1_1() ? "1.1" : "1") << " title=" << h(title) << " artist=" << h(artist) << " album=" << h(album)
    << " year=" << h(yr) << " comment=" << h(comment) << " genre=" << int(t.genre());
  if (t.v1_1()) o << " track=" << int(t.track_number().second);
  if (t.enhanced()) {
    t.enh_genre(std::back_inserter(eg)); t.start_time(std::back_inserter(st)); t.end_time(std::back_inserter(en));
    o << " speed=" << int(t.speed().second) << " egenre=" << h(eg) << " start=" << h(st) << " end=" << h(en);
  }
  if (t.track_number().first != t.v1_1() || t.speed().first != t.enhanced()) o << " (inconsistent)";
  return o.str();
}

struct Op { int f; bytes s; int n; std::string name() const {
  static const char *N[] = {"title", "artist", "album", "comment", "year", "egenre", "start", "end", "genre", "speed", "track"};
  return std::string(N[f]) + "(" + (f < 8 ? s.size() > 12 ? s.substr(0, 2) + "*" + std::to_string(s.size()) : s : std::to_string(n)) + ")"; } };

static void apply(Model &m, const Op &o)
{
  auto enh = [&] { if (!m.ext) { m.title = fix(m.title, 30); m.artist = fix(m.artist, 30); m.album = fix(m.album, 30); m.ext = true; } };
  switch (o.f) {
  case 0: m.title = fix(o.s, m.n()); break;
  case 1: m.artist = fix(o.s, m.n()); break;
  case 2: m.album = fix(o.s, m.n()); break;
  case 3: m.comment = fix(o.s, m.v11 ? 28 : 30); break;
  case 4: m.year = fix(o.s, 4); break;
  case 5: m.egenre = fix(o.s, 30); enh(); break;
  case 6: m.start = fix(o.s, 6); enh(); break;
  case 7: m.end = fix(o.s, 6); enh(); break;
  case 8: m.genre = o.n; break;
  case 9: m.speed = o.n; enh(); break;
  case 10: m.track = o.n; if (!m.v11) m.comment = fix(m.comment, 28); m.v11 = true; break;
  }
}
static void apply(id3v1_tag &t, const Op &o)
{
  encoding E = encoding::ISO_8859_1;
  switch (o.f) {
  case 0: t.set_title(o.s, E, E); break;
  case 1: t.set_artist(o.s, E, E); break;
  case 2: t.set_album(o.s, E, E); break;
  case 3: t.set_comment(o.s, E, E); break;
  case 4: t.set_year(o.s.c_str()); break;
  case 5: t.set_enh_genre(o.s, E, E); break;
  case 6: t.set_start_time(o.s.c_str()); break;
  case 7: t.set_end_time(o.s.c_str()); break;
  case 8: t.set_genre(o.n); break;
  case 9: t.set_speed(o.n); break;
  case 10: t.set_track_number(o.n); break;
  }
  mc::transition();
}

static bytes ramp(char c, std::size_t n) { bytes b; for (std::size_t i = 0; i < n; ++i) b += char(i % 10 ? 'a' + i % 26 : c); return b; }

static void check(const Model &m, const id3v1_tag &t)
{
  MC_CHECK(text(t) == m.text(), "holds " << text(t) << "\nnot " << m.text());
  std::ostringstream os;
  t.write(os);
  bytes b = os.str(), want = m.layout();
  MC_CHECK(b == want, "written as " << b.size() << " bytes " << mc::hex(b) << "\nnot " << mc::hex(want));
  MC_CHECK(t.size() == want.size(), "size() is " << t.size());
  Model r = Model::parse(want);
  for (int how = 0; how < 3; ++how) {
    std::istringstream is(how == 2 ? "some audio" + b : b);
    std::unique_ptr<id3v1_tag> p;
    try {
      if (how == 0) p.reset(new id3v1_tag(is));
      else if (how == 1) p.reset(new id3v1_tag(is, m.ext));
      else p = process_id3v1(is);
    } catch (const std::exception &e) { mc::fail(std::string("not read back: ") + e.what()); return; }
    mc::transition();
    MC_CHECK(bool(p), "not found when read back");
    if (p) MC_CHECK(text(*p) == r.text(), "read back as " << text(*p) << "\nnot " << r.text());
    if (p) { std::ostringstream o2; p->write(o2); MC_CHECK(o2.str() == b, "rewritten as " << mc::hex(o2.str())); }
  }
  // as text
  auto str = [](const bytes &f) { bytes s = f; while (!s.empty() && s.back() == 0) s.pop_back(); return s; };
  encoding E = encoding::ISO_8859_1, U = encoding::UTF_8;
  bool ascii = true;
  for (unsigned char c : want) if (c >= 0x80) ascii = false;
  if (ascii) {
    MC_CHECK(t.title<std::string>(E, U) == str(m.title), "title is '" << t.title<std::string>(E, U) << "'");
    MC_CHECK(t.artist<std::string>(E, U) == str(m.artist), "artist is '" << t.artist<std::string>(E, U) << "'");
    MC_CHECK(t.album<std::string>(E, U) == str(m.album), "album is '" << t.album<std::string>(E, U) << "'");
    MC_CHECK(t.comment<std::string>(E, U) == str(m.comment), "comment is '" << t.comment<std::string>(E, U) << "'");
    MC_CHECK(t.year<std::string>(E, U) == str(m.year), "year is '" << t.year<std::string>(E, U) << "'");
    if (m.ext) {
      MC_CHECK(t.enh_genre<std::string>(E, U) == str(m.egenre), "enhanced genre is '" << t.enh_genre<std::string>(E, U) << "'");
      MC_CHECK(t.start_time<std::string>(E, U) == str(m.start), "start time is '" << t.start_time<std::string>(E, U) << "'");
      MC_CHECK(t.end_time<std::string>(E, U) == str(m.end), "end time is '" << t.end_time<std::string>(E, U) << "'");
    }
  }
}

static void edits()
{
  std::vector<Op> ops;
  for (std::size_t n : {0, 1, 30, 31, 45, 90, 91}) ops.push_back({0, ramp('T', n), 0});
  for (std::size_t n : {1, 45, 200}) { ops.push_back({1, ramp('A', n), 0}); ops.push_back({2, ramp('L', n), 0}); }
  for (std::size_t n : {0, 5, 28, 29, 30, 40}) ops.push_back({3, ramp('C', n), 0});
  for (const char *s : {"", "99", "1999", "20001"}) ops.push_back({4, s, 0});
  for (std::size_t n : {0, 7, 30, 31}) ops.push_back({5, ramp('G', n), 0});
  for (const char *s : {"", "1:00", "000:00", "000:000"}) { ops.push_back({6, s, 0}); ops.push_back({7, s, 0}); }
  for (int n : {0, 255}) ops.push_back({8, "", n});
  for (int n : {0, 4, 255}) ops.push_back({9, "", n});
  for (int n : {0, 1, 32, 255}) ops.push_back({10, "", n});

  std::vector<std::pair<std::string, bytes>> starts;
  for (int i = 0; i < 4; ++i) starts.push_back({std::string("new ") + (i & 1 ? "1.1" : "1") + (i & 2 ? " enhanced" : ""), std::to_string(i)});
  Model m; m.title = "a title"; m.artist = ramp('a', 30); m.comment = ramp('c', 30); m.year = "1987"; m.genre = 17;
  starts.push_back({"read 1", m.layout()});
  m.v11 = true; m.track = 9;
  starts.push_back({"read 1.1", m.layout()});
  m.ext = true; m.artist = ramp('a', 90); m.speed = 3; m.egenre = "x"; m.start = "000:01"; m.end = "009:59";
  starts.push_back({"read enhanced", m.layout()});
  m.v11 = false; m.title = "+title"; m.comment = "TAG";
  starts.push_back({"read enhanced 1", m.layout()});
  int depth = mc::quick ? 3 : 4;
  for (auto &s : starts) {
    std::function<void(std::vector<int>&)> go = [&](std::vector<int> &seq) {
      if (mc::begin([&] { std::string n = s.first; for (int i : seq) n += " " + ops[i].name(); return n; })) {
        std::unique_ptr<id3v1_tag> t;
        Model m;
        if (s.second.size() == 1) { m.v11 = s.second[0] & 1; m.ext = s.second[0] & 2; t.reset(new id3v1_tag(m.v11, m.ext)); }
        else { m = Model::parse(s.second); std::istringstream is(s.second); t.reset(new id3v1_tag(is)); }
        for (int i : seq) { apply(*t, ops[i]); apply(m, ops[i]); }
        mc::state(m.text());
        check(m, *t);
        mc::trace();
        if (seq.size() == 2) mc::sample(s.first + " " + ops[seq[0]].name() + " " + ops[seq[1]].name());
        mc::outcome(m.ext ? m.v11 ? "enhanced 1.1" : "enhanced" : m.v11 ? "1.1" : "1");
      }
      if (int(seq.size()) == depth) return;
      for (std::size_t i = 0; i < ops.size(); ++i) {
        if (seq.size() == 3 && i % 3) continue;
        if (mc::quick && seq.size() == 2 && i % 2) continue;
        seq.push_back(i); go(seq); seq.pop_back();
      }
    };
    std::vector<int> seq;
    go(seq);
  }
}

// every byte in every place of a tag read & written
static void layouts()
{
  for (int ext = 0; ext < 2; ++ext)
    for (int pos = ext ? 4 : 3; pos < (ext ? 355 : 128); ++pos) {
      if (ext && pos >= 227 && pos < 230) continue;
      for (int v = 0; v < 256; v += (mc::quick && v > 2 && v < 250 ? 13 : 1)) {
        if (!mc::begin("byte " + std::to_string(pos) + (ext ? " of enhanced = " : " = ") + std::to_string(v))) continue;
        Model m; m.ext = ext; m.title = ramp('T', m.n()); m.artist = ramp('A', m.n()); m.album = ramp('L', m.n()); m.comment = ramp('C', 30); m.year = "2001"; m.genre = 1;
        if (ext) { m.speed = 1; m.egenre = ramp('E', 30); m.start = "111:11"; m.end = "222:22"; }
        bytes b = m.layout();
        b[pos] = char(v);
        m = Model::parse(b);
        std::istringstream is(b);
        id3v1_tag t(is);
        mc::state(m.text());
        MC_CHECK(text(t) == m.text(), "read as " << text(t) << "\nnot " << m.text());
        std::ostringstream os;
        t.write(os);
        MC_CHECK(os.str() == b, "rewritten as " << mc::hex(os.str()) << "\nnot " << mc::hex(b));
        mc::transition(2); mc::trace(); mc::outcome("layout");
      }
    }
}

static void finding()
{
  const char *E[] = {"TAG", "TAg", "TAX", "tAG", "\0\0\0"}, *X[] = {"TAG+", "TAG ", "TAg+", "tAG+", "\0\0\0\0"};
  std::vector<std::ios_base::iostate> M = {std::ios_base::goodbit, std::ios_base::failbit | std::ios_base::badbit, std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit};
  for (int n = 0; n <= (mc::quick ? 400 : 800); ++n)
    for (int e = 0; e < 5; ++e)
      for (int x = 0; x < 5; ++x)
        for (int off = -1; off <= 1; ++off) {     // the extent, or one off it
          if (off && (e || x > 1)) continue;
          if (!mc::begin("find " + std::to_string(n) + " " + std::to_string(e) + " " + std::to_string(x) + " " + std::to_string(off))) continue;
          bytes b;
          for (int i = 0; i < n; ++i) b += char('a' + i % 26);
          auto put = [&](int at, const char *s, int k) { if (at >= 0 && at + k <= n) b.replace(at, k, bytes(s, k)); };
          put(n - 355 - off, X[x], 4);
          put(n - 128 - (x > 1 || off == 0 ? off : 0), E[e], 3);
          std::size_t want = n;
          id3_v1_tag_type type = id3_v1_tag_type::none;
          if (n >= 128 && !b.compare(n - 128, 3, "TAG")) {
            want = n - 128; type = id3_v1_tag_type::v_1;
            if (n >= 355 && !b.compare(n - 355, 4, "TAG+")) { want = n - 355; type = id3_v1_tag_type::v_1_extended; }
          }
          mc::state(std::to_string(n - want) + " " + std::to_string(n));
          for (auto mask : M)
            for (int pos : {0, n / 2, n}) {
              std::istringstream is(b);
              is.exceptions(mask);
              is.seekg(pos);
              id3v1_info I;
              try { I = ends_in_id3v1(is); } catch (const std::exception &ex) { mc::fail(std::string("looking threw ") + ex.what()); return; }
              MC_CHECK(I.type_ == type, "type " << int(I.type_) << ", not " << int(type));
              MC_CHECK(I.start_ == std::streampos(want) && I.end_ == std::streampos(n), "found at " << I.start_ << ".." << I.end_ << ", not " << want << ".." << n);
              MC_CHECK(is.good() && is.tellg() == std::streampos(pos), "stream left at " << is.tellg() << ", not " << pos);
              MC_CHECK(is.exceptions() == mask, "stream's exceptions altered");
              std::unique_ptr<id3v1_tag> p;
              try { p = process_id3v1(is); } catch (const std::exception &ex) { mc::fail(std::string("reading threw ") + ex.what()); return; }
              MC_CHECK(bool(p) == (type != id3_v1_tag_type::none), (p ? "a tag was read" : "no tag was read"));
              if (p) {
                MC_CHECK(text(*p) == Model::parse(b.substr(want)).text(), "read as " << text(*p));
                MC_CHECK(p->size() == n - want, "size() is " << p->size());
              }
              MC_CHECK(is.exceptions() == mask, "stream's exceptions altered by reading");
              if (!p) MC_CHECK(is.good() && is.tellg() == std::streampos(pos), "stream left at " << is.tellg() << ", not " << pos);
              is.clear();
              is.seekg(pos);
              std::streampos h, t;
              try { std::tie(h, t) = find_id3v1_tag(is); } catch (const std::exception &ex) { mc::fail(std::string("bracketing threw ") + ex.what()); return; }
              // a tag that begins before here is not after it
              std::size_t w = want >= std::size_t(pos) ? want : n - 128 >= pos && type != id3_v1_tag_type::none ? n - 128 : n;
              MC_CHECK(h == std::streampos(pos) && t == std::streampos(w), "bracketed by " << h << ".." << t << ", not " << pos << ".." << w);
              MC_CHECK(is.exceptions() == mask, "stream's exceptions altered by bracketing");
              mc::transition(3);
            }
          mc::trace();
          mc::outcome("found " + std::to_string(n - want));
        }
}

static void body() { edits(); layouts(); finding(); }
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
