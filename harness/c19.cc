// C19: every bounded layout of a file is taken apart by each of the ways there
// are to do so; the parts must be the ones it was put together from.
#include "cli.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2-utils.hh>
#include <openssl/evp.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <iterator>

static bytes md5(const bytes &b)
{
  unsigned char d[16]; unsigned n = 16;
  EVP_Digest(b.data(), b.size(), d, &n, EVP_md5(), 0);
  return bytes((char*)d, 16);
}

struct Part { std::string name; bytes b; bool judge; };

static std::vector<std::pair<std::string, bytes>> tags()
{
  std::vector<std::pair<std::string, bytes>> r;
  for (auto &p : pool()) r.push_back({p.first, encode(p.second)});
  // written with the unsynchronisation scheme
  r.push_back({"s!", encode(pool()[5].second, true)});
  r.push_back({"S!", encode(pool()[7].second, true)});
  r.push_back({"z!", encode(pool()[8].second, true)});
  // sizes about the limits of a byte of the size field
  for (int n : {127, 128, 129, 16383, 16384}) {
    Tag t = tag(3, 0, {mk("PRIV", bytes("o\0", 2))});
    t.pad = n - (encode(t).size() - 10);
    r.push_back({"size" + std::to_string(n), encode(t)});
  }
  // tags whose end, were there nothing after them, would be taken for an ID3v1 tag
  auto priv = [&](int ver, const bytes &b) { return encode(tag(ver, 0, {mk("PRIV", bytes("o\0", 2) + b)})); };
  r.push_back({"v1-like", priv(3, v1std("in a frame", 1))});
  r.push_back({"enh-like", priv(3, v1enh("in a frame", 1))});
  r.push_back({"v1-like4", priv(4, v1std("in a frame", -1))});
  r.push_back({"v1-like-foot", encode(tag(4, 0, {mk("PRIV", bytes("o\0", 2) + v1std("x", -1).substr(0, 118))}, true))});
  // ... or would if followed by so many bytes of audio
  r.push_back({"TAG-28", priv(3, "TAG" + bytes(25, 'q'))});
  r.push_back({"TAG+-27", priv(4, "TAG+" + bytes(23, 'q'))});
  r.push_back({"TAG+-227", priv(3, v1enh("x", 1).substr(0, 227))});
  // a tag within a tag
  r.push_back({"ID3-in", priv(3, encode(pool()[0].second))});
  r.push_back({"3DI-in", priv(4, bytes("3DI\x04\0\x10\0\0\0\x05", 10))});
  return r;
}

// what is nearly the beginning of an ID3v1 tag where one would begin (before and without the standard part)
static std::vector<std::pair<std::string, bytes>> nearly()
{
  std::vector<std::pair<std::string, bytes>> r;
  bytes noise;
  for (int i = 0; i < 400; ++i) noise += char(i * 7 + 3);
  for (int off : {128, 227, 355, 226, 228})
    for (std::string s : {"TAG+"}) {
      for (std::size_t i = 0; i <= 4; ++i) {
        for (char c : {'\0', ' ', char(s[i < 4 ? i : 0] ^ 0x20), char(s[i < 4 ? i : 0] + 1)}) {
          std::string t = s;
          if (i < 4) t[i] = c;
          else if (c) continue;
          bytes b = noise;
          b.replace(b.size() - off, 4, t);
          if (v1len(b)) continue;
          std::string id = std::to_string(off) + "~" + mc::hex(t);
          bool dup = false;
          for (auto &x : r) dup = dup || x.first == id;
          if (!dup) r.push_back({id, b});
        }
      }
    }
  return r;
}

static std::vector<std::pair<std::string, bytes>> sounds()
{
  auto r = audios();
  for (int n : {99, 100, 101, 127, 128, 129, 226, 227, 228, 327, 328, 354, 355, 356, 511, 512, 513, 1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, 65537}) {
    bytes b;
    for (int i = 0; i < n; ++i) b += char(i * 5 + 1 + i / 256);
    r.push_back({"len" + std::to_string(n), b});
  }
  r.push_back({"TAG-100", "TAG" + bytes(97, 'r')});
  r.push_back({"100-TAG", bytes(97, 'r') + "TAG"});
  return r;
}

// the parts of a stream found one by one, by each means
static void judge(std::istream &is, const std::vector<bytes> &tags, const bytes &audio, const bytes &v1, const bytes &all)
{
  std::vector<std::size_t> off{0};
  for (auto &t : tags) off.push_back(off.back() + t.size());
  std::size_t n = tags.size(), start = off[n], end = start + audio.size();
  std::vector<std::string> one;

  // one by one
  is.clear(); is.seekg(0);
  for (std::size_t i = 0; i <= n; ++i) {
    id3v2_info I = looking_at_id3v2(is);
    MC_CHECK(I.present_ == (i < n), "at " << is.tellg() << " a tag is " << (I.present_ ? "" : "not ") << "seen");
    MC_CHECK(is.good() && is.tellg() == (std::streamoff)off[i], "looking for a tag at " << off[i] << " leaves the stream at " << is.tellg());
    if (i < n) MC_CHECK(I.size_ + 10u == tags[i].size(), "tag " << i << " of " << tags[i].size() << " bytes is seen as of " << I.size_ + 10);
    std::unique_ptr<id3v2_tag> p = maybe_read_id3v2(is);
    mc::transition(2);
    MC_CHECK(!!p == (i < n), "tag " << i << (p ? " read" : " not read") << ", of " << n);
    MC_CHECK(is.good() && is.tellg() == (std::streamoff)off[std::min(i + 1, n)], "after reading tag " << i << " the stream is at " << is.tellg() << ", not " << off[std::min(i + 1, n)]);
    if (p) one.push_back(describe(*p));
  }
  // all together
  is.clear(); is.seekg(0);
  std::vector<std::unique_ptr<id3v2_tag>> v;
  read_all_id3v2(is, std::back_inserter(v));
  mc::transition();
  MC_CHECK(v.size() == n, v.size() << " tags read of " << n);
  for (std::size_t i = 0; i < n; ++i) MC_CHECK(describe(*v[i]) == one[i], "tag " << i << " read with all the others is " << describe(*v[i]) << "\nand alone " << one[i]);
  MC_CHECK(is.good() && is.tellg() == (std::streamoff)start, "after all tags the stream is at " << is.tellg() << ", not " << start);
  // by index
  for (std::size_t i = 0; i <= n + 1; ++i) {
    is.clear(); is.seekg(0);
    std::string got;
    mc::transition();
    try { got = describe(*read_id3v2(is, i)); } catch (const std::exception &) { got = "none"; }
    is.exceptions(std::ios::goodbit);
    MC_CHECK(got == (i < n ? one[i] : "none"), "tag " << i << " by index is " << got << "\nand in order " << (i < n ? one[i] : "none"));
    if (i < n) MC_CHECK(is.good() && is.tellg() == (std::streamoff)off[i + 1], "after reading tag " << i << " by index the stream is at " << is.tellg());
  }
  // the tag at the end, from anywhere before it
  // (by contract the whole stream is looked at, wherever one is in it: nothing is said of look-alikes that begin in an ID3v2 tag)
  std::size_t sz = all.size();
  bool astride = (sz - start < 128 && sz >= 128 && !all.compare(sz - 128, 3, "TAG")) || (sz - start < 355 && sz >= 355 && !all.compare(sz - 355, 4, "TAG+") && !v1.empty());
  if (!astride) for (std::size_t at : {start, (start + end) / 2, end}) {
    is.clear(); is.seekg(at);
    id3v1_info I = ends_in_id3v1(is);
    MC_CHECK(I.start_ == (std::streamoff)end && I.end_ == (std::streamoff)all.size(), "the ID3v1 tag is seen in [" << I.start_ << "," << I.end_ << "), from " << at);
    MC_CHECK((I.type_ == id3_v1_tag_type::none) == v1.empty() && (I.type_ == id3_v1_tag_type::v_1_extended) == (v1.size() == 355), "the wrong kind of ID3v1 tag is seen");
    MC_CHECK(is.good() && is.tellg() == (std::streamoff)at, "looking for an ID3v1 tag from " << at << " leaves the stream at " << is.tellg());
    auto p = process_id3v1(is);
    mc::transition(2);
    MC_CHECK(!!p == !v1.empty(), "ID3v1 tag " << (p ? "" : "not ") << "read");
    if (p) {
      std::ostringstream os; p->write(os);
      MC_CHECK(os.str() == v1, "the ID3v1 tag reads as " << brief(os.str()));
    }
  }
  // the track
  is.clear(); is.seekg(start);
  auto f = find_id3v1_tag(is);
  MC_CHECK(std::get<0>(f) == (std::streamoff)start && std::get<1>(f) == (std::streamoff)end, "the track is seen in [" << std::get<0>(f) << "," << std::get<1>(f) << ")");
  is.clear(); is.seekg(start);
  auto m = compute_track_md5(is);
  MC_CHECK(bytes((const char*)m.data(), 16) == md5(audio), "the MD5 is of other bytes");
  is.clear(); is.seekg(start);
  track_data td(is);
  bytes d(16, 0); td.get_md5(d.begin());
  mc::transition(3);
  MC_CHECK(td.size() == audio.size(), "the track is said to have " << td.size() << " bytes");
  MC_CHECK(d == md5(audio), "the track's MD5 is of other bytes");
  MC_CHECK(is.good() && is.tellg() == (std::streamoff)end, "the track leaves the stream at " << is.tellg() << ", not " << end);
  if (astride) return;
  auto p = process_id3v1(is);
  MC_CHECK(!!p == !v1.empty(), "after the track an ID3v1 tag is " << (p ? "" : "not ") << "read");
}

static void layout(const std::vector<std::pair<std::string, bytes>> &T, const std::vector<int> &ix, const std::pair<std::string, bytes> &A, const std::pair<std::string, bytes> &V, bool files)
{
  auto id = [&] { std::string s = "["; for (int i : ix) s += (s.size() > 1 ? "," : "") + T[i].first; return s + "] audio=" + A.first + " v1=" + V.first; };
  bytes audio = A.second, v1 = V.second;
  // an incomplete header is completed by what follows
  if ((A.first == "ID3" || A.first == "ID3short") && !v1.empty()) return;
  // an ID3v1 tag with no more than these bytes before it may be part of a longer one
  if (v1.size() == 128 && audio.size() >= 227 && !audio.compare(audio.size() - 227, 4, "TAG+")) return;
  if (v1.empty() && audio.size() >= 128 && !audio.compare(audio.size() - 128, 3, "TAG")) return;
  if (!mc::begin(id)) return;
  std::vector<bytes> tags;
  bytes all;
  for (int i : ix) { tags.push_back(T[i].second); all += T[i].second; }
  all += audio + v1;
  mc::state_hash(mc::hash(all));
  mc::trace();
  { std::istringstream is(all); judge(is, tags, audio, v1, all); }
  if (!files) return;
  spew("in.mp3", all);
  { std::ifstream is("in.mp3", std::ios::binary); judge(is, tags, audio, v1, all); }
  std::string suffix = ix.size() % 2 ? ".x" : "";
  std::vector<std::string> args{"split", "in.mp3"};
  if (suffix.size()) args = {"split", "--suffix", suffix, "in.mp3"};
  Ran r = cli(args);
  mc::transition();
  MC_CHECK(r.rc == 0, "split fails: " << r.err);
  std::map<std::string, bytes> want{{"in.mp3", all}, {"track" + suffix, audio}}, got = dir();
  for (std::size_t i = 0; i < tags.size(); ++i) want["id3v2" + std::to_string(i) + suffix] = tags[i];
  if (v1.size()) want["id3v1" + suffix] = v1;
  // taken off, and put back
  maybe_remove_id3v1("in.mp3");
  bytes off = slurp("in.mp3");
  if (v1.size()) {
    std::istringstream is(v1);
    id3v1_tag t(is);
    replace_id3v1("in.mp3", t);
  }
  bytes on = slurp("in.mp3");
  wipe();
  mc::transition(2);
  MC_CHECK(off.size() + v1.size() == all.size() && !all.compare(0, off.size(), off), "without its ID3v1 tag the file has " << off.size() << " bytes, not " << all.size() - v1.size());
  MC_CHECK(on == all, "with it replaced " << on.size() << ", not " << all.size());
  for (auto &w : want) {
    MC_CHECK(got.count(w.first), "split made no " << w.first);
    MC_CHECK(got[w.first] == w.second, w.first << " holds " << got[w.first].size() << " bytes " << brief(got[w.first]) << "\nnot " << w.second.size() << " " << brief(w.second));
  }
  for (auto &g : got) MC_CHECK(want.count(g.first), "split made " << g.first);
}

static void body()
{
  scribbu::static_initialize();
  namespace fs = std::filesystem;
  fs::create_directories("c19-" + std::to_string(mc::shard));
  fs::current_path("c19-" + std::to_string(mc::shard));
  auto T = tags(); auto A = sounds(); auto V = v1s();
  int n = T.size();
  std::vector<std::vector<int>> S{{}};
  for (int i = 0; i < n; ++i) S.push_back({i});
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S.push_back({i, j});
  for (auto &s : S) for (auto &a : A) for (auto &v : V)
    layout(T, s, a, v, s.size() < 2 || !mc::quick || a.second.size() < 5000);
  for (auto &s : S) if (s.size() < 2) for (auto &a : nearly()) for (auto &v : V)
    layout(T, s, a, v, s.empty() || !mc::quick);
  // three (and more), over fewer
  std::vector<int> few{0, 2, 3, 4, 5, 9, 10, 17, 18, 21};
  std::vector<std::string> fa{"frames", "none", "ID3ver", "TAG-129", "len100", "len355", "len128"};
  for (int i : few) for (int j : few) for (int k : few) for (auto &a : A) if (std::find(fa.begin(), fa.end(), a.first) != fa.end()) for (auto &v : V) {
    layout(T, {i, j, k}, a, v, !mc::quick);
    if (!mc::quick) for (int l : few) layout(T, {i, j, k, l}, a, v, false);
  }
}

int main(int argc, char **argv) { return mc::run(argc, argv, body); }
