// C15: genre matching. Every text in the enumerated neighbourhoods is matched by
// the real code and compared with the textbook dynamic programme.
#include "mc.hh"
#include <scribbu/winamp-genres.hh>
#include <algorithm>
#include <cstring>

using namespace scribbu;
typedef std::u32string U;

static const char *NAMES[] = {
#include "genres.inc"
};
static const int N = 192;
static std::vector<U> low;

static std::string utf8(const U &s)
{
  std::string r;
  for (char32_t c : s) {
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xf0 | c >> 18); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
  }
  return r;
}

static char32_t lower1(char32_t c)
{
  if (c >= 'A' && c <= 'Z') return c + 32;
  if (c >= 0xc0 && c <= 0xde && c != 0xd7) return c + 32;       // Latin-1
  if (c >= 0x391 && c <= 0x3a9 && c != 0x3a2) return c + 32;    // Greek
  if (c >= 0x410 && c <= 0x42f) return c + 32;                  // Cyrillic
  return c;
}
static U lower(U s) { for (auto &c : s) c = lower1(c); return s; }

// Damerau-Levenshtein with adjacent transpositions (each stretch edited once,
// as in Berghel & Roach), the full table.
static std::size_t osa(const U &a, const U &b)
{
  std::size_t m = a.size(), n = b.size();
  static std::vector<unsigned> d;
  d.assign((m + 1) * (n + 1), 0);
  auto D = [&](std::size_t i, std::size_t j) -> unsigned& { return d[i * (n + 1) + j]; };
  for (std::size_t i = 0; i <= m; ++i) D(i, 0) = i;
  for (std::size_t j = 0; j <= n; ++j) D(0, j) = j;
  for (std::size_t i = 1; i <= m; ++i)
    for (std::size_t j = 1; j <= n; ++j) {
      unsigned v = std::min({D(i-1, j) + 1, D(i, j-1) + 1, D(i-1, j-1) + (a[i-1] != b[j-1])});
      if (i > 1 && j > 1 && a[i-1] == b[j-2] && a[i-2] == b[j-1]) v = std::min(v, D(i-2, j-2) + 1);
      D(i, j) = v;
    }
  return D(m, n);
}

static void one(const char *family, const U &text)
{
  std::string u8 = utf8(text);
  if (!mc::begin([&] { return std::string(family) + ":" + mc::hex(u8); })) return;
  std::string name; unsigned char num; std::size_t dist;
  std::tie(name, num, dist) = match_winamp_genre(u8);
  mc::transition();
  U l = lower(text);
  std::size_t best = ~0u, at = ~0u;
  for (int i = 0; i < N; ++i) {
    std::size_t d = osa(low[i], l);
    best = std::min(best, d);
    if (i == num) at = d;
  }
  mc::trace();
  mc::state("t" + utf8(l));
  mc::outcome("distance " + std::to_string(std::min<std::size_t>(best, 8)) + (best >= 8 ? "+" : ""));
  if (best == 1) mc::sample("'" + u8 + "' -> " + name + " at " + std::to_string(dist));
  MC_CHECK(num < N, "genre number " << int(num) << " does not exist");
  MC_CHECK(num >= N || name == NAMES[num], "number " << int(num) << " returned with name " << name);
  MC_CHECK(at == best, "'" << u8 << "' matched to " << name << " at true distance " << at << "; the closest is at " << best);
  MC_CHECK(dist == best, "'" << u8 << "' reported at distance " << dist << " instead of " << best);
}

static U upper_ascii(U s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }

static void edits(const char *fam, const U &g, const U &alpha, int depth, void (*sink)(const char*, const U&))
{
  sink(fam, g);
  if (!depth) return;
  for (std::size_t i = 0; i < g.size(); ++i) {
    U t = g; t.erase(i, 1); edits(fam, t, alpha, depth - 1, sink);
    for (char32_t c : alpha) if (lower1(c) != lower1(g[i])) { U t2 = g; t2[i] = c; edits(fam, t2, alpha, depth - 1, sink); }
    if (i + 1 < g.size() && g[i] != g[i+1]) { U t3 = g; std::swap(t3[i], t3[i+1]); edits(fam, t3, alpha, depth - 1, sink); }
  }
  for (std::size_t i = 0; i <= g.size(); ++i)
    for (char32_t c : alpha) { U t = g; t.insert(i, 1, c); edits(fam, t, alpha, depth - 1, sink); }
}

static void body()
{
  for (int i = 0; i < N; ++i) low.push_back(lower(U(NAMES[i], NAMES[i] + strlen(NAMES[i]))));

  // number <-> name, and the generations of the list
  for (int i = 0; i < 256; ++i)
    if (mc::begin("number:" + std::to_string(i))) {
      auto t = text_for_genre(i);
      mc::transition(); mc::trace(); mc::state("n" + std::to_string(i));
      MC_CHECK((bool)t == (i < N), "text_for_genre(" << i << (t ? ") exists" : ") does not exist"));
      MC_CHECK(!t || i >= N || *t == NAMES[i], "text_for_genre(" << i << ") is '" << *t << "'");
    }
  struct { id3v1_genre_generation g; std::size_t n; } G[] = {
    {id3v1_genre_generation::standard, 80}, {id3v1_genre_generation::winamp, 142},
    {id3v1_genre_generation::winamp_1_91, 148}, {id3v1_genre_generation::winamp_5_6, 192} };
  for (auto &g : G)
    if (mc::begin("list:" + std::to_string(g.n))) {
      std::vector<std::tuple<unsigned char, std::string>> v;
      get_id3v1_genre_list(g.g, std::back_inserter(v));
      mc::transition(); mc::trace(); mc::state("l" + std::to_string(g.n));
      MC_CHECK(v.size() == g.n, "list has " << v.size());
      for (std::size_t i = 0; i < v.size(); ++i)
        MC_CHECK(std::get<0>(v[i]) == i && std::get<1>(v[i]) == NAMES[i], "entry " << i);
    }

  // names in any case, and every text one edit away
  for (int i = 0; i < N; ++i) {
    U exact(NAMES[i], NAMES[i] + strlen(NAMES[i]));
    one("exact", exact); one("lower", low[i]); one("upper", upper_ascii(low[i]));
    edits("edit1", exact, U"aR -xé中\U0001F3B5", 1, one);
    edits("edit1u", upper_ascii(low[i]), U"eÉ", 1, one);
  }
  // two edits
  for (int i = 0; i < N; ++i)
    if (!mc::quick || low[i].size() <= 4) edits("edit2", low[i], mc::quick ? U"aé" : U"a", 2, one);

  // prefixes, suffixes, doublings, concatenations of pairs
  for (int i = 0; i < N; ++i) {
    for (std::size_t k = 0; k < low[i].size(); ++k) { one("prefix", low[i].substr(0, k)); one("suffix", low[i].substr(k)); }
    one("twice", low[i] + low[i]);
    one("reverse", U(low[i].rbegin(), low[i].rend()));
    for (int j = 0; j < N; j += mc::quick ? 13 : 1) one("pair", low[i] + U" " + low[j]);
  }

  // all short texts
  U alpha = mc::quick ? U"abo-" : U"abekors -";
  int maxlen = mc::quick ? 6 : 5;
  for (int len = 0; len <= maxlen; ++len) {
    std::vector<int> ix(len, 0);
    for (;;) {
      U t; for (int k : ix) t += alpha[k];
      one("short", t);
      int k = len - 1;
      while (k >= 0 && ++ix[k] == int(alpha.size())) ix[k--] = 0;
      if (k < 0) break;
    }
  }
  // long texts, with and without anything in common with a genre
  int lens[] = {20, 21, 22, 23, 24, 25, 26, 30, 40, 60, 100, 200, 400, 750};
  for (int n : lens)
    for (char32_t c : U"中ae ") if (c) { one("long", U(n, c)); one("longm", U(n, c) + U"rock" + U(n, c)); }
  // non-ASCII case
  for (char32_t c = 0xc0; c < 0x450; ++c) if (lower1(c) != c || (c >= 0xe0 && c < 0x100)) one("case", U(U"roc") + c);
}

int main(int argc, char **argv) { return mc::run(argc, argv, body); }
