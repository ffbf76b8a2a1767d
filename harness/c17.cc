// C17: tag clouds against maps from keys to sets of values; URL encoding.
#include "mc.hh"
#include "id3.hh"
#include <scribbu/framesv2.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>
#include <scribbu/scribbu.hh>

using namespace scribbu;
typedef std::string bytes;
typedef std::map<bytes, std::set<bytes>> Map;

static bool plain(unsigned char c) { return isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~'; }
// form 0: as little as possible, lower case; 1: everything, upper case
static bytes enc(const bytes &s, int form)
{
  bytes r; char b[4];
  for (unsigned char c : s)
    if (!form && c < 128 && plain(c)) r += char(c); else { snprintf(b, 4, form ? "%%%02X" : "%%%02x", c); r += b; }
  return r;
}
static bytes enc(const Map &m, int form)
{
  bytes r; bool first = true;
  for (auto &k : m) {
    if (!first) r += "&";
    first = false;
    r += enc(k.first, form);
    bool f = true;
    for (auto &v : k.second) { r += f ? "=" : ","; f = false; r += enc(v, form); }
  }
  return r;
}
static bool hexd(char c) { return isxdigit((unsigned char)c); }
static bool dec(const bytes &s, bytes &r)
{
  r.clear();
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '%') { r += s[i]; continue; }
    if (i + 2 >= s.size() || !hexd(s[i+1]) || !hexd(s[i+2])) return false;
    r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
    i += 2;
  }
  return true;
}
static std::string show(const Map &m) { std::string s = "{"; for (auto &k : m) { s += "'" + enc(k.first, 0) + "':"; for (auto &v : k.second) s += "'" + enc(v, 0) + "'"; s += " "; } return s + "}"; }
static Map get(const tag_cloud &c) { Map m; for (auto &k : c) { auto r = m.insert(k); if (!r.second) mc::fail("key " + k.first + " twice"); } return m; }
static bytes be(std::uint32_t x) { bytes b; for (int i = 3; i >= 0; --i) b += char(x >> (8 * i)); return b; }
static bytes stored(const bytes &own, const Map &m)
{
  bytes b = "\x01" + own + bytes(1, 0);
  for (auto &k : m) {
    bytes v;
    for (auto &x : k.second) v += x + bytes(1, 0);
    b += k.first + bytes(1, 0) + be(v.size()) + v;
  }
  return b;
}

static const std::vector<bytes> K{"a", "b c", "&=,%", "\xff\xe0"}, V{"", "x", ",&=%2", "\xff\xff"};

// everything one can ask of a cloud
static bool agree(const tag_cloud &c, const bytes &own, const Map &m, bool forms)
{
  Map g = get(c);
  if (g != m) { mc::fail("contains " + show(g) + "\nnot " + show(m)); return false; }
  bool ok = true;
#define OK(x, msg) do { if (!(x)) { std::ostringstream o_; o_ << msg; mc::fail(o_.str()); ok = false; } } while (0)
  OK(c.owner() == own, "owner " << c.owner());
  for (auto &k : K) {
    OK(c.has_key(k) == bool(m.count(k)), "has_key(" << k << ") is " << c.has_key(k));
    for (auto &v : V) OK(c.has_value(k, v) == (m.count(k) && m.at(k).count(v)), "has_value(" << k << "," << v << ") is " << c.has_value(k, v));
  }
  mc::transition(2);
  if (!forms) return ok;
  // URL form
  bytes u = c.urlencoded();
  bytes want = enc(m, 0), low = u;
  bool pct = false; int n = 0;
  for (auto &ch : low) { if (ch == '%') n = 3; if (n) { ch = tolower(ch); --n; } }
  OK(low == want, "URL form is " << u << " not " << want);
  tag_cloud again(own, u);
  OK(get(again) == m, "URL form " << u << " reads back as " << show(get(again)));
  for (int f = 0; f < 2; ++f) { tag_cloud t(own, enc(m, f)); OK(get(t) == m, "read from " << enc(m, f) << " as " << show(get(t))); }
  // stored form
  std::ostringstream os;
  std::size_t w = c.write(os);
  bytes b = os.str(), sw = stored(own, m);
  OK(b == sw, "stored as " << mc::hex(b) << "\nnot " << mc::hex(sw));
  OK(w == b.size() && c.size() == b.size(), "size " << c.size() << ", " << w << " said to be written, " << b.size() << " bytes");
  std::vector<unsigned char> q(b.begin(), b.end());
  tag_cloud back(q.begin(), q.end());
  OK(get(back) == m && back.owner() == own, "read back as " << show(get(back)));
  (void)c.needs_unsynchronisation();
  (void)c.serialized_size(true);
  mc::transition(8);
  return ok;
}

struct Op { int kind; bytes k, v; Map m; int form;
  std::string name() const
  {
    switch (kind) { case 0: return "key(" + enc(k, 0) + ")"; case 1: return "value(" + enc(k, 0) + "," + enc(v, 0) + ")"; case 2: return "merge(" + enc(m, form) + ")"; case 3: return "update(" + enc(m, form) + ")"; default: return "reset(" + enc(m, 0) + ")"; }
  } };

static bool apply(tag_cloud &c, Map &m, const Op &o)
{
  bool r, want;
  switch (o.kind) {
  case 0: want = !m.count(o.k); m[o.k]; r = c.add_key(o.k); if (r != want) { mc::fail("add_key returned " + std::to_string(r)); return false; } break;
  case 1: want = !m.count(o.k) || !m[o.k].count(o.v); m[o.k].insert(o.v); r = c.add_value(o.k, o.v); if (r != want) { mc::fail("add_value returned " + std::to_string(r)); return false; } break;
  case 2: for (auto &x : o.m) m[x.first].insert(x.second.begin(), x.second.end()); c.merge(enc(o.m, o.form)); break;
  case 3: m = o.m; c.update(enc(o.m, o.form)); break;
  case 4: {
    m = o.m;
    auto p = o.m.begin();
    switch (o.m.size()) {
    case 0: c.reset({}); break;
    case 1: c.reset({*p}); break;
    case 2: c.reset({*p, *std::next(p)}); break;
    default: c.reset({*p, *std::next(p), *std::next(p, 2)}); break;
    }
  } }
  mc::transition();
  return true;
}

static std::vector<Map> maps(int keys, int vals)
{
  std::vector<Map> r{{}};
  for (int i = 0; i < keys; ++i) {
    std::size_t n = r.size();
    for (std::size_t j = 0; j < n; ++j)
      for (int s = 0; s < (1 << vals); ++s) {
        Map m = r[j];
        auto &x = m[K[i]];
        for (int b = 0; b < vals; ++b) if (s >> b & 1) x.insert(V[b]);
        r.push_back(m);
      }
  }
  return r;
}

static void clouds()
{
  // every cloud, through every form, in every version of the frame
  auto all = maps(mc::quick ? 3 : 4, mc::quick ? 3 : 3);
  for (auto &m : all)
    for (const bytes &own : {bytes("me"), bytes(""), bytes("\xff\xe0 o")}) {
      if (!mc::begin([&] { return "cloud " + enc(own, 0) + " " + enc(m, 0); })) continue;
      mc::state(show(m) + own);
      tag_cloud c(own, m.begin(), m.end());
      if (!agree(c, own, m, true)) continue;
      for (int ver = 2; ver <= 4; ++ver) {
        id3::Frame f; f.id = ver == 2 ? "XTG" : "XTAG"; f.body = stored(own, m);
        id3::Tag t; t.ver = ver; t.frames = {f};
        bytes b = id3::encode(t);
        auto p = id3::read(b);
        mc::transition(2);
        MC_CHECK(p && id3::frames(*p).size() == 1, "not read from a 2." << ver << " tag");
        if (!p || id3::frames(*p).size() != 1) continue;
        auto q = dynamic_cast<const tag_cloud*>(id3::frames(*p)[0]);
        MC_CHECK(q, "not taken for a tag cloud in a 2." << ver << " tag");
        if (!q) continue;
        agree(*q, own, m, ver == 3);
        MC_CHECK(id3::write(*p, false) == b, "rewritten differently in a 2." << ver << " tag");
      }
      mc::trace();
      mc::outcome("cloud of " + std::to_string(m.size()) + " keys");
    }
  // every history of operations
  std::vector<Op> ops;
  int nk = mc::quick ? 3 : 4;
  for (int i = 0; i < nk; ++i) { ops.push_back({0, K[i], "", {}, 0}); for (int j = 0; j < nk; ++j) ops.push_back({1, K[i], V[j], {}, 0}); }
  std::vector<Map> args;
  for (auto &m : maps(3, 2)) {
    std::size_t n = 0;
    for (auto &x : m) n += x.second.size();
    if (m.size() <= 2 && n <= (m.size() == 1 ? 2 : 1)) args.push_back(m);
  }
  args.push_back({{K[2], {V[2], V[3]}}, {K[3], {V[1]}}});
  for (auto &m : args) { if (!m.empty()) { ops.push_back({2, "", "", m, 0}); } ops.push_back({3, "", "", m, int(m.size() & 1)}); ops.push_back({4, "", "", m, 0}); }
  ops.push_back({2, "", "", {}, 0});
  ops.push_back({2, "", "", args.back(), 1});
  std::vector<Map> starts{{}, {{K[0], {V[1]}}}, {{K[0], {}}, {K[1], {V[0], V[1]}}}};
  for (auto &s0 : starts)
    for (std::size_t a = 0; a < ops.size(); ++a)
      for (std::size_t b = 0; b < ops.size(); ++b)
        for (std::size_t e = 0; e < ops.size(); ++e) {
          if (!mc::begin([&] { return "ops " + show(s0) + " " + ops[a].name() + " " + ops[b].name() + " " + ops[e].name(); })) continue;
          Map m = s0;
          tag_cloud c("me", s0.begin(), s0.end());
          bool ok = true;
          for (std::size_t i : {a, b, e}) {
            if (!apply(c, m, ops[i])) { ok = false; break; }
            if (!agree(c, "me", m, i == e && (a % 8 == 0))) { ok = false; break; }
            mc::state(show(m));
          }
          if (ok) mc::trace();
          mc::outcome("history");
          if (a == 3 && b == 20) mc::sample(ops[a].name() + " " + ops[b].name() + " " + ops[e].name() + " -> " + show(m));
        }
  // values and keys of awkward lengths
  for (std::size_t n = 0; n < (mc::quick ? 700u : 70000u); n += (n < 600 ? 1 : 97))
    for (int where = 0; where < 2; ++where)
      for (int count = 1; count <= 3; ++count) {
        if (!mc::begin([&] { return "long " + std::to_string(n) + (where ? " key " : " value ") + std::to_string(count); })) continue;
        Map m;
        for (int i = 0; i < count; ++i) { bytes x(n, '\xff'); if (n) x[0] = char('0' + i); if (where) m[x + "k"].insert("v"); else m["k"].insert(x); }
        tag_cloud c("o", m.begin(), m.end());
        agree(c, "o", m, true);
        mc::trace();
        mc::outcome("long");
      }
}

static void url()
{
  auto one = [&](const bytes &s) {
    if (!mc::begin([&] { return "text " + mc::hex(s); })) return;
    bytes e = urlencode(s), d;
    mc::transition(2);
    mc::state(e);
    for (unsigned char c : e) MC_CHECK(c == '%' || (c < 128 && plain(c)), "encoded as " << e);
    MC_CHECK(dec(e, d) && d == s, "encoded as " << e << ", which means " << mc::hex(d));
    bytes r;
    try { r = urldecode(e); } catch (const std::exception &ex) { mc::fail("encoded as " + e + ", which is not decoded: " + ex.what()); return; }
    MC_CHECK(r == s, "encoded as " << e << " and decoded as " << mc::hex(r));
    mc::trace();
    mc::outcome("text");
  };
  one("");
  for (int a = 0; a < 256; ++a) { one(bytes(1, a)); for (int b = 0; b < 256; ++b) one(bytes(1, a) + char(b)); }
  const bytes A("\x00\x0a%&,=aF09 \x7f\x80\xff", 14);
  int L = mc::quick ? 4 : 5;
  std::function<void(bytes)> go = [&](bytes s) { if (s.size() > 2) one(s); if (int(s.size()) < L) for (char c : A) go(s + c); };
  go("");
  // decoding anything
  const bytes B("%0aAfFg+5", 9);
  int M = mc::quick ? 5 : 6;
  std::function<void(bytes)> og = [&](bytes s) {
    if (mc::begin([&] { return "coded " + s; })) {
      bytes want, r;
      bool good = dec(s, want), threw = false;
      try { r = urldecode(s); } catch (const std::exception &) { threw = true; }
      mc::transition();
      mc::state("c" + s);
      if (good) MC_CHECK(!threw && r == want, "decoded as " << (threw ? "an error" : mc::hex(r)) << " not " << mc::hex(want));
      mc::trace();
      mc::outcome(good ? "well-formed" : "ill-formed");
    }
    if (int(s.size()) < M) for (char c : B) og(s + c);
  };
  og("");
  for (int a = 0; a < 256; ++a) {
    char b[4];
    for (const char *f : {"%%%02x", "%%%02X"}) {
      snprintf(b, 4, f, a);
      if (!mc::begin(std::string("coded ") + b)) continue;
      bytes r = urldecode(b);
      mc::transition();
      MC_CHECK(r == bytes(1, a), "decoded as " << mc::hex(r));
      mc::trace();
    }
  }
}

static void body() { clouds(); url(); }
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
