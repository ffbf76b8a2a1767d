// Histories of operations on tags & frames, each compared with a list of
// frames kept beside them.
//
//   c05  the tag's answers about its frames against a scan of the list
//   c06  what is written & measured, after any mix of changes and queries
//   c07  copies: equal to begin with, and independent ever after
#include "mc.hh"
#include "id3.hh"
#include <algorithm>
#include <functional>
#include <boost/optional.hpp>

using namespace scribbu;
using id3::bytes;
using id3::Frame;
typedef std::string S;

template <int V> struct T;
template <> struct T<2> {
  typedef id3v2_2_tag Tag; typedef id3v2_2_frame Frm; typedef id3v2_2_text_frame Text; typedef frame_id3 Id;
  typedef CNT Cnt; typedef COM Com; typedef POP Pop; typedef XTG Xt; typedef TXX Txx;
  static std::unique_ptr<Frm> make(const Frame &f) { return id3::make2(f); }
};
template <> struct T<3> {
  typedef id3v2_3_tag Tag; typedef id3v2_3_frame Frm; typedef id3v2_3_text_frame Text; typedef frame_id4 Id;
  typedef PCNT Cnt; typedef COMM Com; typedef POPM Pop; typedef XTAG Xt; typedef TXXX Txx;
  static std::unique_ptr<Frm> make(const Frame &f) { return id3::make3(f); }
};
template <> struct T<4> {
  typedef id3v2_4_tag Tag; typedef id3v2_4_frame Frm; typedef id3v2_4_text_frame Text; typedef frame_id4 Id;
  typedef PCNT_2_4 Cnt; typedef COMM_2_4 Com; typedef POPM_2_4 Pop; typedef XTAG_2_4 Xt; typedef TXXX_2_4 Txx;
  static std::unique_ptr<Frm> make(const Frame &f) { return id3::make4(f); }
};

static S idof(int ver, const S &id4)
{
  static const std::map<S, S> M{{"TIT2", "TT2"}, {"TPE1", "TP1"}, {"TALB", "TAL"}, {"TXXX", "TXX"}, {"COMM", "COM"}, {"UFID", "UFI"},
    {"PCNT", "CNT"}, {"POPM", "POP"}, {"XTAG", "XTG"}, {"WXYZ", "WXY"}, {"TCON", "TCO"}, {"TENC", "TEN"}, {"TLAN", "TLA"}, {"TRCK", "TRK"},
    {"TYER", "TYE"}, {"TCOP", "TCR"}, {"TSSE", "TSS"}};
  return ver == 2 ? M.at(id4) : id4;
}
#define BL(x) S(x, sizeof(x) - 1)
static Frame fr(int ver, const char *id, const bytes &b) { Frame f; f.id = idof(ver, id); f.body = b; return f; }

// --- texts, decoded as the standards say ---------------------------------

static void utf8(S &o, unsigned c)
{
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 0x3f)); }
  else { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 0x3f)); o += char(0x80 | (c & 0x3f)); }
}
static S decoded(int enc, const bytes &b)
{
  S o;
  if (enc == 0) { for (unsigned char c : b) utf8(o, c); return o; }
  if (enc == 3) return b;
  std::size_t i = 0;
  bool le = false;
  if (enc == 1 && b.size() >= 2) {
    if (S(b, 0, 2) == "\xff\xfe") { le = true; i = 2; } else if (S(b, 0, 2) == "\xfe\xff") i = 2; else le = true;
  }
  for (; i + 1 < b.size(); i += 2) { unsigned char x = b[i], y = b[i+1]; utf8(o, le ? x | y << 8 : x << 8 | y); }
  return o;
}
static bytes unhex(const S &h)
{
  bytes b;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) b += char(std::stoi(h.substr(i, 2), 0, 16));
  return b;
}
// the value of key= in a description of fields
static bytes field(const S &d, const S &key)
{
  std::size_t p = d.find(" " + key + "=");
  if (p == S::npos) return bytes();
  p += key.size() + 2;
  return unhex(d.substr(p, d.find(' ', p) == S::npos ? S::npos : d.find(' ', p) - p));
}
static bool is_text(const S &d) { return 0 == d.compare(0, 5, "text "); }
static S text_of(const S &d)      // "text enc=00 616263"
{ return decoded((unsigned char)field(d, "enc")[0], unhex(d.substr(d.find(' ', 5) + 1))); }
static bool is(const S &d, const char *k) { return 0 == d.compare(0, strlen(k) + 1, S(k) + " "); }

// --- the model -----------------------------------------------------------

struct Item {
  S id, flags, d;                 // fields as text; "?..." when only their meaning is known
  bool operator==(const Item &o) const { return id == o.id && flags == o.flags && d == o.d; }
};
typedef std::vector<Item> Model;
static Item item(int ver, const Frame &f) { return {f.id, id3::flags(f, ver), id3::fields(ver, f)}; }

// does an observed frame satisfy what is known of it?
static bool agrees(const Item &want, const Item &got)
{
  if (want.id != got.id || want.flags != got.flags) return false;
  if (want.d[0] != '?') return want.d == got.d;
  if (want.d.compare(0, 6, "?text:") == 0) return is_text(got.d) && text_of(got.d) == want.d.substr(6);
  // ?comm:lang:dsc:text  &  ?txxx:dsc:text
  S s = want.d;
  std::vector<S> v;
  for (std::size_t p; (p = s.find(':')) != S::npos; s = s.substr(p + 1)) v.push_back(s.substr(0, p));
  v.push_back(s);
  if (v[0] == "?comm") {
    if (!is(got.d, "comm")) return false;
    int e = (unsigned char)field(got.d, "enc")[0];
    return field(got.d, "lang") == v[1] && decoded(e, field(got.d, "dsc")) == v[2] && decoded(e, field(got.d, "text")) == v[3];
  }
  if (v[0] == "?txxx") {
    if (!is(got.d, "txxx")) return false;
    int e = (unsigned char)field(got.d, "enc")[0];
    return decoded(e, field(got.d, "dsc")) == v[1] && decoded(e, field(got.d, "text")) == v[2];
  }
  return false;
}

static Model observed(const id3v2_tag &t)
{
  Model m;
  for (auto f : id3::frames(t)) m.push_back({id3::frame_id(*f), id3::flags(*f), id3::fields(*f)});
  return m;
}
static S show(const Model &m)
{
  S s;
  for (auto &x : m) s += (s.empty() ? "" : "; ") + x.id + "/" + x.flags + " " + x.d;
  return "[" + s + "]";
}

// --- operations ----------------------------------------------------------

// After applying itself to the tag, an operation gives the lists it may have led to
template <int V> struct Op {
  S name;
  bool core;
  std::function<bool(typename T<V>::Tag&, const Model&, std::vector<Model>&)> run;   // false: not applicable here
};

template <int V> typename T<V>::Tag::const_iterator cit(typename T<V>::Tag &t, std::size_t i)
{ typename T<V>::Tag::const_iterator p = t.cbegin(); while (i--) ++p; return p; }
template <int V> typename T<V>::Tag::iterator mit(typename T<V>::Tag &t, std::size_t i)
{ typename T<V>::Tag::iterator p = t.begin(); while (i--) ++p; return p; }

// a position: 0, 1, 2; -1 the last, -2 the end
static bool place(int p, std::size_t n, bool element, std::size_t &out)
{
  if (p == -1) { if (!n) return false; out = n - 1; return n > 2; }   // otherwise it is also 0 or 1
  if (p == -2) { out = n; return n > 1; }
  out = p;
  return element ? out < n : out <= n;
}
static S pname(int p) { return p == -1 ? "last" : p == -2 ? "end" : std::to_string(p); }

template <int V> struct Frames {
  typedef T<V> X;
  // apply F with the frame's own type, or as a frame like any other
  template <typename G> static void as(const Frame &f, bool typed, G g)
  {
    auto p = X::make(f);
    if (typed) {
      if (auto q = dynamic_cast<typename X::Text*>(p.get())) { g(*q); return; }
      if (auto q = dynamic_cast<typename X::Cnt*>(p.get())) { g(*q); return; }
      if (auto q = dynamic_cast<typename X::Com*>(p.get())) { g(*q); return; }
      if (auto q = dynamic_cast<typename X::Pop*>(p.get())) { g(*q); return; }
    }
    g(*p);
  }
};

struct Named { S name; Frame f; };
static std::vector<Named> alphabet(int ver)
{
  return {
    {"t1", fr(ver, "TIT2", BL("\0Aja"))},
    {"t2", fr(ver, "TIT2", BL("\1\xff\xfe" "B\0\xe9\0"))},
    {"a1", fr(ver, "TPE1", BL("\0Dan"))},
    {"pc", fr(ver, "PCNT", BL("\0\0\0\x7f"))},
    {"pd", fr(ver, "PCNT", BL("\0\0\0\x09"))},
    {"c1", fr(ver, "COMM", BL("\0eng" "d\0text"))},
    {"c2", fr(ver, "COMM", BL("\0fra" "e\0mot"))},
    {"po", fr(ver, "POPM", BL("me@x\0\x80\0\0\1\0"))},
    {"pq", fr(ver, "POPM", BL("u@x\0\x20\0\0\0\3"))},
    {"g",  fr(ver, "WXYZ", BL("gen"))},
    {"x",  fr(ver, "TXXX", BL("\0dsc\0value"))},
    {"xt", fr(ver, "XTAG", BL("\1own\0k\0\0\0\0\2a\0"))},
  };
}
static Frame named(int ver, const S &n)
{ for (auto &x : alphabet(ver)) if (x.name == n) return x.f; abort(); }

static Model with(Model m, std::size_t i, const Item &x) { m.insert(m.begin() + i, x); return m; }
static Model without(Model m, std::size_t i, std::size_t j) { m.erase(m.begin() + i, m.begin() + j); return m; }

template <int V> std::vector<Op<V>> operations()
{
  typedef T<V> X;
  typedef typename X::Tag Tag;
  typedef std::vector<Model> Alts;
  std::vector<Op<V>> r;
  auto add = [&](const S &n, bool core, std::function<bool(Tag&, const Model&, Alts&)> f) { r.push_back({n, core, f}); };

  for (auto &nf : alphabet(V))
    for (int typed = 1; typed >= 0; --typed) {
      bool special = nf.name != "g" && nf.name != "x" && nf.name != "xt";
      if (typed && !special) continue;
      if (!typed && (nf.name == "pd" || nf.name == "c2" || nf.name == "pq")) continue;
      Frame f = nf.f;
      S n = nf.name + (typed || !special ? "" : "*");
      bool core = (typed || nf.name == "g") && (nf.name == "t1" || nf.name == "t2" || nf.name == "pc" || nf.name == "c1" || nf.name == "po" || nf.name == "g");
      add("push(" + n + ")", core, [=](Tag &t, const Model &m, Alts &a) {
        Frames<V>::as(f, typed, [&](auto &g) { t.push_back(g); });
        a.push_back(with(m, m.size(), item(V, f)));
        return true;
      });
      if (nf.name == "x" || nf.name == "xt" || nf.name == "pd" || nf.name == "pq") continue;
      for (int p : {0, 1, -2}) {
        bool c = core && p == 0 && nf.name != "g" && nf.name != "t1";
        add("insert(" + pname(p) + "," + n + ")", c, [=](Tag &t, const Model &m, Alts &a) {
          std::size_t i;
          if (!place(p, m.size(), false, i)) return false;
          Frames<V>::as(f, typed, [&](auto &g) {
            auto q = t.insert(cit<V>(t, i), g);
            if (q.index() != i) mc::fail("insert returned an iterator to " + std::to_string(q.index()) + " rather than " + std::to_string(i));
          });
          a.push_back(with(m, i, item(V, f)));
          return true;
        });
      }
      for (int p : {0, 1, -1})
        add("assign(" + pname(p) + "," + n + ")", core && p == 0 && nf.name != "t2", [=](Tag &t, const Model &m, Alts &a) {
          std::size_t i;
          if (!place(p, m.size(), true, i)) return false;
          Frames<V>::as(f, typed, [&](auto &g) { *mit<V>(t, i) = g; });
          Model n = m; n[i] = item(V, f); a.push_back(n);
          return true;
        });
    }
  for (int p : {0, 1, 2, -1})
    add("erase(" + pname(p) + ")", p == 0 || p == 1, [=](Tag &t, const Model &m, Alts &a) {
      std::size_t i;
      if (!place(p, m.size(), true, i)) return false;
      auto q = t.erase(cit<V>(t, i));
      if (q.index() != i) mc::fail("erase returned an iterator to " + std::to_string(q.index()) + " rather than " + std::to_string(i));
      a.push_back(without(m, i, i + 1));
      return true;
    });
  for (auto &x : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {0, 2}, {1, 2}, {1, 3}, {0, -2}, {1, -2}, {1, 1}, {-2, -2}})
    add("erase(" + pname(x.first) + "," + pname(x.second) + ")", x.first == 0 && x.second == 2, [=](Tag &t, const Model &m, Alts &a) {
      std::size_t i = x.first == -2 ? m.size() : x.first, j = x.second == -2 ? m.size() : x.second;
      if (i > j || j > m.size()) return false;
      auto q = t.erase(cit<V>(t, i), cit<V>(t, j));
      if (q.index() != i) mc::fail("erase returned an iterator to " + std::to_string(q.index()) + " rather than " + std::to_string(i));
      a.push_back(without(m, i, j));
      return true;
    });
  for (auto &x : std::vector<std::pair<int, int>>{{0, 1}, {1, 0}, {0, 2}, {1, 2}})
    add("move(" + pname(x.first) + "," + pname(x.second) + ")", x.first == 0 && x.second == 1, [=](Tag &t, const Model &m, Alts &a) {
      std::size_t i = x.first, j = x.second;
      if (i >= m.size() || j >= m.size()) return false;
      *mit<V>(t, i) = std::move(*mit<V>(t, j));
      Model n = m; n[i] = m[j]; a.push_back(n);       // what is left behind is either what was there
      n[j] = m[i]; a.push_back(n);                    // or what it replaced
      return true;
    });
  for (S id : {"TIT2", "COMM", "PCNT", "POPM", "WXYZ"})
    add("remove_if(" + id + ")", id == "TIT2", [=](Tag &t, const Model &m, Alts &a) {
      S want = idof(V, id);
      auto p = std::remove_if(t.begin(), t.end(), [&](const typename X::Frm &f) { return id3::frame_id(f) == want; });
      t.erase(p, t.end());
      Model n;
      for (auto &x : m) if (x.id != want) n.push_back(x);
      a.push_back(n);
      return true;
    });

  // setters: the frame there is, or a new one
  auto setter = [&](const S &n, bool core, const S &id4, const S &val, std::function<void(Tag&)> f) {
    add(n, core, [=](Tag &t, const Model &m, Alts &a) {
      S id = idof(V, id4);
      f(t);
      for (std::size_t i = 0; i < m.size(); ++i)
        if (m[i].id == id) { Model n = m; n[i].d = "?text:" + val; a.push_back(n); }
      if (a.empty()) a.push_back(with(m, m.size(), {id, "", "?text:" + val}));
      return true;
    });
  };
  setter("title(A)", true, "TIT2", "A", [](Tag &t) { t.title("A"); });
  setter("title(\xc3\xa9)", false, "TIT2", "\xc3\xa9", [](Tag &t) { t.title("\xc3\xa9"); });
  setter("artist", true, "TPE1", "ar", [](Tag &t) { t.artist("ar"); });
  setter("album", false, "TALB", "al", [](Tag &t) { t.album("al"); });
  setter("content_type", false, "TCON", "(9)", [](Tag &t) { t.content_type("(9)"); });
  setter("encoded_by", false, "TENC", "en", [](Tag &t) { t.encoded_by("en"); });
  setter("languages", false, "TLAN", "eng", [](Tag &t) { t.languages("eng"); });
  setter("track", false, "TRCK", "3/7", [](Tag &t) { t.track("3/7"); });
  setter("year", false, "TYER", "1977", [](Tag &t) { t.year("1977"); });
  setter("text(tit2)", false, "TIT2", "tt", [](Tag &t) { t.text(id3v2_text_frames::tit2, "tt"); });
  setter("text(tcop)", false, "TCOP", "co", [](Tag &t) { t.text(id3v2_text_frames::tcop, "co"); });
  setter("text(tsse)", false, "TSSE", "ss", [](Tag &t) { t.text(id3v2_text_frames::tsse, "ss"); });
  for (auto &x : std::vector<std::pair<id3v2_text_frames, S>>{{id3v2_text_frames::tit2, "TIT2"}, {id3v2_text_frames::tpe1, "TPE1"}, {id3v2_text_frames::tcop, "TCOP"}})
    add("delete_frame(" + x.second + ")", x.second == "TIT2", [=](Tag &t, const Model &m, Alts &a) {
      t.delete_frame(x.first);
      for (std::size_t i = 0; i < m.size(); ++i) if (m[i].id == idof(V, x.second)) a.push_back(without(m, i, i + 1));
      if (a.empty()) a.push_back(m);
      return true;
    });
  add("add_comment", true, [=](Tag &t, const Model &m, Alts &a) {
    t.add_comment("hi", language::eng, encoding::UTF_8, use_unicode::no, "d");
    a.push_back(with(m, m.size(), {idof(V, "COMM"), "", "?comm:eng:d:hi"}));
    return true;
  });
  add("add_comment(unicode)", false, [=](Tag &t, const Model &m, Alts &a) {
    t.add_comment("h\xc3\xa9", language::fra, encoding::UTF_8, use_unicode::yes, "");
    a.push_back(with(m, m.size(), {idof(V, "COMM"), "", "?comm:fra::h\xc3\xa9"}));
    return true;
  });
  add("add_user_defined_text", false, [=](Tag &t, const Model &m, Alts &a) {
    t.add_user_defined_text("v", encoding::UTF_8, use_unicode::no, "d");
    a.push_back(with(m, m.size(), {idof(V, "TXXX"), "", "?txxx:d:v"}));
    return true;
  });
  for (std::size_t n : {0, 7})
    add("padding(" + std::to_string(n) + ")", false, [=](Tag &t, const Model &m, Alts &a) {
      t.padding(n);
      MC_CHECK(t.padding() == n, "padding set to " << n << ", reported as " << t.padding());
      a.push_back(m);
      return true;
    });

  // in place
  for (int i : {0, 1, 2}) {
    auto edit = [&](const S &n, bool core, std::function<bool(typename X::Frm&, Item&)> f) {
      add(n + "@" + std::to_string(i), core, [=](Tag &t, const Model &m, Alts &a) {
        if (std::size_t(i) >= m.size()) return false;
        Model n = m;
        typename X::Frm &g = *mit<V>(t, i);
        if (!f(g, n[i])) return false;
        a.push_back(n);
        return true;
      });
    };
    edit("set", i == 0, [](typename X::Frm &g, Item &x) {
      auto p = dynamic_cast<typename X::Text*>(&g);
      if (p) { p->set("new"); x.d = "?text:new"; }
      return p != 0;
    });
    edit("inc", i == 0, [](typename X::Frm &g, Item &x) {
      if (auto p = dynamic_cast<play_count*>(&g)) {
        std::size_t n = p->count(); p->inc();
        if (p->count() != n + 1) mc::fail("inc() made " + std::to_string(n) + " " + std::to_string(p->count()));
        x.d = id3::fields(g);
        return true;
      }
      if (auto p = dynamic_cast<popularimeter*>(&g)) {
        std::size_t n = p->count(); p->inc();
        if (p->count() != n + 1) mc::fail("inc() made " + std::to_string(n) + " " + std::to_string(p->count()));
        x.d = x.d.substr(0, x.d.find("count=")) + id3::fields(g).substr(id3::fields(g).find("count="));
        return true;
      }
      return false;
    });
    edit("rate", false, [](typename X::Frm &g, Item &x) {
      auto p = dynamic_cast<popularimeter*>(&g);
      if (!p) return false;
      p->rating(3);
      std::size_t q = x.d.find("rating=");
      x.d.replace(q + 7, 2, "03");
      return true;
    });
    edit("comment", i == 0, [](typename X::Frm &g, Item &x) {
      auto p = dynamic_cast<comments*>(&g);
      if (!p) return false;
      int e = (unsigned char)field(x.d, "enc")[0];
      p->text("txt", encoding::UTF_8);
      x.d = "?comm:" + field(x.d, "lang") + ":" + decoded(e, field(x.d, "dsc")) + ":txt";
      return true;
    });
    edit("cloud", false, [](typename X::Frm &g, Item &x) {
      auto p = dynamic_cast<tag_cloud*>(&g);
      if (!p) return false;
      p->reset({{"q", {"r"}}});
      x.d = "xtag owner=" + mc::hex(field(x.d, "owner")) + " 71=72,";
      return true;
    });
  }
  return r;
}

// --- the tag's answers against a scan ------------------------------------

template <int V> S answers_wrong(typename T<V>::Tag &t, const Model &m)
{
  typedef T<V> X;
  std::ostringstream o;
  const typename X::Tag &ct = t;
  if (t.num_frames() != m.size()) { o << "num_frames() is " << t.num_frames() << " of " << m.size(); return o.str(); }
  std::vector<const id3v2_frame*> fs = id3::frames(t);
  for (const char *id4 : {"TIT2", "TPE1", "PCNT", "COMM", "POPM", "WXYZ", "TXXX", "XTAG", "TALB", "TCOP"}) {
    S id = idof(V, id4);
    std::size_t n = std::count_if(m.begin(), m.end(), [&](const Item &x) { return x.id == id; });
    typename X::Id k(id.c_str());
    if (ct.has_frame(k) != n) { o << "has_frame(" << id << ") is " << ct.has_frame(k) << ", there are " << n; return o.str(); }
    if (n) {
      const id3v2_frame *f = &ct.get_frame(k);
      auto p = std::find(fs.begin(), fs.end(), f);
      if (p == fs.end() || m[p - fs.begin()].id != id) { o << "get_frame(" << id << ") is none of the tag's frames with that id"; return o.str(); }
    }
  }
  struct A { const char *id4; std::size_t has; std::function<S()> get; };
  const id3v2_tag &b = t;
  for (auto &a : std::vector<A>{
      {"TALB", b.has_album(), [&]() { return b.album(); }},
      {"TPE1", b.has_artist(), [&]() { return b.artist(); }},
      {"TCON", b.has_content_type(), [&]() { return b.content_type(); }},
      {"TENC", b.has_encoded_by(), [&]() { return b.encoded_by(); }},
      {"TLAN", b.has_languages(), [&]() { return b.languages(); }},
      {"TIT2", b.has_title(), [&]() { return b.title(); }},
      {"TRCK", b.has_track(), [&]() { return b.track(); }},
      {"TYER", b.has_year(), [&]() { return b.year(); }},
      {"TIT2", b.has_title(), [&]() { return b.text(id3v2_text_frames::tit2); }},
      {"TCOP", std::size_t(-1), [&]() { return b.text(id3v2_text_frames::tcop); }},
      {"TSSE", std::size_t(-1), [&]() { return b.text(id3v2_text_frames::tsse); }}}) {
    S id = idof(V, a.id4);
    std::set<S> ok;
    std::size_t n = 0;
    for (auto &x : m) if (x.id == id) { ++n; ok.insert(text_of(x.d)); }
    if (a.has != std::size_t(-1) && a.has != n) { o << "has_...(" << id << ") is " << a.has << ", there are " << n; return o.str(); }
    try {
      S s = a.get();
      if (!n) { o << "text of " << id << " is '" << s << "', but there is none"; return o.str(); }
      if (!ok.count(s)) { o << "text of " << id << " is '" << s << "', which no frame says"; return o.str(); }
    } catch (const std::exception &e) { if (n) { o << "text of " << id << ": " << e.what(); return o.str(); } }
  }
  // lists, in order
  std::vector<S> want[3], got[3];
  for (auto &x : m) {
    if (is(x.d, "comm")) want[0].push_back(x.d);
    if (is(x.d, "pcnt")) want[1].push_back(x.d);
    if (is(x.d, "popm")) want[2].push_back(x.d);
  }
  std::vector<typename X::Com> c; ct.get_comments(std::back_inserter(c));
  std::vector<typename X::Cnt> n; ct.get_play_counts(std::back_inserter(n));
  std::vector<typename X::Pop> p; ct.get_popularimeters(std::back_inserter(p));
  for (auto &x : c) got[0].push_back(id3::fields(x));
  for (auto &x : n) got[1].push_back(id3::fields(x));
  for (auto &x : p) got[2].push_back(id3::fields(x));
  const char *names[] = {"comments", "play counts", "popularimeters"};
  for (int i = 0; i < 3; ++i)
    if (want[i] != got[i]) {
      o << names[i] << " are";
      for (auto &x : got[i]) o << " {" << x << "}";
      o << ", the frames are";
      for (auto &x : want[i]) o << " {" << x << "}";
      return o.str();
    }
  if (b.has_play_count() != want[1].size()) { o << "has_play_count() is " << b.has_play_count() << " of " << want[1].size(); return o.str(); }
  try {
    std::size_t k = b.play_count();
    if (want[1].size() != 1) { o << "play_count() is " << k << " with " << want[1].size() << " counters"; return o.str(); }
    std::size_t w = 0;
    for (unsigned char ch : unhex(want[1][0].substr(5))) w = w << 8 | ch;
    if (k != w) { o << "play_count() is " << k << ", the frame says " << w; return o.str(); }
  } catch (const std::exception &e) { if (want[1].size() == 1) { o << "play_count(): " << e.what(); return o.str(); } }
  return S();
}

// Apply an operation; settle the model; S() if all is well
template <int V> bool step(const Op<V> &op, typename T<V>::Tag &t, Model &m, S &err)
{
  std::vector<Model> alts;
  mc::transition();
  if (!op.run(t, m, alts)) return false;
  Model got = observed(t);
  for (auto &a : alts)
    if (a.size() == got.size() && std::equal(a.begin(), a.end(), got.begin(), agrees)) { m = got; return true; }
  err = "after " + op.name + " on " + show(m) + " the frames are " + show(got) + ", not " + show(alts[0]);
  return true;
}

template <int V> id3::Tag start(int k)
{
  id3::Tag t; t.ver = V;
  if (k == 1) for (auto n : {"t1", "c1", "pc", "t2", "po"}) t.frames.push_back(named(V, n));
  if (k == 2) for (auto n : {"g", "po", "c2", "pc", "c1", "a1"}) t.frames.push_back(named(V, n));
  return t;
}
static const char *start_name(int k) { static const char *n[] = {"empty", "made", "read"}; return n[k]; }
template <int V> std::unique_ptr<typename T<V>::Tag> started(int k)
{
  id3::Tag t = start<V>(k);
  std::unique_ptr<id3v2_tag> p = k == 2 ? id3::read(id3::encode(t)) : id3::make(t);
  auto q = dynamic_cast<typename T<V>::Tag*>(p.get());
  if (!q) throw std::runtime_error("not a tag of this version");
  p.release();
  return std::unique_ptr<typename T<V>::Tag>(q);
}
template <int V> Model start_model(int k)
{ Model m; for (auto &f : start<V>(k).frames) m.push_back(item(V, f)); return m; }

template <int V> void c05_run(int k, const std::vector<const Op<V>*> &seq)
{
  if (!mc::begin([&]() {
    S s = "2." + std::to_string(V) + " " + start_name(k);
    for (auto o : seq) s += " " + o->name;
    return s; })) return;
  auto t = started<V>(k);
  Model m = start_model<V>(k);
  S err;
  for (auto o : seq) {
    if (!step<V>(*o, *t, m, err)) { mc::outcome("not applicable"); return; }
    if (!err.empty()) { mc::fail(err); return; }
  }
  if (observed(*t) != m) { mc::fail("the frames are " + show(observed(*t)) + ", not " + show(m)); return; }
  err = answers_wrong<V>(*t, m);
  if (!err.empty()) { mc::fail(err + "; frames " + show(m)); return; }
  mc::trace();
  mc::state(std::to_string(V) + show(m));
  mc::outcome(std::to_string(m.size()) + " frames");
  mc::sample("2." + std::to_string(V) + " " + start_name(k) + ": " + show(m));
}
template <int V> void c05_version()
{
  auto ops = operations<V>();
  std::vector<const Op<V>*> all, core;
  for (auto &o : ops) { all.push_back(&o); if (o.core) core.push_back(&o); }
  for (int k = 0; k < 3; ++k) {
    c05_run<V>(k, {});
    for (auto a : all) {
      c05_run<V>(k, {a});
      for (auto b : all) {
        c05_run<V>(k, {a, b});
        bool deep = a->core && b->core;
        if (!deep && mc::quick) continue;
        for (auto c : core) {
          c05_run<V>(k, {a, b, c});
          if (mc::quick || !deep || k != 1) continue;
          for (auto d : core) c05_run<V>(k, {a, b, c, d});
        }
      }
    }
  }
}

// Every text frame there is a name for: set, asked for, written, read back, deleted
template <int V> void c05_texts()
{
  struct N { id3v2_text_frames x; const char *id4, *id3; };
#define N(x, a, b) {id3v2_text_frames::x, a, b}
  for (auto &n : std::vector<N>{
    N(talb, "TALB", "TAL"), N(tbpm, "TBPM", "TBP"), N(tcom, "TCOM", "TCM"), N(tcon, "TCON", "TCO"), N(tcop, "TCOP", "TCR"), N(tdat, "TDAT", "TDA"),
    N(tdly, "TDLY", "TDY"), N(tenc, "TENC", "TEN"), N(text, "TEXT", "TXT"), N(tflt, "TFLT", "TFT"), N(time, "TIME", "TIM"), N(tit1, "TIT1", "TT1"),
    N(tit2, "TIT2", "TT2"), N(tit3, "TIT3", "TT3"), N(tkey, "TKEY", "TKE"), N(tlan, "TLAN", "TLA"), N(tlen, "TLEN", "TLE"), N(tmed, "TMED", "TMT"),
    N(toal, "TOAL", "TOT"), N(tofn, "TOFN", "TOF"), N(toly, "TOLY", "TOL"), N(tope, "TOPE", "TOA"), N(tory, "TORY", "TOR"), N(town, "TOWN", 0),
    N(tpe1, "TPE1", "TP1"), N(tpe2, "TPE2", "TP2"), N(tpe3, "TPE3", "TP3"), N(tpe4, "TPE4", "TP4"), N(tpos, "TPOS", "TPA"), N(tpub, "TPUB", "TPB"),
    N(trck, "TRCK", "TRK"), N(trda, "TRDA", "TRD"), N(trsn, "TRSN", 0), N(trso, "TRSO", 0), N(tsiz, "TSIZ", "TSI"), N(tsrc, "TSRC", "TRC"),
    N(tsse, "TSSE", "TSS"), N(tyer, "TYER", "TYE")})
    for (int k = 0; k < 3; ++k)
      for (int again = 0; again < 2; ++again)
        for (int back = 0; back < 2; ++back)
          for (int via = 0; via < 2; ++via) {        // set by name, or already there as read
            if (!mc::begin("texts 2." + std::to_string(V) + " " + n.id4 + " " + start_name(k) + (again ? " twice" : "") + (back ? " reread" : "") + (via ? " stored" : ""))) continue;
            auto t = started<V>(k);
            Model m = start_model<V>(k);
            const char *id = V == 2 ? n.id3 : n.id4;
            mc::transition(3);
            if (!id) {                             // this version has no such frame
              try { t->text(n.x, "zz"); mc::fail("set a frame this version does not have: " + show(observed(*t))); } catch (const std::exception&) { }
              if (observed(*t) != m) mc::fail("changed: " + show(observed(*t)));
              mc::outcome("no such frame");
              continue;
            }
            if (via) {
              std::size_t i = 0;
              Frame f; f.id = id; f.body = BL("\0first");
              for (; i < m.size(); ++i) if (m[i].id == id) break;
              if (i < m.size()) { mc::outcome("not applicable"); continue; }
              id3::Tag x = start<V>(k); x.frames.push_back(f);
              auto b = id3::read(id3::encode(x));
              t.reset(dynamic_cast<typename T<V>::Tag*>(b.release()));
              m.push_back(item(V, f));
              if (observed(*t) != m) { mc::fail("read as " + show(observed(*t)) + ", not " + show(m)); continue; }
              if (t->text(n.x) != "first") { mc::fail("text is " + t->text(n.x)); continue; }
            }
            for (int i = 0; i <= again; ++i) {
              S val = i ? "again" : "value";
              t->text(n.x, val);
              Model got = observed(*t);
              std::vector<Model> alts;
              for (std::size_t j = 0; j < m.size(); ++j) if (m[j].id == id) { Model a = m; a[j].d = "?text:" + val; alts.push_back(a); }
              if (alts.empty()) alts.push_back(with(m, m.size(), {id, "", "?text:" + val}));
              bool ok = false;
              for (auto &a : alts) if (a.size() == got.size() && std::equal(a.begin(), a.end(), got.begin(), agrees)) ok = true;
              if (!ok) { mc::fail("frames are " + show(got) + ", not " + show(alts[0])); break; }
              m = got;
            }
            if (back) {
              auto b = id3::read(id3::write(*t, false));
              t.reset(dynamic_cast<typename T<V>::Tag*>(b.release()));
              if (observed(*t) != m) { mc::fail("read back as " + show(observed(*t)) + ", not " + show(m)); continue; }
            }
            S err = answers_wrong<V>(*t, m);
            if (!err.empty()) { mc::fail(err); continue; }
            std::set<S> ok;
            for (auto &x : m) if (x.id == id) ok.insert(text_of(x.d));
            S got = t->text(n.x);
            if (!ok.count(got)) { mc::fail("text is '" + got + "'"); continue; }
            std::size_t before = m.size();
            t->delete_frame(n.x);
            Model g = observed(*t);
            bool fine = false;
            for (std::size_t j = 0; j < m.size(); ++j) if (m[j].id == id && without(m, j, j + 1) == g) fine = true;
            if (!fine) { mc::fail("after delete_frame " + show(g) + ", before " + show(m)); continue; }
            err = answers_wrong<V>(*t, g);
            if (!err.empty()) mc::fail("after delete_frame: " + err);
            (void) before;
            mc::trace();
            mc::state(std::to_string(V) + show(m));
            mc::outcome("texts");
          }
}

// --- c06 -----------------------------------------------------------------

static bytes wr(const id3v2_frame &f, bool u) { std::ostringstream o; f.write(o, u); return o.str(); }

// Change a frame & the model of its body
struct Change { S name; std::function<bool(id3v2_frame&, Frame&)> run; };

template <int V> std::vector<Change> changes()
{
  typedef T<V> X;
  std::vector<Change> r;
  auto cut0 = [](const bytes &b, std::size_t from, int w) {      // position of the terminator
    for (std::size_t i = from; i + w <= b.size(); i += w) if (!b[i] && (w == 1 || !b[i+1])) return i;
    return b.size();
  };
  for (S s : {S("a"), S("longer text"), S("\xc3\xbf\xc3\xbf")})
    r.push_back({"set(" + s + ")", [=](id3v2_frame &g, Frame &f) {
      auto p = dynamic_cast<typename X::Text*>(&g);
      if (!p) return false;
      p->set(s);
      S d = id3::fields(*p);
      if (text_of(d) != s) mc::fail("set to '" + s + "', says " + d);
      bytes b; b += char(p->unicode()); std::vector<unsigned char> v; p->text(std::back_inserter(v)); b.append(v.begin(), v.end());
      f.body = b;
      return true;
    }});
  auto comm = [=](bool dsc, const S &s) {
    return [=](id3v2_frame &g, Frame &f) {
      auto p = dynamic_cast<comments*>(&g);
      if (!p) return false;
      if (dsc) p->description(s, encoding::UTF_8); else p->text(s, encoding::UTF_8);
      int e = (unsigned char)f.body[0], w = e == 0 || e == 3 ? 1 : 2;
      std::size_t z = cut0(f.body, 4, w);
      bytes D = f.body.substr(4, z - 4), X = f.body.substr(std::min(f.body.size(), z + w));
      std::vector<unsigned char> v;
      if (dsc) p->descriptionb(std::back_inserter(v)); else p->textb(std::back_inserter(v));
      bytes n(v.begin(), v.end());
      if (decoded(e, n) != s) mc::fail("set to '" + s + "', says " + mc::hex(n));
      f.body = f.body.substr(0, 4) + (dsc ? n : D) + bytes(w, 0) + (dsc ? X : n);
      return true;
    };
  };
  r.push_back({"description(q)", comm(true, "q")});
  r.push_back({"description(longer)", comm(true, "longer")});
  r.push_back({"text(z)", comm(false, "z")});
  r.push_back({"text(\xc3\xbf)", comm(false, "\xc3\xbf")});
  auto be = [](std::size_t n) { bytes b; do { b.insert(b.begin(), char(n)); n >>= 8; } while (n); return b; };
  auto num = [](const bytes &b) { std::size_t n = 0; for (unsigned char c : b) n = n << 8 | c; return n; };
  // counters: the number matters; how many bytes it takes is the frame's business
  auto counted = [=](id3v2_frame &g, std::size_t want, bytes &out) {
    std::vector<unsigned char> v;
    if (auto p = dynamic_cast<play_count*>(&g)) { p->counterb(std::back_inserter(v)); if (p->count() != want) mc::fail("count() is " + std::to_string(p->count()) + ", not " + std::to_string(want)); }
    if (auto p = dynamic_cast<popularimeter*>(&g)) { p->counterb(std::back_inserter(v)); if (p->count() != want) mc::fail("count() is " + std::to_string(p->count()) + ", not " + std::to_string(want)); }
    out.assign(v.begin(), v.end());
    if (num(out) != want) mc::fail("counter " + mc::hex(out) + " is not " + std::to_string(want));
  };
  auto count = [=](int how) {            // how < 0: increment
    return [=](id3v2_frame &g, Frame &f) {
      static const std::size_t N[] = {0, 255, 65535, 0xffe0};
      if (auto p = dynamic_cast<play_count*>(&g)) {
        std::size_t n = how < 0 ? num(f.body) + 1 : N[how];
        if (how < 0) p->inc(); else p->count(n);
        counted(g, n, f.body);
        return true;
      }
      if (auto p = dynamic_cast<popularimeter*>(&g)) {
        std::size_t z = f.body.find('\0') + 2;
        std::size_t n = how < 0 ? num(f.body.substr(z)) + 1 : N[how];
        if (how < 0) p->inc(); else p->count(n);
        bytes c; counted(g, n, c);
        f.body = f.body.substr(0, z) + c;
        return true;
      }
      return false;
    };
  };
  (void) be;
  r.push_back({"inc", count(-1)});
  r.push_back({"count(0)", count(0)});
  r.push_back({"count(255)", count(1)});
  r.push_back({"count(65535)", count(2)});
  r.push_back({"count(ffe0)", count(3)});
  for (int x : {1, 255})
    r.push_back({"rating(" + std::to_string(x) + ")", [=](id3v2_frame &g, Frame &f) {
      auto p = dynamic_cast<popularimeter*>(&g);
      if (!p) return false;
      p->rating(x);
      f.body[f.body.find('\0') + 1] = char(x);
      return true;
    }});
  typedef std::map<S, std::set<S>> M;
  auto parse = [](const bytes &b) {
    M m; std::size_t p = b.find('\0', 1) + 1;
    while (p < b.size()) {
      std::size_t z = b.find('\0', p);
      S k = b.substr(p, z - p);
      std::size_t n = id3::unbe(b.substr(z + 1, 4));
      auto &s = m[k];
      for (std::size_t q = z + 5; q < z + 5 + n; ) { std::size_t y = b.find('\0', q); s.insert(b.substr(q, y - q)); q = y + 1; }
      p = z + 5 + n;
    }
    return m;
  };
  auto unparse = [](const bytes &b, const M &m) {
    bytes r = b.substr(0, b.find('\0', 1) + 1);
    for (auto &x : m) { bytes v; for (auto &y : x.second) v += y + '\0'; r += x.first + '\0' + id3::be(v.size(), 4) + v; }
    return r;
  };
  auto cloud = [=](std::function<void(tag_cloud&, M&)> f) {
    return [=](id3v2_frame &g, Frame &fr) {
      auto p = dynamic_cast<tag_cloud*>(&g);
      if (!p) return false;
      M m = parse(fr.body);
      f(*p, m);
      fr.body = unparse(fr.body, m);
      return true;
    };
  };
  r.push_back({"add_key(n)", cloud([](tag_cloud &p, M &m) { p.add_key("n"); m["n"]; })});
  r.push_back({"add_value(k,b)", cloud([](tag_cloud &p, M &m) { p.add_value("k", "b"); m["k"].insert("b"); })});
  r.push_back({"merge(k=c&l)", cloud([](tag_cloud &p, M &m) { p.merge("k=c&l"); m["k"].insert("c"); m["l"]; })});
  r.push_back({"update(u=\xff)", cloud([](tag_cloud &p, M &m) { p.update("u=%ff"); m.clear(); m["u"].insert("\xff"); })});
  r.push_back({"reset", cloud([](tag_cloud &p, M &m) { p.reset({{"q", {"r", "s"}}}); m = {{"q", {"r", "s"}}}; })});
  r.push_back({"begin()->insert", cloud([](tag_cloud &p, M &m) { if (p.begin() != p.end()) { p.begin()->second.insert("ins"); m.begin()->second.insert("ins"); } })});
  return r;
}

template <int V> std::vector<Frame> mutable_frames()
{
  std::vector<Frame> r;
  for (auto n : {"t1", "t2", "c1", "pc", "po", "xt"}) r.push_back(named(V, n));
  r.push_back(fr(V, "COMM", BL("\1fra" "\xff\xfe" "\0\0\xff\xfe" "x\0")));
  std::size_t n = r.size();
  for (std::size_t i = 0; i < n && V > 2; ++i) {
    Frame f = r[i];
    f.cmp = true; f.dli = V == 4; r.push_back(f);
    f.gid = 0x41; r.push_back(f);
    f = r[i]; f.gid = 0x41; f.tap = true; r.push_back(f);
    if (V == 4) { f = r[i]; f.uns = true; r.push_back(f); f.dli = true; r.push_back(f); }
  }
  return r;
}

template <int V> S frame_wrong(const id3v2_frame &g, const Frame &f)
{
  auto fresh = T<V>::make(f);
  std::ostringstream o;
  if (id3::fields(g) != id3::fields(V, f)) { o << "says " << id3::fields(g) << ", not " << id3::fields(V, f); return o.str(); }
  if (g.size() != fresh->size()) { o << "size() is " << g.size() << ", " << fresh->size() << " if freshly made"; return o.str(); }
  for (int u = 0; u < 2; ++u) {
    bytes a = wr(g, u), b = wr(*fresh, u);
    if (a != b) { o << "writes " << id3::brief(a) << ", " << id3::brief(b) << " if freshly made"; return o.str(); }
    if (g.serialized_size(u) != a.size()) { o << "serialized_size(" << u << ") is " << g.serialized_size(u) << ", writes " << a.size(); return o.str(); }
  }
  for (int l = 0; l < 2; ++l)
    if (g.needs_unsynchronisation(l) != fresh->needs_unsynchronisation(l)) { o << "needs_unsynchronisation() is " << g.needs_unsynchronisation(l) << ", " << fresh->needs_unsynchronisation(l) << " if freshly made"; return o.str(); }
  // what was written, by itself in a tag
  id3::Tag t; t.ver = V; t.frames = {f};
  bytes body = wr(g, false);
  bytes whole = bytes("ID3") + char(V) + '\0' + '\0' + id3::syncsafe(body.size()) + body;
  auto d = id3::decode(whole);
  if (!d.error.empty()) return "writes " + id3::brief(body) + ": " + d.error;
  if (id3::describe(d.tag, true) != id3::describe(t, true)) return "writes " + id3::describe(d.tag, true) + " rather than " + id3::describe(t, true);
  return S();
}

template <int V> void c06_frames()
{
  struct Obs { const char *name; std::function<void(std::unique_ptr<typename T<V>::Frm>&)> run; };
  typedef std::unique_ptr<typename T<V>::Frm> P;
  std::vector<Obs> obs{
    {"size", [](P &p) { p->size(); }},
    {"serialized_size(0)", [](P &p) { p->serialized_size(false); }},
    {"serialized_size(1)", [](P &p) { p->serialized_size(true); }},
    {"needs", [](P &p) { p->needs_unsynchronisation(); }},
    {"write(0)", [](P &p) { wr(*p, false); }},
    {"write(1)", [](P &p) { wr(*p, true); }},
    {"clone", [](P &p) { P q(dynamic_cast<typename T<V>::Frm*>(p->clone())); p.swap(q); }},
  };
  auto ch = changes<V>();
  for (auto &f0 : mutable_frames<V>()) {
    // which changes apply to this kind?
    std::vector<int> ok;
    for (std::size_t i = 0; i < ch.size(); ++i) {
      auto p = T<V>::make(f0); Frame f = f0;
      if (ch[i].run(*p, f)) ok.push_back(i);
    }
    std::size_t n = ok.size() + obs.size();
    int depth = mc::quick ? 3 : 4;
    std::vector<std::vector<int>> seqs{{}};
    for (std::size_t i = 0; i < seqs.size(); ++i) {
      std::vector<int> s = seqs[i];
      if (mc::begin([&]() {
        S id = "2." + std::to_string(V) + " " + f0.name();
        for (int x : s) id += " " + (x < int(ok.size()) ? ch[ok[x]].name : S(obs[x - ok.size()].name));
        return id; })) {
        auto p = T<V>::make(f0);
        Frame f = f0;
        for (int x : s) {
          mc::transition();
          if (x < int(ok.size())) ch[ok[x]].run(*p, f); else obs[x - ok.size()].run(p);
        }
        S e = frame_wrong<V>(*p, f);
        if (!e.empty()) mc::fail(e);
        mc::trace();
        mc::state(std::to_string(V) + f.name());
        mc::outcome(idof(4, "TIT2") == f.id ? "text" : "other frames");
      }
      if (int(s.size()) < depth) for (std::size_t x = 0; x < n; ++x) { s.push_back(x); seqs.push_back(s); s.pop_back(); }
    }
  }
}

// within a tag, with & without a checksum
template <int V> void c06_tags()
{
  typedef typename T<V>::Tag Tag;
  auto ch = changes<V>();
  struct Act { S name; std::function<bool(std::unique_ptr<Tag>&, id3::Tag&)> run; };
  typedef std::unique_ptr<Tag> P;
  std::vector<Act> acts;
  for (int u = 0; u < 2; ++u) {
    acts.push_back({"size(" + std::to_string(u) + ")", [u](P &t, id3::Tag&) { t->size(u); return true; }});
    acts.push_back({"size_on_disk(" + std::to_string(u) + ")", [u](P &t, id3::Tag&) { t->size_on_disk(u); return true; }});
    acts.push_back({"write(" + std::to_string(u) + ")", [u](P &t, id3::Tag&) { id3::write(*t, u); return true; }});
  }
  acts.push_back({"needs", [](P &t, id3::Tag&) { t->needs_unsynchronisation(); return true; }});
  acts.push_back({"copy", [](P &t, id3::Tag&) { P q(new Tag(*t)); t.swap(q); return true; }});
  for (std::size_t i = 0; i < 5; ++i)
    for (auto &c : ch)
      acts.push_back({c.name + "@" + std::to_string(i), [=](P &t, id3::Tag &m) {
        if (i >= m.frames.size()) return false;
        typename T<V>::Frm &g = *mit<V>(*t, i);
        return c.run(g, m.frames[i]);
      }});
  acts.push_back({"title(N)", [](P &t, id3::Tag &m) {
    t->title("N\xc3\xbf");
    for (std::size_t i = 0; i < m.frames.size(); ++i)
      if (m.frames[i].id == idof(V, "TIT2")) {
        std::vector<unsigned char> v;
        auto p = dynamic_cast<const typename T<V>::Text*>(id3::frames(*t)[i]);
        p->text(std::back_inserter(v));
        m.frames[i].body = bytes(1, char(p->unicode())) + bytes(v.begin(), v.end());
        if (text_of(id3::fields(*p)) != "N\xc3\xbf") mc::fail("title set, frame says " + id3::fields(*p));
        return true;
      }
    return false;
  }});
  acts.push_back({"erase(0)", [](P &t, id3::Tag &m) { if (m.frames.empty()) return false; t->erase(cit<V>(*t, 0)); m.frames.erase(m.frames.begin()); return true; }});
  acts.push_back({"push(g)", [](P &t, id3::Tag &m) { Frame f = named(V, "g"); id3::push(*t, f); m.frames.push_back(f); return true; }});
  acts.push_back({"assign(1,pc)", [](P &t, id3::Tag &m) {
    if (m.frames.size() < 2) return false;
    Frame f = named(V, "pc");
    Frames<V>::as(f, true, [&](auto &g) { *mit<V>(*t, 1) = g; });
    m.frames[1] = f;
    return true; }});
  acts.push_back({"swap(0,1)", [](P &t, id3::Tag &m) {
    if (m.frames.size() < 2) return false;
    *mit<V>(*t, 0) = std::move(*mit<V>(*t, 1));
    Model o = observed(*t);
    Frame a = m.frames[0], b = m.frames[1];
    m.frames[0] = b;
    m.frames[1] = o[1] == item(V, a) ? a : b;
    return true; }});
  for (std::size_t n : {0, 9}) acts.push_back({"padding(" + std::to_string(n) + ")", [n](P &t, id3::Tag &m) { t->padding(n); m.pad = n; return true; }});

  for (int ext = -1; ext < (V == 2 ? 0 : 3); ++ext)
    for (std::size_t pad : {0, 5})
      for (int from = 0; from < 2; ++from) {
        int depth = mc::quick || from == !pad ? 2 : 3;
        if (V == 3 && ext == 2) continue;
        if (V == 4 && (ext == 0 || ext == 1)) continue;
        id3::Tag t0; t0.ver = V; t0.ext = ext; t0.pad = pad;
        for (auto n : {"t1", "c1", "pc", "po", "xt"}) t0.frames.push_back(named(V, n));
        // a sequence is a change or query, then others; those that change nothing after the last change are the queries of the end
        std::vector<std::vector<int>> seqs{{}};
        for (std::size_t i = 0; i < seqs.size(); ++i) {
          std::vector<int> s = seqs[i];
          if (mc::begin([&]() {
            S id = S(from ? "read " : "made ") + t0.name() + ":";
            for (int x : s) id += " " + acts[x].name;
            return id; })) {
            id3::Tag m = t0;
            std::unique_ptr<id3v2_tag> b = from ? id3::read(id3::encode(t0)) : id3::make(t0);
            P t(dynamic_cast<Tag*>(b.release()));
            bool ok = true;
            for (int x : s) { mc::transition(); if (!acts[x].run(t, m)) { ok = false; break; } }
            if (!ok) mc::outcome("not applicable");
            else {
              for (int k = 0; k < 2; ++k) {
                int u = k ^ (s.size() & 1);
                std::size_t told = t->size_on_disk(u);
                bytes w = id3::write(*t, u);
                auto d = id3::decode(w);
                if (!d.error.empty()) { mc::fail("writes " + id3::brief(w) + ": " + d.error); break; }
                if (told != w.size()) { mc::fail("says " + std::to_string(told) + " bytes, writes " + std::to_string(w.size())); break; }
                id3::Tag e = m;
                if (id3::describe(d.tag, true) != id3::describe(e, true)) { mc::fail("wrote " + id3::describe(d.tag, true) + "\nrather than " + id3::describe(e, true)); break; }
                if (d.has_crc && !(V == 4 && u) && !d.crc_ok) {     // 2.4 leaves open which form of unsynchronised frames is meant
                  mc::fail("checksum is not that of the frames written: " + id3::brief(w)); break; }
                if (!d.ext_pad_ok) { mc::fail("extended header's padding is wrong: " + id3::brief(w)); break; }
              }
              // a tag freshly made the same says & writes the same
              auto fresh = id3::make(m);
              if (fresh->size() != t->size() || fresh->size(true) != t->size(true) || fresh->needs_unsynchronisation() != t->needs_unsynchronisation())
                mc::fail("size " + std::to_string(t->size()) + "/" + std::to_string(t->size(true)) + ", freshly made " + std::to_string(fresh->size()) + "/" + std::to_string(fresh->size(true)) +
                         ", needs " + std::to_string(t->needs_unsynchronisation()) + "/" + std::to_string(fresh->needs_unsynchronisation()));
              mc::trace();
              mc::state(m.name());
              mc::outcome("tag");
            }
          }
          if (int(s.size()) < depth) for (std::size_t x = 0; x < acts.size(); ++x) { s.push_back(x); seqs.push_back(s); s.pop_back(); }
        }
      }
}

// --- c07 -----------------------------------------------------------------

template <int V> S snapshot(const typename T<V>::Tag &t)
{
  typedef T<V> X;
  std::ostringstream o;
  const id3v2_tag &b = t;
  o << id3::describe(t) << "\n version " << int(b.version()) << "." << int(b.revision()) << " unsync " << (b.unsynchronised() ? int(*b.unsynchronised()) : -1)
    << " flags " << int(b.flags()) << " n " << b.num_frames() << " needs " << b.needs_unsynchronisation();
  for (int u = 0; u < 2; ++u) o << " size " << b.size(u) << " " << b.size_on_disk(u) << " " << mc::hex(id3::write(t, u));
  for (const char *id4 : {"TIT2", "TPE1", "PCNT", "COMM", "POPM", "WXYZ", "TXXX", "XTAG", "TALB", "TCOP"}) {
    typename X::Id k(idof(V, id4).c_str());
    o << " " << id4 << t.has_frame(k);
    if (t.has_frame(k)) o << id3::fields(t.get_frame(k));
  }
  o << " has " << b.has_album() << b.has_artist() << b.has_content_type() << b.has_encoded_by() << b.has_languages() << b.has_play_count() << b.has_title() << b.has_track() << b.has_year();
  auto text = [&](std::function<S()> f) { try { o << " '" << f() << "'"; } catch (const std::exception &e) { o << " -"; } };
  text([&]() { return b.album(); }); text([&]() { return b.artist(); }); text([&]() { return b.content_type(); }); text([&]() { return b.encoded_by(); });
  text([&]() { return b.languages(); }); text([&]() { return b.title(); }); text([&]() { return b.track(); }); text([&]() { return b.year(); });
  text([&]() { return b.text(id3v2_text_frames::tcop); }); text([&]() { return std::to_string(b.play_count()); });
  std::vector<typename X::Com> c; t.get_comments(std::back_inserter(c));
  std::vector<typename X::Cnt> n; t.get_play_counts(std::back_inserter(n));
  std::vector<typename X::Pop> p; t.get_popularimeters(std::back_inserter(p));
  for (auto &x : c) o << " {" << id3::fields(x) << "}";
  for (auto &x : n) o << " {" << id3::fields(x) << "}";
  for (auto &x : p) o << " {" << id3::fields(x) << "}";
  return o.str();
}
static S differ(const S &a, const S &b)
{
  std::size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  std::size_t k = i > 60 ? i - 60 : 0;
  return "..." + a.substr(k, 160) + "... / ..." + b.substr(k, 160) + "...";
}

template <int V> std::vector<id3::Tag> originals()
{
  std::vector<id3::Tag> r;
  std::vector<std::vector<Frame>> lists{{}};
  for (auto &k : id3::kinds(V)) lists.push_back({k});
  for (auto &k : id3::kinds(V)) if (V > 2) {
    Frame f = k; f.gid = 0x41; f.ro = true; lists.push_back({f});
    f.cmp = true; f.dli = V == 4; lists.push_back({f});
  }
  auto A = alphabet(V);
  for (auto &a : A) for (auto &b : A) lists.push_back({a.f, b.f});
  { std::vector<Frame> v; for (auto &a : A) v.push_back(a.f); lists.push_back(v); std::reverse(v.begin(), v.end()); lists.push_back(v); }
  for (auto &l : lists)
    for (int exp = 0; exp < (V == 2 ? 1 : 2); ++exp)
      for (int ext = -1; ext < (V == 2 ? 0 : V == 3 ? 2 : 8); ++ext)
        for (int foot = 0; foot < (V == 4 ? 2 : 1); ++foot)
          for (std::size_t pad : {0, 6}) {
            if (foot && pad) continue;
            if (l.size() == 2 && (exp || (ext > 0 && ext != 6 && V == 4) || foot)) continue;
            id3::Tag t; t.ver = V; t.exp = exp; t.ext = ext; t.footer = foot; t.pad = pad; t.frames = l;
            r.push_back(t);
          }
  return r;
}

static const char *WAYS[] = {"copy", "clone", "assign over empty", "assign over another", "assign to itself", "assign twice"};

template <int V> std::unique_ptr<typename T<V>::Tag> copied(std::unique_ptr<typename T<V>::Tag> &o, int way)
{
  typedef typename T<V>::Tag Tag;
  typedef std::unique_ptr<Tag> P;
  switch (way) {
  case 0: return P(new Tag(*o));
  case 1: return P(dynamic_cast<Tag*>(o->clone()));
  case 2: { P p(new Tag()); *p = *o; return p; }
  case 3: { id3::Tag t = start<V>(1); t.pad = 3; if (V == 3) t.ext = 1; P p(dynamic_cast<Tag*>(id3::make(t).release())); id3::write(*p, true); *p = *o; return p; }
  case 4: { P p(new Tag(*o)); Tag &r = *p; *p = r; return p; }
  default: { P p = started<V>(2); P q = started<V>(1); *p = *q; *p = *o; return p; }
  }
}

template <int V> void c07_version()
{
  typedef typename T<V>::Tag Tag;
  typedef std::unique_ptr<Tag> P;
  auto ops = operations<V>();
  auto all = originals<V>();
  for (auto &m : all)
    for (int how = 0; how < 3; ++how) {                  // made, read, read unsynchronised
      auto make = [&]() {
        std::unique_ptr<id3v2_tag> b = how == 0 ? id3::make(m) : id3::read(id3::encode(m, how == 2));
        if (!b || !dynamic_cast<Tag*>(b.get())) throw std::runtime_error("no tag");
        return P(dynamic_cast<Tag*>(b.release()));
      };
      static const char *HOW[] = {"made ", "read ", "read unsynchronised "};
      for (int way = 0; way < 6; ++way) {
        // equal, whether the original was queried before or not; then either may go
        for (int q = 0; q < 2; ++q)
          if (mc::begin([&]() { return S(HOW[how]) + m.name() + " " + WAYS[way] + (q ? " queried" : ""); })) {
            P o = make();
            if (q) { id3::write(*o, false); o->size(true); }
            P c = copied<V>(o, way);
            mc::transition(2);
            S a = snapshot<V>(*o), b = snapshot<V>(*c);
            if (a != b) mc::fail("copy differs: " + differ(a, b));
            o.reset();
            b = snapshot<V>(*c);
            if (a != b) mc::fail("copy changed when the original went away: " + differ(a, b));
            mc::trace(); mc::state(m.name()); mc::outcome(WAYS[way]);
          }
        bool large = m.frames.size() > 2 || m.frames.empty() || (m.frames.size() == 2 && m.ext <= 0 && !m.pad && how == 0);
        if (!large) continue;
        if (m.frames.size() > 2 && (mc::quick ? m.exp || m.ext == 0 || m.ext == 3 || m.ext == 4 || m.ext == 5 || m.ext == 7 || m.footer : false)) continue;
        bool deep = !mc::quick && m.frames.size() > 2 && m.ext <= 0 && !m.exp && !m.footer && !m.pad;
        for (int side = 0; side < 2; ++side)
          for (auto &x : ops)
            for (std::size_t y = 0; y < (deep ? ops.size() + 1 : 1); ++y) {
              if (y && !(x.core && ops[y - 1].core)) continue;
              if (m.frames.size() == 2 && mc::quick && !x.core) continue;
              if (!mc::begin([&]() { return S(HOW[how]) + m.name() + " " + WAYS[way] + (side ? " change copy: " : " change original: ") + x.name + (y ? " " + ops[y - 1].name : S()); })) continue;
              P o = make();
              P c = copied<V>(o, way);
              Tag &changed = side ? *c : *o, &other = side ? *o : *c;
              Model md;
              for (auto &f : m.frames) md.push_back(item(V, f));
              S err;
              S before = snapshot<V>(other);
              bool done = step<V>(x, changed, md, err);
              if (done && y && err.empty()) done = step<V>(ops[y - 1], changed, md, err);
              if (!done) { mc::outcome("not applicable"); continue; }
              if (err.empty()) err = answers_wrong<V>(changed, md);
              if (!err.empty()) { mc::fail("the one changed: " + err); continue; }
              S after = snapshot<V>(other);
              if (before != after) mc::fail("a change to one shows in the other: " + differ(before, after));
              // both can go in either order
              if (side) { c.reset(); after = snapshot<V>(*o); } else { o.reset(); after = snapshot<V>(*c); }
              if (before != after) mc::fail("changed when the other went away: " + differ(before, after));
              mc::trace(); mc::outcome("changed");
            }
      }
    }
  // frames by themselves
  auto ch = changes<V>();
  std::vector<Frame> fs = mutable_frames<V>();
  for (auto &k : id3::kinds(V)) {
    fs.push_back(k);
    if (V == 2) continue;
    Frame f = k; f.gid = 0x41; f.fap = true; fs.push_back(f);
    f.cmp = true; f.dli = V == 4; fs.push_back(f);
    if (V == 4) { f = k; f.dli = true; fs.push_back(f); f = k; f.uns = true; fs.push_back(f); }
  }
  for (auto &f : fs)
    for (int q = 0; q < 2; ++q)
      for (std::size_t c = 0; c <= ch.size(); ++c)
        for (int side = 0; side < 2; ++side) {
          if (!mc::begin([&]() { return "frame 2." + std::to_string(V) + " " + f.name() + (q ? " queried" : "") + (c ? (side ? " change copy: " : " change original: ") + ch[c-1].name : S(side ? " drop copy" : " drop original")); })) continue;
          auto a = T<V>::make(f);
          if (q) { wr(*a, true); wr(*a, false); }
          std::unique_ptr<typename T<V>::Frm> b(dynamic_cast<typename T<V>::Frm*>(a->clone()));
          if (!b) { mc::fail("clone is of another kind"); continue; }
          auto snap = [](const id3v2_frame &x) { return id3::frame_id(x) + id3::flags(x) + id3::fields(x) + S(typeid(x).name()) + std::to_string(x.experimental()) + std::to_string(x.size()) + " " + std::to_string(x.serialized_size(false)) + " " + std::to_string(x.serialized_size(true)) + " " +
              std::to_string(x.needs_unsynchronisation()) + mc::hex(wr(x, false)) + " " + mc::hex(wr(x, true)); };
          S s = snap(*a);
          if (snap(*b) != s) { mc::fail("clone differs: " + differ(s, snap(*b))); continue; }
          auto &x = side ? b : a; auto &y = side ? a : b;
          mc::transition();
          if (c) {
            Frame g = f;
            if (!ch[c-1].run(*x, g)) { mc::outcome("not applicable"); continue; }
            S e = frame_wrong<V>(*x, g);
            if (!e.empty()) mc::fail("the one changed: " + e);
          } else x.reset();
          if (snap(*y) != s) mc::fail("a change to one shows in the other: " + differ(s, snap(*y)));
          mc::trace(); mc::outcome("frame");
        }
}

static void body()
{
  if (mc::mode == "c05") { c05_texts<2>(); c05_texts<3>(); c05_texts<4>(); c05_version<2>(); c05_version<3>(); c05_version<4>(); }
  if (mc::mode == "c06") { c06_frames<2>(); c06_frames<3>(); c06_frames<4>(); c06_tags<2>(); c06_tags<3>(); c06_tags<4>(); }
  if (mc::mode == "c07") { c07_version<2>(); c07_version<3>(); c07_version<4>(); }
}
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
