// C01: every bounded history of edits of a file, each compared byte for byte
// with the parts the file is made of.  C10: backups.  C03: filling a space.
#include "fsx.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>
#include <cerrno>
#include <sys/syscall.h>

// The temporary directory may be on another filesystem
static bool exdev = false;
extern "C" int rename(const char *a, const char *b)
{
  if (exdev) { errno = EXDEV; return -1; }
  return syscall(SYS_rename, a, b);
}

// --- the model: a file is three parts ------------------------------------------
struct Model { bool exists; bytes tags, audio, v1; bytes all() const { return tags + audio + v1; } };

static std::string dir, file;

static const char *UN[] = {"always", "never", "needed"};
static apply_unsync UV[] = {apply_unsync::always, apply_unsync::never, apply_unsync::as_needed};

struct Op {
  int kind;             // 0 copy, 1 emplace, 2 maybe, 3 replace v1, 4 remove v1
  int un = 1; bool bak = false, xd = false; int strat = 0; int set = 0;
  std::string label(const std::vector<Set> &S) const
  {
    static const char *K[] = {"copy", "emplace", "maybe", "v1", "rmv1"};
    std::string s = K[kind];
    if (kind < 3) { s += std::string(" ") + UN[un]; if (bak) s += " backup"; if (xd) s += " exdev"; if (kind == 2) s += strat ? " reduce" : " full"; s += " " + name(S[set]); }
    if (kind == 3) s += " " + std::to_string(set);
    return s;
  }
};

static std::unique_ptr<id3v1_tag> v1tag(int which)
{
  auto v = v1s();
  std::unique_ptr<id3v1_tag> p;
  if (which < 3) {
    std::istringstream is(v[which + 1].second);
    p.reset(new id3v1_tag(is, which == 2));
  } else p.reset(new id3v1_tag(which & 1, which > 4));
  return p;
}

static std::string text(const Real &r)
{
  std::string s;
  for (auto &t : r) {       // all but the padding
    std::size_t p = t->padding();
    t->padding(0);
    s += describe(*t) + "\n";
    t->padding(p);
  }
  return s;
}

// Perform `op' for real and in the model; false when it went wrong
static bool step(Model &m, const Op &op, const std::vector<Set> &S)
{
  bytes before = m.all();
  auto ls = fsx::list(dir);
  bool threw = false, refusal = false;
  std::string what;
  Real real;
  std::string desc;
  std::vector<std::size_t> pads;
  if (op.kind < 3) { real = build(S[op.set]); desc = text(real); for (auto &t : real) pads.push_back(t->padding()); }
  exdev = op.xd;
  try {
    switch (op.kind) {
    case 0: replace_tagset_copy(file, real.begin(), real.end(), UV[op.un], op.bak); break;
    case 1: replace_tagset_emplace(file, real.begin(), real.end(), UV[op.un]); break;
    case 2: maybe_emplace_tagset(file, real.begin(), real.end(), UV[op.un],
                                 op.strat ? emplace_strategy::reduce_padding_evenly : emplace_strategy::only_with_full_padding,
                                 padding_strategy::adjust_padding_evenly, op.bak); break;
    case 3: replace_id3v1(file, *v1tag(op.set)); break;
    case 4: maybe_remove_id3v1(file); break;
    }
  } catch (const invalid_tagset_request &e) { threw = refusal = true; what = e.what(); }
  catch (const std::exception &e) { threw = true; what = e.what(); }
  exdev = false;
  mc::transition();
  auto now = fsx::list(dir);
  std::string base = file.substr(dir.size() + 1);
  bool is = now.count(base);
  bytes after = is ? now[base] : "";
  // everything else in the directory
  std::vector<std::string> added;
  for (auto &f : ls) if (f.first != base) {
    if (!now.count(f.first)) { mc::fail("removed " + f.first); return false; }
    if (now[f.first] != f.second) { mc::fail("altered " + f.first); return false; }
  }
  for (auto &f : now) if (f.first != base && !ls.count(f.first)) added.push_back(f.first);
  if (threw) {
    if (is != m.exists || after != before) { mc::fail("refused (" + what + "), yet the file was altered: " + brief(after) + "\nwas " + brief(before)); return false; }
    if (!added.empty()) { mc::fail("refused (" + what + "), leaving " + added[0]); return false; }
    if (op.kind == 1) {
      bytes want;
      for (auto &t : real) want += write(*t, op.un == 0 || (op.un == 2 && t->needs_unsynchronisation()));
      if (want.size() == m.tags.size() && !before.empty()) { mc::fail("refused (" + what + ") although the sizes are equal"); return false; }
      if (!refusal && want.size() != m.tags.size()) { mc::fail("failed oddly: " + what); return false; }
      mc::outcome("refused");
      return true;
    }
    if (!m.exists && op.kind != 2) return true;
    mc::fail("failed: " + what);
    return false;
  }
  Model n = m;
  if (op.kind < 3) {
    n.exists = true;
    n.tags.clear();
    for (auto &t : real) n.tags += write(*t, op.un == 0 || (op.un == 2 && t->needs_unsynchronisation()));
    if (text(real) != desc) { mc::fail("the tags to be written were altered: " + text(real) + "\nwere " + desc); return false; }
    for (std::size_t i = 0; i < pads.size(); ++i) {
      if (op.kind != 2 && real[i]->padding() != pads[i]) { mc::fail("padding altered"); return false; }
      if (op.kind == 2 && !op.strat && real[i]->padding() < pads[i]) { mc::fail("padding reduced from " + std::to_string(pads[i]) + " to " + std::to_string(real[i]->padding())); return false; }
    }
    if (op.kind == 1 && n.tags.size() != m.tags.size()) { mc::fail("emplaced " + std::to_string(n.tags.size()) + " bytes over " + std::to_string(m.tags.size())); return false; }
  } else if (op.kind == 3) {
    std::ostringstream os;
    v1tag(op.set)->write(os);
    n.v1 = os.str(); n.exists = true;
  } else n.v1.clear();
  if (is != n.exists) { mc::fail(is ? "the file was created" : "the file is gone"); return false; }
  if (after != n.all()) {
    std::size_t i = 0;
    bytes w = n.all();
    while (i < w.size() && i < after.size() && w[i] == after[i]) ++i;
    mc::fail("wrong from byte " + std::to_string(i) + " of " + std::to_string(w.size()) + " (got " + std::to_string(after.size()) + "): " +
             brief(after.substr(i > 20 ? i - 20 : 0), 100) + "\nnot " + brief(w.substr(i > 20 ? i - 20 : 0), 100));
    return false;
  }
  // a backup when asked for, unless written in place; otherwise nothing
  bool copied = op.kind == 0 || (op.kind == 2 && !added.empty());
  if (!copied || !op.bak || !m.exists) {
    if (!added.empty()) { mc::fail("left " + added[0]); return false; }
    if (op.kind == 2 && op.bak && m.exists && after.size() != before.size()) { mc::fail("copied without the backup asked for"); return false; }
  } else {
    if (added.size() != 1) { mc::fail(std::to_string(added.size()) + " files added"); return false; }
    if (now[added[0]] != before) { mc::fail("the backup " + added[0] + " is not the file as it was"); return false; }
  }
  mc::outcome(op.kind == 2 ? (after.size() == before.size() && m.exists ? "same length" : "copied") : "done");
  m = n;
  return true;
}

static void run(const Model &m0, const std::string &label, const std::vector<Op> &ops, const std::vector<Set> &S)
{
  if (!mc::begin([&] { std::string s = label; for (auto &o : ops) s += "; " + o.label(S); return s; })) return;
  Model m = m0;
  fsx::wipe(dir);
  if (m.exists) fsx::put(file, m.all());
  mc::state("0" + m.all());
  for (auto &o : ops) {
    // where an ID3v1 tag is, is what the bytes say
    bytes b = m.all();
    std::size_t v = v1len(b);
    if (v > b.size() - m.tags.size() || (m.tags.size() && v != m.v1.size() && v > m.audio.size() + m.v1.size())) return;
    bytes rest = m.audio + m.v1;
    m.v1 = rest.substr(rest.size() - v); m.audio = rest.substr(0, rest.size() - v);
    if (!step(m, o, S)) return;
    mc::state(std::to_string(m.exists) + m.all());
  }
  mc::trace();
  if (ops.size() > 1) mc::sample(label);
}

static std::vector<Op> tag_ops(int set, bool all)
{
  std::vector<Op> r;
  for (int un = 0; un < 3; ++un) {
    for (int b = 0; b < 2; ++b) {
      for (int x = 0; x < 2; ++x) { if (!all && x != (un == 0)) continue; Op o; o.kind = 0; o.un = un; o.bak = b; o.xd = x; o.set = set; r.push_back(o); }
      for (int s = 0; s < 2; ++s) { Op o; o.kind = 2; o.un = un; o.bak = b; o.strat = s; o.set = set; r.push_back(o); }
    }
    Op o; o.kind = 1; o.un = un; o.set = set; r.push_back(o);
  }
  return r;
}

static void c01()
{
  dir = fsx::fresh("d");
  file = dir + "/a.mp3";
  auto P = pool();
  auto A = audios();
  auto V = v1s();
  std::vector<Tag> pt;
  for (auto &x : P) pt.push_back(x.second);
  auto model = [&](const Set &s, int a, int v) { return Model{true, enc(s), A[a].second, V[v].second}; };
  auto lab = [&](const Set &s, int a, int v) { return name(s) + "+" + A[a].first + "+" + V[v].first; };

  // 1. every pair of tag sets
  auto S2 = sets(pt, 2);
  auto SS = mc::quick ? sets(std::vector<Tag>(pt.begin(), pt.begin() + 7), 2) : S2;
  for (auto &s : SS)
    for (std::size_t k = 0; k < S2.size(); ++k)
      for (auto &o : tag_ops(k, !mc::quick)) { if (mc::quick && S2[k].size() == 2 && o.un == 2 && o.kind != 2) continue; run(model(s, 0, 2), lab(s, 0, 2), {o}, S2); }
  // 2. the same tags but for the padding, so that the sizes are near each other
  for (auto &s : S2) {
    if (s.empty()) continue;
    std::vector<Set> T;
    for (int d0 = -5; d0 <= 5; ++d0) for (int d1 = s.size() > 1 ? -5 : 0; d1 <= (s.size() > 1 ? 5 : 0); ++d1) {
      Set t = s;
      if (int(t[0].pad) + d0 < 0 || (t[0].footer && d0)) continue;
      t[0].pad += d0;
      if (s.size() > 1) { if (int(t[1].pad) + d1 < 0 || (t[1].footer && d1)) continue; t[1].pad += d1; }
      T.push_back(t);
    }
    for (std::size_t k = 0; k < T.size(); ++k)
      for (auto &o : tag_ops(k, false)) { if (o.kind == 0 && (mc::quick || o.xd)) continue; if (mc::quick && o.bak && o.un != 1) continue; run(model(s, 0, 0), lab(s, 0, 0), {o}, T); }
  }
  // 3. every ending and every kind of audio, every ID3v1 operation
  std::vector<Set> T{{}, {pt[0]}, {pt[1]}, {pt[2], pt[3]}, {pt[5]}};
  for (std::size_t i = 0; i < T.size(); ++i)
    for (std::size_t a = 0; a < A.size(); ++a)
      for (std::size_t v = 0; v < V.size(); ++v) {
        if (v && (A[a].first == "ID3" || A[a].first == "ID3short")) continue;    // they'd make a header
        for (std::size_t k = 0; k < T.size(); ++k)
          for (auto &o : tag_ops(k, true)) run(model(T[i], a, v), lab(T[i], a, v), {o}, T);
        for (int w = 0; w < 7; ++w) { Op o; o.kind = 3; o.set = w; run(model(T[i], a, v), lab(T[i], a, v), {o}, T); }
        Op o; o.kind = 4;
        run(model(T[i], a, v), lab(T[i], a, v), {o}, T);
      }
  // 3b. every short length, and lengths about those of buffers, blocks and pages:
  // of what follows the tags, and of the whole file
  {
    std::vector<std::size_t> L;
    for (std::size_t n = 0; n <= (mc::quick ? 300u : 1100u); ++n) L.push_back(n);
    for (int e = 9; e <= (mc::quick ? 17 : 21); ++e)
      for (std::size_t k : {2, 3}) {
        std::size_t b = (std::size_t(1) << (e - 1)) * k;
        for (int d = -1; d <= 1; ++d) L.push_back(b + d);
      }
    bytes noise;
    unsigned x = 12345;
    while (noise.size() < L.back() + 1) { x = x * 1664525 + 1013904223; noise += char((x >> 24) | 1); }
    for (std::size_t l : L)
      for (int i : {0, 1, 3})
        for (int v : {0, 1, 3})
          for (int whole = 0; whole < 2; ++whole) {
            if (whole && l < 400) continue;
            std::size_t less = V[v].second.size() + (whole ? enc(T[i]).size() : 0);
            if (l < less) continue;
            Model m{true, enc(T[i]), noise.substr(0, l - less), V[v].second};
            std::string n = name(T[i]) + "+" + std::to_string(m.audio.size()) + "+" + V[v].first;
            for (int k : {0, 2}) {
              for (int kind : {0, 2}) { Op o; o.kind = kind; o.bak = k; o.strat = 1; o.set = k; o.xd = kind == 0 && k; run(m, n, {o}, T); }
            }
            if (i) { Op o; o.kind = 1; o.set = i; run(m, n, {o}, T); }
            for (int w : {0, 2}) { Op o; o.kind = 3; o.set = w; run(m, n, {o}, T); }
            Op o; o.kind = 4;
            run(m, n, {o}, T);
          }
  }
  // 4. files that end before their last tag does: refused, or only the tag is replaced
  for (std::size_t i = 1; i < S2.size(); ++i) {
    bytes whole = enc(S2[i]);
    std::size_t last = encode(S2[i].back()).size();
    for (std::size_t cut = 1; cut + 10 <= last; ++cut)
      for (std::size_t k = 0; k < T.size(); ++k)
        for (auto &o : tag_ops(k, false)) {
          if (mc::quick && (o.xd || o.un)) continue;
          if (!mc::begin([&] { return name(S2[i]) + "-" + std::to_string(cut) + "; " + o.label(T); })) continue;
          bytes old = whole.substr(0, whole.size() - cut), want;
          fsx::wipe(dir);
          fsx::put(file, old);
          Real real = build(T[k]);
          bool threw = false;
          try {
            if (o.kind == 0) replace_tagset_copy(file, real.begin(), real.end(), UV[o.un], o.bak);
            else if (o.kind == 1) replace_tagset_emplace(file, real.begin(), real.end(), UV[o.un]);
            else maybe_emplace_tagset(file, real.begin(), real.end(), UV[o.un], o.strat ? emplace_strategy::reduce_padding_evenly : emplace_strategy::only_with_full_padding,
                                      padding_strategy::adjust_padding_evenly, o.bak);
          } catch (const std::exception &e) { threw = true; }
          for (auto &t : real) want += write(*t, o.un == 0 || (o.un == 2 && t->needs_unsynchronisation()));
          bytes now = fsx::get(file);
          if (threw) MC_CHECK(now == old, "refused, yet the file was altered: " << brief(now) << "\nwas " << brief(old));
          else MC_CHECK(now == want, "the file is " << brief(now) << "\nrather than " << brief(want));
          mc::transition(); mc::trace(); mc::state(now);
          mc::outcome(threw ? "truncated: refused" : "truncated: replaced");
        }
  }
  // 5. histories
  std::vector<Set> H{{}, {pt[0]}, {pt[1], pt[2]}, {pt[5]}, {tag(3, 60, {mk("TIT2", txt("h"))})}};
  std::vector<Op> ops;
  for (std::size_t k = 0; k < H.size(); ++k)
    for (auto &o : tag_ops(k, false)) { if (o.un == 2 && o.kind != 2) continue; if (o.kind == 2 && o.un == 0) continue; ops.push_back(o); }
  for (int w = 0; w < 4; ++w) { Op o; o.kind = 3; o.set = w; ops.push_back(o); }
  Op rm; rm.kind = 4; ops.push_back(rm);
  int depth = mc::quick ? 2 : 3;
  std::vector<std::pair<Model, std::string>> starts;
  for (int i : {0, 1, 2}) for (int a : {0, 1, 10}) starts.push_back({model(H[i], a, i), lab(H[i], a, i)});
  starts.push_back({Model{false, "", "", ""}, "missing"});
  for (auto &s0 : starts) {
    std::function<void(std::vector<Op>&)> go = [&](std::vector<Op> &o) {
      if (!o.empty()) run(s0.first, s0.second, o, H);
      if (int(o.size()) == depth) return;
      for (auto &x : ops) {
        if (o.size() == 2 && (x.bak || x.un == 0)) continue;
        o.push_back(x); go(o); o.pop_back();
      }
    };
    std::vector<Op> o;
    go(o);
  }
}

// --- C03: filling a space ----------------------------------------------------------

static void c03()
{
  dir = fsx::fresh("d");
  file = dir + "/a.mp3";
  std::vector<std::size_t> P = mc::quick ? std::vector<std::size_t>{0, 1, 2, 3, 5} : std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 7, 10, 100};
  int R = mc::quick ? 12 : 25;
  std::vector<Set> all;
  std::function<void(Set&)> go = [&](Set &s) {
    all.push_back(s);
    if (s.size() == 3) return;
    for (int ver = 2; ver <= 4; ++ver)
      for (auto p : P) {
        if (s.size() > 1 && ver == 2) continue;
        s.push_back(tag(ver, p, {mk(ver == 2 ? "TT2" : "TIT2", txt("x"))})); go(s); s.pop_back();
      }
  };
  Set s0;
  go(s0);
  for (auto &s : all)
    for (int d = -R; d <= R; ++d) {
      std::string lab = name(s) + (d < 0 ? "" : "+") + std::to_string(d);
      if (!mc::begin(lab)) continue;
      Real r = build(s);
      bytes before;
      for (auto &t : r) before += write(*t, false);
      std::size_t total = 0, least = ~0ul;
      for (auto &t : s) { total += t.pad; least = std::min(least, t.pad); }
      if (int(before.size()) + d < 0) continue;
      bool refused = false;
      try { adjust_padding_to(r.begin(), r.end(), before.size() + d, before.size(), padding_strategy::adjust_padding_evenly); }
      catch (const invalid_tagset_request &) { refused = true; }
      mc::transition();
      mc::state(lab);
      bytes after;
      for (auto &t : r) after += write(*t, false);
      int n = s.size();
      std::string pads;
      for (auto &t : r) pads += " " + std::to_string(t->padding());
      if (refused) {
        MC_CHECK(after == before, "refused, yet padding was altered:" << pads);
        MC_CHECK(d != 0, "refused to do nothing");
        MC_CHECK(d <= 0 || !n, "refused to grow");
        // an even share (give or take what does not divide) is within every tag's means
        if (n) MC_CHECK(-d > int(least) * n - (n - 1), "refused to shrink by " << -d << " with at least " << least << " everywhere");
        mc::outcome("refused");
      } else {
        MC_CHECK(int(after.size()) == int(before.size()) + d, "fills " << after.size() << " bytes, not " << before.size() + d << ":" << pads);
        for (int i = 0; i < n; ++i) {
          int ch = int(r[i]->padding()) - int(s[i].pad);
          MC_CHECK(std::abs(ch * n - d) <= n * n, "padding of tag " << i << " changed by " << ch << " for a total of " << d << ":" << pads);
          MC_CHECK(d == 0 || (d > 0 ? ch >= 0 : ch <= 0), "padding of tag " << i << " changed by " << ch << " for a total of " << d);
          r[i]->padding(s[i].pad);
          MC_CHECK(describe(*r[i]) == describe(s[i]), "more than the padding changed: " << describe(*r[i]));
        }
        mc::outcome("filled");
      }
      mc::trace();
    }
  // and in a file: exactly when it fits
  std::size_t k = 0;
  for (auto &s : all) {
    if (s.size() > 2) continue;
    for (int d = -3; d <= 3; ++d)
      for (int u = 0; u < 3; ++u) {
        ++k;
        std::string lab = "file " + name(s) + (d < 0 ? "" : "+") + std::to_string(d) + " " + UN[u];
        if (!mc::begin(lab)) continue;
        Real r = build(s);
        bytes want;
        for (auto &t : r) want += write(*t, u == 0 || (u == 2 && t->needs_unsynchronisation()));
        // a tag of that length on disk
        if (int(want.size()) + d < 21) continue;
        bytes old = encode(tag(3, want.size() + d - 21, {mk("TIT2", bytes(1, 0))}));
        bytes audio = "audio data, of some length";
        fsx::wipe(dir);
        fsx::put(file, old + audio);
        bool refused = false;
        try { replace_tagset_emplace(file, r.begin(), r.end(), UV[u]); } catch (const invalid_tagset_request &) { refused = true; }
        mc::transition();
        bytes now = fsx::get(file);
        MC_CHECK(now.size() == old.size() + audio.size(), "the file's length went from " << old.size() + audio.size() << " to " << now.size());
        MC_CHECK(refused == (d != 0), (refused ? "refused" : "not refused") << " with " << want.size() << " bytes for " << old.size());
        MC_CHECK(now == (refused ? old : want) + audio, "the file is " << brief(now));
        mc::trace();
        mc::outcome(refused ? "in place: refused" : "in place: done");
      }
  }
  // left to itself: in place whenever the tags can be made to fit
  for (auto &s : all) {
    if (s.empty() || s.size() > 2) continue;
    int n = s.size();
    std::size_t total = 0, least = ~0ul;
    for (auto &t : s) { total += t.pad; least = std::min(least, t.pad); }
    for (int d = -int(total) - 2; d <= 4; ++d)
      for (int u = 0; u < 3; ++u)
        for (int strat = 0; strat < 2; ++strat) {
          if (!mc::begin([&] { return std::string("auto ") + name(s) + (d < 0 ? "" : "+") + std::to_string(d) + " " + UN[u] + (strat ? " reduce" : " full"); })) continue;
          Real r = build(s);
          bytes want;
          for (auto &t : r) want += write(*t, u == 0 || (u == 2 && t->needs_unsynchronisation()));
          int room = int(want.size()) + d;
          if (room < 21) continue;
          bytes old = encode(tag(3, room - 21, {mk("TIT2", bytes(1, 0))})), audio = "audio data, of some length";
          fsx::wipe(dir);
          fsx::put(file, old + audio);
          maybe_emplace_tagset(file, r.begin(), r.end(), UV[u], strat ? emplace_strategy::reduce_padding_evenly : emplace_strategy::only_with_full_padding, padding_strategy::adjust_padding_evenly, true);
          mc::transition();
          auto now = fsx::list(dir);
          bytes got = now["a.mp3"];
          bool inplace = got.size() == old.size() + audio.size() && now.size() == 1;
          bytes is;
          for (auto &t : r) is += write(*t, u == 0 || (u == 2 && t->needs_unsynchronisation()));
          MC_CHECK(got == is + audio, "the file is " << brief(got) << "\nrather than " << brief(is + audio));
          // an even share (give or take what does not divide) is within every tag's means
          bool fits = d >= 0 || (strat && -d <= int(least) * n - (n - 1)), cannot = d < 0 && (!strat || -d > int(total));
          MC_CHECK(!fits || inplace, "copied, though " << want.size() << " bytes (" << total << " of them padding) fit in " << old.size());
          MC_CHECK(!cannot || (!inplace && now.size() == 2 && now["a.mp3.1"] == old + audio), "not copied, though " << want.size() << " bytes (" << total << " of them padding) do not fit in " << old.size());
          mc::trace();
          mc::state(got);
          mc::outcome(inplace ? "left to itself: in place" : "left to itself: copied");
        }
  }
}

// --- C10 ------------------------------------------------------------------------------

static bool number(const std::string &s, long long &n, bool &canonical)
{
  if (s.empty() || s.find_first_not_of("0123456789") != s.npos) return false;
  canonical = s[0] != '0' && s.size() < 17;
  n = s.size() < 18 ? atoll(s.c_str()) : 0;
  return true;
}

static void c10()
{
  struct { const char *f; std::vector<const char*> others; } N[] = {
    {"a.mp3", {"a.mp3.1", "a.mp3.2", "a.mp3.3", "a.mp3.9", "a.mp3.10", "a.mp3.007", "a.mp3.0", "a.mp3.99999999999999999999999", "a.mp3.2147483647", "a.mp3.4294967296", "a.mp3.x", "a.mp3.1x",
               "a.mp3.", "a.mp3.-1", "a.mp3.4/", "b.mp3.5", "aa.mp3.4", "a.mp3.12.34", "a.mp35", "a.mp3.+6", "a.mp3. 7", "a.1", "A.mp3.8"}},
    {"a", {"a.1", "a.2", "a.10", "a.x", "b.3", "aa.4", "a.5.mp3", "a.1.1"}},
    {"a.1", {"a", "a.2", "a.1.1", "a.1.3", "a.10"}},
    {".a", {".a.1", ".a.2", "a.3", ".a.x"}},
    {"a b.c.mp3", {"a b.c.mp3.1", "a b.c.mp3.11", "a b.c.1", "a b.mp3.7"}},
    {"1", {"1.1", "1.2", "2", "11.3"}},
    {"a.", {"a..1", "a.1", "a..3", "a.5"}},
  };
  // how the file is named: directory to be in, prefix
  struct { const char *cwd, *pre; } W[] = {{"/", nullptr}, {"d", ""}, {"d", "./"}, {"", "d/"}, {"", "d//"}, {"d/sub", "../"}, {"", "./d/./"}, {"", "d/sub/../"}};
  std::string root = fsx::fresh("r");
  int maxsub = mc::quick ? 3 : 4;
  for (auto &n : N) {
    std::vector<std::vector<const char*>> subs{{}};
    std::vector<const char*> cur;
    std::function<void(std::size_t, int)> go = [&](std::size_t i, int left) {
      for (std::size_t j = i; j < n.others.size() && left; ++j) { cur.push_back(n.others[j]); subs.push_back(cur); go(j + 1, left - 1); cur.pop_back(); }
    };
    go(0, maxsub);
    for (auto &sub : subs)
      for (auto &w : W)
        for (int xd = 0; xd < 2; ++xd) {
          if (sub.size() > 2 && xd) continue;
          if (!mc::begin([&] { std::string s = std::string(w.pre ? w.cwd : "abs") + ":" + (w.pre ? w.pre : "") + n.f; if (xd) s += " exdev"; for (auto o : sub) s += std::string(" + ") + o; return s; })) continue;
          fsx::wipe(root);
          std::string d = root + "/d";
          mkdir(d.c_str(), 0755); mkdir((d + "/sub").c_str(), 0755);
          for (auto o : sub) {
            std::string p = d + "/" + o;
            if (p.back() == '/') mkdir(p.substr(0, p.size() - 1).c_str(), 0755);
            else fsx::put(p, std::string("contents of ") + o);
          }
          if (chdir((root + "/" + (w.pre ? w.cwd : "")).c_str())) abort();
          std::string pth = w.pre ? std::string(w.pre) + n.f : d + "/" + n.f;
          fsx::put(d + "/" + n.f, "version 0");
          auto expect = fsx::list(root);
          std::string base = std::string("d/") + n.f;
          int len = mc::quick ? 3 : 4;
          for (int i = 0; i < len; ++i) {
            Real r = build({tag(3, 0, {mk("TIT2", txt("v") + char('0' + i))})});
            bytes want = write(*r[0], false) + "version 0";
            exdev = xd;
            try {
              if (i & 1) maybe_emplace_tagset(pth, r.begin(), r.begin(), apply_unsync::never, emplace_strategy::reduce_padding_evenly, padding_strategy::adjust_padding_evenly, true);
              else replace_tagset_copy(pth, r.begin(), r.end(), apply_unsync::never, true);
            } catch (const std::exception &e) { exdev = false; mc::fail(std::string("edit ") + std::to_string(i) + " failed: " + e.what()); break; }
            exdev = false;
            if (i & 1) want = "version 0";
            mc::transition();
            auto now = fsx::list(root);
            std::vector<std::string> added;
            bool ok = true;
            for (auto &f : expect) if (f.first != base && (!now.count(f.first) || now[f.first] != f.second)) { mc::fail("edit " + std::to_string(i) + ": " + f.first + (now.count(f.first) ? " was overwritten" : " is gone")); ok = false; }
            for (auto &f : now) if (!expect.count(f.first)) added.push_back(f.first);
            if (!ok) break;
            if (added.size() != 1) { mc::fail("edit " + std::to_string(i) + " added " + std::to_string(added.size()) + " files"); break; }
            std::string b = added[0];
            if (now[b] != expect[base]) { mc::fail("backup " + b + " is not the previous version"); break; }
            if (now[base] != want) { mc::fail("the file is " + brief(now[base])); break; }
            // the next unused number
            long long top = 0, any = 0, k = 0; bool canon, huge = false;
            for (auto &f : expect)
              if (f.first.compare(0, base.size() + 1, base + ".") == 0 && number(f.first.substr(base.size() + 1), k, canon)) {
                if (f.first.size() - base.size() - 1 >= 17) huge = true;
                any = std::max(any, k); if (canon) top = std::max(top, k);
              }
            if (b.compare(0, base.size() + 1, base + ".") || !number(b.substr(base.size() + 1), k, canon) || !canon) { if (!huge) { mc::fail("backed up as " + b); break; } }
            else if (k != top + 1 && k != any + 1 && !huge) { mc::fail("backed up as " + b + ", not the next number"); break; }
            expect = now;
            std::string key = base;
            for (auto &f : now) key += "|" + f.first;
            mc::state(key);
          }
          mc::trace();
          if (chdir(mc::scratch.c_str())) abort();
          mc::outcome(std::to_string(sub.size()) + " resembling names");
          if (sub.size() == 2) mc::sample(pth + " + " + sub[0] + " + " + sub[1]);
        }
  }
}

static void body() { if (mc::mode == "c01") c01(); else if (mc::mode == "c03") c03(); else c10(); }
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
