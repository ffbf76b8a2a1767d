// C09: a rewrite by copying is run under a tracer which, at each system call the
// rewrite makes, kills it, cuts a transfer short, or makes the call fail.
#include "fsx.hh"
#include "id3.hh"
#include "layout.hh"
#include "trace.hh"
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>

using namespace id3;
using namespace scribbu;
typedef std::vector<std::unique_ptr<id3v2_tag>> Real;


struct Scenario { std::string name; bytes old; std::vector<Tag> tags; bool bak; bool xdev; bool maybe; bool fresh = false; int v1 = 0; };
// an ID3v1 tag to be written: 1 standard, 2 enhanced
static id3v1_tag v1tag(int kind)
{
  id3v1_tag t(true, kind == 2);
  t.set_title(std::string("new title"), encoding::ASCII, encoding::ASCII);
  t.set_track_number(3);
  if (kind == 2) t.set_enh_genre(std::string("g"), encoding::ASCII, encoding::ASCII);
  return t;
}
static std::string dir, file;

static Result run(const Scenario &s, const std::vector<Fault> &faults)
{
  fsx::wipe(dir);
  if (!s.fresh) fsx::put(file, s.old);
  fsx::put(dir + "/other", "someone else's");
  return traced([&] {
    auto real = std::make_shared<Real>();
    for (auto &t : s.tags) real->push_back(make(t));
    id3v1_tag v1 = v1tag(s.v1);
    return Job([=] {
      if (s.v1) replace_id3v1(file, v1);
      else if (s.maybe) maybe_emplace_tagset(file, real->begin(), real->end(), apply_unsync::never, emplace_strategy::only_with_full_padding, padding_strategy::adjust_padding_evenly, s.bak);
      else replace_tagset_copy(file, real->begin(), real->end(), apply_unsync::never, s.bak);
    });
  }, faults, s.xdev);
}

static void judge(const Scenario &s, const Result &R)
{
  auto now = fsx::list(dir);
  bytes want;
  for (auto &t : s.tags) want += write(*make(t), false);
  std::size_t cut = 0;
  while (cut + 10 <= s.old.size() && s.old.compare(cut, 3, "ID3") == 0) cut += 10 + unsyncsafe(s.old.substr(cut + 6, 4));
  want += s.old.substr(cut);
  bytes keep;
  if (s.v1) {
    keep = s.old.substr(0, s.old.size() - v1len(s.old));
    std::ostringstream os;
    v1tag(s.v1).write(os);
    want = keep + os.str();
  }
  std::string base = file.substr(dir.size() + 1);
  bool is = now.count(base);
  bool old_in_place = is && now[base] == s.old, new_in_place = is && now[base] == want, backup = false;
  std::string strays;
  for (auto &f : now) {
    if (f.first == base || f.first == "other") continue;
    bool b = f.first.compare(0, base.size() + 1, base + ".") == 0;
    if (b && f.second == s.old) { backup = true; if (s.bak || (R.how == Result::threw && R.hit.size() > 1)) continue; }
    if (!R.stuck.count(dir + "/" + f.first)) strays += " " + f.first;
  }
  for (auto &p : R.created) if (p.compare(0, dir.size(), dir) && !access(p.c_str(), F_OK)) {
    if (!R.stuck.count(p)) strays += " " + p;
    if (p.compare(0, 5, "/tmp/") == 0) unlink(p.c_str());
  }
  MC_CHECK(now.count("other") && now["other"] == "someone else's", "another file was altered");
  std::string left = is ? "the file has " + std::to_string(now[base].size()) + " bytes" : std::string("the file is gone");
  for (auto &f : now) if (f.first != base && f.first != "other") left += ", " + f.first + " has " + std::to_string(f.second.size());
  if (s.v1 || s.fresh) {
    // written where it is: what precedes it must stay
    if (s.v1) MC_CHECK(is && now[base].compare(0, keep.size(), keep) == 0, "what precedes the ID3v1 tag is lost: " << left);
    if (R.how == Result::done) MC_CHECK(new_in_place, "success is reported, but the new contents (" << want.size() << " bytes) are not in place: " << left);
    MC_CHECK(strays.empty(), "a stray" << strays);
  } else switch (R.how) {
  case Result::died:      // (the standard library may terminate the process)
  case Result::killed:
    MC_CHECK(old_in_place || new_in_place || backup, "neither the old nor the new contents (" << s.old.size() << ", " << want.size() << " bytes) are there: " << left);
    break;
  case Result::threw:
    MC_CHECK(old_in_place || backup, "failed (" << R.what << "), and the old contents (" << s.old.size() << " bytes) are lost: " << left);
    if (R.stuck.empty() || !backup) MC_CHECK(strays.empty(), "failed (" << R.what << "), leaving" << strays);
    break;
  case Result::done:
    MC_CHECK(new_in_place, "success is reported, but the new contents (" << want.size() << " bytes) are not in place: " << left);
    if (s.bak) MC_CHECK(backup, "success is reported, without the backup asked for: " << left);
    MC_CHECK(strays.empty(), "succeeded, leaving" << strays);
    break;
  }
  static const char *H[] = {"succeeded", "failed", "killed", "died"};
  std::string state = std::string(H[R.how]) + (is ? old_in_place ? " old" : new_in_place ? " new" : " partial" : " gone") + (backup ? " backup" : "");
  mc::outcome(state);
  std::string key = s.name + state;
  for (auto &f : now) key += "|" + f.first + std::to_string(f.second.size());
  mc::state(key);
}

static std::vector<Fault> faults(const Result &r, std::size_t from, bool v1)
{
  std::vector<Fault> F;
  for (std::size_t i = from; i < r.calls.size(); ++i) {
    int k = find(r.calls[i].nr);
    F.push_back({int(i), 0, 0});
    if (SYS[k].len >= 0 && r.calls[i].len > 1) { if (r.calls[i].nr != SYS_read) F.push_back({int(i), 1, 0}); F.push_back({int(i), 2, 0}); }
    // (where an ID3v1 tag is looked for, failing to seek is taken for the file's being too short)
    if (v1 && r.calls[i].nr == SYS_lseek) continue;
    for (int e : SYS[k].errs) F.push_back({int(i), 3, e});
  }
  return F;
}

static void body()
{
  dir = fsx::fresh("d");
  file = dir + "/a.mp3";
  bytes big(300000, 0);
  for (std::size_t i = 0; i < big.size(); ++i) big[i] = char(i * 31 >> 3);
  std::vector<std::pair<std::string, bytes>> files;
  bytes t3 = encode(tag(3, 20, {mk("TIT2", txt("old title"))})), t2 = encode(tag(2, 0, {mk("TT2", txt("x"))}));
  files = {{"tag+audio", t3 + "audio"}, {"audio", "just audio"}, {"tag", t3}, {"tags+big", t3 + t2 + big}, {"empty", ""}};
  std::vector<std::pair<std::string, std::vector<Tag>>> sets = {
    {"small", {tag(3, 0, {mk("TIT2", txt("n"))})}},
    {"none", {}},
    {"large", {tag(4, 10, {mk("APIC", bytes(40000, 'p'))}), tag(3, 0, {mk("TPE1", txt("z"))})}},
    {"larger", {tag(3, 0, {mk("APIC", bytes(7, 'p')), mk("TIT2", bytes(1, 0) + bytes(8180, 't')), mk("TPE1", bytes(1, 0) + bytes(8190, 'u'))})}},
  };
  std::vector<Scenario> S;
  for (auto &f : files) for (auto &t : sets) for (int b = 0; b < 2; ++b) for (int x = 0; x < 2; ++x) {
    if (mc::quick && f.first == "tag" && t.first != "large") continue;
    if (mc::quick && t.first == "larger" && f.first != "tag+audio") continue;
    S.push_back({f.first + " <- " + t.first + (b ? " backup" : "") + (x ? " exdev" : ""), f.second, t.second, bool(b), bool(x), false});
  }
  S.push_back({"tag+audio <- large backup maybe", files[0].second, sets[2].second, true, false, true});
  S.push_back({"tag+audio <- large maybe", files[0].second, sets[2].second, false, false, true});
  for (auto &t : sets) S.push_back({"new file <- " + t.first, "", t.second, true, false, true, true});
  for (auto &f : files) for (auto &v : v1s()) for (int k = 1; k <= 2; ++k)
    S.push_back({f.first + "+" + v.first + " <- " + (k == 1 ? "v1" : "enhanced v1"), f.second + v.second, {}, false, false, false, false, k});
  for (auto &s : S) {
    Result dry = run(s, {});
    if (mc::begin(s.name)) { judge(s, dry); mc::trace(); std::string c; for (auto &x : dry.calls) c += " " + x.name; mc::sample(s.name + ":" + c); }
    else for (auto &p : dry.created) if (p.compare(0, 5, "/tmp/") == 0) unlink(p.c_str());
    for (auto &f : faults(dry, 0, s.v1)) {
      bool again = f.kind >= 2 && (!mc::quick || (s.xdev && s.old.size() < 100 && f.kind == 3 && s.tags.size() == 1 && s.tags[0].frames.size() == 1));
      Result one;
      bool have = false;
      if (mc::begin([&] { return s.name + "; " + f.name() + " (" + dry.calls[f.at].name + ")"; })) {
        one = run(s, {f}); have = true;
        if (one.hit.empty()) { mc::fail("the call was not reached again"); continue; }
        judge(s, one);
        mc::trace();
      }
      if (!again) continue;
      // the standard library's fallback does not report all of its own failures
      if (f.kind == 3 && f.err == EINVAL) continue;
      if (!mc::quick && (s.old.size() > 1000 || s.tags.size() == 2) && f.kind == 2) continue;
      // a second fault, wherever the first leads
      if (!have) one = run(s, {f});
      for (auto &p : one.created) if (p.compare(0, 5, "/tmp/") == 0) unlink(p.c_str());
      for (auto &g : faults(one, f.at + 1, s.v1)) {
        if (!mc::begin([&] { return s.name + "; " + f.name() + " (" + dry.calls[f.at].name + "); " + g.name() + " (" + one.calls[g.at].name + ")"; })) continue;
        Result two = run(s, {f, g});
        judge(s, two);
        mc::trace();
      }
    }
  }
  fsx::wipe(dir);
}
int main(int argc, char **argv) { return mc::run(argc, argv, body); }
