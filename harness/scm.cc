// C21: the Scheme module. Files of every bounded shape are read by Scheme
// programs, tags of every bounded shape are written by them, files are edited by
// every bounded sequence of edits, and each of the calls is made with every
// bounded kind of argument: what is read must be what the file says, what is
// written what the program asked for. All again with a garbage collection at
// every point at which one could occur.
#include "cli.hh"
#include "layout.hh"
#include "mc.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/scheme.hh>
#include <libguile.h>
#include <gc/gc.h>
#include <clocale>
#include <dirent.h>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <map>
#include <set>
#include <tuple>
#include <unistd.h>
#include <sys/stat.h>

namespace fs = std::filesystem;
using std::string;
using std::vector;

// --- garbage collection points -------------------------------------------------
// Calls the library makes into Guile are points at which Guile may collect (they
// allocate). The linker routes them here.
static long gc_calls = 0, gc_at = -1;    // -1: never; -2: at every 7th; n: at the nth
static bool gc_in = false;

// what was freed is used for something else
static void reuse()
{
  static unsigned char fill = 0;
  ++fill;
  for (std::size_t s = 16; s <= 256; s += 16) {
    std::size_t was = GC_get_heap_size();
    for (int i = 0; i < 20000 && GC_get_heap_size() == was; ++i) {
      std::uintptr_t *p = (std::uintptr_t*)GC_malloc(s - 8);
      for (std::size_t j = 0; j < (s - 8) / 8; ++j) p[j] = 0x5a5a5a5a5a5a5a02ull;
      p = (std::uintptr_t*)GC_malloc_atomic(s - 8);
      memset(p, 'Z', s - 8);
    }
  }
}
static void gc_point()
{
  if (gc_in || gc_at == -1) { if (!gc_in) ++gc_calls; return; }
  long k = gc_calls++;
  if (k == gc_at) { gc_in = true; GC_gcollect(); reuse(); gc_in = false; }
}

#define W1(f, T, A) extern "C" T __real_##f(A); extern "C" T __wrap_##f(A a) { gc_point(); return __real_##f(a); }
#define W2(f, T, A, B) extern "C" T __real_##f(A, B); extern "C" T __wrap_##f(A a, B b) { gc_point(); return __real_##f(a, b); }
#define W3(f, T, A, B, C) extern "C" T __real_##f(A, B, C); extern "C" T __wrap_##f(A a, B b, C c) { gc_point(); return __real_##f(a, b, c); }
#define W4(f, T, A, B, C, D) extern "C" T __real_##f(A, B, C, D); extern "C" T __wrap_##f(A a, B b, C c, D d) { gc_point(); return __real_##f(a, b, c, d); }
W1(scm_make, SCM, SCM)
W1(scm_from_utf8_string, SCM, const char*)
W2(scm_from_utf8_stringn, SCM, const char*, size_t)
W1(scm_from_locale_string, SCM, const char*)
W2(scm_from_locale_stringn, SCM, const char*, size_t)
W4(scm_from_stringn, SCM, const char*, size_t, const char*, scm_t_string_failed_conversion_handler)
W1(scm_from_utf8_symbol, SCM, const char*)
W1(scm_string_to_symbol, SCM, SCM)
W1(scm_symbol_to_string, SCM, SCM)
W1(scm_list_1, SCM, SCM)
W2(scm_list_2, SCM, SCM, SCM)
W3(scm_list_3, SCM, SCM, SCM, SCM)
W1(scm_append, SCM, SCM)
W1(scm_reverse, SCM, SCM)
W2(scm_reverse_x, SCM, SCM, SCM)
W2(scm_append_x, SCM, SCM, SCM)
W3(scm_acons, SCM, SCM, SCM, SCM)
W2(scm_cons, SCM, SCM, SCM)
W1(scm_c_make_bytevector, SCM, size_t)
W2(scm_list_ref, SCM, SCM, SCM)
W2(scm_list_tail, SCM, SCM, SCM)
W1(scm_length, SCM, SCM)
W2(scm_c_public_ref, SCM, const char*, const char*)
W1(scm_to_utf8_string, char*, SCM)
W2(scm_to_utf8_stringn, char*, SCM, size_t*)
W1(scm_to_locale_string, char*, SCM)
W2(scm_to_locale_stringn, char*, SCM, size_t*)
W4(scm_to_stringn, char*, SCM, size_t*, const char*, scm_t_string_failed_conversion_handler)
W1(scm_class_of, SCM, SCM)
W4(scm_call_3, SCM, SCM, SCM, SCM, SCM)

// --- Scheme ----------------------------------------------------------------------
extern "C" void init_scribbu_shim(void*);

static const char *PRELUDE = R"SCM((begin
(use-modules (oop goops) (scribbu) (rnrs bytevectors) (srfi srfi-1) (ice-9 textual-ports))
(define (hx bv) (string-concatenate (map (lambda (b) (string-append (if (< b 16) "0" "") (number->string b 16))) (bytevector->u8-list bv))))
(define (un h) (u8-list->bytevector (let lp ((i 0)) (if (< i (string-length h)) (cons (string->number (substring h i (+ i 2)) 16) (lp (+ i 2))) '()))))
(define (st h) (utf8->string (un h)))
(define (wr x) (call-with-output-string (lambda (p) (write x p))))
(define (v x)
  (cond ((string? x) (string-append "s:" (hx (string->utf8 x))))
        ((bytevector? x) (string-append "b:" (hx x)))
        ((eq? x #nil) "#nil")
        ((null? x) "()")
        ((or (symbol? x) (number? x) (boolean? x)) (wr x))
        (else (string-append "?" (wr x)))))
(define (cloud l)
  (string-append "{" (string-join (sort (map (lambda (p)
    (string-append (v (car p)) "=" (string-join (sort (map v (if (string? (cdr p)) (list (cdr p)) (cdr p))) string<?) ","))) l) string<?) " ") "}"))
(define (beyond b n) (if (< (bytevector-length b) n) 'short (let ((r (make-bytevector (- (bytevector-length b) n)))) (bytevector-copy! b n r 0 (bytevector-length r)) r)))
(define (slots x) (map slot-definition-name (class-slots (class-of x))))
(define (frame f)
  (string-append "(" (symbol->string (class-name (class-of f))) " "
    (string-join (map (lambda (s) (let ((y (slot-ref f s))) (cond ((and (eq? s 'tags) (list? y)) (cloud y))
      ((and (eq? s 'data) (bytevector? y)) (v (beyond y (if (= 3 (string-length (slot-ref f 'id-text))) 6 10)))) (else (v y))))) (slots f)) " ") ")"))
(define (tag3 t) (let ((x (car t)))
  (string-append "tag " (v (cadr t)) " " (v (caddr t)) " " (v (slot-ref x 'experimental)) " " (v (slot-ref x 'padding)) " [" (string-join (map frame (slot-ref x 'frames)) " ") "]")))
(define (tagset ts) (string-join (map tag3 ts) "; "))
(define (v1 t) (if (null? t) "none" (string-append "v1 " (string-join (map (lambda (s) (v (slot-ref t s))) (slots t)) " "))))
(define (back ts) (map (lambda (t) (list (car t) (cadr t))) ts))
))SCM";

struct Evald { bool err; string text; };
static SCM do_eval(void *p) { return scm_c_eval_string((const char*)p); }
static SCM do_catch(void *p, SCM key, SCM args)
{
  SCM s = scm_simple_format(SCM_BOOL_F, scm_from_utf8_string("~S ~S"), scm_list_2(key, args));
  char *c = scm_to_utf8_string(s);
  *(string*)p = c; free(c);
  return SCM_UNDEFINED;
}
// the value (a string) of an expression, or the error it raised
static Evald ev(const string &e)
{
  string err;
  mc::transition();
  SCM x = scm_c_catch(SCM_BOOL_T, do_eval, (void*)e.c_str(), do_catch, &err, 0, 0);
  if (!err.empty()) return {true, err};
  if (!scm_is_string(x)) return {false, ""};
  char *c = scm_to_utf8_string(x);
  string r = c; free(c);
  return {false, r};
}

// --- model -------------------------------------------------------------------------
static const vector<std::tuple<string, string, string>> TEXTS{
  {"album-frame", "TAL", "TALB"}, {"artist-frame", "TP1", "TPE1"}, {"band-frame", "TP2", "TPE2"}, {"bpm-frame", "TBP", "TBPM"},
  {"composer-frame", "TCM", "TCOM"}, {"conductor-frame", "TP3", "TPE3"}, {"content-group-frame", "TT1", "TIT1"}, {"copyright-frame", "TCR", "TCOP"},
  {"date-frame", "TDA", "TDAT"}, {"encoded-by-frame", "TEN", "TENC"}, {"file-owner-frame", "", "TOWN"}, {"file-type-frame", "TFT", "TFLT"},
  {"genre-frame", "TCO", "TCON"}, {"initial-key-frame", "TKE", "TKEY"}, {"interpreted-by-frame", "TP4", "TPE4"}, {"isrc-frame", "TRC", "TSRC"},
  {"langs-frame", "TLA", "TLAN"}, {"length-frame", "TLE", "TLEN"}, {"lyricist-frame", "TXT", "TEXT"}, {"media-type-frame", "TMT", "TMED"},
  {"original-album-frame", "TOT", "TOAL"}, {"original-artist-frame", "TOA", "TOPE"}, {"original-filename-frame", "TOF", "TOFN"},
  {"original-lyricist-frame", "TOL", "TOLY"}, {"original-release-year-frame", "TOR", "TORY"}, {"part-of-a-set-frame", "TPA", "TPOS"},
  {"playlist-delay-frame", "TDY", "TDLY"}, {"publisher-frame", "TPB", "TPUB"}, {"recording-dates-frame", "TRD", "TRDA"}, {"settings-frame", "TSS", "TSSE"},
  {"size-frame", "TSI", "TSIZ"}, {"station-name-frame", "", "TRSN"}, {"station-owner-frame", "", "TRSO"}, {"subtitle-frame", "TT3", "TIT3"},
  {"time-frame", "TIM", "TIME"}, {"title-frame", "TT2", "TIT2"}, {"track-frame", "TRK", "TRCK"}, {"year-frame", "TYE", "TYER"},
};
static string sym_of(const string &id)
{
  for (auto &t : TEXTS) if (std::get<1>(t) == id || std::get<2>(t) == id) return std::get<0>(t);
  return "";
}

// UTF-8
static bytes u8(unsigned c)
{
  bytes b;
  if (c < 0x80) b += char(c);
  else if (c < 0x800) b += char(0xc0 | c >> 6), b += char(0x80 | (c & 63));
  else if (c < 0x10000) b += char(0xe0 | c >> 12), b += char(0x80 | (c >> 6 & 63)), b += char(0x80 | (c & 63));
  else b += char(0xf0 | c >> 18), b += char(0x80 | (c >> 12 & 63)), b += char(0x80 | (c >> 6 & 63)), b += char(0x80 | (c & 63));
  return b;
}
static vector<unsigned> points(const bytes &s)
{
  vector<unsigned> r;
  for (std::size_t i = 0; i < s.size();) {
    unsigned c = (unsigned char)s[i++];
    int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
    if (n) c &= 0x3f >> n;
    while (n--) c = c << 6 | (s[i++] & 63);
    r.push_back(c);
  }
  return r;
}
static bytes latin(const bytes &s) { bytes b; for (unsigned char c : s) b += u8(c); return b; }
// as stored under an encoding byte
static bytes stored(const bytes &s, int enc)
{
  if (enc == 3) return s;
  bytes b;
  if (enc == 0) { for (unsigned c : points(s)) b += char(c); return b; }
  if (enc == 1) b = "\xff\xfe";
  auto unit = [&](unsigned c) { if (enc == 1) b += char(c), b += char(c >> 8); else b += char(c >> 8), b += char(c); };
  for (unsigned c : points(s)) { if (c < 0x10000) unit(c); else c -= 0x10000, unit(0xd800 | c >> 10), unit(0xdc00 | (c & 0x3ff)); }
  return b;
}
static bytes text_of(const bytes &s, int enc)
{
  if (enc == 3) return s;
  if (enc == 0) return latin(s);
  bool le = false;
  std::size_t i = 0;
  if (s.size() >= 2 && s.substr(0, 2) == "\xff\xfe") le = true, i = 2;
  else if (s.size() >= 2 && s.substr(0, 2) == "\xfe\xff") i = 2;
  else if (enc == 1) le = true;    // neither: not judged (see cases)
  bytes b;
  unsigned hi = 0;
  for (; i + 1 < s.size(); i += 2) {
    unsigned c = le ? (unsigned char)s[i] | (unsigned char)s[i + 1] << 8 : (unsigned char)s[i] << 8 | (unsigned char)s[i + 1];
    if (c >> 10 == 0x36) { hi = c; continue; }
    if (c >> 10 == 0x37) c = 0x10000 + ((hi & 0x3ff) << 10 | (c & 0x3ff));
    b += u8(c);
  }
  return b;
}
static int wide(int enc) { return enc == 1 || enc == 2 ? 2 : 1; }
static string S(const bytes &b) { return "s:" + mc::hex(b); }

// a frame as Scheme has it (the data of one not known begin with its header)
struct SF {
  string cls, sym;
  int tap = -1, fap = -1, ro = -1, uns = -1;     // -1: unspecified
  vector<bytes> s;                               // strings, in order of the slots
  vector<std::uint64_t> n;                       // numbers
  std::map<bytes, std::set<bytes>> cloud;
  string show(int ver, bool mask = false) const
  {
    auto b = [](bool x) { return x ? "#t" : "#f"; };
    string r = "(" + cls + " " + sym + " ";
    if (ver == 2) r += "() () () ()";
    else r += string(b(tap != 0)) + " " + b(fap != 0) + " " + b(ro == 1) + " " + (ver == 3 ? "()" : mask ? "-" : b(uns == 1));
    if (cls == "<unk-frame>") r += " " + S(s[0]) + " b:" + mc::hex(s[1]);
    else if (cls == "<play-count-frame>") r += " " + std::to_string(n[0]);
    else if (cls == "<popm-frame>") r += " " + S(s[0]) + " " + std::to_string(n[0]) + " " + std::to_string(n[1]);
    else if (cls == "<tag-cloud-frame>") {
      vector<string> v;
      for (auto &x : cloud) { string y; for (auto &z : x.second) y += (y.empty() ? "" : ",") + S(z); v.push_back(S(x.first) + "=" + y); }
      std::sort(v.begin(), v.end());
      r += " " + S(s[0]) + " {";
      for (std::size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + v[i];
      r += "}";
    }
    else for (auto &x : s) r += " " + S(x);
    return r + ")";
  }
  // one that makes it
  string expr() const
  {
    auto st = [](const bytes &b) { return "(st \"" + mc::hex(b) + "\")"; };
    string r = "(make " + cls + " #:id '" + sym;
    auto flag = [&](const char *k, int x) { if (x >= 0) r += string(" #:") + k + (x ? " #t" : " #f"); };
    flag("tap", tap); flag("fap", fap); flag("ro", ro); flag("unsync", uns);
    if (cls == "<text-frame>") r += " #:text " + st(s[0]);
    if (cls == "<comment-frame>") r += " #:lang " + st(s[0]) + " #:dsc " + st(s[1]) + " #:text " + st(s[2]);
    if (cls == "<user-defined-text-frame>") r += " #:dsc " + st(s[0]) + " #:text " + st(s[1]);
    if (cls == "<play-count-frame>") r += " #:count " + std::to_string(n[0]);
    if (cls == "<popm-frame>") r += " #:e-mail " + st(s[0]) + " #:rating " + std::to_string(n[0]) + " #:count " + std::to_string(n[1]);
    if (cls == "<tag-cloud-frame>") {
      r += " #:owner " + st(s[0]) + " #:tags (list";
      for (auto &x : cloud) { r += " (cons " + st(x.first) + " (list"; for (auto &y : x.second) r += " " + st(y); r += "))"; }
      r += ")";
    }
    if (cls == "<unk-frame>") r += " #:frameid " + st(s[0]) + " #:data (un \"" + mc::hex(bytes(s[0].size() == 3 ? 6 : 10, 'h') + s[1]) + "\")";
    return r + ")";
  }
};

static bytes rstrip(bytes b) { while (!b.empty() && !b.back()) b.pop_back(); return b; }
static std::pair<bytes, bytes> cut(const bytes &b, std::size_t from, int w)
{
  for (std::size_t i = from; i + w <= b.size(); i += w)
    if (b.compare(i, w, bytes(w, 0)) == 0) return {b.substr(from, i - from), b.substr(i + w)};
  return {b.substr(std::min(from, b.size())), ""};
}
// what a frame says, as Scheme has it
static SF sf(int ver, const Frame &f)
{
  SF r;
  if (ver > 2) r.tap = !f.tap, r.fap = !f.fap, r.ro = f.ro;
  if (ver > 3) r.uns = f.uns;
  const bytes &b = f.body;
  string sym = sym_of(f.id);
  auto num = [](const bytes &x) { std::uint64_t n = 0; for (unsigned char c : x) n = n << 8 | c; return n; };
  if (!sym.empty()) { r.cls = "<text-frame>"; r.sym = sym; r.s = {b.empty() ? "" : rstrip(text_of(b.substr(1), b[0]))}; }
  else if (f.id == "COM" || f.id == "COMM") {
    auto c = cut(b, 4, wide(b[0]));
    r.cls = "<comment-frame>"; r.sym = "comment-frame"; r.s = {b.substr(1, 3), text_of(c.first, b[0]), rstrip(text_of(c.second, b[0]))};
  }
  else if (f.id == "TXX" || f.id == "TXXX") {
    auto c = cut(b, 1, wide(b[0]));
    r.cls = "<user-defined-text-frame>"; r.sym = "udt-frame"; r.s = {text_of(c.first, b[0]), rstrip(text_of(c.second, b[0]))};
  }
  else if (f.id == "CNT" || f.id == "PCNT") { r.cls = "<play-count-frame>"; r.sym = "play-count-frame"; r.n = {num(b)}; }
  else if (f.id == "POP" || f.id == "POPM") {
    auto c = cut(b, 0, 1);
    r.cls = "<popm-frame>"; r.sym = "popm-frame"; r.s = {latin(c.first)}; r.n = {(unsigned char)c.second[0], num(c.second.substr(1))};
  }
  else if (f.id == "XTG" || f.id == "XTAG") {
    auto c = cut(b, 1, 1);
    r.cls = "<tag-cloud-frame>"; r.sym = "tag-cloud-frame"; r.s = {c.first};
    for (bytes x = c.second; !x.empty();) {
      auto kv = cut(x, 0, 1);
      std::uint32_t n = unbe(kv.second.substr(0, 4));
      auto &s = r.cloud[kv.first];
      for (bytes y = kv.second.substr(4, n); !y.empty();) { auto z = cut(y, 0, 1); s.insert(z.first); y = z.second; }
      x = kv.second.substr(4 + n);
    }
  }
  else { r.cls = "<unk-frame>"; r.sym = "unknown-frame"; r.s = {f.id, b}; }
  return r;
}
static string show(const Tag &t, bool uns, bool frames_uns = false)
{
  string r = "tag " + std::to_string(t.ver) + (uns ? " #t " : " #f ") + (t.ver == 2 ? "()" : t.exp ? "#t" : "#f") + " " + std::to_string(t.pad) + " [";
  for (std::size_t i = 0; i < t.frames.size(); ++i) {
    SF s = sf(t.ver, t.frames[i]);
    if (uns && t.ver == 4) s.uns = 1;
    r += (i ? " " : "") + s.show(t.ver);
  }
  return r + "]";
}

static bytes xtag(const bytes &own, const vector<std::pair<bytes, vector<bytes>>> &m)
{
  bytes b = bytes(1, 1) + own + bytes(1, 0);
  for (auto &x : m) {
    bytes v;
    for (auto &y : x.second) v += y + bytes(1, 0);
    b += x.first + bytes(1, 0) + be(v.size(), 4) + v;
  }
  return b;
}

static string path() { return mc::scratch + "/f.mp3"; }
static string q(const string &s) { return "(st \"" + mc::hex(s) + "\")"; }
static string F() { return q(path()); }

static bytes noise()
{
  bytes n = bytes("\xff\xfb\x90\x00", 4);
  for (int i = 0; i < 300; ++i) n += char(i * 7 + 3);
  return n;
}

// the tags a file begins with, and the rest
struct File { vector<Decoded> tags; bytes rest; string error; };
static File take(const bytes &b)
{
  File f;
  std::size_t at = 0;
  while (b.size() - at >= 10 && !b.compare(at, 3, "ID3")) {
    Decoded d = decode(b.substr(at));
    if (!d.error.empty()) { f.error = d.error; break; }
    f.tags.push_back(d);
    at += d.total;
  }
  f.rest = b.substr(at);
  return f;
}

// --- reading, and writing back what was read --------------------------------------
static string tagsets(const vector<Tag> &ts, bool uns)
{
  string r;
  for (auto &t : ts) r += (r.empty() ? "" : "; ") + show(t, uns);
  return r;
}
static string masked(const vector<Decoded> &ds)
{
  string r;
  for (auto &d : ds) {
    r += "tag " + std::to_string(d.tag.ver) + " [";
    for (auto &f : d.tag.frames) r += " " + sf(d.tag.ver, f).show(d.tag.ver, true);
    r += " ]";
  }
  return r;
}
static string masked(const vector<Tag> &ts)
{
  vector<Decoded> ds;
  for (auto &t : ts) { Decoded d; d.tag = t; ds.push_back(d); }
  return masked(ds);
}

// how it's written back: as it is, with a copy, unsynchronised
static const vector<string> HOWS{"", " #:copy #t", " #:apply-unsync #t", " #:apply-unsync 'as-needed"};

static void one(const string &id, const vector<Tag> &ts, bool uns, const bytes &tail, int hows = 1)
{
  for (int how = 0; how < hows; ++how) {
    if (!mc::begin([&] { return "read/" + id + (uns ? "/unsync" : "") + (how ? "/" + std::to_string(how) : ""); })) continue;
    wipe(mc::scratch);
    bytes b, rest = tail;
    for (auto &t : ts) b += encode(t, uns);
    spew(path(), b + rest);
    mc::state(id + (uns ? "!" : "")); mc::trace();
    string want = tagsets(ts, uns);
    Evald e = ev("(tagset (read-tagset " + F() + "))");
    MC_CHECK(!e.err, "reading raised " << e.text);
    MC_CHECK(e.text == want, "read as " << e.text << "; the file says " << want);
    if (slurp(path()) != b + rest) mc::fail("reading changed the file");
    // ... and writing it back changes nothing that was said
    e = ev("(write-tagset (back (read-tagset " + F() + ")) " + F() + HOWS[how] + ")");
    MC_CHECK(!e.err, "writing back what was read raised " << e.text);
    File f = take(slurp(path()));
    MC_CHECK(f.error.empty(), "written back, the tag is malformed: " << f.error);
    MC_CHECK(f.rest == rest, "writing back changed what follows the tags");
    MC_CHECK(masked(f.tags) == masked(ts), "written back as " << masked(f.tags) << "; was " << masked(ts));
    if (how == 2) for (auto &d : f.tags) if (!d.unsynced) mc::fail("asked for, the unsynchronisation scheme was not applied");
    if (how == 0 && !uns) for (auto &d : f.tags) if (d.tag.ver < 4 && d.unsynced) mc::fail("the unsynchronisation scheme was applied unasked");
    e = ev("(string-concatenate (map (lambda (t) (string-concatenate (map frame (slot-ref (car t) 'frames)))) (read-tagset " + F() + ")))");
    string again;
    for (auto &d : f.tags) for (auto &x : d.tag.frames) { SF s = sf(d.tag.ver, x); if (d.tag.ver == 4 && d.unsynced) s.uns = 1; again += s.show(d.tag.ver); }
    MC_CHECK(!e.err && e.text == again, "read again as " << e.text << "; the file says " << again);
    mc::outcome("read and written back");
  }
}

static vector<bytes> words() { return {"", "a", "a b", "\xc3\xa9", "\xd0\x96\xd0\xa9", "\xf0\x9d\x84\x9ex", "a\nb\"\\", bytes(300, 'x')}; }
static bool fits(const bytes &s, int ver, int enc)
{
  for (unsigned c : points(s)) if ((enc == 0 && c > 255) || (ver < 4 && c > 0xffff)) return false;
  return true;
}
static vector<int> encs(int ver) { return ver == 4 ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1}; }
static bytes nul(int enc) { return bytes(wide(enc), 0); }

// every frame of interest
static vector<std::pair<string, Frame>> catalogue(int ver)
{
  vector<std::pair<string, Frame>> r;
  auto id = [&](const char *a, const char *b) { return string(ver == 2 ? a : b); };
  auto add = [&](const string &n, const string &i, const bytes &b) { r.push_back({i + ":" + n, mk(i, b)}); };
  auto W = words();
  for (std::size_t w = 0; w < W.size(); ++w)
    for (int e : encs(ver)) {
      if (!fits(W[w], ver, e)) continue;
      string n = std::to_string(w) + "e" + std::to_string(e);
      for (auto &t : TEXTS) {
        string i = ver == 2 ? std::get<1>(t) : std::get<2>(t);
        if (i.empty() || (w > 3 && i != "TIT2" && i != "TT2")) continue;
        add(n, i, bytes(1, e) + stored(W[w], e));
        if (i == "TIT2" || i == "TT2") add(n + "z", i, bytes(1, e) + stored(W[w], e) + nul(e));
      }
      for (std::size_t d = 0; d < W.size(); ++d) {
        if (!fits(W[d], ver, e)) continue;
        string m = n + "," + std::to_string(d);
        add(m, id("TXX", "TXXX"), bytes(1, e) + stored(W[d], e) + nul(e) + stored(W[w], e));
        for (const char *l : {"eng", "fra", "zxx"}) add(m + l, id("COM", "COMM"), bytes(1, e) + l + stored(W[d], e) + nul(e) + stored(W[w], e));
      }
    }
  vector<bytes> counts{be(0, 4), be(1, 4), be(127, 4), be(128, 4), be(255, 4), be(256, 4), be(65536, 4), be(0x7fffffff, 4), be(0x80000000, 4), be(0xffffffff, 4),
    bytes("\x01\0\0\0\0", 5), bytes("\x7f\xff\xff\xff\xff\xff\xff\xff", 8), bytes("\x80\0\0\0\0\0\0\0", 8), bytes(8, '\xff')};
  for (auto &c : counts) {
    add(mc::hex(c), id("CNT", "PCNT"), c);
    for (int rt : {0, 1, 127, 128, 255}) for (const char *m : {"a@b.c", "x"})
      add(m + string(",") + std::to_string(rt) + "," + mc::hex(c), id("POP", "POPM"), m + bytes(1, 0) + char(rt) + c);
  }
  for (auto &x : vector<std::pair<string, bytes>>{
      {"none", xtag("o", {})}, {"one", xtag("o@x", {{"k", {"v"}}})}, {"novalue", xtag("o", {{"90s", {}}})}, {"two", xtag("o", {{"k", {"a", "b"}}})},
      {"three", xtag("o@x", {{"a", {"1", "2", "3"}}, {"b", {}}, {"c", {"x"}}})}, {"utf8", xtag("o", {{"\xd0\x96", {"\xc3\xa9"}}})}, {"spaced", xtag("o", {{"a b", {"c d", "e&f=g"}}})}})
    add(x.first, id("XTG", "XTAG"), x.second);
  for (auto &u : ver == 2 ? vector<const char*>{"PIC", "UFI", "ZZZ", "WXX"} : vector<const char*>{"APIC", "PRIV", "UFID", "WXXX", "ZZZZ", "TSOA"})
    for (auto &b : vector<bytes>{"\x01", "o" + bytes(1, 0) + "data", bytes("\x00\xff\xe0\xff\x00", 5), bytes("\xff", 1), bytes("0123456789abcdef"), bytes(300, '\xff')}) {
      if ((!strncmp(u, "UFI", 3) || !strcmp(u, "PRIV")) && b.find('\0') == bytes::npos) continue;   // their owners end with a null
      add(b.size() > 20 ? "long" : mc::hex(b), u, b);
    }
  if (ver == 4) for (const char *u : {"TDRC", "TMOO"}) add("text", u, bytes("\x03") + "2001");
  return r;
}
// a few of them, one of each kind
static vector<std::pair<string, Frame>> few(int ver)
{
  bool two = ver == 2;
  return {
    {"t", mk(two ? "TT2" : "TIT2", bytes(1, 0) + "title")},
    {"u", mk(two ? "TP1" : "TPE1", bytes(1, 1) + stored("\xd0\x96", 1))},
    {"c", mk(two ? "COM" : "COMM", bytes(1, 0) + "eng" + "d" + bytes(1, 0) + "text")},
    {"x", mk(two ? "TXX" : "TXXX", bytes(1, 0) + "dsc" + bytes(1, 0) + "\xe9")},
    {"n", mk(two ? "CNT" : "PCNT", be(300, 4))},
    {"p", mk(two ? "POP" : "POPM", "a@b" + bytes(1, 0) + "\x7f" + be(9, 4))},
    {"k", mk(two ? "XTG" : "XTAG", xtag("o", {{"a", {"1", "2"}}, {"b", {}}}))},
    {"z", mk(two ? "PIC" : "PRIV", bytes("o\0\xff\xe0\xff\x00", 6))},
  };
}

static void reading()
{
  bytes tail = noise();
  for (int ver : {2, 3, 4}) {
    string V = "v" + std::to_string(ver) + "/";
    for (auto &f : catalogue(ver)) {
      for (bool u : {false, true}) one(V + f.first, {tag(ver, 0, {f.second})}, u, tail);
    }
    // flags
    for (auto &f : few(ver))
      for (int m = 0; m < (ver == 2 ? 1 : ver == 3 ? 8 : 16); ++m)
        for (int pad : {0, 9}) for (bool ex : {false, true}) {
          if (ver == 2 && ex) continue;
          Frame g = f.second;
          g.tap = m & 1; g.fap = m & 2; g.ro = m & 4; g.uns = m & 8;
          Tag t = tag(ver, pad, {g});
          t.exp = ex;
          for (bool u : {false, true}) one(V + f.first + "/flags" + std::to_string(m) + "/pad" + std::to_string(pad) + (ex ? "/exp" : ""), {t}, u, tail, 4);
        }
    // orders
    auto P = few(ver);
    std::size_t n = P.size();
    one(V + "empty", {tag(ver, 11, {})}, false, tail, 4);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
      one(V + P[i].first + P[j].first, {tag(ver, 3, {P[i].second, P[j].second})}, false, tail, mc::quick ? 1 : 4);
      for (std::size_t k = 0; k < n; ++k) {
        if (mc::quick && ver == 2) continue;
        one(V + P[i].first + P[j].first + P[k].first, {tag(ver, 3, {P[i].second, P[j].second, P[k].second})}, (i + j + k) % 2, tail);
      }
    }
    // many frames
    for (int m : {10, 60, 400}) {
      vector<Frame> fr;
      for (int i = 0; i < m; ++i) fr.push_back(P[i % n].second);
      one(V + "many" + std::to_string(m), {tag(ver, 3, fr)}, false, tail);
    }
    // sizes & paddings
    for (int p : {1, 2, 10, 117, 118, 127, 128, 129, 1000, 16384, 40000}) one(V + "pad" + std::to_string(p), {tag(ver, p, {P[0].second})}, false, tail, 4);
  }
  // several tags; what follows them
  vector<Tag> Q;
  for (auto &p : pool()) if (!p.second.footer) Q.push_back(p.second);
  int k = 0;
  for (auto &s : sets(Q, mc::quick ? 2 : 3)) {
    string n;
    for (auto &t : s) for (std::size_t i = 0; i < Q.size(); ++i) if (t.name() == Q[i].name()) n += pool()[i < 4 ? i : i + 1].first;
    bytes ending = v1s()[k++ % 4].second;
    for (bool u : {false, true}) one("set{" + n + "}", s, u, tail + ending, s.size() < 3 ? 4 : 1);
  }
  for (auto &a : audios()) for (auto &v : v1s()) {
    if (v.second.empty() && v1len(a.second)) continue;
    if (a.first.substr(0, 3) == "ID3") continue;
    one("audio/" + a.first + "/" + v.first, {pool()[1].second}, false, a.second + v.second, 4);
    one("noaudiotag/" + a.first + "/" + v.first, {}, false, a.second + v.second);
  }
}

// --- writing ----------------------------------------------------------------------
static bool can(const SF &f, int ver)
{
  if (f.cls == "<text-frame>") {
    for (auto &t : TEXTS) if (std::get<0>(t) == f.sym && ver == 2 && std::get<1>(t).empty()) return false;
    return fits(f.s[0], ver, 1);
  }
  if (f.cls == "<unk-frame>") return f.s[0].size() == (ver == 2 ? 3u : 4u);
  if (f.cls == "<comment-frame>") return fits(f.s[1], ver, 1) && fits(f.s[2], ver, 1);
  if (f.cls == "<user-defined-text-frame>") return fits(f.s[0], ver, 1) && fits(f.s[1], ver, 1);
  return true;
}

static SF mkt(const string &sym, const bytes &s) { SF f; f.cls = "<text-frame>"; f.sym = sym; f.s = {s}; return f; }
static vector<std::pair<string, SF>> specs()
{
  vector<std::pair<string, SF>> r;
  auto W = words();
  for (std::size_t w = 0; w < W.size(); ++w) {
    for (auto &t : TEXTS) if (w < 4 || std::get<0>(t) == "title-frame") r.push_back({std::get<0>(t) + std::to_string(w), mkt(std::get<0>(t), W[w])});
    for (std::size_t d = 0; d < W.size(); ++d) {
      SF f; f.cls = "<user-defined-text-frame>"; f.sym = "udt-frame"; f.s = {W[d], W[w]};
      r.push_back({"udt" + std::to_string(d) + "," + std::to_string(w), f});
      for (const char *l : {"eng", "fra", "zxx"}) {
        SF g; g.cls = "<comment-frame>"; g.sym = "comment-frame"; g.s = {l, W[d], W[w]};
        r.push_back({"comment" + std::to_string(d) + "," + std::to_string(w) + l, g});
      }
    }
  }
  for (std::uint64_t n : {0ull, 1ull, 255ull, 256ull, 65535ull, 65536ull, 0xffffffull, 0x1000000ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull}) {
    SF f; f.cls = "<play-count-frame>"; f.sym = "play-count-frame"; f.n = {n};
    r.push_back({"count" + std::to_string(n), f});
    for (int rt : {0, 1, 128, 255}) for (const char *m : {"a@b.c", ""}) {
      SF g; g.cls = "<popm-frame>"; g.sym = "popm-frame"; g.s = {m}; g.n = {std::uint64_t(rt), n};
      r.push_back({string("popm(") + m + ")" + std::to_string(rt) + "," + std::to_string(n), g});
    }
  }
  typedef std::map<bytes, std::set<bytes>> M;
  int i = 0;
  for (auto &m : {M{}, M{{"k", {"v"}}}, M{{"k", {}}}, M{{"k", {"a", "b"}}}, M{{"k", {"a", "b", "c"}}, {"l", {}}, {"m", {"x"}}}, M{{"\xd0\x96", {"\xc3\xa9"}}}, M{{"a b", {"c d", "e&f=g"}}}})
    for (const char *o : {"o@x", ""}) {
      SF f; f.cls = "<tag-cloud-frame>"; f.sym = "tag-cloud-frame"; f.s = {o}; f.cloud = m;
      r.push_back({"cloud" + std::to_string(i++), f});
    }
  for (const char *u : {"PIC", "UFI", "ZZZ", "APIC", "PRIV", "ZZZZ", "TSOA"})
    for (auto &b : vector<bytes>{"\x01", "ab", bytes("\x00\xff\xe0\xff\x00", 5), bytes("\xff", 1), bytes("0123456"), bytes("0123456789"), bytes("0123456789a"), bytes("0123456789abcdef"), bytes(300, '\xff')}) {
      SF f; f.cls = "<unk-frame>"; f.sym = "unknown-frame"; f.s = {u, b};
      r.push_back({string("unk") + u + (b.size() > 20 ? "long" : mc::hex(b)), f});
    }
  for (const char *u : {"", "A", "AB", "ABCDE", "ABCDEFGH"}) {
    SF f; f.cls = "<unk-frame>"; f.sym = "unknown-frame"; f.s = {u, "0123456789abcdef"};
    r.push_back({string("unk(") + u + ")", f});
  }
  return r;
}

static void put(const string &id, const vector<SF> &fr, int ver, int how, const bytes &before, const bytes &rest, int pad = 0)
{
  if (!mc::begin([&] { return "write/" + id; })) return;
  wipe(mc::scratch);
  spew(path(), before + rest);
  mc::state(id); mc::trace();
  string e = "(write-tagset (list (list (make <id3v2-tag> #:padding " + std::to_string(pad) + " #:frames (list";
  bool ok = true;
  string want;
  for (auto &f : fr) { e += " " + f.expr(); ok = ok && can(f, ver); want += " " + f.show(ver, true); }
  Evald r = ev(e + ")) " + std::to_string(ver) + ")) " + F() + HOWS[how] + ")");
  bytes now = slurp(path());
  if (!ok) {
    MC_CHECK(r.err, "written though it cannot be said in this version");
    MC_CHECK(now == before + rest, "an error, and yet the file changed");
    mc::outcome("refused");
    return;
  }
  MC_CHECK(!r.err, "raised " << r.text);
  File f = take(now);
  MC_CHECK(f.error.empty(), "the tag written is malformed: " << f.error);
  MC_CHECK(f.rest == rest, "what follows the tags changed");
  MC_CHECK(f.tags.size() == 1 && f.tags[0].tag.ver == ver, "not one tag of version " << ver);
  string got;
  for (auto &x : f.tags[0].tag.frames) got += " " + sf(ver, x).show(ver, true);
  MC_CHECK(got == want, "wrote" << got << "; asked for" << want);
  if (how == 2 && !f.tags[0].unsynced) mc::fail("asked for, the unsynchronisation scheme was not applied");
  if (how < 2 && f.tags[0].unsynced && ver < 4) mc::fail("the unsynchronisation scheme was applied unasked");
  mc::outcome("written");
}

static void writing()
{
  bytes tail = noise(), small = encode(tag(3, 0, {mk("TIT2", txt("q"))})), big = encode(tag(4, 2000, {mk("TIT2", txt("q"))}));
  auto S = specs();
  for (auto &s : S) for (int ver : {2, 3, 4}) put(s.first + "/v" + std::to_string(ver), {s.second}, ver, 0, "", tail);
  // flags, ways of writing, what was there
  vector<SF> P;
  for (auto &f : few(3)) P.push_back(sf(2, f.second));
  for (std::size_t i = 0; i < P.size(); ++i)
    for (int ver : {2, 3, 4}) {
      SF s = P[i];
      if (ver == 2 && s.cls == "<unk-frame>") s.s[0] = "PIC";
      string V = std::to_string(i) + "/v" + std::to_string(ver);
      for (int m = 0; m < 81; ++m) {
        SF g = s;
        g.tap = m % 3 - 1; g.fap = m / 3 % 3 - 1; g.ro = m / 9 % 3 - 1; g.uns = m / 27 - 1;
        put("flags" + std::to_string(m) + "/" + V, {g}, ver, 0, small, tail);
      }
      for (int how = 0; how < 4; ++how)
        for (auto &b : vector<std::pair<string, bytes>>{{"none", ""}, {"small", small}, {"big", big}, {"two", small + big}})
          for (auto &v : v1s())
            for (int pad : {0, 5})
              put("over/" + V + "/" + b.first + "/" + v.first + "/" + std::to_string(how) + "/" + std::to_string(pad), {s}, ver, how, b.second, tail + v.second, pad);
      for (std::size_t j = 0; j < P.size(); ++j)
        for (std::size_t k = 0; k <= P.size(); ++k) {
          if (mc::quick && k < P.size() && ver != 3) continue;
          vector<SF> fr{s, P[j]};
          if (k < P.size()) fr.push_back(P[k]);
          for (auto &f : fr) if (ver == 2 && f.cls == "<unk-frame>") f.s[0] = "PIC";
          put("order/" + V + "/" + std::to_string(j) + "/" + std::to_string(k), fr, ver, 0, small, tail);
        }
    }
  // a cloud's values may be given as a string
  for (int ver : {2, 3, 4}) for (int n : {0, 1, 2}) {
    string id = "write/cloud-string/v" + std::to_string(ver) + "/" + std::to_string(n);
    if (!mc::begin(id)) continue;
    wipe(mc::scratch); spew(path(), tail); mc::state(id); mc::trace();
    string l = "(list (cons \"mood\" \"sad\")";
    if (n > 0) l += " (cons \"90s\" '())";
    if (n > 1) l += " (list \"g\" \"a\" \"b\")";
    Evald r = ev("(write-tagset (list (list (make <id3v2-tag> #:frames (list (make <tag-cloud-frame> #:id 'tag-cloud-frame #:owner \"o\" #:tags " + l + ")))) " + std::to_string(ver) + ")) " + F() + ")");
    SF w; w.cls = "<tag-cloud-frame>"; w.sym = "tag-cloud-frame"; w.s = {"o"}; w.cloud["mood"] = {"sad"};
    if (n > 0) w.cloud["90s"];
    if (n > 1) w.cloud["g"] = {"a", "b"};
    MC_CHECK(!r.err, "raised " << r.text);
    File f = take(slurp(path()));
    MC_CHECK(f.tags.size() == 1 && f.tags[0].tag.frames.size() == 1 && sf(ver, f.tags[0].tag.frames[0]).show(ver) == w.show(ver),
             "wrote " << (f.tags.empty() || f.tags[0].tag.frames.empty() ? "nothing" : sf(ver, f.tags[0].tag.frames[0]).show(ver)) << "; asked for " << w.show(ver));
  }
}

// --- ID3v1 -------------------------------------------------------------------------
struct V1 {
  bytes title, artist, album, comment, egenre, start, end;   // UTF-8
  bytes year;
  int genre = 255, track = 0, speed = 0;
  bool enh() const { return !egenre.empty() || speed || !start.empty() || !end.empty(); }
  static bytes lat(const bytes &s) { return stored(s, 0); }
  bytes layout() const
  {
    bytes b;
    auto head = [](const bytes &s) { return fix(lat(s), 30); };
    auto tail = [](const bytes &s) { return fix(fix(lat(s), 90).substr(30), 60); };
    if (enh()) b = "TAG+" + tail(title) + tail(artist) + tail(album) + char(speed) + fix(lat(egenre), 30) + fix(start, 6) + fix(end, 6);
    b += "TAG" + head(title) + head(artist) + head(album) + fix(year, 4);
    b += track ? fix(lat(comment), 28) + bytes(1, 0) + char(track) : fix(lat(comment), 30);
    return b + char(genre);
  }
  string expr() const
  {
    string r = "(make <id3v1-tag>";
    auto f = [&](const char *k, const bytes &s) { if (!s.empty()) r += string(" #:") + k + " " + q(s); };
    f("title", title); f("artist", artist); f("album", album); f("year", year); f("comment", comment); f("enh-genre", egenre); f("start-time", start); f("end-time", end);
    if (genre != 255) r += " #:genre " + std::to_string(genre);
    if (track) r += " #:track-no " + std::to_string(track);
    if (speed) r += " #:speed " + std::to_string(speed);
    return r + ")";
  }
};
// what a tag at the end of a file says
static string says(const bytes &b)
{
  bool ext = b.size() == 355;
  bytes s = b.substr(ext ? 227 : 0);
  auto z = [](const bytes &x) { return latin(x.substr(0, x.find('\0'))); };
  auto fld = [&](int i) { return z(s.substr(3 + 30 * i, 30) + (ext ? b.substr(4 + 60 * i, 60) : "")); };
  bool v11 = s[125] == 0 && s[126] != 0;
  string r = "v1 " + S(fld(0)) + " " + S(fld(1)) + " " + S(fld(2)) + " " + S(z(s.substr(93, 4))) + " " + S(z(s.substr(97, v11 ? 28 : 30))) + " " + std::to_string((unsigned char)s[127]) + " "
    + (v11 ? std::to_string((unsigned char)s[126]) : "()");
  if (ext) r += " " + S(z(b.substr(185, 30))) + " " + std::to_string((unsigned char)b[184]) + " " + S(z(b.substr(215, 6))) + " " + S(z(b.substr(221, 6)));
  else r += " s: () s: s:";
  return r;
}

static void v1case(const string &id, const V1 &m, const bytes &front, const bytes &old)
{
  if (!mc::begin([&] { return "v1/" + id; })) return;
  wipe(mc::scratch);
  mc::state(id); mc::trace();
  // reading it
  spew(path(), front + m.layout());
  Evald e = ev("(v1 (read-id3v1-tag " + F() + "))");
  MC_CHECK(!e.err && e.text == says(m.layout()), "read as " << e.text << "; the file says " << says(m.layout()));
  // writing back what was read
  e = ev("(write-id3v1-tag (read-id3v1-tag " + F() + ") " + F() + ")");
  MC_CHECK(!e.err && slurp(path()) == front + m.layout(), "written back " << (e.err ? e.text : "with a change: " + mc::hex(slurp(path()).substr(front.size())) + "; was " + mc::hex(m.layout())));
  // changing one thing
  e = ev("(let ((t (read-id3v1-tag " + F() + "))) (slot-set! t 'genre 7) (write-id3v1-tag t " + F() + "))");
  V1 n = m; n.genre = 7;
  MC_CHECK(!e.err && slurp(path()) == front + n.layout(), "changing the genre changed more " << e.text);
  // writing it over another
  spew(path(), front + old);
  e = ev("(write-id3v1-tag " + m.expr() + " " + F() + ")");
  MC_CHECK(!e.err, "raised " << e.text);
  MC_CHECK(slurp(path()) == front + m.layout(), "wrote " << mc::hex(slurp(path()).substr(std::min(front.size(), slurp(path()).size()))) << "; asked for " << mc::hex(m.layout()));
  mc::outcome(m.enh() ? "enhanced" : "standard");
}

static void id3v1()
{
  bytes fronts[] = {noise(), "", encode(pool()[1].second) + noise()};
  vector<bytes> olds;
  for (auto &v : v1s()) olds.push_back(v.second);
  vector<bytes> T{"", "a", "\xc3\xa9t\xc3\xa9", bytes(29, 'b'), bytes(30, 'c'), bytes(31, 'd'), bytes(60, 'e'), bytes(89, 'f'), bytes(90, 'g'), bytes(28, 'h'), bytes(27, 'i')};
  int k = 0;
  auto go = [&](const string &id, const V1 &m) { int i = k++; v1case(id, m, fronts[i % 3], olds[i / 3 % 4]); };
  // every field with every text, alone and with the rest set; standard and enhanced
  for (int enh : {0, 1, 2, 3, 4}) for (int track : {0, 1, 255}) for (bool rest : {false, true})
    for (std::size_t t = 0; t < T.size(); ++t)
      for (int f = 0; f < 8; ++f) {
        V1 m;
        if (rest) m.title = "ti", m.artist = "ar", m.album = "al", m.comment = "co", m.year = "1999", m.genre = 17;
        m.track = track;
        if (enh == 1 || (enh && rest)) m.speed = 3;
        if (enh == 2 || (enh && rest)) m.egenre = "eg";
        if (enh == 3 || (enh && rest)) m.start = "001:02";
        if (enh == 4 || (enh && rest)) m.end = "009:59";
        std::size_t lim = f < 3 ? (m.enh() ? 90 : 30) : f == 3 ? (track ? 28 : 30) : 30;
        if (points(T[t]).size() > lim) continue;
        if (f == 0) m.title = T[t];
        if (f == 1) m.artist = T[t];
        if (f == 2) m.album = T[t];
        if (f == 3) m.comment = T[t];
        if (f == 4) { if (!m.enh()) continue; m.egenre = T[t]; if (!m.enh()) continue; }
        if (f == 5) { if (t > 3) continue; m.year = vector<bytes>{"", "0000", "1984", "MMXX"}[t]; }
        if (f == 6) { if (t > 7) continue; m.genre = vector<int>{0, 1, 127, 128, 147, 191, 254, 255}[t]; }
        if (f == 7) { if (t > 4 || !m.enh()) continue; m.speed = vector<int>{0, 1, 2, 4, 255}[t]; if (!m.enh()) continue; }
        go(std::to_string(enh) + "/" + std::to_string(track) + (rest ? "/rest/" : "/only/") + std::to_string(f) + "/" + std::to_string(t), m);
      }
  // every subset of the fields
  for (int b = 0; b < 1 << 11; ++b)
    for (std::size_t i = 0; i < 3; ++i)
      for (std::size_t j = 0; j < (mc::quick ? 1 : 4); ++j) {
        if (mc::quick && i != b % 3u) continue;
        V1 m;
        if (b & 1) m.title = "Title \xc3\xa9";
        if (b & 2) m.artist = "Artist";
        if (b & 4) m.album = "Album";
        if (b & 8) m.comment = "Comment";
        if (b & 16) m.year = "2001";
        if (b & 32) m.genre = 3;
        if (b & 64) m.track = 12;
        if (b & 128) m.egenre = "Genre";
        if (b & 256) m.speed = 2;
        if (b & 512) m.start = "000:01";
        if (b & 1024) m.end = "000:02";
        v1case("subset" + std::to_string(b) + "/" + std::to_string(i) + "/" + std::to_string(j), m, fronts[i], olds[mc::quick ? b / 3 % 4 : j]);
      }
  // none
  for (int i = 0; i < 3; ++i) {
    string id = "v1/none/" + std::to_string(i);
    if (!mc::begin(id)) continue;
    wipe(mc::scratch); spew(path(), fronts[i]); mc::state(id); mc::trace();
    Evald e = ev("(v1 (read-id3v1-tag " + F() + "))");
    MC_CHECK(!e.err && e.text == "none", "read as " << e.text << " where there is none");
  }
}

// --- histories ---------------------------------------------------------------------
struct St { vector<std::pair<int, vector<SF>>> tags; bytes audio, v1; };
static St start(const vector<Tag> &ts, const bytes &v1)
{
  St s;
  for (auto &t : ts) { vector<SF> f; for (auto &x : t.frames) f.push_back(sf(t.ver, x)); s.tags.push_back({t.ver, f}); }
  s.audio = noise(); s.v1 = v1;
  return s;
}
static string shown(const St &s)
{
  string r;
  for (auto &t : s.tags) { r += "tag " + std::to_string(t.first) + " ["; for (auto &f : t.second) r += " " + f.show(t.first, true); r += " ]"; }
  return r;
}
// what a version cannot say is gone after writing it; false if it cannot be written at all
static bool wrote(St &s)
{
  for (auto &t : s.tags) for (auto &f : t.second) {
    if (!can(f, t.first)) return false;
    if (t.first == 2) f.tap = f.fap = f.ro = f.uns = -1;
  }
  return true;
}
static SF comment(const bytes &d, const bytes &t) { SF f; f.cls = "<comment-frame>"; f.sym = "comment-frame"; f.s = {"eng", d, t}; return f; }

struct Op { string name, expr; bool (*model)(St&); };
static vector<Op> ops()
{
  string f = F(), rd = "(read-tagset " + f + ")";
  return {
    {"title", "(let ((ts " + rd + ")) (for-each (lambda (t) (for-each (lambda (x) (slot-set! x 'text (string-append (slot-ref x 'text) \"!\"))) (get-frames (car t) 'title-frame))) ts) (write-tagset (back ts) " + f + "))",
     [](St &s) { for (auto &t : s.tags) for (auto &x : t.second) if (x.sym == "title-frame") x.s[0] += "!"; return wrote(s); }},
    {"comment", "(let* ((ts (back " + rd + ")) (c (make <comment-frame> #:id 'comment-frame #:dsc \"d\" #:text (st \"d0966666\"))))"
     " (if (null? ts) (set! ts (list (list (make <id3v2-tag>) 3)))) (slot-set! (caar ts) 'frames (append (slot-ref (caar ts) 'frames) (list c))) (write-tagset ts " + f + "))",
     [](St &s) { if (s.tags.empty()) s.tags.push_back({3, {}}); s.tags[0].second.push_back(comment("d", "\xd0\x96""ff")); return wrote(s); }},
    {"drop", "(let ((ts " + rd + ")) (if (and (pair? ts) (pair? (slot-ref (caar ts) 'frames))) (slot-set! (caar ts) 'frames (cdr (slot-ref (caar ts) 'frames)))) (write-tagset (back ts) " + f + " #:copy #t))",
     [](St &s) { if (!s.tags.empty() && !s.tags[0].second.empty()) s.tags[0].second.erase(s.tags[0].second.begin()); return wrote(s); }},
    {"to4", "(write-tagset (map (lambda (t) (list (car t) 4)) " + rd + ") " + f + " #:copy #t)",
     [](St &s) { for (auto &t : s.tags) t.first = 4; return wrote(s); }},
    {"to3", "(write-tagset (map (lambda (t) (list (car t) 3)) " + rd + ") " + f + " #:apply-unsync #t)",
     [](St &s) { for (auto &t : s.tags) t.first = 3; return wrote(s); }},
    {"to2", "(write-tagset (map (lambda (t) (list (car t) 2)) " + rd + ") " + f + ")",
     [](St &s) { for (auto &t : s.tags) t.first = 2; return wrote(s); }},
    {"clear", "(write-tagset '() " + f + ")", [](St &s) { s.tags.clear(); return true; }},
    {"new", "(write-tagset (append (back " + rd + ") (list (list (make <id3v2-tag> #:padding 7 #:frames (list (make <text-frame> #:id 'title-frame #:text (st \"c3bf\")))) 2))) " + f + " #:apply-unsync 'as-needed)",
     [](St &s) { s.tags.push_back({2, {mkt("title-frame", "\xc3\xbf")}}); return wrote(s); }},
    {"rate", "(let* ((ts " + rd + ") (n 0)) (for-each (lambda (t) (if (has-frame? (car t) 'popm-frame) (for-each (lambda (x) (slot-set! x 'count (1+ (slot-ref x 'count)))) (get-frames (car t) 'popm-frame))"
     " (slot-set! (car t) 'frames (cons (make <popm-frame> #:id 'popm-frame #:e-mail \"me\" #:rating 9) (slot-ref (car t) 'frames))))) ts) (write-tagset (back ts) " + f + "))",
     [](St &s) {
       for (auto &t : s.tags) {
         bool has = false;
         for (auto &x : t.second) if (x.sym == "popm-frame") has = true, ++x.n[1];
         if (!has) { SF p; p.cls = "<popm-frame>"; p.sym = "popm-frame"; p.s = {"me"}; p.n = {9, 0}; t.second.insert(t.second.begin(), p); }
       }
       return wrote(s); }},
    {"v1", "(write-id3v1-tag (make <id3v1-tag> #:title \"t\" #:speed 1) " + f + ")",
     [](St &s) { V1 v; v.title = "t"; v.speed = 1; s.v1 = v.layout(); return true; }},
    {"genre", "(let ((t (read-id3v1-tag " + f + "))) (if (not (null? t)) (begin (slot-set! t 'genre 77) (write-id3v1-tag t " + f + "))))",
     [](St &s) { if (!s.v1.empty()) s.v1.back() = 77; return true; }},
  };
}

static void histories()
{
  vector<std::pair<string, std::pair<vector<Tag>, bytes>>> starts;
  auto P = pool();
  vector<Frame> all, all2;
  for (auto &f : few(3)) all.push_back(f.second);
  for (auto &f : few(2)) if (f.first != "z") all2.push_back(f.second);
  V1 v; v.title = "old"; v.track = 4; v.year = "1970";
  V1 ve = v; ve.speed = 3; ve.egenre = "eg"; ve.artist = bytes(40, 'y');
  starts = {{"none", {{}, ""}}, {"b", {{P[1].second}, v.layout()}}, {"cd", {{P[2].second, P[3].second}, ""}}, {"all", {{tag(3, 400, all)}, v.layout()}},
            {"all2", {{tag(2, 10, all2)}, ve.layout()}}, {"s", {{P[5].second}, ""}}};
  auto O = ops();
  int depth = mc::quick ? 3 : 4, n = O.size();
  for (auto &s0 : starts) {
    std::function<void(vector<int>&)> rec = [&](vector<int> &h) {
      if ((int)h.size() == depth) {
        if (!mc::begin([&] { string r = "history/" + s0.first; for (int i : h) r += "/" + O[i].name; return r; })) return;
        wipe(mc::scratch);
        bytes b;
        for (auto &t : s0.second.first) b += encode(t);
        St s = start(s0.second.first, s0.second.second);
        spew(path(), b + s.audio + s.v1);
        for (int i : h) {
          St next = s;
          bool ok = O[i].model(next);
          bytes was = slurp(path());
          Evald e = ev(O[i].expr);
          bytes now = slurp(path());
          if (!ok) {
            MC_CHECK(e.err, O[i].name << ": written though it cannot be said in this version");
            MC_CHECK(now == was, O[i].name << ": an error, and yet the file changed");
            continue;
          }
          MC_CHECK(!e.err, O[i].name << ": raised " << e.text);
          s = next;
          File f = take(now);
          MC_CHECK(f.error.empty(), O[i].name << ": malformed: " << f.error);
          MC_CHECK(masked(f.tags) == shown(s), O[i].name << ": the file says " << masked(f.tags) << "; expected " << shown(s));
          MC_CHECK(f.rest == s.audio + s.v1, O[i].name << ": what follows the tags is not what it was, or should now be");
          mc::state(shown(s) + mc::hex(s.v1));
        }
        mc::trace();
        mc::outcome("history");
        return;
      }
      for (int i = 0; i < n; ++i) { h.push_back(i); rec(h); h.pop_back(); }
    };
    vector<int> h;
    rec(h);
  }
}

// --- arguments ----------------------------------------------------------------------
static void arg(const string &id, const string &e, bool must)
{
  if (!mc::begin([&] { return "args/" + id; })) return;
  wipe(mc::scratch);
  bytes b = encode(pool()[1].second) + noise() + v1std("t", 3);
  spew(path(), b);
  mc::state(id); mc::trace();
  Evald r = ev(e);
  bytes now = slurp(path());
  if (r.err) MC_CHECK(now == b, "raised " << r.text << ", and yet the file changed");
  else {
    MC_CHECK(!must, "accepted");
    File f = take(now);
    MC_CHECK(f.error.empty() && f.rest.size() >= noise().size() && f.rest.compare(0, noise().size(), noise()) == 0, "accepted, and the file is damaged");
  }
  mc::outcome(r.err ? "raised" : "accepted");
}

static void arguments()
{
  vector<string> V{"#f", "#t", "5", "-1", "256", "1180591620717411303424", "1.5", "\"x\"", "\"\"", "'sym", "'()", "'(1 2)", "'(1 . 2)", "'(\"a\" . \"b\")", "'((\"a\" . 5))", "'((5 . \"a\"))", "'((\"a\" 5))",
    "'((\"a\"))", "'(\"a\")", "'(())", "(un \"0102\")", "(un \"\")", "#\\a", "(make <id3v2-tag>)", "(make <id3v1-tag>)", "(make <text-frame>)", "car", "(st \"610062\")", "(st \"d096\")", "(make-vector 3 0)", "(string->symbol \"title-frame\")", "#nil"};
  string f = F();
  auto wt = [&](const string &ts) { return "(write-tagset " + ts + " " + f + ")"; };
  // each slot of each class
  struct { const char *cls, *sym; vector<string> slots; } C[] = {
    {"<text-frame>", "title-frame", {"id", "tap", "fap", "ro", "unsync", "text"}},
    {"<comment-frame>", "comment-frame", {"id", "tap", "fap", "ro", "unsync", "lang", "dsc", "text"}},
    {"<user-defined-text-frame>", "udt-frame", {"id", "tap", "fap", "ro", "unsync", "dsc", "text"}},
    {"<play-count-frame>", "play-count-frame", {"id", "tap", "fap", "ro", "unsync", "count"}},
    {"<popm-frame>", "popm-frame", {"id", "tap", "fap", "ro", "unsync", "e-mail", "rating", "count"}},
    {"<tag-cloud-frame>", "tag-cloud-frame", {"id", "tap", "fap", "ro", "unsync", "owner", "tags"}},
    {"<unk-frame>", "unknown-frame", {"id", "tap", "fap", "ro", "unsync", "id-text", "data"}},
    {"<id3v2-frame>", "unknown-frame", {"id"}},
    {"(@@ (scribbu) <priv-frame>)", "priv-frame", {"id", "owner", "data"}},
  };
  for (auto &c : C) for (auto &s : c.slots) for (std::size_t i = 0; i < V.size(); ++i) for (int ver : {2, 3, 4}) if (s != "id-text" || V[i] != "(st \"610062\")")
    arg(string(c.sym) + "/" + s + "/" + std::to_string(i) + "/v" + std::to_string(ver),
        "(let ((x (make " + string(c.cls) + " #:id '" + c.sym + "))) " + (string(c.cls) == "<unk-frame>" ? string("(slot-set! x 'id-text \"") + (ver == 2 ? "ABC" : "ABCD") + "\") (slot-set! x 'data (un \"0102030405060708090a0b0c\")) " : "")
        + "(slot-set! x '" + s + " " + V[i] + ") " + wt("(list (list (make <id3v2-tag> #:frames (list x)) " + std::to_string(ver) + "))") + ")",
        (s == "text" || s == "dsc" || s == "lang" || s == "owner" || s == "e-mail" || s == "count" || s == "rating" || s == "id-text" || s == "data") && (V[i] == "'sym" || V[i] == "car" || V[i] == "1.5"));
  // frames of one kind called another
  for (auto &c : C) for (auto &d : C) for (int ver : {2, 3, 4})
    arg(string("called/") + c.sym + "/" + d.sym + "/v" + std::to_string(ver),
        wt("(list (list (make <id3v2-tag> #:frames (list (make " + string(c.cls) + " #:id '" + d.sym + "))) " + std::to_string(ver) + "))"), c.cls != d.cls && string(c.cls) != "<unk-frame>");
  // tags
  for (auto &s : {"experimental", "frames", "padding"}) for (std::size_t i = 0; i < V.size(); ++i) for (int ver : {2, 3, 4})
    arg(string("tag/") + s + "/" + std::to_string(i) + "/v" + std::to_string(ver),
        "(let ((x (make <id3v2-tag>))) (slot-set! x '" + string(s) + " " + V[i] + ") " + wt("(list (list x " + std::to_string(ver) + "))") + ")",
        string(s) == "padding" && (V[i] == "-1" || V[i] == "1.5" || V[i] == "'sym"));
  for (std::size_t i = 0; i < V.size(); ++i) {
    string n = std::to_string(i);
    bool text = V[i][0] == '"' || V[i].compare(0, 3, "(st") == 0;      // such a file is made
    arg("frame/" + n, wt("(list (list (make <id3v2-tag> #:frames (list " + V[i] + ")) 3))"), V[i] != "(make <text-frame>)");
    arg("frame2/" + n, wt("(list (list (make <id3v2-tag> #:frames (cons (make <text-frame> #:id 'title-frame) " + V[i] + ")) 3))"), V[i] != "'()" && V[i] != "#nil");
    arg("version/" + n, wt("(list (list (make <id3v2-tag>) " + V[i] + "))"), true);
    arg("pair/" + n, wt("(list " + V[i] + ")"), true);
    arg("tags/" + n, wt(V[i]), V[i] != "'()" && V[i] != "#nil");
    arg("second/" + n, wt("(cons (list (make <id3v2-tag>) 3) " + V[i] + ")"), V[i] != "'()" && V[i] != "#nil");
    arg("path/" + n, "(write-tagset '() " + V[i] + ")", !text);
    arg("rpath/" + n, "(read-tagset " + V[i] + ")", true);
    arg("v1path/" + n, "(read-id3v1-tag " + V[i] + ")", true);
    arg("v1wpath/" + n, "(write-id3v1-tag (make <id3v1-tag>) " + V[i] + ")", !text);
    arg("v1tag/" + n, "(write-id3v1-tag " + V[i] + " " + f + ")", V[i] != "(make <id3v1-tag>)");
    arg("walk/" + n, "(with-track-in " + V[i] + " (lambda (a b c) #t))", true);
    arg("walkfn/" + n, "(with-track-in " + q(mc::scratch) + " " + V[i] + ")", true);
    arg("copy/" + n, "(write-tagset '() " + f + " #:copy " + V[i] + ")", false);
    arg("unsync/" + n, "(write-tagset '() " + f + " #:apply-unsync " + V[i] + ")", V[i] != "#f" && V[i] != "#t");
    for (const char *s : {"title", "artist", "album", "year", "comment", "genre", "track-no", "enh-genre", "speed", "start-time", "end-time"})
      arg(string("v1/") + s + "/" + n, "(let ((x (make <id3v1-tag>))) (slot-set! x '" + string(s) + " " + V[i] + ") (write-id3v1-tag x " + f + "))", V[i] == "'sym" || V[i] == "1.5" || V[i] == "car" || V[i] == "-1");
    arg("has/" + n, "(has-frame? " + V[i] + " 'title-frame)", V[i] != "(make <id3v2-tag>)");
    arg("get/" + n, "(get-frames " + V[i] + " 'title-frame)", V[i] != "(make <id3v2-tag>)");
  }
  for (auto &y : {"1", "12", "123", "12345", "", "1234"}) arg(string("year/") + y, "(write-id3v1-tag (make <id3v1-tag> #:year \"" + string(y) + "\") " + f + ")", strlen(y) % 4 != 0);
  for (auto &y : {"1", "00:01", "000:001", "", "000:01"}) for (const char *k : {"start-time", "end-time"})
    arg(string(k) + "=" + y, "(write-id3v1-tag (make <id3v1-tag> #:" + string(k) + " \"" + string(y) + "\") " + f + ")", strlen(y) % 6 != 0);
  // too much for a tag
  for (int ver : {2, 3, 4}) for (const char *p : {"268435456", "268435449", "4294967295", "4294967296"})
    arg(string("padding/") + p + "/v" + std::to_string(ver), wt(string("(list (list (make <id3v2-tag> #:padding ") + p + " #:frames (list (make <text-frame> #:id 'title-frame))) " + std::to_string(ver) + "))"), true);
  arg("nofile", "(read-tagset \"/nonexistent/x\")", true);
  arg("nofile1", "(read-id3v1-tag \"/nonexistent/x\")", true);
  arg("nofilew", "(write-tagset (list (list (make <id3v2-tag> #:frames (list (make <text-frame> #:id 'title-frame))) 3)) \"/nonexistent/x\")", true);
  arg("nofilew1", "(write-id3v1-tag (make <id3v1-tag>) \"/nonexistent/x\")", true);
  arg("nodir", "(with-track-in \"/nonexistent\" (lambda (a b c) #t))", true);
  arg("nokey", "(write-tagset '() " + f + " #:nonesuch #t)", true);
  arg("raises", "(with-track-in " + q(mc::scratch) + " (lambda (a b c) (throw 'mine)))", true);
}

// --- directories -----------------------------------------------------------------------
// all trees of up to n nodes: each a file (of some kind) or a directory
struct Node { int kind; vector<Node> sub; };     // 0: directory
static const int KINDS = 5;
static bytes content(int kind)
{
  switch (kind) {
  case 1: return encode(pool()[1].second) + noise() + v1std("t", 3);
  case 2: return noise();
  case 3: return "";
  case 4: return encode(pool()[2].second) + encode(pool()[3].second) + "audio";
  default: return bytes("ID3\x03\0\0\0\0\0\x14TIT2\0\0\xff\xff\0\0", 20) + "x";  // no such tag: not judged, but for being visited
  }
}
static void forests(int n, vector<vector<Node>> &out)      // all forests with exactly n nodes
{
  if (n == 0) { out.push_back({}); return; }
  for (int first = 1; first <= n; ++first) {
    vector<vector<Node>> rest, sub;
    forests(n - first, rest);
    if (first == 1) for (int k = 1; k <= KINDS; ++k) for (auto &r : rest) { vector<Node> f{{k, {}}}; f.insert(f.end(), r.begin(), r.end()); out.push_back(f); }
    forests(first - 1, sub);
    for (auto &s : sub) for (auto &r : rest) { vector<Node> f{{0, s}}; f.insert(f.end(), r.begin(), r.end()); out.push_back(f); }
  }
}
static string nameof(const vector<Node> &f) { string r; for (auto &x : f) r += x.kind ? std::to_string(x.kind) : "(" + nameof(x.sub) + ")"; return r; }
static void plant(const string &at, const vector<Node> &f, std::map<string, int> &files)
{
  int i = 0;
  for (auto &x : f) {
    string p = at + "/" + (i % 2 ? "n " : "\xc3\xa9") + std::to_string(i) + (x.kind ? ".mp3" : "");
    ++i;
    if (x.kind) { spew(p, content(x.kind)); files[p] = x.kind; }
    else { fs::create_directory(p); plant(p, x.sub, files); }
  }
}

static void walking()
{
  for (int n = 0; n <= (mc::quick ? 3 : 4); ++n) {
    vector<vector<Node>> fr;
    forests(n, fr);
    for (auto &f : fr) {
      if (!mc::begin([&] { return "walk/" + nameof(f); })) continue;
      wipe(mc::scratch);
      string root = mc::scratch + "/root";
      fs::create_directory(root);
      std::map<string, int> files;
      plant(root, f, files);
      mc::state(nameof(f)); mc::trace();
      std::map<string, string> want;
      vector<string> names;
      for (auto &x : files) {
        bytes b = content(x.second);
        File g = take(b);
        string t;
        for (auto &d : g.tags) t += (t.empty() ? "" : "; ") + show(d.tag, d.unsynced);
        bytes e = b.substr(b.size() - v1len(b));
        want[x.first] = t + " | " + (e.empty() ? "none" : says(e));
        names.push_back(S(x.first));
      }
      Evald e = ev("(let ((r '())) (with-track-in " + q(root) + " (lambda (ts p t1) (set! r (cons (string-append (v p) \" \" (if (null? ts) \"\" (tagset ts)) \" | \" (v1 t1)) r)))) (string-join (sort r string<?) \"\\n\"))");
      MC_CHECK(!e.err, "raised " << e.text);
      std::istringstream is(e.text);
      std::map<string, int> seen;
      for (string l; std::getline(is, l);) {
        std::size_t sp = l.find(' ');
        string p;
        for (std::size_t i = 2; i + 1 < sp + 1 && i < sp; i += 2) p += char(std::stoi(l.substr(i, 2), 0, 16));
        MC_CHECK(files.count(p), "visited " << p << ", which is no file there");
        ++seen[p];
        string given = l.substr(sp + 1);
        // of a file whose tags cannot be read, at least not those of another
        if (files[p] == 5) {
          for (auto &x : want) MC_CHECK(files[x.first] == 5 || x.second == " | none" || given.substr(0, given.find('|')) == " " || given.substr(0, given.find('|')) != x.second.substr(0, x.second.find('|')), "given " << given << " of " << p << ": the tags of " << x.first);
          MC_CHECK(given.substr(given.find('|')) == "| none", "given " << given << " of " << p << ", which has no ID3v1 tag");
        }
        MC_CHECK(files[p] == 5 || l.substr(sp + 1) == want[p], "given " << l.substr(sp + 1) << " of " << p << "; it says " << want[p]);
      }
      for (auto &x : files) MC_CHECK(seen[x.first] == 1, "visited " << x.first << " " << seen[x.first] << " times");
      std::sort(names.begin(), names.end());
      string all;
      for (auto &s : names) all += (all.empty() ? "" : " ") + s;
      e = ev("(let ((g (fs-tree-generator " + q(root) + "))) (let lp ((r '()) (x (g))) (if (eof-object? x) (string-join (sort (map v r) string<?) \" \") (lp (cons x r) (g)))))");
      MC_CHECK(!e.err && e.text == all, "the generator gave " << e.text << "; the files are " << all);
      e = ev("(string-join (sort (map v (flat-file-system-tree " + q(root) + ")) string<?) \" \")");
      MC_CHECK(!e.err && e.text == all, "the list has " << e.text << "; the files are " << all);
      mc::outcome("walked");
    }
  }
}

// --- garbage collection --------------------------------------------------------------
static void collecting()
{
  struct Sc { string id; vector<Tag> tags; bytes tail; string expr; };
  vector<Sc> S;
  bytes tail = noise();
  for (int ver : {2, 3, 4}) {
    string V = "/v" + std::to_string(ver);
    vector<Frame> all;
    for (auto &f : few(ver)) {
      S.push_back({"read/" + f.first + V, {tag(ver, 3, {f.second, f.second})}, tail, "(tagset (read-tagset " + F() + "))"});
      all.push_back(f.second);
    }
    S.push_back({"read/all" + V, {tag(ver, 3, all)}, tail, "(tagset (read-tagset " + F() + "))"});
    string fr;
    for (auto &f : all) fr += " " + sf(ver, f).expr();
    S.push_back({"write/all" + V, {}, tail, "(begin (write-tagset (list (list (make <id3v2-tag> #:frames (list" + fr + ")) " + std::to_string(ver) + ")) " + F() + ") \"done\")"});
    S.push_back({"back/all" + V, {tag(ver, 3, all)}, tail, "(begin (write-tagset (back (read-tagset " + F() + ")) " + F() + ") \"done\")"});
  }
  S.push_back({"read/three", {pool()[1].second, pool()[2].second, pool()[3].second}, tail, "(tagset (read-tagset " + F() + "))"});
  S.push_back({"v1", {}, tail + v1enh("te", 4), "(v1 (read-id3v1-tag " + F() + "))"});
  S.push_back({"v1w", {}, tail + v1std("te", 4), "(begin (write-id3v1-tag (make <id3v1-tag> #:title \"a\" #:artist \"b\" #:speed 2 #:enh-genre \"g\") " + F() + ") \"done\")"});
  S.push_back({"walk", {pool()[1].second, pool()[3].second}, tail + v1std("te", 4), "(let ((r \"\")) (with-track-in " + q(mc::scratch) + " (lambda (ts p t1) (set! r (string-append r (tagset ts) (v1 t1))))) r)"});
  for (auto &s : S) {
    bytes b;
    for (auto &t : s.tags) b += encode(t);
    b += s.tail;
    auto go = [&](bytes &after) { wipe(mc::scratch); spew(path(), b); gc_calls = 0; Evald e = ev(s.expr); after = slurp(path()); return e; };
    bytes plain, got;
    gc_at = -1;
    long n = -1;
    Evald ref{};
    // one less than the most is tried: the shards must agree on what there is
    for (long k = 0; k < 100000; ++k) {
      if (n < 0) {
        // how many points there are is learnt by running without collections
        ref = go(plain);
        n = gc_calls;
      }
      if (k >= n) break;
      if (!mc::begin([&] { return "gc/" + s.id + "/at" + std::to_string(k); })) continue;
      mc::state(s.id + std::to_string(k)); mc::trace();
      MC_CHECK(!ref.err, "raised " << ref.text);
      gc_at = k;
      Evald e = go(got);
      gc_at = -1;
      MC_CHECK(!e.err && e.text == ref.text, "with a collection there: " << e.text << "; without: " << ref.text);
      MC_CHECK(got == plain, "with a collection there, the file differs");
      mc::outcome("collected");
    }
  }
}

static void *inner(void*)
{
  scm_c_register_extension("libscribbu", "init_scribbu", init_scribbu_shim, 0);
  const char *repo = getenv("VERIF_REPO");
  string p = string(repo ? repo : "/repo") + "/scheme";
  Evald e = ev("(begin (add-to-load-path \"" + p + "\") \"\")");
  if (!e.err) e = ev(PRELUDE);
  if (e.err) { std::fprintf(stderr, "cannot load the module: %s\n", e.text.c_str()); _exit(3); }
  wipe(mc::scratch);
  if (mc::mode == "read") reading();
  if (mc::mode == "write") writing();
  if (mc::mode == "v1") id3v1();
  if (mc::mode == "history") histories();
  if (mc::mode == "args") arguments();
  if (mc::mode == "walk") walking();
  if (mc::mode == "gc") collecting();
  return 0;
}

static void body()
{
  setlocale(LC_ALL, "C.UTF-8");
  setenv("GUILE_AUTO_COMPILE", "0", 1);
  setenv("XDG_CACHE_HOME", mc::scratch.c_str(), 1);
  scribbu::static_initialize();
  if (chdir(mc::scratch.c_str())) _exit(3);
  scm_with_guile(inner, 0);
}

int main(int argc, char **argv) { return mc::run(argc, argv, body); }
