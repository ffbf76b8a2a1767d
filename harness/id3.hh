// A model of ID3v2 tags independent of the code under test: an encoder and a
// decoder of tags written from the standards, the frames' fields as the
// standards lay them out, and the means to build and inspect the real ones.
#ifndef VERIF_ID3_HH
#define VERIF_ID3_HH

#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#include <scribbu/framesv2.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>
#include <memory>
#include <string>
#include <vector>

namespace id3 {

  typedef std::string bytes;

  struct Frame {
    std::string id;
    bytes body;                       // as the standard lays out this frame's fields
    bool tap = false, fap = false, ro = false;
    bool cmp = false;                 // compressed
    bool uns = false, dli = false;    // 2.4
    int gid = -1;                     // group, or -1
    std::string name() const;
  };

  struct Tag {
    int ver = 3;
    bool exp = false;
    int ext = -1;                     // 2.3: 0, or 1 with a CRC; 2.4: 1 update | 2 CRC | 4 restrictions
    unsigned restr = 0x5a;            // the restrictions, if any
    bool footer = false;              // 2.4
    std::size_t pad = 0;
    std::vector<Frame> frames;
    std::string name() const;
  };

  // --- reference ---------------------------------------------------------
  bytes be(std::uint32_t x, int n);
  bytes syncsafe(std::uint32_t x, int n = 4);
  std::uint32_t unsyncsafe(const bytes &b);
  std::uint32_t unbe(const bytes &b);
  bytes unsync(const bytes &b);
  bytes resync(const bytes &b);
  bool false_sync(const bytes &b);    // ff followed by e0.. or 00 within b
  bytes deflate(const bytes &b);
  bool inflate(const bytes &b, std::size_t want, bytes &out);
  std::uint32_t crc(const bytes &b);

  bytes encode_frame(int ver, const Frame &f, bool unsync = false);
  bytes encode(const Tag &t, bool unsync = false);

  struct Decoded {
    Tag tag;
    bool unsynced = false;            // header flag
    std::uint32_t declared = 0;       // header size
    std::size_t total = 0;            // bytes, header to footer
    bytes raw;                        // after the header (and before the footer), as stored
    std::vector<bytes> raw_frames;    // each frame's stored form (after undoing whole-tag unsynchronisation)
    bool has_crc = false, crc_ok = false, ext_pad_ok = true;
    std::uint32_t crc = 0;            // as recorded
    std::string error;                // if not a well-formed tag
  };
  Decoded decode(const bytes &b);

  // What a frame's fields are, according to the standard
  std::string fields(int ver, const Frame &f);
  // The same of what the code holds, through its accessors
  std::string fields(const scribbu::id3v2_frame &f);
  std::string flags(const Frame &f, int ver, bool full = false);
  std::string flags(const scribbu::id3v2_frame &f);
  std::string frame_id(const scribbu::id3v2_frame &f);

  // --- the real thing ----------------------------------------------------
  std::unique_ptr<scribbu::id3v2_2_frame> make2(const Frame &f);
  std::unique_ptr<scribbu::id3v2_3_frame> make3(const Frame &f);
  std::unique_ptr<scribbu::id3v2_4_frame> make4(const Frame &f);
  // Append to a tag through the overload for its static type
  void push(scribbu::id3v2_tag &t, const Frame &f);
  std::unique_ptr<scribbu::id3v2_tag> make(const Tag &t);      // through the API
  std::unique_ptr<scribbu::id3v2_tag> read(const bytes &b);    // through the parser
  bytes write(const scribbu::id3v2_tag &t, bool unsync);
  std::vector<const scribbu::id3v2_frame*> frames(const scribbu::id3v2_tag &t);
  // Everything a tag says about itself & its frames
  std::string describe(const scribbu::id3v2_tag &t);
  std::string describe(const Tag &t, bool full = false);  // full: with what the accessors don't show

  // Frames to build tags of: one of each kind, and the awkward ones
  std::vector<Frame> kinds(int ver);

  std::string brief(const bytes &b, std::size_t n = 400);
}
#endif
