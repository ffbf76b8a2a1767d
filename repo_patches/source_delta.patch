From 075043d0929ffadd06cf21cc3efec615cce31004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:36 +0000
Subject: [PATCH 01/72] fix: match_winamp_genre overran its table for empty,
 long and wholly dissimilar text

---
 scribbu/winamp-genres.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index 007b727..e0599fa 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -290,7 +290,8 @@ namespace {
     size_t m = A.length();
     // The minimal p will be at the end of diagonal k
     ptrdiff_t k = n - m;
-    ptrdiff_t p = k;
+    // and can be no smaller than the difference in the lengths
+    ptrdiff_t p = abs(k);
 
     do {
       ptrdiff_t inc = p;
@@ -541,9 +542,9 @@ scribbu::match_winamp_genre(const std::string &text)
 
   // This function uses the algorithm of Berhel & Roach to, which works in terms
   // of a single two-dimensional array FKP that is re-used over all
-  // comparisons. `inf' need only be greater than or equal to the length of the
-  // longest string we will be comparing.
-  size_t inf = max(MAX_GENRE_LENGTH, n);
+  // comparisons. `inf' must be greater than the length of the longest string we
+  // will be comparing (and so greater than any distance).
+  size_t inf = max(MAX_GENRE_LENGTH, n) + 1;
   // We can build FKP here & re-use it for each individual comparison. FKP is a
   // two-dimensional array consisting of `max_k' rows & `max_p' columns. In the
   // exposition, the indicies run over -m to n (all diagonals) and from -1 to
@@ -561,10 +562,8 @@ scribbu::match_winamp_genre(const std::string &text)
   // the C99 feature & gcc extension of Variable Length Array. Once I had a
   // working implementation with unit tests, I replaced it with an equivalent &
   // standard-compliant 1D array into which I compute my own indexing.
-  ptrdiff_t FKP[max_k*max_p];
-  for (ptrdiff_t i = 0; i < max_k*max_p; ++i) {
-    FKP[i] = -inf;
-  }
+  // It lives on the heap since its size is quadratic in the length of `text'.
+  vector<ptrdiff_t> FKP(max_k*max_p, -(ptrdiff_t)inf);
 
   for (ptrdiff_t k = - zero_k; k <= zero_k; ++k) {
     ptrdiff_t abs_k = k;
@@ -583,9 +582,9 @@ scribbu::match_winamp_genre(const std::string &text)
   // OK-- `FKP' is initialized. Now iterate over all genres, comparing `wtext'
   // to each; return the match with minimal Damerau-Levenshtein distance.
   size_t least_dl = inf;
-  unsigned char best_genre;
+  unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
-    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
+    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, FKP.data(), max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
       least_dl = DL;
       best_genre = i;
-- 
2.43.0


From 8808eaa2712022efc1c78ac7fe194dd76cc2c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:10 +0000
Subject: [PATCH 02/72] fix: keep the ID3v2 tags' frame lookups in step with
 their frames

Inserting, erasing, assigning or copying frames left the lookup tables
with stale indices or dangling pointers. add_comment and
add_user_defined_text dereferenced a moved-from pointer. Copy
construction & assignment copied the base class from the target rather
than the source, and dereferenced an absent extended header.

Rebuild the tables whenever frames move.
---
 scribbu/id3v22.cc | 245 ++++++++++++-------------------------------
 scribbu/id3v22.hh |   2 +-
 scribbu/id3v23.cc | 259 +++++++++++++---------------------------------
 scribbu/id3v23.hh |   2 +-
 scribbu/id3v24.cc | 259 +++++++++++++---------------------------------
 scribbu/id3v24.hh |   2 +-
 6 files changed, 209 insertions(+), 560 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..41ebaab 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -207,29 +207,24 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
   }
+  rebuild_lookups();
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
     padding_ = that.padding_;
 
-    coms_.clear();
-    cnts_.clear();
-    pops_.clear();
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
     }
+    rebuild_lookups();
   }
   return *this;
 }
@@ -322,9 +317,8 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
 {
   std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
 
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 
 }
 
@@ -341,9 +335,8 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 
   unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
 
-  ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -379,8 +372,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -392,35 +385,10 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -431,9 +399,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 {
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -441,20 +408,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_2_text_frame> pnew(new id3v2_2_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_2_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new id3v2_2_text_frame(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -462,20 +419,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &f
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<CNT> pnew(new CNT(frame));
-  // and saving a reference to that copy.
-  CNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new CNT(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -483,20 +430,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COM> pnew(new COM(frame));
-  // and saving a reference to that copy.
-  COM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new COM(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -504,20 +441,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POP> pnew(new POP(frame));
-  // and saving a reference to that copy.
-  POP &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new POP(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -528,24 +455,17 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -553,16 +473,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -570,16 +484,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -587,16 +495,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -607,8 +509,7 @@ scribbu::id3v2_2_tag::push_back(const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 }
 
 void
@@ -655,20 +556,18 @@ scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -683,49 +582,35 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
   return os;
 }
 
+/// Rebuild all our lookup tables from `frames_'; to be called whenever the
+/// positions of the frames therein may have changed
 void
-scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
-{
-  static const frame_id3 COM("COM"), CNT("CNT"), POP("POP");
-
-  if (COM == id) {
-    com_frame_lookup_type::iterator p =
-      std::find_if(coms_.begin(), coms_.end(),
-                   [idx](const com_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    coms_.erase(p);
-  }
-  else if (CNT == id) {
-    cnt_frame_lookup_type::iterator p =
-      std::find_if(cnts_.begin(), cnts_.end(),
-                   [idx](const cnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    cnts_.erase(p);
-  }
-  else if (POP == id) {
-    pop_frame_lookup_type::iterator p =
-      std::find_if(pops_.begin(), pops_.end(),
-                   [idx](const pop_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pops_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_2_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
+scribbu::id3v2_2_tag::rebuild_lookups()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_2_frame *pf = frames_[i].get();
+    if (COM *p = dynamic_cast<COM*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (CNT *p = dynamic_cast<CNT*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (POP *p = dynamic_cast<POP*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (id3v2_2_text_frame *p = dynamic_cast<id3v2_2_text_frame*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else {
+      add_frame_to_lookups(*pf, i);
     }
-    text_map_.erase(p);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..2ad86b7 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -530,7 +530,7 @@ namespace scribbu {
 
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
+    void rebuild_lookups();
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..fa80f0f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -346,49 +346,39 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  padding_(that.padding_)
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   if (that.pext_header_) {
     pext_header_.reset(new ext_header(*that.pext_header_));
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-    }
   }
+  rebuild_lookups();
 }
 
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
-    comms_.clear();
-    pcnts_.clear();
-    popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-      }
     }
+    rebuild_lookups();
   }
   return *this;
 }
@@ -698,10 +688,8 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
-  std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -719,10 +707,8 @@ scribbu::id3v2_3_tag::add_user_defined_text(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const TXXX &F = *pnew;
-  std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -758,8 +744,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -771,35 +757,10 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -810,9 +771,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 {
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -820,20 +780,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_3_text_frame> pnew(new id3v2_3_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_3_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new id3v2_3_text_frame(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -841,20 +791,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &f
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<PCNT> pnew(new PCNT(frame));
-  // and saving a reference to that copy.
-  PCNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new PCNT(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -862,20 +802,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COMM> pnew(new COMM(frame));
-  // and saving a reference to that copy.
-  COMM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new COMM(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -883,20 +813,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POPM> pnew(new POPM(frame));
-  // and saving a reference to that copy.
-  POPM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new POPM(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -907,8 +827,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -916,16 +835,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -933,16 +846,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -950,32 +857,20 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -985,8 +880,7 @@ scribbu::id3v2_3_tag::push_back(const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 }
 
 void
@@ -1033,20 +927,18 @@ scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1061,46 +953,35 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
   return os;
 }
 
+/// Rebuild all our lookup tables from `frames_'; to be called whenever the
+/// positions of the frames therein may have changed
 void
-scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_3_tag::rebuild_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_3_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_3_frame *pf = frames_[i].get();
+    if (COMM *p = dynamic_cast<COMM*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (PCNT *p = dynamic_cast<PCNT*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (POPM *p = dynamic_cast<POPM*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (id3v2_3_text_frame *p = dynamic_cast<id3v2_3_text_frame*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else {
+      add_frame_to_lookups(*pf, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..3404345 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -592,7 +592,7 @@ namespace scribbu {
 
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    void rebuild_lookups();
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..604d9b1 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -496,49 +496,39 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
-  padding_(that.padding_)
+  pext_header_(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr),
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-    }
   }
+  rebuild_lookups();
 }
 
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
-    comms_.clear();
-    pcnts_.clear();
-    popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-      }
     }
+    rebuild_lookups();
   }
 
   return *this;
@@ -773,9 +763,8 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               false, false,
                                                               boost::none,
                                                               description);
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -794,9 +783,8 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               description);
-  std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  rebuild_lookups();
 }
 
 /*virtual*/
@@ -832,8 +820,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -844,35 +832,10 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -883,9 +846,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 {
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -893,20 +855,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_4_text_frame> pnew(new id3v2_4_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_4_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new id3v2_4_text_frame(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -914,20 +866,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &f
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<PCNT_2_4> pnew(new PCNT_2_4(frame));
-  // and saving a reference to that copy.
-  PCNT_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new PCNT_2_4(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -935,20 +877,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COMM_2_4> pnew(new COMM_2_4(frame));
-  // and saving a reference to that copy.
-  COMM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new COMM_2_4(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -956,20 +888,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POPM_2_4> pnew(new POPM_2_4(frame));
-  // and saving a reference to that copy.
-  POPM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // Move a deep copy of `frame' into our slot...
+  p_->frames_[idx_].reset(new POPM_2_4(frame));
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -980,24 +902,17 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1005,16 +920,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1022,16 +931,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1039,16 +942,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1059,8 +956,7 @@ scribbu::id3v2_4_tag::push_back(const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 }
 
 void
@@ -1107,20 +1003,18 @@ scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1147,46 +1041,35 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
   return os;
 }
 
+/// Rebuild all our lookup tables from `frames_'; to be called whenever the
+/// positions of the frames therein may have changed
 void
-scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_4_tag::rebuild_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_4_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_4_frame *pf = frames_[i].get();
+    if (COMM_2_4 *p = dynamic_cast<COMM_2_4*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (PCNT_2_4 *p = dynamic_cast<PCNT_2_4*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (POPM_2_4 *p = dynamic_cast<POPM_2_4*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else if (id3v2_4_text_frame *p = dynamic_cast<id3v2_4_text_frame*>(pf)) {
+      add_frame_to_lookups(*p, i);
+    }
+    else {
+      add_frame_to_lookups(*pf, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..7814d01 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -627,7 +627,7 @@ namespace scribbu {
 
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    void rebuild_lookups();
     void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-- 
2.43.0


From a8539e61f88d478f749e4344ba0bd88f09a62a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:28 +0000
Subject: [PATCH 03/72] fix: write the ID3v2.3 frame flags and extended header
 padding as they are read

---
 scribbu/framesv23.cc | 15 ++++++++-------
 scribbu/id3v23.hh    |  9 ++++++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..17d988e 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -358,27 +358,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 0x80;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 0x80;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 0x20;
     sz += 1;
     cb += 1;
   }
@@ -403,7 +403,8 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    std::uint32_t cbd = htonl(dlind);
+    os.write((char*)&cbd, 4);
   }
 
   if (encrypted()) {
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 3404345..a2cea52 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -173,6 +173,8 @@ namespace scribbu {
       { return *crc_; }
       std::size_t padding_size() const
       { return cbpad_; }
+      void padding_size(std::size_t cb)
+      { cbpad_ = cb; dirty_ = true; }
       /// Write this header to an ostream without unsynchronisation; if this header
       /// is configured to include a CRC, it will be updated based on \a tag
       std::size_t write(std::ostream &os, bool unsync = false) const;
@@ -242,7 +244,12 @@ namespace scribbu {
     virtual std::size_t padding() const
     { return padding_; }
     virtual void padding(std::size_t padding)
-    { padding_ = padding; }
+    {
+      padding_ = padding;
+      if (pext_header_) {
+        pext_header_->padding_size(padding);
+      }
+    }
 
     /////////////////////////////////////////////////////////////////////////////
     //                    Frames Common to all ID3v2 Tags                      //
-- 
2.43.0


From 823351eee6e3b70f5dcdb8b9d17bc4cdc1d2a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:13 +0000
Subject: [PATCH 04/72] fix: serialize ID3v2.4 frames, extended header and
 footer as the standard requires

Frame flags, sizes, data length indicators and per-frame unsynchronisation
were written in ways that could not be read back, the size in the tag header
counted the padding twice, and tags with footers were not skipped in full.
---
 scribbu/framesv23.cc | 11 ++---
 scribbu/framesv23.hh | 11 +++++
 scribbu/framesv24.cc | 53 +++++++++++++++++-------
 scribbu/framesv24.hh | 14 ++++++-
 scribbu/id3v2.cc     |  4 ++
 scribbu/id3v2.hh     |  3 ++
 scribbu/id3v24.cc    | 96 +++++++++++++++++++++++++++++++++++++-------
 scribbu/id3v24.hh    |  6 +++
 scribbu/tagset.hh    |  2 +-
 9 files changed, 164 insertions(+), 36 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 17d988e..035d9b5 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_3_plus_frame::serialized_size(bool unsync,
                                              bool last_no_pad /*= false*/) const
 {
   ensure_cached_data_is_fresh(last_no_pad);
-  return cache_[unsync ? SERIALIZED_WITH_CEU : SERIALIZED_WITH_CE].size();
+  return cache_[unsync || always_unsynchronise() ? SERIALIZED_WITH_CEU : SERIALIZED_WITH_CE].size();
 }
 
 /**
@@ -123,7 +123,7 @@ std::size_t
 scribbu::id3v2_3_plus_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED_WITH_CEU : SERIALIZED_WITH_CE;
+  unsigned char idx = unsync || always_unsynchronise() ? SERIALIZED_WITH_CEU : SERIALIZED_WITH_CE;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
@@ -212,9 +212,9 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
 
     // What I'm doing instead is assembling the entire frame payload in
     // `cache_', & then applying unsynchronisation to that.  In the case of
-    // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
-    // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
-    // writing the header & then unsynchronising the payload.
+    // ID3v2.4, the frame header records both the fact that the payload has
+    // been unsynchronised & its size thereafter, so our subclass gets a chance
+    // to replace the data in the SERIALIZED_WITH_CEU slot (see below).
 
     // Serialize the frame header...
     stringstream hdr;
@@ -243,6 +243,7 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
                   cache_[SERIALIZED_WITH_CE].begin(),
                   cache_[SERIALIZED_WITH_CE].end(),
                   last_no_pad);
+    unsynchronise_frame(payload, cb_no_ceu, cache_[SERIALIZED_WITH_CEU]);
 
     dirty(false);
   }
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..72e4e73 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -295,6 +295,17 @@ namespace scribbu {
                                      std::size_t cb_payload,
                                      std::size_t dlind) const = 0;
 
+    /// Hook for versions that don't unsynchronise frames in toto: replace \a
+    /// out with the serialized form of this frame, unsynchronised
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &/*payload*/,
+                                     std::size_t /*dlind*/,
+                                     std::vector<unsigned char> &/*out*/) const
+    { }
+    /// True if this frame should be unsynchronised on write, regardless of
+    /// what the tag requests
+    virtual bool always_unsynchronise() const
+    { return false; }
+
   private:
 
     ///////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..f98c33c 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -92,17 +92,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 64;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 32;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 16;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 64;
     sz += 1;
     cb += 1;
   }
@@ -114,10 +114,8 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
     sz += 1;
     cb += 1;
   }
-  if (unsynchronised_) {
-    flags[1] |= 2;
-  }
-  if (data_len_indicator_) {
+  // NB. The data length indicator is mandatory for compressed frames
+  if (data_len_indicator_ || compressed_) {
     flags[1] |= 1;
     sz += 4;
     cb += 4;
@@ -128,28 +126,53 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   // ID3v2.3 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-  if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+  if (data_len_indicator_ || compressed_) {
+    detail::sync_safe_from_unsigned(dlind, szbuf);
+    os.write((char*)szbuf, 4);
   }
 
   return cb;
 }
 
+/// Produce this frame's serialized form with the unsynchronisation scheme
+/// applied: only the payload is subject thereto, but both the flags & the size
+/// in the header have to reflect it
+/*virtual*/
+void
+scribbu::id3v2_4_frame::unsynchronise_frame(
+  const std::vector<unsigned char> &payload,
+  std::size_t dlind,
+  std::vector<unsigned char> &out) const
+{
+  std::vector<unsigned char> buf;
+  // NB. Always protect a trailing 0xff; we have no idea what comes next.
+  detail::unsynchronise(std::back_inserter(buf), payload.begin(),
+                        payload.end(), true);
+
+  std::stringstream hdr;
+  write_header(hdr, buf.size(), dlind);
+
+  std::string text = hdr.str();
+  out.assign(text.begin(), text.end());
+  out[9] |= 2;
+  out.insert(out.end(), buf.begin(), buf.end());
+}
+
 
 ///////////////////////////////////////////////////////////////////////////////
 //                        class unknown_id3v2_3_frame                        //
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..b539cf3 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -125,7 +125,10 @@ namespace scribbu {
                   bool unsynch,
                   const boost::optional<std::size_t> &dli):
       id3v2_3_plus_frame(frame_id4(id0, id1, id2, id3),
-                         tap, fap, ro, cmprsd, enc, gid)
+                         tap, fap, ro, cmprsd, enc, gid),
+      compressed_(cmprsd),
+      unsynchronised_(unsynch),
+      data_len_indicator_(dli)
     { }
     virtual id3v2_4_frame* clone() const = 0;
 
@@ -148,6 +151,15 @@ namespace scribbu {
     /// fields such as decompressed size, group id, &c
     virtual std::size_t write_header(std::ostream &os, std::size_t cb_payload,
                                      std::size_t dlind) const;
+    /// Produce this frame's serialized form with the unsynchronisation scheme
+    /// applied
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &payload,
+                                     std::size_t dlind,
+                                     std::vector<unsigned char> &out) const;
+    /// True if this frame should be unsynchronised on write, regardless of
+    /// what the tag requests
+    virtual bool always_unsynchronise() const
+    { return unsynchronised_; }
 
   private:
     bool compressed_;
diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d9a07b3..27b4d9f 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -198,6 +198,10 @@ scribbu::looking_at_id3v2(std::istream &is,
           0x80 > buf[8] && 0x80 > buf[9]) {
 
         H.size_ = unsigned_from_sync_safe(buf[6], buf[7], buf[8], buf[9]);
+        // NB. The footer (if any) isn't included in the recorded size
+        if (4 == H.version_ && (H.flags_ & 0x10)) {
+          H.size_ += ID3V2_HEADER_SIZE;
+        }
         H.present_ = true;
 
       } // End if on bytes 6-9 being a sync-safe int.
diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0e96115..37893f2 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -697,6 +697,9 @@ namespace scribbu {
     /// ID3v2 header (i.e. return the total tag size on disk, in bytes, less
     /// ten)
     virtual std::size_t size(bool unsync = false) const = 0;
+    /// Return the number of bytes write() will produce, including the ID3v2 header
+    virtual std::size_t size_on_disk(bool unsync = false) const
+    { return size(unsync) + ID3V2_HEADER_SIZE; }
     /// Return true if the serialization of this tag would contain false syncs
     /// if serialized in its present state
     virtual bool needs_unsynchronisation() const = 0;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 604d9b1..ec62b08 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -185,7 +185,13 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
                                              const unsigned char *p1):
   size_dirty_(false),
   crc_dirty_ (false),
-  fcrc_      (false)
+  fcrc_      (false),
+  crc_       (0),
+  tag_size_restriction_ (tag_size::restricted),
+  text_enc_restriction_ (false),
+  text_size_restriction_(text_size::unrestricted),
+  image_enc_restriction_(false),
+  image_sz_restriction_ (image_size::unrestricted)
 {
   using scribbu::detail::unsigned_from_sync_safe;
 
@@ -195,6 +201,11 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
 
   size_ = unsigned_from_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
+  if (size_ < 6 || size_ > (std::size_t)(p1 - p0)) {
+    throw invalid_ext_header();
+  }
+  p1 = p0 + size_;
+
   std::size_t num_flag_bytes = p0[4];
 
   if (!num_flag_bytes) {
@@ -208,6 +219,9 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
 
   // 00 01 02 03  04  05  06  07 08 09 0a 0b 0c
   //    size    | # | f | 00 |05  crc data      |
+  if (5 + num_flag_bytes > size_) {
+    throw invalid_ext_header();
+  }
   p0 += 5 + num_flag_bytes;
 
   if (is_update_) {
@@ -283,6 +297,11 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
     p0 += 2;
   }
 
+  // That's the size of the extended header as it was read; we only write out
+  // that which we understand.
+  cb_read_ = size_;
+  size_ = 6 + (is_update_ ? 1 : 0) + (fcrc_ ? 6 : 0) + (restricted_ ? 2 : 0);
+
 }
 
 std::size_t
@@ -307,7 +326,8 @@ std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc(const id3v2_4_tag &tag) const
 {
   using namespace std;
-  if (crc_dirty_) {
+  // NB. We can't know whether our tag has changed since last we were here.
+  {
     crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
                       [](uint32_t checksum, const id3v2_4_frame &F)
                       { return F.crc(checksum); });
@@ -372,9 +392,12 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    uint32_t x = crc(tag);
+    buf[0] = 0x05;
+    sync_safe_from_unsigned(x & 0xfffffff, buf + 2);
+    buf[1] = x >> 28;
+    os.write((char*)buf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -441,8 +464,10 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
+    char one = 1;
+    os.write(&one, 1);
     os.write((char*)&tagr, 1);
-    cb += 1;
+    cb += 2;
   }
 
   return cb;
@@ -479,7 +504,8 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::istream     &is,
                                                   generic_parsers_.begin()));
   get_default_text_frame_parsers(std::inserter(text_parsers_,
                                                   text_parsers_.begin()));
-  parse(is, H.size_, H.flags_ & 0x40);
+  // NB. `H.size_' includes the footer
+  parse(is, H.size_ - (footer_ ? 10 : 0), H.flags_ & 0x40);
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
@@ -629,6 +655,15 @@ scribbu::id3v2_4_tag::size(bool unsync) const
   return cb;
 }
 
+/// Return the number of bytes write() will produce, including the ID3v2 header
+/*virtual*/
+std::size_t
+scribbu::id3v2_4_tag::size_on_disk(bool unsync /*= false*/) const
+{
+  // NB. size(), for historical reasons, counts our padding twice
+  return size(unsync) - padding() + ID3V2_HEADER_SIZE;
+}
+
 /**
  * \brief Return true if all frames would contain false syncs if serialized in
  * their present state
@@ -648,7 +683,7 @@ scribbu::id3v2_4_tag::needs_unsynchronisation() const
 {
 
   using namespace std;
-  return all_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(); });
+  return all_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(true); });
 }
 
 /**
@@ -705,8 +740,13 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
+  unsigned char f = flags();
+  if (unsync) f |= 0x80; else f &= ~0x80;
+  // NB. The footer isn't included in the recorded size.
+  size_t cbhdr = size_on_disk(unsync) - ID3V2_HEADER_SIZE - (has_footer() ? 10 : 0);
+
   // Write the header...
-  write_header(os, flags(), size(unsync));
+  write_header(os, f, cbhdr);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -727,7 +767,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, f, cbhdr);
   }
 
   return cb;
@@ -1162,6 +1202,14 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     std::unique_ptr<unsigned char[]> pb(new unsigned char[cb_tag]);
     is.read((char*)pb.get(), cb_tag);
 
+    if (footer_) {
+      char ftr[10];
+      is.read(ftr, 10);
+      if ('3' != ftr[0] || 'D' != ftr[1] || 'I' != ftr[2]) {
+        throw invalid_tag();
+      }
+    }
+
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
 
@@ -1171,7 +1219,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // Unlike ID3v2.2, we may have an extended header next.
     if (extended) {
       pext_header_.reset(new ext_header(p0, p1));
-      p0 += pext_header_->size();
+      p0 += pext_header_->size_on_read();
     }
 
     static const frame_id4 ENCR("ENCR");
@@ -1239,7 +1287,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           encryption_method = *pread++;
@@ -1257,6 +1305,13 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         // copy here...
         boost::shared_array<unsigned char> pf;
 
+        if (unsynchronisation || unsynchronised().value_or(false)) {
+          pf.reset(new unsigned char[cb_read]);
+          std::copy(pread, pread + cb_read, pf.get());
+          cb_read = resynchronise(pf.get(), cb_read);
+          pread = pf.get();
+        }
+
         if (boost::none != encryption_method) {
           if (! encryption_method_regd(encryption_method.get())) {
             found_encrypted = true;
@@ -1267,6 +1322,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (boost::none == data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1345,7 +1403,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         encryption_method = *pread++;
@@ -1363,6 +1421,13 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // copy here...
       boost::shared_array<unsigned char> pf;
 
+      if (unsynchronisation || unsynchronised().value_or(false)) {
+        pf.reset(new unsigned char[cb_read]);
+        std::copy(pread, pread + cb_read, pf.get());
+        cb_read = resynchronise(pf.get(), cb_read);
+        pread = pf.get();
+      }
+
       if (boost::none != encryption_method) {
         if (! encryption_method_regd(encryption_method.get())) {
           throw std::invalid_argument("unregistered encryption method");
@@ -1371,7 +1436,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (boost::none == data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 7814d01..7c69901 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -194,6 +194,9 @@ namespace scribbu {
       //// Retrieve the size of this extended header-- will throw if the size
       //// calculation is dirty
       std::size_t size() const;
+      /// The number of bytes this extended header occupied when read
+      std::size_t size_on_read() const
+      { return cb_read_; }
       bool is_update() const
       { return is_update_; }
       bool has_crc() const
@@ -209,6 +212,7 @@ namespace scribbu {
     private:
       mutable bool size_dirty_;
       mutable std::size_t size_;
+      std::size_t cb_read_;
       bool is_update_;
       bool fcrc_;
       mutable bool crc_dirty_;
@@ -254,6 +258,8 @@ namespace scribbu {
     /// Compute the size of this tag (in bytes) exclusive of the ID3v2 header
     /// (i.e. return the total tag size, in bytes, less ten)
     virtual std::size_t size(bool unsync = false) const;
+    /// Return the number of bytes write() will produce, including the ID3v2 header
+    virtual std::size_t size_on_disk(bool unsync = false) const;
     /// Return true if all frames would contain false syncs if serialized in
     /// their present state
     virtual bool needs_unsynchronisation() const;
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..8ce0d2f 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -499,7 +499,7 @@ namespace scribbu {
     size_t cb_tot = 0, cb_pad = 0;
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      cb_tot += (*p0)->size(do_unsync) + 10;
+      cb_tot += (*p0)->size_on_disk(do_unsync);
       cb_pad += (*p0)->padding();
     }
     return std::make_tuple(cb_tot, cb_pad);
-- 
2.43.0


From 025a66380d8f87f4e5e223446e3578c583ec23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:01 +0000
Subject: [PATCH 05/72] fix: never serialize a frame from a stale cache;
 unsynchronise ID3v2.2 & .3 tags correctly

Frames whose contents had changed after being measured or written were
written in their previous form.  ID3v2.2 frames swapped their plain and
unsynchronised forms, and a trailing 0xff was counted but not protected.
---
 scribbu/framesv2.cc  |  4 ++--
 scribbu/framesv22.cc | 14 ++++++++++----
 scribbu/framesv23.cc |  4 +++-
 scribbu/id3v22.cc    | 28 ++++++++++++++++++++++++----
 scribbu/id3v22.hh    |  1 +
 scribbu/id3v23.cc    | 32 ++++++++++++++++++++++++--------
 scribbu/id3v23.hh    |  1 +
 7 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..b6b3889 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 0xe0 <= y;
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (0xe0 <= y || 0 == y);
 }
 
 std::size_t
diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..9ba4b4d 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -78,10 +78,14 @@ namespace scribbu {
 /*virtual*/
 std::size_t
 scribbu::id3v2_2_frame::serialized_size(bool unsync,
-                                        bool /*last_no_pad = false*/) const
+                                        bool last_no_pad /*= false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  std::size_t cb = cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
+  if (unsync && last_no_pad && 0xff == cache_[SERIALIZED].back()) {
+    ++cb;
+  }
+  return cb;
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +107,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
@@ -222,7 +226,9 @@ scribbu::id3v2_2_frame::ensure_cached_data_is_fresh() const
                   cache_[SERIALIZED].begin(),
                   cache_[SERIALIZED].end());
 
-    dirty(false);
+    // NB. We remain "dirty"; the components from which frames are composed
+    // (comments, play_count, tag_cloud &c) can be changed without this class
+    // learning of it, so we may never assume our cache is up-to-date.
   }
 }
 
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 035d9b5..3981ef1 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -245,7 +245,9 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
                   last_no_pad);
     unsynchronise_frame(payload, cb_no_ceu, cache_[SERIALIZED_WITH_CEU]);
 
-    dirty(false);
+    // NB. We remain "dirty"; the components from which frames are composed
+    // (comments, play_count, tag_cloud &c) can be changed without this class
+    // learning of it, so we may never assume our cache is up-to-date.
   }
 
 }
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 41ebaab..1a7948f 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -251,9 +251,13 @@ scribbu::id3v2_2_tag::flags() const
 std::size_t
 scribbu::id3v2_2_tag::size(bool unsync) const
 {
-  return std::accumulate(begin(), end(), padding(),
-                        [unsync](size_t n, const id3v2_2_frame &f)
-                        { return n + f.serialized_size(unsync); });
+  size_t cb = std::accumulate(begin(), end(), padding(),
+                              [unsync](size_t n, const id3v2_2_frame &f)
+                              { return n + f.serialized_size(unsync); });
+  if (unsync && ends_in_ff()) {
+    ++cb;
+  }
+  return cb;
 }
 
 /*virtual*/
@@ -272,12 +276,17 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
   // Write the header... taking care to add the "unsync" flag if we're
   // applying unsynchronisation
   unsigned char f = flags();
-  if (unsync) f |= 0x80;
+  if (unsync) f |= 0x80; else f &= ~0x80;
   write_header(os, f, size(unsync));
   // the frames (note we start the accumulation at 10)...
   size_t cb = accumulate(begin(), end(), 10,
                          [&os, unsync](size_t n, const id3v2_2_frame &f)
                          { return n + f.write(os, unsync); });
+  // a 0x00 to protect a trailing 0xff...
+  if (unsync && ends_in_ff()) {
+    os.write(PAD, 1);
+    ++cb;
+  }
   // & the padding.
   size_t cbpad = padding();
   while (cbpad) {
@@ -570,6 +579,17 @@ scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
   return iterator(this, p2);
 }
 
+/// True if our padding is preceded by a 0xff; when applying the
+/// unsynchronisation scheme such a byte must be followed by an extra 0x00,
+/// lest the first byte of padding be discarded on read
+bool
+scribbu::id3v2_2_tag::ends_in_ff() const
+{
+  return padding() && !frames_.empty() &&
+    frames_.back()->serialized_size(true, true) !=
+    frames_.back()->serialized_size(true, false);
+}
+
 std::ostream&
 scribbu::id3v2_2_tag::write_header(std::ostream &os,
                                    unsigned char flags,
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 2ad86b7..fb02ac4 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -531,6 +531,7 @@ namespace scribbu {
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void rebuild_lookups();
+    bool ends_in_ff() const;
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index fa80f0f..ce04c41 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -250,7 +250,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
@@ -302,7 +302,8 @@ scribbu::id3v2_3_tag::ext_header::ensure_cached_data_is_fresh() const
                                  true);
   unsynchronise(back_inserter(cache_[SERIALIZED_WITH_UNSYNC]),
                 cache_[SERIALIZED].begin(),
-                cache_[SERIALIZED].end());
+                cache_[SERIALIZED].end(),
+                true);
 
   dirty_ = false;
 }
@@ -498,7 +499,7 @@ scribbu::id3v2_3_tag::size(bool unsync) const
 
   // we of course include all our frames. We need to treat the last frame
   // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
+  // sync).
   size_t cb_pad = padding();
 
   auto p = begin(), p1 = end();
@@ -508,7 +509,7 @@ scribbu::id3v2_3_tag::size(bool unsync) const
       cb += p->serialized_size(unsync);
       p += 1;
     }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+    cb += p->serialized_size(unsync, true);
   }
 
   // as well as any padding.
@@ -562,8 +563,6 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
     }
   }
 
-  size_t cb_pad = padding();
-
   auto p = begin(), p1 = end();
   if (p != p1) {
     p1 -= 1;
@@ -573,7 +572,7 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
       }
       p += 1;
     }
-    if (p->needs_unsynchronisation(cb_pad == 0)) {
+    if (p->needs_unsynchronisation(true)) {
       return true;
     }
   }
@@ -630,7 +629,7 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
   using namespace std;
 
   unsigned char f = flags();
-  if (unsync) f |= 0x80;
+  if (unsync) f |= 0x80; else f &= ~0x80;
   write_header(os, f, size(unsync));
   size_t cb = 10;
 
@@ -645,6 +644,13 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
                   [&os, unsync](size_t n, const id3v2_3_frame &f)
                   { return n + f.write(os, unsync); });
 
+  // A trailing 0xff needs to be protected from whatever comes next (the audio,
+  // or our own padding).
+  if (unsync && ends_in_ff()) {
+    os.write(PAD, 1);
+    ++cb;
+  }
+
   size_t cbpad = padding();
   while (cbpad) {
     size_t towrite = min(cbpad, CBPAD);
@@ -941,6 +947,16 @@ scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
   return iterator(this, p2);
 }
 
+/// True if the last byte of our last frame is 0xff; when applying the
+/// unsynchronisation scheme such a byte must be followed by an extra 0x00
+bool
+scribbu::id3v2_3_tag::ends_in_ff() const
+{
+  return !frames_.empty() &&
+    frames_.back()->serialized_size(true, true) !=
+    frames_.back()->serialized_size(true, false);
+}
+
 std::ostream&
 scribbu::id3v2_3_tag::write_header(std::ostream &os,
                                    unsigned char flags,
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index a2cea52..1cdfb33 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -600,6 +600,7 @@ namespace scribbu {
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void rebuild_lookups();
+    bool ends_in_ff() const;
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
-- 
2.43.0


From deea6a1556f4ce968247f858e708bba7f52594d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:31 +0000
Subject: [PATCH 06/72] fix: reject malformed ID3v2 tags instead of reading
 past their ends

Frame sizes are checked against what remains of the tag, not its total size;
so are extended headers and the optional fields of a frame.  An encrypted
ENCR frame no longer causes an endless loop, and the stream's state and
exception mask are restored on error.
---
 scribbu/id3v2.cc  | 10 +++++++--
 scribbu/id3v22.cc | 15 ++++++++++++++
 scribbu/id3v23.cc | 52 +++++++++++++++++++++++++++++++++++++++++++----
 scribbu/id3v24.cc | 52 +++++++++++++++++++++++++++++++++++++++--------
 4 files changed, 115 insertions(+), 14 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 27b4d9f..ca1c2b8 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -487,29 +487,35 @@ scribbu::id3v2_tag::parse_flags_and_size(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     throw;
   }
 
   unsigned char flags = buf[0];
 
   std::size_t cb = 0;
+  bool sync_safe = false;
   if (0x80 > buf[1] && 0x80 > buf[2] &&
       0x80 > buf[3] && 0x80 > buf[4]) {
 
     cb = unsigned_from_sync_safe(buf[1], buf[2], buf[3], buf[4]);
+    sync_safe = true;
 
   } // End if on bytes 6-9 being a sync-safe int.
 
-  if (0 == cb) {
+  if (!sync_safe) {
     is.seekg(here, std::ios_base::beg);
   }
 
   // Restore the exception mask
   is.exceptions(exc_mask);
 
+  if (!sync_safe) {
+    throw invalid_tag();
+  }
+
   return std::make_pair(flags, cb);
 
 } // End method parse_flags_and_size.
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 1a7948f..3337f2f 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -804,6 +804,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
+      if (left < 3) {
+        throw invalid_tag();
+      }
+
       // left > 2
       frame_id3 id(p0[0], p0[1], p0[2]);
       if (PADDING == id) {
@@ -833,6 +837,11 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         throw invalid_tag();
       }
 
+      // Likewise, it must fit in what remains.
+      if (cb_frame > left - 6) {
+        throw invalid_tag();
+      }
+
       // Finally, parse the frame (parse_frame will update all our internal
       // datastructures).
       parse_frame(id, p0 + 6, p0 + 6 + cb_frame);
@@ -840,10 +849,16 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    // NB. the stream may be in an error state
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    // NB. the stream may be in an error state
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index ce04c41..4432411 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -189,6 +189,10 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p1 - p0 < 10) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
@@ -197,6 +201,10 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
     throw invalid_ext_header();
   }
 
+  if (fcrc && p1 - p0 < 14) {
+    throw invalid_ext_header();
+  }
+
   cbpad_ = unsigned_from_non_sync_safe(p0[6], p0[7], p0[8], p0[9]);
 
   if (fcrc) {
@@ -1065,6 +1073,11 @@ scribbu::id3v2_3_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // zlib can't do better than about 1032:1, so anything much larger than that
+  // is bogus.
+  if (uncompressed_size / 1032 > cb + 1) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
@@ -1133,7 +1146,6 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
     do {
 
       const unsigned char *pcurr = p0;
@@ -1166,6 +1178,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
         if (PADDING == id) {
@@ -1179,6 +1195,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
 
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
+
         if (ENCR != id) {
           continue;
         }
@@ -1191,12 +1211,16 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         id3v2_3_frame::file_alter_preservation fap = (0 != (f0 & 0x40)) ?
           id3v2_3_frame::file_alter_preservation::discard :
           id3v2_3_frame::file_alter_preservation::preserve;
-        id3v2_3_frame::read_only ro = (0 != (f0 & 0x40)) ?
+        id3v2_3_frame::read_only ro = (0 != (f0 & 0x20)) ?
           id3v2_3_frame::read_only::set :
           id3v2_3_frame::read_only::clear;
 
         unsigned char f1 = pcurr[9];
 
+        if (cb_frame < (f1 & 0x80 ? 4U : 0U) + (f1 & 0x40 ? 1U : 0U) + (f1 & 0x20 ? 1U : 0U)) {
+          throw invalid_tag();
+        }
+
         // If the frame is compressed, encrypted, or grouped, there will be
         // additional bytes added starting at pcurr + 10. Since pcurr is used
         // in the loop test clause, we need to capture the 'current read point'
@@ -1226,7 +1250,8 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
         if (boost::none != encryption_method) {
           if (! encryption_method_regd(encryption_method.get())) {
-            found_encrypted = true;
+            // LATER(sp1ff): we can't decrypt it in any event, so there's no
+            // point in making another pass.
             continue;
           }
           std::tie(pf, cb_read) = decrypt(pread, cb_read, encryption_method.get());
@@ -1246,7 +1271,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (false);
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
@@ -1276,6 +1301,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1303,6 +1332,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         throw invalid_tag();
       }
 
+      // Likewise, it must fit in what remains.
+      if (cb_frame > left - 10) {
+        throw invalid_tag();
+      }
+
       unsigned char f0 = p0[8];
 
       id3v2_3_frame::tag_alter_preservation tap = (0 != (f0 & 0x80)) ?
@@ -1317,6 +1351,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       unsigned char f1 = p0[9];
 
+      if (cb_frame < (f1 & 0x80 ? 4U : 0U) + (f1 & 0x40 ? 1U : 0U) + (f1 & 0x20 ? 1U : 0U)) {
+        throw invalid_tag();
+      }
+
       // If the frame is compressed, encrypted, or grouped, there will be
       // additional bytes added starting at pcurr + 10. Since pcurr is used
       // in the loop test clause, we need to capture the 'current read point'
@@ -1362,10 +1400,16 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    // NB. the stream may be in an error state
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    // NB. the stream may be in an error state
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index ec62b08..394f7e8 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1156,6 +1156,11 @@ scribbu::id3v2_4_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // zlib can't do better than about 1032:1, so anything much larger than that
+  // is bogus.
+  if (uncompressed_size / 1032 > cb + 1) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
@@ -1228,7 +1233,6 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
     do {
 
       const unsigned char *pcurr = p0;
@@ -1243,6 +1247,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
 
@@ -1251,18 +1259,22 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (pcurr + 11 > p1) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
 
-        if (ENCR != id) {
-          continue;
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
+        if (ENCR != id) {
+          continue;
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
@@ -1276,6 +1288,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
         unsigned char f1 = pcurr[9];
 
+        if (cb_frame < (f1 & 0x40 ? 1U : 0U) + (f1 & 0x04 ? 1U : 0U) + (f1 & 0x01 ? 4U : 0U)) {
+          throw invalid_tag();
+        }
+
         // If the frame is compressed, encrypted, or grouped, there will be
         // additional bytes added starting at pcurr + 10. Since pcurr is used
         // in the loop test clause, we need to capture the 'current read point'
@@ -1314,7 +1330,8 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
         if (boost::none != encryption_method) {
           if (! encryption_method_regd(encryption_method.get())) {
-            found_encrypted = true;
+            // LATER(sp1ff): we can't decrypt it in any event, so there's no
+            // point in making another pass.
             continue;
           }
           std::tie(pf, cb_read) = decrypt(pread, cb_read, encryption_method.get());
@@ -1337,7 +1354,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (false);
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
@@ -1351,6 +1368,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1378,6 +1399,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         throw invalid_tag();
       }
 
+      // Likewise, it must fit in what remains.
+      if (cb_frame > left - 10) {
+        throw invalid_tag();
+      }
+
       unsigned char f0 = p0[8];
 
       id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
@@ -1392,6 +1418,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       unsigned char f1 = p0[9];
 
+      if (cb_frame < (f1 & 0x40 ? 1U : 0U) + (f1 & 0x04 ? 1U : 0U) + (f1 & 0x01 ? 4U : 0U)) {
+        throw invalid_tag();
+      }
+
       // If the frame is compressed, encrypted, or grouped, there will be
       // additional bytes added starting at pcurr + 10. Since pcurr is used
       // in the loop test clause, we need to capture the 'current read point'
@@ -1453,10 +1483,16 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over all frames.
 
   } catch (const scribbu::error &ex) {
+    // NB. the stream may be in an error state
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    // NB. the stream may be in an error state
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
-- 
2.43.0


From 9c4eff3fa245665fe75a8a4c921a479973cfff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 07/72] fix: parse and serialize frame bodies without
 overrunning them

Truncated text, popularimeter, private, comment and tag cloud bodies were read
past their ends; encryption methods lost their separator when written; play
counts wider than 32 bits, which are written, could not be read.
---
 scribbu/framesv2.cc  | 39 +++++++++++++++++++++++++-------------
 scribbu/framesv2.hh  | 45 +++++++++++++++++++++++++++++++++++---------
 scribbu/framesv22.hh |  2 +-
 scribbu/framesv23.hh |  6 ++++--
 scribbu/framesv24.hh |  2 +-
 5 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index b6b3889..57901ce 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -708,11 +708,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 1 + 1 + data_.size();
 
 }
 
@@ -790,13 +791,13 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
       cbnil_ = 1;
       break;
     case use_unicode::yes:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = false;
       cbnil_ = 1;
       break;
     case use_unicode::with_bom:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = true;
       cbnil_ = 1;
@@ -895,7 +896,8 @@ scribbu::comments::comments(id3v2_version ver,
                             const std::string &text,
                             encoding src,
                             use_unicode unicode,
-                            const std::string &dsc /*= std::string()*/)
+                            const std::string &dsc /*= std::string()*/):
+  ver_(ver)
 {
   if (language::from_locale == lang) {
     lang = language_from_locale();
@@ -950,6 +952,7 @@ scribbu::comments::comments(id3v2_version ver,
     }
   }
 
+  dst_enc_ = dst;
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
     description_ = convert_encoding(dsc, src, dst, add_bom);
@@ -1043,11 +1046,11 @@ scribbu::comments::count_syncs(bool false_only) const
 
   cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
 
-  if (false_only && description_.size() &&
+  if (false_only && description_.size() && text_.size() &&
       is_false_sync(description_.back(), text_.front())) {
     ++cb;
   }
-  else if (!false_only && description_.size() &&
+  else if (!false_only && description_.size() && text_.size() &&
            needs_unsync(description_.back(), text_.front())) {
     ++cb;
   }
@@ -1074,7 +1077,7 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
+  size_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
@@ -1085,12 +1088,17 @@ scribbu::play_count::count() const
     x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
   }
   else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
+    x = ( size_t(counter_[0]) << 24 ) | ( counter_[1] << 16 ) |
       ( counter_[2] << 8 )  | counter_[3];
   }
-  else if (4 < counter_.size()) {
+  else if (sizeof(x) < counter_.size()) {
     throw std::domain_error("CNT overflow");
   }
+  else if (4 < counter_.size()) {
+    for (auto b: counter_) {
+      x = ( x << 8 ) | b;
+    }
+  }
   return x;
 }
 
@@ -1159,7 +1167,7 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
+  size_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
@@ -1170,12 +1178,17 @@ scribbu::popularimeter::count() const
     x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
   }
   else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
+    x = ( size_t(counter_[0]) << 24 ) | ( counter_[1] << 16 ) |
       ( counter_[2] << 8 )  | counter_[3];
   }
-  else if (4 < counter_.size()) {
+  else if (sizeof(x) < counter_.size()) {
     throw std::domain_error("CNT overflow");
   }
+  else if (4 < counter_.size()) {
+    for (auto b: counter_) {
+      x = ( x << 8 ) | b;
+    }
+  }
   return x;
 }
 
@@ -1490,7 +1503,7 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
     // is true, we _could_ have a false sync between the value byte count &
     // the first string.
-    if (false_only) {
+    if (false_only && !kv.second.empty()) {
       unsigned char y = (unsigned char)(kv.second.begin()->front());
       if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
         ++nsync;
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..90238e9 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -91,8 +91,14 @@ namespace scribbu {
       // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
       std::size_t saw_nil = 0;
       for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
+        if (1 == code_unit) {
+          if (0 == *p0) {
+            break;
+          }
+        }
+        else if (p0 + 1 == p1) {
+          // incomplete code unit
+          return p1;
         }
         else {
           unsigned char b0 = *p0, b1 = *(p0 + 1);
@@ -262,7 +268,7 @@ namespace scribbu {
   class frame_id3
   {
   public:
-    frame_id3()
+    frame_id3(): experimental_(false)
     { id_[0] = id_[1] = id_[2] = 0; }
     frame_id3(unsigned char id0, unsigned char id1, unsigned char id2);
     frame_id3(const unsigned char id[3]);
@@ -308,7 +314,7 @@ namespace scribbu {
   class frame_id4
   {
   public:
-    frame_id4()
+    frame_id4(): experimental_(false)
     { id_[0] = id_[1] = id_[2] = id_[3] = 0; }
     frame_id4(unsigned char id0, unsigned char id1,
               unsigned char id2, unsigned char id3);
@@ -530,7 +536,7 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1): method_symbol_(0) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
@@ -598,7 +604,7 @@ namespace scribbu {
                       forward_input_iterator p1):
       cbnil_(1)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
         cbnil_ = unicode_ ? 2: 1;
@@ -689,7 +695,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{0, 0, 0}
     {
       if (p0 != p1) {
 
@@ -843,7 +852,7 @@ namespace scribbu {
 
     template <typename forward_output_iterator>
     forward_output_iterator counterb(forward_output_iterator p) const {
-      std::copy(counter_.begin(), counter_.end(), p);
+      return std::copy(counter_.begin(), counter_.end(), p);
     }
 
     std::size_t count() const;
@@ -898,10 +907,13 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1): rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
+      if (p == p1 || p + 1 == p1) {
+        return;
+      }
       ++p;
       rating_ = *p++;
       std::copy(p, p1, std::back_inserter(counter_));
@@ -998,11 +1010,19 @@ namespace scribbu {
     {
       using namespace std;
 
+      if (p0 == p1) {
+        return;
+      }
+
       ++p0; // version
 
       forward_input_iterator p = find(p0, p1, 0);
       copy(p0, p, back_inserter(own_));
 
+      if (p == p1) {
+        return;
+      }
+
       p0 = ++p;
       while (p0 != p1) {
 
@@ -1010,6 +1030,10 @@ namespace scribbu {
         string key;
         copy(p0, p, back_inserter(key));
 
+        if (distance(p, p1) < 5) {
+          throw invalid_argument("truncated tag cloud");
+        }
+
         unsigned char buf[4];
         copy(p + 1, p + 5, buf);
         const uint32_t *pb = (const uint32_t*)(buf);
@@ -1021,6 +1045,9 @@ namespace scribbu {
           p = find(p0, p1, 0);
           string val;
           copy(p0, p, back_inserter(val));
+          if (p == p1 || val.length() + 1 > cb) {
+            throw invalid_argument("malformed tag cloud");
+          }
           p0 = ++p;
           vals.insert(val);
           cb -= val.length() + 1;
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..fa3c196 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -338,7 +338,7 @@ namespace scribbu {
                        forward_input_iterator p1):
       id3v2_2_frame(id)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 72e4e73..9740a60 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -344,7 +344,9 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
+      if (p != p1) {
+        ++p;
+      }
       std::copy(p, p1, std::back_inserter(contents_));
     }
     /// Construct "from scratch"
@@ -699,7 +701,7 @@ namespace scribbu {
                        const opt_sz_type       &decsz):
       id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index b539cf3..6683bc6 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -448,7 +448,7 @@ namespace scribbu {
                        const boost::optional<std::size_t>   &dli):
       id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
     // char[4]
-- 
2.43.0


From 824a128292faebce7cd294e8656e1ac697d795fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:44 +0000
Subject: [PATCH 08/72] fix: initialize the flags and padding of an ID3v2.2 tag
 made from scratch

---
 scribbu/id3v22.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index fb02ac4..0c949d3 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,7 +95,8 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0),
+      compression_(false), padding_(cbpad)
     { }
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
-- 
2.43.0


From f808bd7ce33f3a600c2ed53da54bcb524f9af63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:04 +0000
Subject: [PATCH 09/72] fix: adjust padding evenly or not at all; copy when
 tags can't be emplaced

---
 scribbu/tagset.hh | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 8ce0d2f..60b5535 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -660,20 +660,29 @@ namespace scribbu {
 
     ptrdiff_t total_adj = cb_new - cb_curr;
     ptrdiff_t num_tags = std::distance(p0, p1);
+    if (0 == num_tags) {
+      if (0 == total_adj) {
+        return;
+      }
+      throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+    }
     ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
 
-    size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
-      throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+    // Make sure there's enough padding everywhere before changing any of it.
+    ptrdiff_t reqd = -(adj + mu);
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      if (reqd > 0 && reqd > (*p)->padding()) {
+        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+      }
+      reqd = -adj;
     }
+
+    size_t pad = (*p0)->padding();
     (*p0)->padding(pad + adj + mu);
     ++p0;
 
     for ( ; p0 != p1; ++p0) {
       pad = (*p0)->padding();
-      if (adj < 0 && -adj > pad) {
-        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
-      }
       (*p0)->padding(pad + adj);
     }
   }
@@ -718,17 +727,28 @@ namespace scribbu {
     size_t subs_sz, subs_pad;
     std::tie(subs_sz, subs_pad) = tagset_sizes(p0, p1, unsync);
 
-    if (subs_sz <= curr_sz) {
-      // we can emplace
-      if (subs_sz < curr_sz) {
-        adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
+    // Adjust the padding in [p0, p1) so as to fill `curr_sz'; return false if
+    // that can't be done
+    auto fit = [&]() {
+      size_t sz = std::get<0>(tagset_sizes(p0, p1, unsync));
+      try {
+        if (sz != curr_sz) {
+          adjust_padding_to(p0, p1, curr_sz, sz, pstrat);
+        }
+      } catch (const invalid_tagset_request &) {
+        return false;
       }
+      return curr_sz == std::get<0>(tagset_sizes(p0, p1, unsync));
+    };
+
+    if (0 != subs_sz && subs_sz <= curr_sz && fit()) {
+      // we can emplace
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
     else if (curr_sz >= subs_sz - subs_pad &&
-             emplace_strategy::only_with_full_padding != estrat) {
+             0 != subs_sz &&
+             emplace_strategy::only_with_full_padding != estrat && fit()) {
       // we can emplace, if we reduce the padding in [p0,p1)
-      adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
     else if (!fs::exists(pth)) {
-- 
2.43.0


From 865edbe61547c9b252922f8c2be03a35ceb34051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:04 +0000
Subject: [PATCH 10/72] fix: number backups correctly when the file is named by
 a relative path

---
 scribbu/tagset.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 60b5535..e755754 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -219,7 +219,8 @@ namespace scribbu {
       using namespace std::filesystem;
 
       auto here = absolute(pth).parent_path();
-      auto prefix = pth.string();
+      // NB. The directory entries, below, will all begin with `here'
+      auto prefix = (here / pth.filename()).string();
       size_t nprefix = prefix.length();
 
       vector<path> entries;
@@ -248,7 +249,8 @@ namespace scribbu {
           }
         }
 
-        if (! all_num) {
+        // (more digits than we can count past can't be one of ours)
+        if (! all_num || s.length() - nprefix > 18) {
           continue;
         }
 
@@ -263,13 +265,13 @@ namespace scribbu {
 
       sort(entries.begin(), entries.end(),
            [](const path &p1, const path &p2) {
-             int x0 = atoi(p1.extension().string().substr(1).c_str());
-             int x1 = atoi(p2.extension().string().substr(1).c_str());
+             long long x0 = atoll(p1.extension().string().substr(1).c_str());
+             long long x1 = atoll(p2.extension().string().substr(1).c_str());
              return x0 < x1;
            });
 
       string s = entries.back().extension().string().substr(1);
-      int n = atoi(s.c_str());
+      long long n = atoll(s.c_str());
       n += 1;
 
       stringstream stm;
-- 
2.43.0


From 8b292bfaf0c2a6eeec0c8dada045c88a5cfa1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:31 +0000
Subject: [PATCH 11/72] fix: leave no working files behind when a file's tags
 are rewritten

The temporary copy was left behind when it was on another filesystem and a
backup was kept, and whenever an error was reported; an unrequested backup was
left behind when it was on another filesystem and no backup was kept.
---
 scribbu/tagset.hh | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index e755754..0347056 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -370,6 +370,14 @@ namespace scribbu {
     // the event I hit it (the race condition).
     char buf[L_tmpnam];
     fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+
+    // However we leave this method, don't leave the temp file behind.
+    struct remove_on_exit {
+      fs::path p;
+      ~remove_on_exit()
+      { std::error_code ec; fs::remove(p, ec); }
+    } cleanup{tmpnam};
+
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
 
@@ -430,6 +438,8 @@ namespace scribbu {
       std::error_code ec;
       fs::copy(pth, cp, ec);
       if (ec) {
+        std::error_code ec1;
+        fs::remove(cp, ec1); // likely incomplete
         throw std::system_error(ec);
       }
     }
@@ -448,22 +458,30 @@ namespace scribbu {
           if (fs::exists(cp)) {
             fs::remove(cp);
           }
-          fs::copy(pth, cp);
+          std::error_code ec1;
+          if (!fs::copy_file(pth, cp, ec1)) {
+            std::error_code ec2;
+            fs::remove(cp, ec2); // likely incomplete
+            throw std::system_error(ec1);
+          }
         }
-        // remove the original...
-        fs::remove(pth);
-        // and attempt the copy & remmove
         try {
+          // remove the original...
+          fs::remove(pth);
+          // and attempt the copy & remmove
           fs::copy_file(tmpnam, pth);
-          if (! keep_backup) {
-            fs::remove(tmpnam);
-          }
         } catch (const std::exception &ex) {
           // Well, we're kind of screwed. At least attempt to put the original
           // file back.
-          fs::copy(cp, pth, ec); // `ec' ignored intentionally on return
+          fs::copy_file(cp, pth, fs::copy_options::overwrite_existing, ec);
+          if (! ec && ! keep_backup) {
+            fs::remove(cp, ec);
+          }
           throw;
         }
+        if (! keep_backup) {
+          fs::remove(cp);
+        }
       } else {
         throw std::system_error(ec);
       }
-- 
2.43.0


From 62354c9c5689e80d4fdf6f36094c21c28bbd79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:03 +0000
Subject: [PATCH 12/72] fix: keep ID3v1 tags' fields at their sizes; find only
 complete ID3v1 tags

A tag changed through its setters could be written at the wrong length.
A tag made from scratch carried indeterminate bytes. 'TAG+' was taken for
a tag even when no 'TAG' followed it.
---
 scribbu/id3v1.cc   | 28 ++++++++++++++++++++++++----
 scribbu/id3v1.hh   | 23 +++++++++++++++++------
 scribbu/scribbu.cc | 15 +++++++++++----
 3 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..459edc8 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -80,7 +80,7 @@ scribbu::id3v1_tag::DEF_ON_NO_ENCODING(on_no_encoding::fail);
  *
  */
 
-scribbu::id3v1_tag::id3v1_tag(std::istream &is)
+scribbu::id3v1_tag::id3v1_tag(std::istream &is): id3v1_tag(false, false)
 {
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
@@ -115,15 +115,21 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
 
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();
+  } catch (const invalid_tag &) {
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
 
 scribbu::id3v1_tag::id3v1_tag(std::istream &is,
-                              bool          enhanced)
+                              bool          enhanced):
+  id3v1_tag(false, false)
 {
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
@@ -147,11 +153,19 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
       init_standard(buf);
     }
 
+    // Restore the exception mask
+    is.exceptions(exc_mask);
+
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();;
+  } catch (const invalid_tag &) {
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
@@ -483,8 +497,14 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       is.seekg(-355, std::ios_base::end);
       is.read(buf, 4);
       if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-        I.start_ = is.tellg() - (std::streampos) 4;
-        I.type_ = id3_v1_tag_type::v_1_extended;
+        std::streampos start = is.tellg() - (std::streampos) 4;
+        // An enhanced tag always precedes a standard one
+        is.seekg(-128, std::ios_base::end);
+        is.read(buf, 3);
+        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+          I.start_ = start;
+          I.type_ = id3_v1_tag_type::v_1_extended;
+        }
       }
     }
   }
diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 56651f9..7650199 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -272,7 +272,9 @@ namespace scribbu {
       artist_(enh ? 90 : 30),
       genre_(0),
       ext_genre_(enh ? 30 : 0),
-      title_(enh ? 90 : 30)
+      speed_(0),
+      title_(enh ? 90 : 30),
+      track_number_(0)
     {
       if (v11) {
         comment_.resize(28);
@@ -384,7 +386,7 @@ namespace scribbu {
     {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       comment_ = convert_encoding(text, srcenc, dst, add_bom, rsp);
-      comment_.resize(enhanced() ? TEXT_SZ_ENH : TEXT_SZ, 0);
+      comment_.resize(v1_1() ? TEXT_SZ - 2 : TEXT_SZ, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -431,7 +433,7 @@ namespace scribbu {
       ext_genre_ = convert_encoding<string_type>(text, srcenc, dst, add_bom,
                                                  rsp);
       ext_genre_.resize(TEXT_SZ, 0);
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -445,7 +447,7 @@ namespace scribbu {
     void set_speed(unsigned char speed)
     {
       speed_ = speed;
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -474,7 +476,7 @@ namespace scribbu {
       while (i < 6) {
         start_time_[i++] = 0;
       }
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -504,7 +506,7 @@ namespace scribbu {
       while (i < 6) {
         end_time_[i++] = 0;
       }
-      extended_ = true;
+      make_extended();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -549,6 +551,7 @@ namespace scribbu {
     {
       track_number_ = track;
       v1_1_ = true;
+      comment_.resize(TEXT_SZ - 2, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -611,6 +614,14 @@ namespace scribbu {
 
     void init_standard(unsigned char *p);
     void init_extended(unsigned char *p);
+    void make_extended()
+    {
+      extended_ = true;
+      title_.resize(TEXT_SZ_ENH, 0);
+      artist_.resize(TEXT_SZ_ENH, 0);
+      album_.resize(TEXT_SZ_ENH, 0);
+      ext_genre_.resize(TEXT_SZ, 0);
+    }
 
   private:
 
diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..ab5af1d 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -168,7 +168,13 @@ scribbu::find_id3v1_tag(std::istream &is)
     if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
       // ID3v1 extended tag at `tag'; stream ptr at `tag' + 4.
       tag = is.tellg() - (std::streampos) 4;
-      tag_type = id3_v1_tag_type::v_1_extended;
+      // An enhanced tag always precedes a standard one (& can't begin before
+      // `here')
+      is.seekg(-128, std::ios_base::end);
+      is.read(buf, 3);
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && here <= tag) {
+        tag_type = id3_v1_tag_type::v_1_extended;
+      }
     }
   }
   catch (const std::ios_base::failure &ex) {
@@ -178,7 +184,7 @@ scribbu::find_id3v1_tag(std::istream &is)
     is.clear();
     is.seekg(0, std::ios_base::end);
     tag = is.tellg();
-    is.exceptions(exc_mask);
+    is.exceptions(EXC_MASK);
   }
 
   if (id3_v1_tag_type::none == tag_type) {
@@ -186,7 +192,8 @@ scribbu::find_id3v1_tag(std::istream &is)
     try {
       is.seekg(-128, std::ios_base::end);
       is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] &&
+          here <= is.tellg() - (std::streampos) 3) {
         // ID3v1 tag at `tag'; stream ptr at `tag' + 3
         tag = is.tellg() - (std::streampos) 3;
         tag_type = id3_v1_tag_type::v_1;
@@ -315,8 +322,8 @@ scribbu::track_data::track_data(std::istream &is) :
   }
 
   // Finally, patch-up the istream according to this method's contract.
-  is.seekg(tag, std::ios_base::beg);
   is.clear(); // `eof' may be set
+  is.seekg(tag, std::ios_base::beg);
   is.exceptions(exc_mask);
 }
 
-- 
2.43.0


From 876eab3222c5865ea17ac8e185977a1715632158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:57 +0000
Subject: [PATCH 13/72] fix: refuse to write tags in place when the file ends
 before its tags do

The tags were written up to the end of the file, truncated.
---
 scribbu/tagset.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 0347056..4354b5f 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -609,7 +609,8 @@ namespace scribbu {
     size_t cb_new, cb_pad;
     std::tie(cb_new, cb_pad) = tagset_sizes(p0, p1, unsync);
 
-    if (cb_extant != cb_new) {
+    // (NB. a truncated file may end before its last tag says it does)
+    if (cb_extant != cb_new || cb_extant > std::filesystem::file_size(pth)) {
       throw invalid_tagset_request(invalid_tagset_request::emplace_mismatch_sz);
     }
 
-- 
2.43.0


From bce98d4be52ea006ccfa8b8aa28b7e0ec7cd9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:57 +0000
Subject: [PATCH 14/72] fix: read_id3v2 parsed the tag's header as frames

It restored the read position before handing the stream on.
---
 scribbu/id3v2-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index f3eeea4..64d2239 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -72,7 +72,7 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
     ifs.seekg(I.size_ + scribbu::ID3V2_HEADER_SIZE, std::ifstream::cur);
   }
 
-  id3v2_info I = looking_at_id3v2(ifs, true);
+  id3v2_info I = looking_at_id3v2(ifs, false);
   if (!I.present_) {
     throw std::invalid_argument("bad index");
   }
-- 
2.43.0


From 07f2d728f45e0d511b9c1bccfba73a2d58353743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:28 +0000
Subject: [PATCH 15/72] fix: report read errors and unnameable temporary files
 instead of carrying on

A read error while looking for an ID3v2 tag was taken for the absence of a
tag, so the old tag was copied as audio.
---
 scribbu/id3v2.cc  | 4 ++++
 scribbu/tagset.hh | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index ca1c2b8..08309f6 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -178,9 +178,13 @@ scribbu::looking_at_id3v2(std::istream &is,
   try {
     is.read((char*)buf, ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
+    bool bad = is.bad();
     is.clear();
     is.exceptions(exc_mask);
     is.seekg(here, std::ios_base::beg);
+    if (bad) {
+      throw; // we don't know what's there
+    }
     return H;
   }
 
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 4354b5f..dfd86e5 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -369,7 +369,10 @@ namespace scribbu {
     // truncate on open, hoping to merely stomp on the other process' file in
     // the event I hit it (the race condition).
     char buf[L_tmpnam];
-    fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+    if (!std::tmpnam(buf)) {
+      throw std::system_error(errno, std::system_category());
+    }
+    fs::path tmpnam = fs::temp_directory_path() / buf;
 
     // However we leave this method, don't leave the temp file behind.
     struct remove_on_exit {
-- 
2.43.0


From a8d9a6d7863cdefb29c6196c06b7c5818d0c0fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:07 +0000
Subject: [PATCH 16/72] fix: compute_track_md5 read from the wrong place when
 not told where the track ends

---
 scribbu/scribbu.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index ab5af1d..0949937 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -236,6 +236,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   std::streampos here, tag;
   if (hint == EOF) {
     std::tie(here, tag) = find_id3v1_tag(is);
+    is.seekg(here, std::ios_base::beg);
   } else {
     here = is.tellg();
     tag = hint;
@@ -260,7 +261,14 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
 
     std::streamsize nbytes = BUFSIZE > nleft ? nleft : BUFSIZE;
 
-    is.read((char*)BUF, nbytes);
+    try {
+      is.read((char*)BUF, nbytes);
+    } catch (const std::ios_base::failure&) {
+      EVP_MD_CTX_destroy(mdctx);
+      is.clear();
+      is.exceptions(exc_mask);
+      throw;
+    }
     if (! EVP_DigestUpdate(mdctx, BUF, nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
       throw new openssl_error();
-- 
2.43.0


From 8ad04e3c8ab03a240bc16532b1acee1ab6556e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:36 +0000
Subject: [PATCH 17/72] fix: ask for the play count of an ID3v2.4 tag by its
 own identifier

id3v2_4_tag::has_play_count() looked for CNT, the ID3v2.2 identifier, so
it was always zero and play_count() always threw.
---
 scribbu/id3v24.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 7c69901..efacd93 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -341,7 +341,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return frame_map_.count("PCNT"); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From b274b28c9c5853e64fc9640f96c5f7d7f7143ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:37 +0000
Subject: [PATCH 18/72] fix: name every ID3v2.2 text frame by its identifier

Media type, original album, lyricist, artist and year had none, so setting
them threw; beats per minute used an identifier that is not read back.
---
 scribbu/framesv2.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 57901ce..40e12b3 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -356,7 +356,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
@@ -387,8 +387,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
-- 
2.43.0


From 845b7286ea23b1d2d60714473da70f26175d8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:49 +0000
Subject: [PATCH 19/72] fix: read MP3 headers without overrun and give the
 stream back as it was

The LAME and VBRI headers were read past the end of their buffers or
from too few bytes, a truncated header left fields unset, and searching
for a sync word lost the stream's position and exception mask.  The
duration also assumed that every frame is as long as the first.
---
 scribbu/mp3.cc | 72 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index aeb7e30..979618d 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -72,7 +72,7 @@ namespace {
   is_lame(char buf[]) {
     return
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
-      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
+      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
 }
 
@@ -82,7 +82,7 @@ namespace {
 
 scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 {
-  uint16_t ns;
+  uint16_t ns = 0;
   is.read((char*)&ns, 2);
   version_ = ntohs(ns);
 
@@ -92,16 +92,16 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   quality_ = ntohs(ns);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   file_size_bytes_ = ntohl(nl);
 
   is.read((char*)&nl, 4);
   num_frames_ = ntohl(nl);
 
-  uint16_t num_entries;
-  is.read((char*)&num_entries, 4);
-  num_entries = ntohl(num_entries);
+  uint16_t num_entries = 0;
+  is.read((char*)&num_entries, 2);
+  num_entries = ntohs(num_entries);
 
   is.read((char*)&ns, 2);
   scale_ = ntohs(ns);
@@ -112,6 +112,10 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   frames_per_toc_entry_ = ntohs(ns);
 
+  if (!is) {
+    throw std::invalid_argument("truncated VBRI header");
+  }
+
   toc_.resize(num_entries * toc_entry_size_);
   is.read((char*)toc_.data(), num_entries * toc_entry_size_);
 }
@@ -122,7 +126,7 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 
 scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
 {
-  std::uint8_t buf[4];
+  std::uint8_t buf[4] = { 0, 0, 0, 0 };
   is.read((char*)buf, 4);
 
   bool frames_present = 0 != (buf[3] & 0x01);
@@ -130,7 +134,7 @@ scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
   bool toc_present    = 0 != (buf[3] & 0x04);
   bool qual_present   = 0 != (buf[3] & 0x08);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   if (frames_present) {
     is.read((char*)&nl, 4);
     num_frames_ = ntohl(nl);
@@ -150,6 +154,10 @@ scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
     is.read((char*)&nl, 4);
     quality_ = ntohl(nl);
   }
+
+  if (!is) {
+    throw std::invalid_argument("truncated Xing header");
+  }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -161,12 +169,12 @@ scribbu::lame_mp3_tag::lame_mp3_tag(char tag_id[], std::istream &is)
   lame_id_[0] = tag_id[0]; lame_id_[1] = tag_id[1];
   lame_id_[2] = tag_id[2]; lame_id_[3] = tag_id[3];
 
-  char rest[5];
+  char rest[5] = { 0, 0, 0, 0, 0 };
   is.read(rest, 5);
   lame_id_[4] = rest[0]; lame_id_[5] = rest[1]; lame_id_[6] = rest[2];
   lame_id_[7] = rest[3]; lame_id_[8] = rest[4];
 
-  char b;
+  char b = 0;
   is.read(&b, 1);
   vbr_method_ = vbr_method_for_bits(b & 0xf);
 
@@ -177,7 +185,7 @@ scribbu::lame_mp3_tag::lame_mp3_tag(char tag_id[], std::istream &is)
 
   is.seekg(7, std::ios_base::cur);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   size_bytes_ = ntohl(nl);
 }
@@ -335,7 +343,7 @@ scribbu::mp3_audio_frame::parse_header(std::uint8_t hdr[4], std::istream &is)
 
     // protected?
     if ((hdr[1] & 0x01) == 0) {
-      std::uint16_t crc;
+      std::uint16_t crc = 0;
       is.read((char*)&crc, 2);
       crc_ = ntohs(crc);
     }
@@ -514,6 +522,7 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
     }
   }
 
+  is.clear(); // we may have looked past the end
   is.seekg(here, std::ios_base::beg);
 }
 
@@ -569,18 +578,22 @@ scribbu::find_sync(std::istream &is)
   is.exceptions(EXC_MASK);
 
   std::istream::pos_type here = is.tellg();
-  std::uint8_t buf[2];
+  std::uint8_t buf[2] = { 0, 0 };
   is.read((char*)buf, 2);
-  bool hit = is_sync(buf);
+  bool hit = is && is_sync(buf);
   while (is && !hit) {
     here += buf[1] == 0xff ? 1 : 2;
     is.seekg(here, std::ios_base::beg);
     is.read((char*)buf, 2);
-    hit = is_sync(buf);
+    hit = is && is_sync(buf);
   }
+  is.clear();
   if (hit) {
     is.seekg(here, std::ios_base::beg);
+  } else {
+    is.seekg(0, std::ios_base::end);
   }
+  is.exceptions(exc_mask);
 }
 
 double
@@ -596,15 +609,21 @@ scribbu::get_mp3_duration(std::istream &is)
 
   std::istream::pos_type here = is.tellg();
 
-  std::uint8_t hdr[4];
+  double dur;
+
+  try {
+
+  std::uint8_t hdr[4] = { 0, 0, 0, 0 };
   is.read((char*)hdr, 4);
   if (is && !is_sync(hdr)) {
+    is.seekg(here + std::istream::off_type(1), std::ios_base::beg);
     find_sync(is);
     is.read((char*)hdr, 4);
   }
   if (!is || !is_sync(hdr)) {
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     return 0.0;
   }
 
@@ -612,8 +631,6 @@ scribbu::get_mp3_duration(std::istream &is)
   mp3_audio_frame f(hdr, is, true);
   std::tie(num, den) = f.duration();
 
-  double dur;
-
   auto vbri = f.vbri();
   if (vbri) {
     std::size_t num_frames, num_bytes;
@@ -622,21 +639,34 @@ scribbu::get_mp3_duration(std::istream &is)
     dur = double(num) * double(num_frames) / double(den);
     is.seekg(num_bytes - f.size(), std::ios_base::cur);
   } else {
-    size_t num_frames = 1; // one frame so far
+    dur = double(num) / double(den); // one frame so far
 
-    for ( ; ; ++num_frames) {
+    for ( ; ; ) {
+      std::istream::pos_type next = is.tellg();
       is.read((char*)hdr, 4);
       if (!is || !is_sync(hdr)) {
         is.clear();
+        if (next != std::istream::pos_type(-1)) {
+          is.seekg(next, std::ios_base::beg);
+        }
         break;
       }
       // construct a "throwaway" frame just to skip the get ptr past a legit MP3
       // frame
       mp3_audio_frame h_(hdr, is);
+      std::tie(num, den) = h_.duration();
+      dur += double(num) / double(den);
     }
-    dur = double(num) * double(num_frames) / double(den);
   }
 
+  }
+  catch (...) {
+    is.clear();
+    is.exceptions(exc_mask);
+    throw;
+  }
+
+  is.clear();
   is.exceptions(exc_mask);
 
   return dur;
-- 
2.43.0


From a159ecda0f5942ea71c800a4f73b4fe53bd3ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:08 +0000
Subject: [PATCH 20/72] fix: write valid JSON for every kind of tag and frame

Frames of ID3v2.2 and 2.4 tags were printed through an ostrstream that
was never terminated, several strings lacked a quote, control characters
and ID3v1 albums were not escaped, and an UFI frame without a forced
encoding dereferenced an empty optional.
---
 scribbu/json-pprinter.cc | 80 +++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..a6fb6e3 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -32,7 +32,8 @@
 #include <boost/algorithm/string/join.hpp>
 
 #include <algorithm>
-#include <strstream>
+#include <iomanip>
+#include <sstream>
 
 /*static*/
 const boost::optional<scribbu::encoding>
@@ -68,13 +69,32 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if (static_cast<unsigned char>(c) < 0x20) {
+        stm << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)c;
+      } else {
+        stm << c;
+      }
       break;
     }
   }
     return stm.str();
 }
 
+namespace {
+
+  /// Each element of \a values as a JSON string
+  std::vector<std::string>
+  quoted_values(const std::set<std::string> &values)
+  {
+    std::vector<std::string> out;
+    for (const std::string &s : values) {
+      out.push_back("\"" + scribbu::json_pprinter::escape(s) + "\"");
+    }
+    return out;
+  }
+
+}
+
 /*virtual*/ std::ostream &
 scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
                                         std::ostream &os)
@@ -83,15 +103,15 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   os << R"({"version":"2.2","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_2_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -117,8 +137,8 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_3_frame &frm) {
-              ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
+              ostringstream stm;
+              stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
 
@@ -135,16 +155,16 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   os << R"({"version":"2.4","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_4_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -189,7 +209,7 @@ scribbu::json_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   }
 
   os << R"({"version":")" << version << R"(","album":")" <<
-    tag.album<string>(v1enc_, dst, rsp) <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) <<
     R"(","artist":")" << escape(tag.artist<string>(v1enc_, dst, rsp)) <<
     R"(","comment":")" << escape(tag.comment<string>(v1enc_, dst, rsp)) <<
     R"(","genre":)" << setbase(10) << (int)tag.genre() <<
@@ -251,9 +271,14 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -301,7 +326,7 @@ scribbu::json_pprinter::pprint_CNT(const CNT &cnt,
 {
   using namespace std;
 
-  return os << R"({"id":"CNT,"size":)" << setbase(10) << cnt.size()
+  return os << R"({"id":"CNT","size":)" << setbase(10) << cnt.size()
             << R"(,"count":)" << cnt.count() << "}";
 }
 
@@ -347,14 +372,15 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" +
+                  join(quoted_values(pr.second), ",") + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -403,7 +429,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -472,7 +498,7 @@ scribbu::json_pprinter::pprint_PCNT(const PCNT &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -518,14 +544,15 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" +
+                  join(quoted_values(pr.second), ",") + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -595,7 +622,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -663,7 +690,7 @@ scribbu::json_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -709,14 +736,15 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" +
+                  join(quoted_values(pr.second), ",") + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
-- 
2.43.0


From 7914f256bd44485bcf285dbdb7a5a63775b7dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:08 +0000
Subject: [PATCH 21/72] fix: print frames without data

---
 scribbu/pprinter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index ae4f2a7..c6b6b2c 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,6 +65,10 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
+  if (p0 == p1) {
+    os << indent << "  ><";
+    return;
+  }
   os << indent << hex << setw(2) << (unsigned)*p0;
   ascii_rep += asciify(*p0);
   for (++p0 ; p0 != p1; ++p0) {
-- 
2.43.0


From 666acaa6a3a0cf95be027210d59d60ac8d6870ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:08 +0000
Subject: [PATCH 22/72] fix: refuse a VBRI table of contents with impossible
 entries

---
 scribbu/mp3.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 979618d..0ae1d4a 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -116,6 +116,10 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
     throw std::invalid_argument("truncated VBRI header");
   }
 
+  if (toc_entry_size_ > 4) {
+    throw std::invalid_argument("bad VBRI table of contents");
+  }
+
   toc_.resize(num_entries * toc_entry_size_);
   is.read((char*)toc_.data(), num_entries * toc_entry_size_);
 }
-- 
2.43.0


From c8ee3716e8ced40ce7b13b1be7fe89929484c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:08 +0000
Subject: [PATCH 23/72] fix: give streams back as they were on two more paths

looking_at_id3v2 on a failed stream left its own exception mask behind;
process_id3v1 did not restore the read position as documented.
---
 scribbu/id3v1.cc | 2 ++
 scribbu/id3v2.cc | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 459edc8..49e6793 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -545,8 +545,10 @@ scribbu::process_id3v1(std::istream &is)
   std::unique_ptr<scribbu::id3v1_tag> p;
   scribbu::id3v1_info I = scribbu::ends_in_id3v1(is);
   if (id3_v1_tag_type::none != I.type_) {
+    std::streampos here = is.tellg();
     is.seekg(I.start_);
     p.reset(new id3v1_tag(is));
+    is.seekg(here);
   }
   return p;
 }
diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 08309f6..295391f 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -161,6 +161,12 @@ scribbu::looking_at_id3v2(std::istream &is,
 {
   using scribbu::detail::unsigned_from_sync_safe;
 
+  // Changing the exception mask of a failed stream would throw, & leave the
+  // caller with our mask
+  if (!is.good()) {
+    throw std::ios_base::failure("looking_at_id3v2: bad stream");
+  }
+
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
-- 
2.43.0


From b312fa0d3732f67c7d28d13f0f1db7f265596185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 24/72] fix: measure a track's duration from its own bytes only

Sync patterns in an ID3v1 tag were taken for further frames.
---
 scribbu/scribbu.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 0949937..73f1d0a 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -27,6 +27,7 @@
 #include <unordered_map>
 
 #include <fstream>
+#include <sstream>
 #include <boost/log/common.hpp>
 
 #include <sys/stat.h>
@@ -321,10 +322,13 @@ scribbu::track_data::track_data(std::istream &is) :
 
   // Re-set the get ptr one more time...
   is.seekg(here, std::ios_base::beg);
-  // and compute the duration of the audio data. This may or may not require
-  // re-reading all of it, depending on whether or not VBRI is present.
+  // and compute the duration of the audio data; nothing in the ID3v1 tag may be
+  // taken for audio.
   try {
-    duration_secs_ = get_mp3_duration(is);
+    std::string buf(size_bytes_, 0);
+    is.read(&(buf[0]), size_bytes_);
+    std::istringstream track(buf);
+    duration_secs_ = get_mp3_duration(track);
   } catch (const std::exception &) {
     // pass
   }
-- 
2.43.0


From 847a219c7a08a9f156f646e40bfb0a971b9fd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 25/72] fix: write and read tag clouds with empty values

An empty value was dereferenced; empty text is an empty cloud.
---
 scribbu/framesv2.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 40e12b3..dfc11a1 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1514,7 +1514,7 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     // is true, we _could_ have a false sync between the value byte count &
     // the first string.
     if (false_only && !kv.second.empty()) {
-      unsigned char y = (unsigned char)(kv.second.begin()->front());
+      unsigned char y = (unsigned char)(kv.second.begin()->c_str()[0]);
       if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
         ++nsync;
       }
@@ -1530,6 +1530,11 @@ scribbu::tag_cloud::parse_to_map(const std::string &text,
 {
   using namespace std;
 
+  // No text at all denotes no tags (i.e. not one with an empty key)
+  if (text.empty()) {
+    return;
+  }
+
   // Parse using a simple FSM:
   bool parsing_key = true;
 
-- 
2.43.0


From 7ff282fa1f8f5f97088812c8c880c0b3a76e5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 26/72] fix: keep all of the text when converting encodings

Held-back characters were not flushed, a full output buffer spoiled the result, embedded NULs ended the text, and byte-order marks were wrong for some encodings.
---
 scribbu/charsets.cc | 131 ++++++++++++++++++++++++--------------------
 1 file changed, 72 insertions(+), 59 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8ec7298..de27b26 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -59,18 +59,18 @@ namespace {
       {"ISO8859-16", encoding::ISO_8859_16 },
       {"CP1131",     encoding::CP1131      },
       {"CP1133",     encoding::CP1133      },
-      {"CP1250,",    encoding::CP1250      },
+      {"CP1250",     encoding::CP1250      },
       {"CP1251",     encoding::CP1251      },
-      {"CP1252,",    encoding::CP1252      },
-      {"CP1253,",    encoding::CP1253      },
-      {"CP1254,",    encoding::CP1254      },
-      {"CP1255,",    encoding::CP1255      },
-      {"CP1256,",    encoding::CP1256      },
-      {"CP1257,",    encoding::CP1257      },
+      {"CP1252",     encoding::CP1252      },
+      {"CP1253",     encoding::CP1253      },
+      {"CP1254",     encoding::CP1254      },
+      {"CP1255",     encoding::CP1255      },
+      {"CP1256",     encoding::CP1256      },
+      {"CP1257",     encoding::CP1257      },
       {"CP1258",     encoding::CP1258      },
-      {"CP850,",     encoding::CP850       },
-      {"CP862,",     encoding::CP862       },
-      {"CP866,",     encoding::CP866       },
+      {"CP850",      encoding::CP850       },
+      {"CP862",      encoding::CP862       },
+      {"CP866",      encoding::CP866       },
       {"CP874",      encoding::CP874       },
       {"CP932",      encoding::CP932       },
       {"CP936",      encoding::CP936       },
@@ -83,7 +83,7 @@ namespace {
       return make_pair(true, encoding::UTF_8);
     }
 
-    string key = name.substr(i);
+    string key = name.substr(i + 1);
     if (0 == TBL.count(key)) {
       return make_pair(false, encoding::UTF_8);
     }
@@ -91,6 +91,31 @@ namespace {
     return make_pair(true, TBL.at(key));
   }
 
+  /// Convert an entire text, beginning in the initial shift state & including
+  /// whatever \c iconv holds back until it is told that the text is over
+  std::size_t
+  iconv_text(iconv_t dsc, char **inbuf, std::size_t *inbytesleft,
+             char **outbuf, std::size_t *outbytesleft)
+  {
+    iconv(dsc, nullptr, nullptr, nullptr, nullptr);
+    std::size_t status, cb;
+    do {
+      // Asked to ignore what cannot be converted, \c iconv still fails, but
+      // having gone past it
+      cb = *inbytesleft;
+      status = iconv(dsc, inbuf, inbytesleft, outbuf, outbytesleft);
+    } while (~0 == status && EILSEQ == errno &&
+             0 != *inbytesleft && *inbytesleft < cb);
+    if (~0 == status && EILSEQ == errno && 0 == *inbytesleft) {
+      status = 0;
+    }
+    if (~0 != status &&
+        ~0 == iconv(dsc, nullptr, nullptr, outbuf, outbytesleft)) {
+      status = ~0;
+    }
+    return status;
+  }
+
 }
 
 namespace scribbu {
@@ -698,8 +723,8 @@ namespace scribbu {
     // bytes, and it updates the conversion state contained in cd."
     std::size_t outbytesleft = cbout;
     char *outbuf = poutbuf.get();
-    std::size_t status = iconv(dsc, &inbuf, &inbytesleft,
-                               &outbuf, &outbytesleft);
+    std::size_t status = iconv_text(dsc, &inbuf, &inbytesleft,
+                                    &outbuf, &outbytesleft);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -710,8 +735,8 @@ namespace scribbu {
       inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
       inbytesleft = cbbuf;
       outbytesleft = cbout;
-      char *outbuf = poutbuf.get();
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      outbuf = poutbuf.get();
+      status = iconv_text(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
     if (~0 == status) {
@@ -724,33 +749,13 @@ namespace scribbu {
     outbuf = poutbuf.get();
     cbout -= outbytesleft;
 
-    if ((3 < cbout) &&
-        ((0x00 == (unsigned char)outbuf[0] &&
-          0x00 == (unsigned char)outbuf[1] &&
-          0xfe == (unsigned char)outbuf[2] &&
-          0xff == (unsigned char)outbuf[3]) ||
-         (0xfe == (unsigned char)outbuf[0] &&
-          0xff == (unsigned char)outbuf[1] &&
-          0x00 == (unsigned char)outbuf[2] &&
-          0x00 == (unsigned char)outbuf[3]))) {
-      outbuf += 4;
-      cbout -= 4;
-    }
-    else if (2 < cbout  &&
+    if (encoding::UTF_8 == dstenc && 2 < cbout  &&
              0xef == (unsigned char)outbuf[0] &&
              0xbb == (unsigned char)outbuf[1] &&
              0xbf == (unsigned char)outbuf[2]) {
       outbuf += 3;
       cbout -= 3;
     }
-    else if ((1 < cbout) &&
-             ((0xfe == (unsigned char)outbuf[0] &&
-               0xff == (unsigned char)outbuf[1]) ||
-              (0xff == (unsigned char)outbuf[0] &&
-               0xfe == (unsigned char)outbuf[1]))) {
-      outbuf += 2;
-      cbout -= 2;
-    }
 
     // If there are trailing nulls and/or spaces, don't copy them, either.
     while (cbout && (0 == outbuf[cbout - 1] || 32 == outbuf[cbout - 1])) {
@@ -772,28 +777,29 @@ namespace scribbu {
                                          srcenc, dstenc, rsp);
   }
 
-  /// Convert encodings from C strings to buffers of unsigned char
-  template <>
+  /// Convert encodings from \a ntext chars to buffers of unsigned char
+  static
   std::vector<unsigned char>
-  convert_encoding(char const* const& text,
-                   encoding srcenc,
-                   encoding dstenc,
-                   bool add_bom /*= false*/,
-                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  convert_chars(const char *text,
+                std::size_t ntext,
+                encoding srcenc,
+                encoding dstenc,
+                bool add_bom,
+                on_no_encoding rsp)
   {
     const unsigned char UTF16LE[] = { 0xff, 0xfe };
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
     const unsigned char UTF8[]    = { 0xef, 0xbb, 0xbf };
     const unsigned char UTF32LE[] = { 0xff, 0xfe, 0x00, 0x00 };
-    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xff, 0xfe };
+    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xfe, 0xff };
 
     using namespace std;
 
     if (!scribbu::char_traits<char>::is_code_unit(srcenc)) {
-      throw bad_code_unit(dstenc, sizeof(char));
+      throw bad_code_unit(srcenc, sizeof(char));
     }
 
-    if (0 == strlen(text)) {
+    if (0 == ntext) {
       return std::vector<unsigned char>();
     }
 
@@ -810,12 +816,9 @@ namespace scribbu {
         }
         break;
       case encoding::UCS_4:
+        // Unlike UCS-2, iconv's UCS-4 is always big-endian
         cbbom = 4;
-        if constexpr (std::endian::native == std::endian::big) {
-          pbom = UTF32BE;
-        } else {
-          pbom = UTF32LE;
-        }
+        pbom = UTF32BE;
         break;
       case encoding::UCS_2BE:
       case encoding::UTF_16BE:
@@ -850,7 +853,6 @@ namespace scribbu {
     detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
 
     char *inbuf = const_cast<char*>(text);
-    size_t ntext = strlen(text);
     size_t inbytesleft = ntext;
     // We can't know a priori how many octets the output buffer will require;
     // cf.
@@ -859,7 +861,7 @@ namespace scribbu {
     vector<unsigned char> out(cbout);
     std::size_t outbytesleft = cbout - cbbom;
     char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-    size_t status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    size_t status = iconv_text(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -869,10 +871,9 @@ namespace scribbu {
 
       inbuf = const_cast<char*>(text);
       inbytesleft = ntext;
-      outbytesleft = cbout;
-      char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      std::size_t outbytesleft = cbout;
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      outbytesleft = cbout - cbbom;
+      outbuf = reinterpret_cast<char*>(&(out[cbbom]));
+      status = iconv_text(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
     if (~0 == status) {
@@ -894,6 +895,18 @@ namespace scribbu {
     return out;
   }
 
+  /// Convert encodings from C strings to buffers of unsigned char
+  template <>
+  std::vector<unsigned char>
+  convert_encoding(char const* const& text,
+                   encoding srcenc,
+                   encoding dstenc,
+                   bool add_bom /*= false*/,
+                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  {
+    return convert_chars(text, strlen(text), srcenc, dstenc, add_bom, rsp);
+  }
+
   /// Convert encodings from C strings to buffers of unsigned char
   template <>
   std::vector<unsigned char>
@@ -924,8 +937,8 @@ namespace scribbu {
                    bool add_bom /*= false*/,
                    on_no_encoding rsp /*= on_no_encoding::fail*/)
   {
-    return convert_encoding<const char*>(text.c_str(), srcenc, dstenc, add_bom,
-                                         rsp);
+    return convert_chars(text.data(), text.size(), srcenc, dstenc, add_bom,
+                         rsp);
   }
 
 } // End namespace scribbu.
-- 
2.43.0


From 40bc2b77916f29e4ef7a2f92da41ba78bd186a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 27/72] fix: read back the text set on frames in every encoding

Byte-order marks were given as part of the text, ISO-8859-1 was taken for ISO-8859-8 and new text frames did not fall back to UCS-2.
---
 scribbu/framesv22.cc | 2 ++
 scribbu/framesv23.cc | 2 ++
 scribbu/framesv24.cc | 9 +++++++--
 scribbu/id3v22.cc    | 3 ++-
 scribbu/id3v23.cc    | 3 ++-
 5 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 9ba4b4d..5825b1d 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -60,8 +60,10 @@ namespace scribbu {
 
       if (1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1]) {
         src =  encoding::UCS_2BE;
+        pbuf += 2; cbbuf -= 2;
       } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
         src =  encoding::UCS_2LE;
+        pbuf += 2; cbbuf -= 2;
       } else {
         src =  encoding::UCS_2;
       }
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 3981ef1..0f1efea 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -336,8 +336,10 @@ namespace scribbu {
 
       if (1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1]) {
         src =  encoding::UCS_2BE;
+        pbuf += 2; cbbuf -= 2;
       } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
         src =  encoding::UCS_2LE;
+        pbuf += 2; cbbuf -= 2;
       } else {
         src =  encoding::UCS_2;
       }
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index f98c33c..49d51f9 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -60,14 +60,19 @@ namespace scribbu {
         // be generous
         if (1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1]) {
           src =  encoding::UTF_16BE;
+          pbuf += 2; cbbuf -= 2;
         } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
           src =  encoding::UTF_16LE;
+          pbuf += 2; cbbuf -= 2;
         } else {
-          src =  encoding::UTF_16;
+          src =  1 == unicode ? encoding::UTF_16 : encoding::UTF_16BE;
         }
       }
       else if (3 == unicode) {
         src = encoding::UTF_8;
+        if (2 < cbbuf && 0xef == pbuf[0] && 0xbb == pbuf[1] && 0xbf == pbuf[2]) {
+          pbuf += 3; cbbuf -= 3;
+        }
       }
       else {
         throw std::range_error("illegal encoding");
@@ -312,7 +317,7 @@ scribbu::encoding
 scribbu::id3v2_4_text_frame::encshim(frame_encoding x)
 {
   if (frame_encoding::ISO_8859_1 == x) {
-    return scribbu::encoding::ISO_8859_8;
+    return scribbu::encoding::ISO_8859_1;
   }
   else if (frame_encoding::UTF_16_BOM == x) {
     return scribbu::encoding::UTF_16;
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 3337f2f..7997d15 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -960,7 +960,8 @@ scribbu::id3v2_2_tag::set_text_frame(const frame_id3 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_2_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_2_text_frame>(id, string(), src, add_bom, rsp, false);
+    p->set(text, src, add_bom, rsp);
     id3v2_2_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_2_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 4432411..7a5d5e8 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1557,7 +1557,8 @@ void scribbu::id3v2_3_tag::set_text_frame(const frame_id4 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_3_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_3_text_frame>(id, string(), src, add_bom, rsp, false);
+    p->set(text, src, add_bom, rsp);
     id3v2_3_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_3_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
-- 
2.43.0


From 84b7b7f978d458aacf3325e7565be1e93df955bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:03 +0000
Subject: [PATCH 28/72] fix: do not take the end of an ID3v2 tag for an ID3v1
 tag

Removing or replacing the ID3v1 tag of a file ending in its ID3v2 tags could cut those short, and splitting it counted the bytes twice.
---
 scribbu/id3v1.cc | 11 ++++++++---
 scribbu/id3v2.cc | 17 +++++++++++++++++
 scribbu/id3v2.hh |  4 ++++
 src/split.cc     |  5 +++++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 49e6793..45aca21 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -22,6 +22,8 @@
  */
 
 #include <scribbu/id3v1.hh>
+#include <scribbu/id3v2.hh>
+#include <scribbu/scribbu.hh>
 
 #include <filesystem>
 #include <fstream>
@@ -569,15 +571,18 @@ scribbu::maybe_remove_id3v1(const fs::path &pth)
     return;
   }
 
-  auto p = process_id3v1(ifs);
+  // Don't look for it in the ID3v2 tags
+  skip_id3v2(ifs);
+  std::streampos here, tag;
+  std::tie(here, tag) = find_id3v1_tag(ifs);
 
   ifs.close();
 
-  if (!p) {
+  if (fs::file_size(pth) == (std::uintmax_t) tag) {
     return;
   }
 
-  fs::resize_file(pth, fs::file_size(pth) - p->size());
+  fs::resize_file(pth, tag);
 }
 
 void
diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 295391f..7cd1f3b 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -231,6 +231,23 @@ scribbu::looking_at_id3v2(std::istream &is,
 
 } // End free function looking_at_id3v2.
 
+void
+scribbu::skip_id3v2(std::istream &is)
+{
+  id3v2_info H = looking_at_id3v2(is);
+  while (H.present_) {
+    std::streampos here = is.tellg();
+    is.seekg(0, std::ios_base::end);
+    std::streamoff left = is.tellg() - here,
+      cb = std::streamoff(ID3V2_HEADER_SIZE) + H.size_;
+    is.seekg(here + (cb > left ? 0 : cb), std::ios_base::beg);
+    if (cb > left) {
+      break;
+    }
+    H = looking_at_id3v2(is);
+  }
+}
+
 /// Restore false sync signals in a buffer
 std::size_t scribbu::resynchronise(unsigned char *p, std::size_t cb)
 {
diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 37893f2..0b188d1 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -482,6 +482,10 @@ namespace scribbu {
   id3v2_info
   looking_at_id3v2(std::istream &is, bool restore_get_if_found=true);
 
+  /// Advance past any (complete) ID3v2 tags at the current position
+  void
+  skip_id3v2(std::istream &is);
+
   /**
    * \brief Restore false sync signals in a buffer
    *
diff --git a/src/split.cc b/src/split.cc
index cda9aa9..95762f2 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -26,6 +26,7 @@
 
 #include <scribbu/id3v1.hh>
 #include <scribbu/id3v2.hh>
+#include <scribbu/scribbu.hh>
 
 #include <filesystem>
 #include <fstream>
@@ -111,6 +112,10 @@ For detailed help, say `scribbu split --help'. To see the manual, say
 
     // Either way, we're at the start of the track data...
     scribbu::id3v1_info I = scribbu::ends_in_id3v1(ifs);
+    // (don't look for the ID3v1 tag in what's been written already)
+    std::streampos here;
+    std::tie(here, I.start_) = scribbu::find_id3v1_tag(ifs);
+    ifs.seekg(here);
     std::size_t cb = I.start_ - ifs.tellg();
     fs::path pth("track" + suffix);
     xfer_bytes(ifs, pth, cb);
-- 
2.43.0


From fccec68b2f68135d3f3d1f58553e7dbe1cb09045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:45 +0000
Subject: [PATCH 29/72] fix: apply --tag to the tags listed, and do not visit
 files made meanwhile

---
 src/command-utilities.cc | 3 +--
 src/command-utilities.hh | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 1cfff18..e38bbb5 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -337,7 +337,7 @@ tagset_processor::process_file(const fs::path &pth)
 
     // Ok-- now we walk the pointers to `id3v2_tag' in `v2'
     for (size_t i = 0; i < v2.size(); ++i) {
-      if (tags.front() == i) {
+      if (find(tags.begin(), tags.end(), i) != tags.end()) {
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
@@ -355,7 +355,6 @@ tagset_processor::process_file(const fs::path &pth)
           throw bad_id3v2_version(version);
         }
 
-        tags.pop_front();
         dirty = dirty || upd;
       } // End if on `tags'
     } // End iteration over `v2'
diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 1104880..7e25e68 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -553,7 +553,9 @@ process_dirent_args(FII p0, FII p1, Functor &F)
 
   for_each(p0, p1, [&F](const std::filesystem::path &pth) {
     if (is_directory(pth)) {
-      process_dirent_args(directory_iterator(pth), directory_iterator(), F);
+      // `F' may add to the directory (backups, e.g.), so don't walk it meanwhile
+      vector<path> V((directory_iterator(pth)), directory_iterator());
+      process_dirent_args(V.begin(), V.end(), F);
     } else if (is_regular_file(pth)) {
       F.process_file(pth);
     } else if (F.verbose()) {
-- 
2.43.0


From 1169466dbc5b0aefcd1ad5477339f6bd87878d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:45 +0000
Subject: [PATCH 30/72] fix: honour popm's --tag & --play-count-only, and
 refuse counts that overflow

---
 src/popm.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 400ce6b..d50c1dc 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -275,6 +275,9 @@ private:
     size_t new_pc = play_count_;
     if (pc_policy::increment == play_count_policy_) {
       new_pc += G.count();
+      if (new_pc < play_count_) {
+        throw std::domain_error("CNT overflow");
+      }
     }
     if (dry_run() || verbose()) {
       cout << "Setting PCNT to " << new_pc << "." << endl;
@@ -296,6 +299,9 @@ private:
     size_t new_pc = play_count_;
     if (pc_policy::increment == play_count_policy_) {
       new_pc += G.count();
+      if (new_pc < play_count_) {
+        throw std::domain_error("CNT overflow");
+      }
     }
     unsigned char rating = rating_ ? *rating_ : G.rating();
     if (dry_run() || verbose()) {
@@ -373,7 +379,8 @@ private:
         popm_type &G = dynamic_cast<popm_type&>(F);
         string email = G.template email<string>();
         size_t new_pc = G.count();
-        if (!owner_ || email == *owner_) {
+        if (frame_policy::pcnt_only != frame_policy_ &&
+            (!owner_ || email == *owner_)) {
           new_pc = process_popm<traits_type>(G, email);
           ++num_popm;
         }
@@ -851,7 +858,7 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        vector<size_t> V = vm["tag"].as<vector<size_t>>();
+        tags = vm["tag"].as<vector<size_t>>();
       }
 
       boost::optional<unsigned char> rating;
-- 
2.43.0


From 40e0ddc875413111a5de44e36d4e960be0ecfe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:45 +0000
Subject: [PATCH 31/72] fix: do not rewrite files when reading tag clouds, and
 always give new tags one

---
 src/xtag.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index a27c6f5..df16b65 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -243,7 +243,7 @@ private:
 
   template <typename tag_type>
   bool
-  process_tag(tag_type &tag)
+  process_tag(tag_type &tag, bool create)
   {
     using namespace std;
 
@@ -287,8 +287,8 @@ private:
       num_xtag++;
     } // End iteration over `tag''s frames.
 
-    bool upd = num_xtag != 0;
-    if (!num_xtag && create_ && !get_) {
+    bool upd = num_xtag != 0 && !get_;
+    if (!num_xtag && create && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
           tag_cloud_ << endl;
@@ -394,7 +394,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2(const scribbu::id3v1_tag &v1)
 {
   auto p = copy_id3_v1(v1);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -404,7 +404,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2()
 {
   auto p = std::make_unique<scribbu::id3v2_3_tag>(DEFAULT_PADDING);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -419,21 +419,21 @@ xtag_processor::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.3 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.4 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 namespace {
-- 
2.43.0


From bc92fedabad7d473e7699ace16154aa8baacfc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:45 +0000
Subject: [PATCH 32/72] fix: write play counts in as many bytes as they need

---
 scribbu/framesv2.cc | 10 ++++++++--
 scribbu/framesv2.hh | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index dfc11a1..ee4bbea 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1159,7 +1159,10 @@ scribbu::play_count::reset_counter(std::size_t n)
     return;
   }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 1;
+  for (size_t x = n >> 8; x; x >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
@@ -1270,7 +1273,10 @@ scribbu::popularimeter::reset_counter(std::size_t n)
     return;
   }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 1;
+  for (size_t x = n >> 8; x; x >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 90238e9..4ae5b9a 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -862,7 +862,12 @@ namespace scribbu {
     { reset_counter(n); }
     /// Increment the count by one
     void inc()
-    { count(count() + 1); }
+    {
+      if (SIZE_MAX == count()) {
+        throw std::domain_error("CNT overflow");
+      }
+      count(count() + 1);
+    }
 
     /// Return the size, in bytes, of this structure, prior to
     /// desynchronisation, compression, and/or encryption exclusive of the
@@ -952,7 +957,12 @@ namespace scribbu {
     { reset_counter(n); }
     /// Increment the play count by one
     void inc()
-    { count(count() + 1); }
+    {
+      if (SIZE_MAX == count()) {
+        throw std::domain_error("CNT overflow");
+      }
+      count(count() + 1);
+    }
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
     /// compression, and/or encryption exclusive of the header
-- 
2.43.0


From 11549833358bc6f3fceb961a2959738f05de1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:45 +0000
Subject: [PATCH 33/72] fix: read genre's --v1 as a number, and leave unchanged
 ID3v1 tags alone

---
 src/genre.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index d865dbe..8f0966b 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -352,6 +352,8 @@ set_genre::create_v2()
 /*virtual*/ bool
 set_genre::process_v1(scribbu::id3v1_tag &v1)
 {
+  std::stringstream before, after;
+  v1.write(before);
   v1.set_genre(genre_);
   if (v1.enhanced()) {
     auto opt = scribbu::text_for_genre(genre_);
@@ -359,7 +361,8 @@ set_genre::process_v1(scribbu::id3v1_tag &v1)
       v1.set_enh_genre(*opt);
     }
   }
-  return true;
+  v1.write(after);
+  return before.str() != after.str();
 }
 
 /// Process an ID3v2.2 tag
@@ -838,13 +841,13 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned char>(), "Genre to use for ID3v1 tags in "
+      ("v1,v", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
       ("v2-only,2", po::bool_switch(), "Operate on ID3v2 tags only; incompatible "
        "with --v1")
-      ("verbose,v", po::bool_switch(), "Produce more verbose output during "
+      ("verbose", po::bool_switch(), "Produce more verbose output during "
        "operation")
       ("winamp,w", po::value<unsigned int>(), "Winamp genre, 0-191 (inclusive)");
 
@@ -949,7 +952,12 @@ namespace {
 
       unsigned char v1_genre = UNDEFINED_GENRE;
       if (vm.count("v1")) {
-        v1_genre = vm["v1"].as<unsigned char>();
+        unsigned int scratch = vm["v1"].as<unsigned int>();
+        if (256 > scratch) {
+          v1_genre = (unsigned char) scratch;
+        } else {
+          throw po::invalid_option_value("v1");
+        }
       }
 
       vector<size_t> tags;
-- 
2.43.0


From 604ccf4eca9daacec82191c37e65e1f21e19727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:08 +0000
Subject: [PATCH 34/72] fix: set the genre of tags that have none

---
 src/command-utilities.hh | 10 +++++++---
 src/genre.cc             |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 7e25e68..368a3e2 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -444,7 +444,11 @@ namespace detail {
     using namespace scribbu;
     string text;
     auto p = find_if(p0, p1, [&](const unique_ptr<id3v2_tag> &p) {
-      text = p->text(frm);
+      try {
+        text = p->text(frm);
+      } catch (const id3v2_tag::unknown_frame_error&) {
+        text.clear();
+      }
       return !text.empty();
     });
     return make_tuple(p != p1, text);
@@ -461,7 +465,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     auto p = find_if(p0, p1, [&](const T &p) {
-      text = p->year();
+      text = p->has_year() ? p->year() : string();
       return 4 == text.length();
     });
     if (p != p1) {
@@ -483,7 +487,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     for_each(p0, p1, [&](const T &p) {
-      string text = p->content_type();
+      string text = p->has_content_type() ? p->content_type() : string();
       if (text.length()) {
         size_t dl;
         string textual_genre;
diff --git a/src/genre.cc b/src/genre.cc
index 8f0966b..ad9b2a7 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -369,7 +369,8 @@ set_genre::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -380,7 +381,8 @@ set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -391,7 +393,8 @@ set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
-- 
2.43.0


From 4627143b94aa220de5ffb471908cabb2bedbee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 35/72] fix: recognise every documented option in templates

---
 scribbu/tbt-lexer.ll  | 15 ++++++++-------
 scribbu/tbt-parser.yy |  9 +++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index c094469..48e79a1 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -50,7 +50,7 @@ title        title
 year         year
 
 base         base
-cap          capitalization
+cap          cap(italization)?
 compress     compress
 hex_case     hex-case
 output       output
@@ -123,15 +123,18 @@ year_abbrev         Y
 
 <REPLACEMENT>{base}         { return BASE;        }
 <REPLACEMENT>{cap}          { return CAP;         }
+<REPLACEMENT>{four_digits}  { return FOUR_DIGITS; }
+<REPLACEMENT>{hex_case}     { return HEX_CASE;    }
 <REPLACEMENT>{output}       { return OUTPUT;      }
 <REPLACEMENT>{compress}     { return COMPRESS_WS; }
 <REPLACEMENT>{pref_v1}      { return PREF_V1;     }
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
+<REPLACEMENT>{v1_only}      { return V1_ONLY;     }
+<REPLACEMENT>{v2_only}      { return V2_ONLY;     }
+<REPLACEMENT>{two_digits}   { return TWO_DIGITS;  }
 <REPLACEMENT>{ws}           { return WS;          }
 
-<PARAMETER>{two_digits}     { BEGIN(REPLACEMENT); return TWO_DIGITS;  }
-<PARAMETER>{four_digits}    { BEGIN(REPLACEMENT); return FOUR_DIGITS; }
 <PARAMETER>{ascii}          { BEGIN(REPLACEMENT); return ASCII;       }
 <PARAMETER>{auto}           { BEGIN(REPLACEMENT); return AUTO;        }
 <PARAMETER>{all_lower}      { BEGIN(REPLACEMENT); return ALL_LOWER;   }
@@ -140,7 +143,6 @@ year_abbrev         Y
 <PARAMETER>{cp1252}         { BEGIN(REPLACEMENT); return CP1252;      }
 <PARAMETER>{decimal}        { BEGIN(REPLACEMENT); return DECIMAL;     }
 <PARAMETER>{hex}            { BEGIN(REPLACEMENT); return HEX;         }
-<PARAMETER>{hex_case}       { BEGIN(REPLACEMENT); return HEX_CASE;    }
 <PARAMETER>{iso8859_1}      { BEGIN(REPLACEMENT); return ISO8859_1;   }
 <PARAMETER>{lower}          { BEGIN(REPLACEMENT); return LOWER;       }
 <PARAMETER>{prefix}         { BEGIN(REPLACEMENT); return PREFIX;      }
@@ -150,8 +152,6 @@ year_abbrev         Y
 <PARAMETER>{utf16be}        { BEGIN(REPLACEMENT); return UTF16_BE;    }
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
-<PARAMETER>{v1_only}        { BEGIN(REPLACEMENT); return V1_ONLY;     }
-<PARAMETER>{v2_only}        { BEGIN(REPLACEMENT); return V2_ONLY;     }
 
 <PARAMETER>{text} {
   BEGIN(REPLACEMENT);
@@ -170,7 +170,7 @@ year_abbrev         Y
 <REPLACEMENT>{title_abbrev}        {BEGIN(INITIAL);return TITLE_ABBREV;       }
 <REPLACEMENT>{year_abbrev}         {BEGIN(INITIAL);return YEAR_ABBREV;        }
 
-<INITIAL,REPLACEMENT,PARAMETER>. {
+<INITIAL,REPLACEMENT,PARAMETER>.|\n {
   std::cerr << "Matched unknown character: " << yytext[0] << std::endl;
   return UNKNOWN;
 }
@@ -193,6 +193,7 @@ static std::string * unescape_and_copy(const char *text) {
       case ':':
       case '?':
       case '&':
+      case '=':
       case '\\':
         break;
       default:
diff --git a/scribbu/tbt-parser.yy b/scribbu/tbt-parser.yy
index b96f266..5c07ab0 100644
--- a/scribbu/tbt-parser.yy
+++ b/scribbu/tbt-parser.yy
@@ -518,6 +518,15 @@ v1_encoding: V1ENCODING EQUAL AUTO {
            | V1ENCODING EQUAL UTF8 {
                $$ = scribbu::tbt_support::v1_encoding::utf_8;
              }
+           | V1ENCODING EQUAL UTF16_BE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_be;
+             }
+           | V1ENCODING EQUAL UTF16_LE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_le;
+             }
+           | V1ENCODING EQUAL UTF32 {
+               $$ = scribbu::tbt_support::v1_encoding::utf_32;
+             }
            ;
 
 the_xform: THE {
-- 
2.43.0


From 8028805eea108c4222a7f1a1c8eee9000e7d4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 36/72] fix: leave the template lexer clean when a template is
 rejected

---
 scribbu/id3v2-utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index 64d2239..d76f508 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -97,6 +97,11 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
 /// Construct with the template in textual form
 scribbu::template_processor::template_processor(const std::string &templat)
 {
+  // Leave the lexer as we found it, however we leave
+  struct reset_lexer {
+    ~reset_lexer() { tbtlex_destroy(); }
+  } reset;
+
   YY_BUFFER_STATE buf = tbt_scan_string(templat.c_str());
   tbt_switch_to_buffer(buf); // switch flex to the buffer we just created
 
-- 
2.43.0


From a3b1580b37926fb41a3c2a111f8b6065fd1406ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 37/72] fix: write out sizes and MD5 sums in templates

---
 scribbu/tbt-support.cc | 3 ++-
 scribbu/tbt-support.hh | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 4993986..1a9b497 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -658,6 +658,7 @@ scribbu::tbt_support::size::evaluate(const file_info  & fi,
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
+    buf << n;
   }
 
   return buf.str();
@@ -683,7 +684,7 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
     }
   }
   for (auto x: D) {
-    buf << x;
+    buf << setfill('0') << setw(base::hex == b_ ? 2 : 3) << (unsigned int) x;
   }
   return buf.str();
 
diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 0492d9f..39ab14e 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -581,7 +581,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      size(forward_input_iterator p0, forward_input_iterator p1)
+      size(forward_input_iterator p0, forward_input_iterator p1):
+        b_(base::decimal), c_(hex_case::lower)
       {
         using boost::any_cast;
 
@@ -614,7 +615,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      md5(forward_input_iterator p0, forward_input_iterator p1)
+      md5(forward_input_iterator p0, forward_input_iterator p1):
+        b_(base::decimal), c_(hex_case::lower)
       {
         using boost::any_cast;
 
-- 
2.43.0


From 7abab29520fbf990a17c98da79471ab0c654c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 38/72] fix: expand templates for short, blank and ID3v1 texts

---
 scribbu/tbt-support.cc | 16 +++++++++-------
 scribbu/tbt-support.hh |  3 ++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 1a9b497..00bff0d 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -200,7 +200,10 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
   using namespace std;
   using namespace boost;
 
-  if (capitalization::capitalize == cap) {
+  if (text.empty()) {
+    return text;
+  }
+  else if (capitalization::capitalize == cap) {
     string result;
     result += toupper(text[0], locale(""));
     result += text.substr(1);
@@ -234,7 +237,7 @@ scribbu::tbt_support::do_ws_xform(const std::string &text,
   }
 
   vector<string> splits;
-  split(splits, text, is_any_of(" \t"));
+  split(splits, text, is_any_of(" \t"), token_compress_on);
   if (0 != replace.length()) {
     return join(splits, replace);
   }
@@ -336,7 +339,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
       v1enc = v1_encoding::utf_16_be;
     }
     else if (2 <= cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
-      v1enc = v1_encoding::utf_16_be;
+      v1enc = v1_encoding::utf_16_le;
     }
   }
 
@@ -351,9 +354,8 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
 
     for (auto g: GUESSES) {
       try {
-        result = convert_encoding<std::string>(pbuf, cbbuf, g,
-                                               encoding::UTF_8);
-        break;
+        return convert_encoding<std::string>(pbuf, cbbuf, g,
+                                             encoding::UTF_8);
       } catch (const iconv_error&) {
         // Move on to the next guess...
       }
@@ -599,7 +601,7 @@ scribbu::tbt_support::year::evaluate(const file_info  & /*fi    */,
                                  v1_encoding::automatic);
 
   if (year_format::two_digits == fmt_) {
-    return year.substr(2);
+    return 2 < year.size() ? year.substr(2) : year;
   }
   else {
     return year;
diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 39ab14e..4f988ea 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -207,7 +207,8 @@ namespace scribbu
             if (!s.empty()) {
               return s;
             }
-          } else if (v2 && !v2->empty()) {
+          }
+          if (v2 && !v2->empty()) {
             return *v2;
           }
           throw missing_source_text(pref);
-- 
2.43.0


From 27e1ef854871e2fea2bd0db8a7da7e1ccd774c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 39/72] fix: rename only the files present at the outset

---
 src/rename.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rename.cc b/src/rename.cc
index 241701c..0b99bec 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -140,8 +140,11 @@ namespace {
   {
     const boost::regex REGEX(".*\\.mp3");
 
-    std::for_each(fs::recursive_directory_iterator(pth),
-                  fs::recursive_directory_iterator(),
+    // Don't visit the files we're about to make
+    std::vector<fs::directory_entry> entries((fs::recursive_directory_iterator(pth)),
+                                             fs::recursive_directory_iterator());
+
+    std::for_each(entries.begin(), entries.end(),
                   [&](const fs::directory_entry &p) {
                     // the iterators dereference to a directory_entry
                     fs::path pth = p.path();
-- 
2.43.0


From 3aad33b3d9af7ebba97e54abfa8e293f116954ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 40/72] fix: quote carriage returns in CSV

---
 scribbu/csv-pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..d509a8a 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -51,7 +51,7 @@ scribbu::csv_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/ std::string
 scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/)
 {
-  const char NEEDS_ESC[] = { sep, '\n', 0 };
+  const char NEEDS_ESC[] = { sep, '\n', '\r', 0 };
   std::size_t comma = s.find_first_of(NEEDS_ESC);
   if (std::string::npos == comma) {
     return s;
-- 
2.43.0


From 62390427dcfc9ac1c28ecd0b01b67ccd6b7c70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 41/72] fix: report counts in decimal

---
 scribbu/csv-pprinter.cc | 6 +++---
 scribbu/tdf-pprinter.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index d509a8a..9bc37a7 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -116,7 +116,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("CNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -168,7 +168,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -220,7 +220,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 7750e03..f84b8b4 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -71,7 +71,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("CNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -123,7 +123,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -175,7 +175,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
-- 
2.43.0


From 78d52961a1041d02c2d0ca1ac91fbefd25c88924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 42/72] fix: write as many fields as columns when no comments
 are reported

---
 scribbu/csv-pprinter.cc | 18 ++++++------------
 scribbu/tdf-pprinter.cc | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 9bc37a7..222d974 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -127,16 +127,14 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -179,16 +177,14 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -231,16 +227,14 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index f84b8b4..003e904 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -82,16 +82,14 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -134,16 +132,14 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -186,16 +182,14 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
-- 
2.43.0


From d3e765b0b9818805cbee43ae18e3354b0a836305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 43/72] fix: quote names in CSV reports, and write only
 complete rows

---
 src/report.cc | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index e560b98..821b3d0 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -34,6 +34,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <sstream>
 #include <boost/regex.hpp>
 
 
@@ -174,33 +175,38 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Compose the entire row before writing any of it: should a tag turn out to
+  // be unprintable, we would otherwise leave an incomplete line behind.
+  ostringstream row;
+  row << print_as_csv(ncomm_, v1enc_);
+
   if (!no_dir_) {
-    ofs_ << fi.parent() << COMMA;
+    row << quoted(fi.parent().string(), '"', '"') << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  row << quoted(fi.filename().string(), '"', '"') << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    row << *pid3v2;
   }
   else {
-    ofs_ << ",,,,,,,,,,,,,,";
-    ostream_iterator<char> oi(ofs_);
+    row << ",,,,,,,,,,,,,,";
+    ostream_iterator<char> oi(row);
     fill_n(oi, ncomm_, ',');
   }
 
-  ofs_ << "," << info << ",";
+  row << "," << info << ",";
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    row << *pid3v1;
   }
   else {
-    ofs_ << ",,,,,,,";
+    row << ",,,,,,,";
   }
 
-  ofs_ << endl;
+  ofs_ << row.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -300,33 +306,38 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Compose the entire row before writing any of it: should a tag turn out to
+  // be unprintable, we would otherwise leave an incomplete line behind.
+  ostringstream row;
+  row << print_as_tdf(ncomm_, v1enc_, boost::none, sep_ == 0x1f);
+
   if (!no_dir_) {
-    ofs_ << fi.parent() << sep_;
+    row << fi.parent() << sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
+  row << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    row << *pid3v2;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(row);
     fill_n(oi, 14 + ncomm_, sep_);
   }
 
-  ofs_ << sep_ << info << sep_;
+  row << sep_ << info << sep_;
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    row << *pid3v1;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(row);
     fill_n(oi, 7, sep_);
   }
 
-  ofs_ << endl;
+  ofs_ << row.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f6a322fbb386d592f7aa47c3244199ed43864f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 44/72] fix: keep display titles on their line

---
 src/m3u.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 64126a4..1908f53 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -208,6 +208,10 @@ namespace {
       display = pth.stem().native();
     }
 
+    // The display title has to fit on its line
+    replace(display.begin(), display.end(), '\n', ' ');
+    replace(display.begin(), display.end(), '\r', ' ');
+
     os_ << "#EXTINF:" << (int) (secs + 0.5) << "," << display << "\n" <<
       pth.native() << endl;
   }
-- 
2.43.0


From dc41028b915d1e36b5c67380be2e0e41ca7b7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 45/72] fix: write one header to a playlist

---
 src/m3u.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 1908f53..97a57df 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -274,7 +274,10 @@ namespace {
       throw scribbu::file_open_error(out.native(), errno);
     }
 
-    ofs_ << "#EXTM3U" << endl;
+    // Only a new playlist needs a header
+    if (!append || 0 == fs::file_size(out)) {
+      ofs_ << "#EXTM3U" << endl;
+    }
 
   }
 
-- 
2.43.0


From 945aa6c6bfd20a645d71bab13e745acfb672a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:01 +0000
Subject: [PATCH 46/72] fix: honour the source encoding for playlists

---
 src/m3u.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 97a57df..f6c0133 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -393,8 +393,8 @@ namespace {
       //////////////////////////////////////////////////////////////////////////
 
       boost::optional<encoding> src_enc = boost::none;
-      if (vm.count("encoding")) {
-        src_enc = vm["encoding"].as<encoding>();
+      if (!vm["source-encoding"].defaulted()) {
+        src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
         vm["output"].as<fs::path>() : fs::path();
-- 
2.43.0


From 1b3a788a466c9237d382df8dd985d8b1b2c5f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 47/72] fix: put enhanced ID3v1 fields in the slots of their
 names in read-id3v1-tag

They were stored one slot too early: the extended genre as the track
number, the speed as the extended genre, and so on.
---
 scribbu/scheme.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index c896cc5..85ef0e7 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -350,22 +350,22 @@ extern "C" {
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 6, scm_enh_genre);
-        SCM_SET_SLOT(x, 7, scm_from_uchar(speed));
+        SCM_SET_SLOT(x, 7, scm_enh_genre);
+        SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
         string start_time = pv1->start_time<string>();
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 8, scm_start_time);
+        SCM_SET_SLOT(x, 9, scm_start_time);
 
         string end_time = pv1->end_time<string>();
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 9, scm_end_time);
+        SCM_SET_SLOT(x, 10, scm_end_time);
 
       }
 
-- 
2.43.0


From 7120ed42bbdafefceb222738019526c4ebd51559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 48/72] fix: accept tag clouds as documented when writing
 ID3v2.2 and ID3v2.4 from Scheme

A raw 0 was passed as a Scheme index, and the values were taken to be a
list within the pair; what read-tagset returns could not be written.
---
 scribbu/scheme-serde.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 333f5cb..9a2d302 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1245,12 +1245,16 @@ namespace {
 
     for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
 
-      SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
+      SCM pair = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_car(pair));
 
+      // Could be a string, or a list of strings
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_cdr(pair);
+      if (scm_is_string(scm_vals)) {
+        scm_vals = scm_list_1(scm_vals);
+      }
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
@@ -1368,12 +1372,16 @@ namespace {
 
     for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
 
-      SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
+      SCM pair = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_car(pair));
 
+      // Could be a string, or a list of strings
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_cdr(pair);
+      if (scm_is_string(scm_vals)) {
+        scm_vals = scm_list_1(scm_vals);
+      }
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
-- 
2.43.0


From 91a585832083272e779df982230fb7aa19d0d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 49/72] fix: take the unsynchronisation flag of unknown ID3v2.4
 frames from its own slot

It was taken from the read-only slot.
---
 scribbu/scheme-serde.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 9a2d302..8cbdad2 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -2078,7 +2078,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     ro = read_only::set;
   }
   bool unsync = false;
-  if (SCM_BOOL_T == SCM_SLOT(scm, 3)) {
+  if (SCM_BOOL_T == SCM_SLOT(scm, 4)) {
     unsync = true;
   }
 
-- 
2.43.0


From 4acff29d5f7faa8fe8530fc25e289f9d54bc712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 50/72] fix: give Scheme programs the data of unknown frames
 without unsynchronisation

If the tag was unsynchronised the data were too. When written back they were
taken as they are, with a zero byte after every 0xff.
---
 scribbu/scheme-serde.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 8cbdad2..314df96 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -24,6 +24,7 @@
 #include "scheme-serde.hh"
 
 #include "dynwind-context.hh"
+#include "id3v2.hh"
 
 const scribbu::frame_id3 TAL("TAL");
 const scribbu::frame_id3 TBP("TBP");
@@ -1900,7 +1901,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_2(const scribbu::id3v2_2_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1936,7 +1937,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_3(const scribbu::id3v2_3_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1973,8 +1974,11 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
+  if (f.unsynchronised()) {
+    s.resize(10 + scribbu::resynchronise((unsigned char*)&s[10], s.length() - 10));
+  }
 
   SCM bv = scm_c_make_bytevector(s.length());
   memcpy(SCM_BYTEVECTOR_CONTENTS(bv), s.data(), s.length());
-- 
2.43.0


From 2adfeb3f207c5fa18e581ad6c42f09d33df23315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 51/72] fix: check frames before writing them as unknown frames

A frame that could not be written as what it is was taken for an unknown
frame, whatever its class: slots it does not have were read, and what was
there used as a bytevector. Short identifiers and data were read past their
end.
---
 scribbu/scheme-serde.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 314df96..6b418a4 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -369,6 +369,23 @@ namespace {
     return std::make_tuple(id, tap, fap, ro, unsync);
   }
 
+  // Throw if `scm' isn't an <unk-frame> with a frame identifier of `n' characters
+  void
+  check_unknown_frame(SCM scm, std::size_t n)
+  {
+    if (!SCM_IS_A_P(scm, scm_c_public_ref("scribbu", "<unk-frame>"))) {
+      throw std::logic_error("cannot serialize this frame");
+    }
+    if (!scm_is_string(SCM_SLOT(scm, 5)) || n != scm_c_string_length(SCM_SLOT(scm, 5))) {
+      throw std::logic_error("incorrect frame identifier");
+    }
+    // the data begin with the frame's header
+    if (!scm_is_bytevector(SCM_SLOT(scm, 6)) ||
+        SCM_BYTEVECTOR_LENGTH(SCM_SLOT(scm, 6)) < (3 == n ? 6 : 10)) {
+      throw std::logic_error("incorrect frame data");
+    }
+  }
+
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -1996,6 +2013,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 
   dynwind_context ctx;
 
+  check_unknown_frame(scm, 3);
   frame_id3 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
 
   SCM scm_bv = SCM_SLOT(scm, 6);
@@ -2023,6 +2041,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
 
   dynwind_context ctx;
 
+  check_unknown_frame(scm, 4);
   frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
@@ -2067,6 +2086,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
 
   dynwind_context ctx;
 
+  check_unknown_frame(scm, 4);
   frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
-- 
2.43.0


From b24675f98c27df82506c1d7874d52b4f54c40794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 52/72] fix: write text that is not ISO-8859-1 as UCS-2 in
 ID3v2.2 and ID3v2.3 text frames

write-tagset refused any such title or artist, though it could read it.
---
 scribbu/scheme-serde.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 6b418a4..4c8fd4e 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -369,6 +369,20 @@ namespace {
     return std::make_tuple(id, tap, fap, ro, unsync);
   }
 
+  // Return true if `txt' (in UTF-8) can't be represented as ISO-8859-1
+  bool
+  needs_ucs2(const std::string &txt)
+  {
+    try {
+      scribbu::convert_encoding(txt, scribbu::encoding::UTF_8,
+                                scribbu::encoding::ISO_8859_1, false,
+                                scribbu::on_no_encoding::fail);
+    } catch (const std::exception&) {
+      return true;
+    }
+    return false;
+  }
+
   // Throw if `scm' isn't an <unk-frame> with a frame identifier of `n' characters
   void
   check_unknown_frame(SCM scm, std::size_t n)
@@ -821,9 +835,11 @@ namespace {
 
     frame_id3 id = p->second;
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
+    bool ucs2 = needs_ucs2(txt);
 
     return unique_ptr<id3v2_2_frame>(
-      new id3v2_2_text_frame(id, txt, encoding::UTF_8));
+      new id3v2_2_text_frame(id, txt, encoding::UTF_8, ucs2,
+                             on_no_encoding::fail, ucs2));
 
   }
 
@@ -856,11 +872,12 @@ namespace {
     frame_id4 id = p->second;
 
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
+    bool ucs2 = needs_ucs2(txt);
 
     return unique_ptr<id3v2_3_frame>(
-      new id3v2_3_text_frame(id, txt, encoding::UTF_8, false,
+      new id3v2_3_text_frame(id, txt, encoding::UTF_8, ucs2,
                              on_no_encoding::fail,
-                             false, tap, fap, ro));
+                             ucs2, tap, fap, ro));
 
   }
 
-- 
2.43.0


From 1e425d683128166baf19b85b8d3114f08736c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 53/72] fix: keep Scheme objects where the garbage collector
 sees them while reading tags

Frames, tags and the values of tag clouds were gathered in vectors on the
C++ heap, which is not scanned: a collection during read-tagset could free
them.
---
 scribbu/scheme-serde.cc | 45 ++++++++++++++++++++++-------------------
 scribbu/scheme.cc       | 42 +++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 44 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 4c8fd4e..955b958 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -691,13 +691,14 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      // NB. SCMs in a container wouldn't be seen by the garbage collector
+      SCM scm_vals = SCM_EOL;
+      for (const string &s: kv.second) {
+        scm_vals = scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                            scm_vals);
+      }
+      scm_vals = scm_reverse(scm_vals);
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
@@ -720,13 +721,14 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      // NB. SCMs in a container wouldn't be seen by the garbage collector
+      SCM scm_vals = SCM_EOL;
+      for (const string &s: kv.second) {
+        scm_vals = scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                            scm_vals);
+      }
+      scm_vals = scm_reverse(scm_vals);
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
@@ -749,13 +751,14 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      // NB. SCMs in a container wouldn't be seen by the garbage collector
+      SCM scm_vals = SCM_EOL;
+      for (const string &s: kv.second) {
+        scm_vals = scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                            scm_vals);
+      }
+      scm_vals = scm_reverse(scm_vals);
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 85ef0e7..e57187e 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -90,7 +90,8 @@ namespace {
 
     // Now for frames-- I'm going to do this in steps. First: we need to cast
     // `p' to a concrete type in order to get at the frames:
-    vector<SCM> frames;
+    // (NB. SCMs in a container wouldn't be seen by the garbage collector)
+    SCM frames = SCM_EOL;
     scheme_serde_dispatcher D;
     if (2 == version) {
 
@@ -101,10 +102,9 @@ namespace {
                   scm_from_int(version), SCM_BOOL_F);
       }
 
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_2_frame &f) {
-                  return D.de_2_2(f, unsync);
-                });
+      for (const id3v2_2_frame &f: *ptag) {
+        frames = scm_cons(D.de_2_2(f, unsync), frames);
+      }
 
 
     } else if (3 == version) {
@@ -117,10 +117,9 @@ namespace {
       }
 
       SCM_SET_SLOT(x, 0, scm_from_bool(ptag->experimental() ? 1 : 0));
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_3_frame &f) {
-                  return D.de_2_3(f, unsync);
-                });
+      for (const id3v2_3_frame &f: *ptag) {
+        frames = scm_cons(D.de_2_3(f, unsync), frames);
+      }
 
 
     } else if (4 == version) {
@@ -134,10 +133,9 @@ namespace {
 
       SCM_SET_SLOT(x, 0, scm_from_bool(ptag->experimental() ? 1 : 0));
 
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_4_frame &f) {
-                  return D.de_2_4(f, unsync);
-                });
+      for (const id3v2_4_frame &f: *ptag) {
+        frames = scm_cons(D.de_2_4(f, unsync), frames);
+      }
 
 
     } else {
@@ -147,7 +145,7 @@ namespace {
 
     }
 
-    SCM_SET_SLOT(x, 1, scm_list_for_range(frames.begin(), frames.end()));
+    SCM_SET_SLOT(x, 1, scm_reverse(frames));
     SCM_SET_SLOT(x, 2, scm_from_uint(p->padding()));
 
     return scm_list_3(x, scm_from_int(version), scm_from_bool(unsync));
@@ -419,15 +417,13 @@ extern "C" {
 
       // 2. transform that collection of C++ id3v2_tag instances into a collection
       // of Scheme <id3v2-tag> instances
-      vector<SCM> tags;
-      transform(v2.begin(), v2.end(), back_inserter(tags),
-                [](const unique_ptr<id3v2_tag>&p) {
-                  return scm_from_id3v2_tag(p.get());
-                });
-
-      // 3. finally, take that collection of SCMs and build them into a Scheme
-      // list
-      return scm_list_for_range(tags.begin(), tags.end());
+      SCM tags = SCM_EOL;
+      for (const unique_ptr<id3v2_tag> &p: v2) {
+        tags = scm_cons(scm_from_id3v2_tag(p.get()), tags);
+      }
+
+      // 3. finally, put them in order
+      return scm_reverse(tags);
 
     }
     catch (const exception &ex) {
-- 
2.43.0


From b6efca1986e24a0e3d7cfaa303cf5c3923790749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 54/72] fix: write ID3v1 tags from Scheme in the encoding they
 are read in

read-id3v1-tag takes the text to be ISO-8859-1; write-id3v1-tag wrote
UTF-8, so that accented text came back garbled.
---
 scribbu/scheme.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index e57187e..42df20b 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -344,7 +344,9 @@ extern "C" {
 
       if (ext) {
 
-        string enh_genre = pv1->enh_genre<string>();
+        string enh_genre = pv1->enh_genre<string>(encoding::ISO_8859_1,
+                                                  encoding::UTF_8,
+                                                  on_no_encoding::transliterate);
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
@@ -612,13 +614,13 @@ extern "C" {
       id3v1_tag tag(v11, enh);
 
       if (c_title && 0 != strlen(c_title)) {
-        tag.set_title(c_title, encoding::UTF_8, encoding::UTF_8);
+        tag.set_title(c_title, encoding::UTF_8, encoding::ISO_8859_1);
       }
       if (c_artist && 0 != strlen(c_artist)) {
-        tag.set_artist(c_artist, encoding::UTF_8, encoding::UTF_8);
+        tag.set_artist(c_artist, encoding::UTF_8, encoding::ISO_8859_1);
       }
       if (c_album && 0 != strlen(c_album)) {
-        tag.set_album(c_album, encoding::UTF_8, encoding::UTF_8);
+        tag.set_album(c_album, encoding::UTF_8, encoding::ISO_8859_1);
       }
 
       if (c_year && 0 != strlen(c_year)) { // treat "" as "not set"
@@ -630,7 +632,7 @@ extern "C" {
       }
 
       if (c_comment && 0 != strlen(c_comment)) {
-        tag.set_comment(c_comment, encoding::UTF_8, encoding::UTF_8);
+        tag.set_comment(c_comment, encoding::UTF_8, encoding::ISO_8859_1);
       }
 
       tag.set_genre(genre);
@@ -640,7 +642,7 @@ extern "C" {
       }
 
       if (enh) {
-        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::UTF_8);
+        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::ISO_8859_1);
         tag.set_speed(speed);
         if (c_start_time) {
           size_t n = strlen(c_start_time);
-- 
2.43.0


From 319c81bdb736bac0ab2750361be51a02dc917783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 55/72] fix: leave empty directories out of
 flat-file-system-tree

It returns a list of regular files.
---
 scheme/scribbu.scm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/scribbu.scm b/scheme/scribbu.scm
index b11d30b..bf006f5 100644
--- a/scheme/scribbu.scm
+++ b/scheme/scribbu.scm
@@ -61,7 +61,10 @@
 
 (define (strip-stat-from-file-system-tree parent entry)
   (match entry
-         ((name stat) (string-append parent "/" name))
+         ((name stat)
+          (if (eq? 'directory (stat:type stat))
+              '()
+              (string-append parent "/" name)))
 	       ((name stat children ...)
 	        (map
 	         (lambda (x)
-- 
2.43.0


From b94210c8314c05c0994d2a55af20c3b4932423c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:05 +0000
Subject: [PATCH 56/72] fix: report failures to write tags to a new file

maybe_emplace_tagset ignored them when the file did not exist: nothing, or
only part of the tags, was written, and the caller was told all was well.
---
 scribbu/tagset.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index dfd86e5..cde71d4 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -778,10 +778,11 @@ namespace scribbu {
     else if (!fs::exists(pth)) {
       // Special case-- output file does not exist
       std::ofstream ofs(pth, std::ofstream::binary);
+      ofs.exceptions(std::ios::failbit | std::ios::badbit);
       for ( ; p0 != p1; ++p0) {
         (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
       }
-
+      ofs.close();
     }
     else {
       // no way-- we need to copy
-- 
2.43.0


From b0bcdfd6c41fa1a9fe720f37974862221f8c8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 57/72] fix: report failures to write an ID3v1 tag

The tag is small enough to stay in the stream's buffer until the stream is
destroyed, when errors are ignored: on a full disk the old tag was gone, the
new one not written, and success reported.
---
 scribbu/id3v1.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 45aca21..5815730 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -596,4 +596,5 @@ scribbu::replace_id3v1(const fs::path &pth, const id3v1_tag &tag)
   std::ofstream ofs(pth, std::ofstream::binary|std::ofstream::app);
   ofs.exceptions(EXC_MASK);
   tag.write(ofs);
+  ofs.close();
 }
-- 
2.43.0


From 23a32ba4ee9f33f81d44d5a4dad5aa4be868b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 58/72] fix: do not take a file that cannot be read for one
 without an ID3v1 tag

maybe_remove_id3v1 ignored every failure to open the file. replace_id3v1
then appended a second tag to it.
---
 scribbu/id3v1.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 5815730..a196717 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -568,6 +568,9 @@ scribbu::maybe_remove_id3v1(const fs::path &pth)
   try {
     ifs.open(pth, std::ifstream::binary);
   } catch (const std::ios_base::failure&) {
+    if (fs::exists(pth)) {
+      throw;
+    }
     return;
   }
 
-- 
2.43.0


From 1308a80063b15640b8a7a1ed974ef6ef0df16761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:15 +0000
Subject: [PATCH 59/72] fix: report failures to write the pieces of a file in
 split

What was still buffered was written by the stream's destructor, which ignores
errors: split reported success though its output was empty or cut short.
---
 src/split.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/split.cc b/src/split.cc
index 95762f2..8b0f033 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -63,6 +63,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     std::unique_ptr<char[]> p(new char[cb]);
     in.read(p.get(), cb);
     ofs.write(p.get(), cb);
+    ofs.close(); // the destructor wouldn't report a failure
   }
 
   /**
-- 
2.43.0


From 40368ce44680c658955bbd54d2cb8d34e55e2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:15 +0000
Subject: [PATCH 60/72] fix: report failures to write a playlist

The state of the stream was never examined: m3u reported success even if nothing
could be written.
---
 src/m3u.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index f6c0133..9f3775a 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -273,6 +273,7 @@ namespace {
     if (!ofs_) {
       throw scribbu::file_open_error(out.native(), errno);
     }
+    ofs_.exceptions(ios_base::failbit | ios_base::badbit);
 
     // Only a new playlist needs a header
     if (!append || 0 == fs::file_size(out)) {
-- 
2.43.0


From 4f1bf1c7a7eb97345723eb9bad7135666f8a060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:15 +0000
Subject: [PATCH 61/72] fix: report failures to write a report

The state of the stream was never examined: report exited with status zero even
if its output could not be opened or written.
---
 src/report.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/report.cc b/src/report.cc
index 821b3d0..f20c87a 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -116,6 +116,8 @@ csv_reporter::csv_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  ofs_.exceptions(ios_base::failbit | ios_base::badbit);
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
@@ -247,6 +249,8 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  ofs_.exceptions(ios_base::failbit | ios_base::badbit);
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2d73ad4099e66a0eb9f6b6b5d474ed5476655633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:33 +0000
Subject: [PATCH 62/72] fix: do not take a failure to read for the absence of
 an ID3v1 tag

If the end of a file could not be read it was taken to have no ID3v1 tag: a
second one was written after it, or it was counted to the track.
---
 scribbu/id3v1.cc   | 8 ++++++++
 scribbu/scribbu.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index a196717..dd3cd1c 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -511,6 +511,10 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
     }
   }
   catch (const std::ios_base::failure &ex) {
+    if (is.bad()) { // It's not just that the stream is too short
+      is.exceptions(exc_mask);
+      throw;
+    }
     is.exceptions(std::ios_base::goodbit);
     is.clear();
     is.exceptions(EXC_MASK);
@@ -527,6 +531,10 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       }
     }
     catch (const std::ios_base::failure &ex) {
+      if (is.bad()) {
+        is.exceptions(exc_mask);
+        throw;
+      }
       is.exceptions(std::ios_base::goodbit);
       is.clear();
     }
diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 73f1d0a..9993b80 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -179,6 +179,10 @@ scribbu::find_id3v1_tag(std::istream &is)
     }
   }
   catch (const std::ios_base::failure &ex) {
+    if (is.bad()) { // It's not just that the stream is too short
+      is.exceptions(exc_mask);
+      throw;
+    }
     // OK-- something went wrong. Clear the flag, set `tag' to EoS.
     // stream ptr at the same place.
     is.exceptions(std::ios_base::goodbit);
@@ -205,6 +209,10 @@ scribbu::find_id3v1_tag(std::istream &is)
       }
     }
     catch (const std::ios_base::failure &ex) {
+      if (is.bad()) {
+        is.exceptions(exc_mask);
+        throw;
+      }
       // OK-- something went wrong. Clear the flag, set `tag' to EoS.
       // stream ptr at the same place.
       is.exceptions(std::ios_base::goodbit);
-- 
2.43.0


From 4f38f9972604356ebb95c3f1698083c13620f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:31 +0000
Subject: [PATCH 63/72] fix: report failures to write to standard output

The program exited with status zero though its output was lost, on a full disk,
say.
---
 src/scribbu.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scribbu.cc b/src/scribbu.cc
index 713c06b..2f971bf 100644
--- a/src/scribbu.cc
+++ b/src/scribbu.cc
@@ -478,6 +478,13 @@ main(int argc, char * argv[])
 
   }
 
+  // Don't report success if our output was lost
+  cout.exceptions(ios_base::goodbit);
+  if (!cout.flush() && EXIT_SUCCESS == status) {
+    cerr << program_name << ": couldn't write to standard output" << endl;
+    status = EXIT_FAILURE;
+  }
+
   scribbu::static_cleanup();
 
   return status;
-- 
2.43.0


From 7cd72e57ceff9acee05e691b693eca876687fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:08 +0000
Subject: [PATCH 64/72] fix: print ID3v2.4 tags containing PRIV or XTAG frames

The functions that print these two frames were registered among those for
ID3v2.3. Printing an ID3v2.4 tag with such a frame failed half-way, in every
format but CSV.
---
 scribbu/pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index c6b6b2c..6178664 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -293,8 +293,8 @@ pprint_dispatcher::pprint_dispatcher()
   reg_v24_frame<COMM_2_4, &pprinter::pprint_COMM_2_4>();
   reg_v24_frame<PCNT_2_4, &pprinter::pprint_PCNT_2_4>();
   reg_v24_frame<POPM_2_4, &pprinter::pprint_POPM_2_4>();
-  reg_v23_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
-  reg_v23_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
+  reg_v24_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
+  reg_v24_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
 
 }
 
-- 
2.43.0


From 045132bc575da2615d60b50fc4fbbedc1fa2c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:09 +0000
Subject: [PATCH 65/72] fix: print play counts in full

Only the low 32 bits of a play count were printed.
---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 6178664..1ca4f10 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -636,7 +636,7 @@ scribbu::standard_pprinter::pprint_CNT(const CNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -784,7 +784,7 @@ scribbu::standard_pprinter::pprint_PCNT(const PCNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -952,7 +952,7 @@ scribbu::standard_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &frame, std::ostream
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From 92fbaeba2ab9842d53daa92444b9711b98bffd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:09 +0000
Subject: [PATCH 66/72] fix: print ENCR frames in digits

The method symbol and the encryption data were written to the output as they
are, rather than as numbers.
---
 scribbu/pprinter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 1ca4f10..0d1099f 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -735,13 +735,13 @@ scribbu::standard_pprinter::pprint_ENCR(const ENCR &frame, std::ostream &os)
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
@@ -903,13 +903,13 @@ scribbu::standard_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frame, std::ostream
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
-- 
2.43.0


From ea38d3d79f630d38263b9344537eb1e7e2a48110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:09 +0000
Subject: [PATCH 67/72] fix: print each byte of an unknown language in two
 digits

Bytes beyond 0x7f were sign-extended, and printed as 0xffffff80 and up.
---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 0d1099f..950d009 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -101,9 +101,9 @@ std::string comment_lang(const scribbu::comments &frame) {
     stm2 << *strict_lang;
   } else {
     stm2 << hex << setfill('0') <<
-      "0x" << setw(2) << (unsigned)blang[0] << "," <<
-      "0x" << setw(2) << (unsigned)blang[1] << "," <<
-      "0x" << setw(2) << (unsigned)blang[2];
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[0] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[1] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[2];
   }
 
   return stm2.str();
-- 
2.43.0


From bab5ef2fceb5e98d8edba68e25aa757d3dad4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:54 +0000
Subject: [PATCH 68/72] fix: never leave an incomplete JSON object behind

A file one of whose tags cannot be printed left the beginning of an object in
the output of `scribbu dump --format=json', and nothing after it could be
parsed.
---
 src/dump.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 2abfb3a..7fe0506 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -245,21 +245,27 @@ namespace {
              << endl;
       }
 
+      // Should a tag turn out to be unprintable, an incomplete JSON object
+      // would spoil all that follows it.
+      ostringstream json;
+      json.copyfmt(cout);
+      ostream &os = format::json == fmt_ ? json : cout;
+
       if (dump_id3v2_) {
         for (ptrdiff_t i = 0, n = id3v2.size(); i < n; ++i) {
-          cout << *(id3v2[i]);
+          os << *(id3v2[i]);
         }
       }
 
       if (dump_track_) {
-        cout << td;
+        os << td;
       }
 
       if (dump_id3v1_ && pid3v1) {
-        cout << *pid3v1;
+        os << *pid3v1;
       }
 
-      cout << endl;
+      cout << json.str() << endl;
 
     }
     catch (const std::exception &ex) {
-- 
2.43.0


From 7a21b85613458e6b85ade31376c94b917441ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:54 +0000
Subject: [PATCH 69/72] fix: copy & destroy a stream's encoding as what it is

The encoding with which a stream has been imbued was destroyed as though it
were a character, and copied as though it were a string.
---
 scribbu/ostream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/ostream.cc b/scribbu/ostream.cc
index 632e931..adbb779 100644
--- a/scribbu/ostream.cc
+++ b/scribbu/ostream.cc
@@ -80,7 +80,7 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
 
   if (ios_base::erase_event == e) {
     try {
-      delete reinterpret_cast<char*>(ios.pword(idx));
+      delete reinterpret_cast<ienc*>(ios.pword(idx));
     }
     catch (...) {
       // Nothing to be done-- either the stream is being destroyed, or
@@ -91,10 +91,10 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
   }
   else if (ios_base::copyfmt_event == e) {
     void *&p = ios.pword(idx);
-    char *pold = reinterpret_cast<char*>(p);
+    ienc *pold = reinterpret_cast<ienc*>(p);
     if (nullptr != pold) {
       try {
-        p = strdup(pold);
+        p = new ienc(*pold);
       }
       catch (...) {
         // We can't throw, and we have no return code. The only thing
-- 
2.43.0


From 6dd1db989e9e20d7defd971abb2c32cd6a11d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:54 +0000
Subject: [PATCH 70/72] fix: print the bytes of PRIV frames in two digits each

Those below 0x10 were printed with whatever fill character the stream had
been left with.
---
 scribbu/pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 950d009..0adad8d 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -69,7 +69,7 @@ pprint_binary(const std::string &indent,
     os << indent << "  ><";
     return;
   }
-  os << indent << hex << setw(2) << (unsigned)*p0;
+  os << indent << hex << setfill('0') << setw(2) << (unsigned)*p0;
   ascii_rep += asciify(*p0);
   for (++p0 ; p0 != p1; ++p0) {
     os << ' ' << setw(2) << (unsigned)*p0;
-- 
2.43.0


From c674f21c5ca349af5a182938d4b8260621b162ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:33:39 +0000
Subject: [PATCH 71/72] fix: list the sub-commands on the stream the usage
 message goes to

A usage error printed its message on standard error, but the list of
sub-commands that ends it on standard output.
---
 src/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scribbu.cc b/src/scribbu.cc
index 2f971bf..278191c 100644
--- a/src/scribbu.cc
+++ b/src/scribbu.cc
@@ -251,7 +251,7 @@ For detailed help, say `scribbu --help'. To see the scribbu manual, say `info sc
 
     os << "scribbu sub-commands (run `scribbu <sub-command> -h' for a " <<
       "usage message):\n\n    ";
-    ostream_iterator<string> out(cout, "\n    ");
+    ostream_iterator<string> out(os, "\n    ");
     copy(sub_cmd_names.begin(), sub_cmd_names.end(), out);
     os << endl;
   }
-- 
2.43.0


From a8e9abb47cbdbaef6cacac9d85545eaa6978921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:37 +0000
Subject: [PATCH 72/72] fix: let SCRIBBU_CREATE stand for --create-frame

popm and xtag took it for an option which is no longer there, and refused
every command line while the variable was set.
---
 src/popm.cc | 2 +-
 src/xtag.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index d50c1dc..c5d7122 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -809,7 +809,7 @@ namespace {
 
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
         make_pair("SCRIBBU_OWNER", "owner"),
diff --git a/src/xtag.cc b/src/xtag.cc
index df16b65..a61a401 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -548,7 +548,7 @@ namespace {
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
         make_pair("SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_V2", "create-v2"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
-- 
2.43.0

