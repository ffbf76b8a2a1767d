import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Editing tags never alters the audio or the tags that were not edited",
 "However a file's ID3v2 tags are rewritten (full copy, in-place, automatic choice between the two, with or without a backup) and however its ID3v1 tag is replaced or removed, the file afterwards is exactly the requested ID3v2 tags, followed by the original audio bytes in order, followed by the requested (or untouched) ID3v1 tag. No audio byte is lost, added, moved or changed, even when the audio contains byte patterns that look like tags. An edit that is refused with an error leaves the file as it was.",
 ["inputs","histories","configurations"],
 "every file laid out as 0..2 ID3v2 tags (any version, with and without padding) + audio drawn from a set that includes tag look-alikes and tiny/empty audio + optional ID3v1/enhanced ID3v1 tag, and every sequence of edit operations up to the depth bound",
 "the unit tests rewrite a handful of fixed files once; the guarantee is about all layouts and all sequences of edits",
 ["scribbu/tagset.hh","scribbu/tagset.cc","scribbu/id3v1.cc","scribbu/id3v2.cc"],
 [("replace_tagset_copy","scribbu/tagset.hh"),("replace_tagset_emplace","scribbu/tagset.hh"),("maybe_emplace_tagset","scribbu/tagset.hh"),("replace_id3v1 / maybe_remove_id3v1","scribbu/id3v1.cc")],
 ["bytes of the file on disk after each operation"])

p("C02","A tag that is written reads back as the same tag, and rewrites identically",
 "Writing any ID3v2.2, 2.3 or 2.4 tag and reading the bytes back yields a tag with the same version, flags, extended header, padding and the same frames in the same order, each with the same identifier, status flags and field values. Writing that tag again produces the same bytes. Frames of unknown type are carried through unchanged. A checksum in the extended header is that of the frames written.",
 ["inputs","configurations"],
 "every tag assembled from up to the bounded number of frames over an alphabet covering every supported frame type, text encoding, status flag, group/encryption/compression attribute, extended-header form and padding size, written with and without unsynchronisation",
 "tests check chosen examples per frame class, mostly in isolation; round-tripping must hold for every combination of frames, flags and padding",
 ["scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/framesv2.cc","scribbu/framesv22.cc","scribbu/framesv23.cc","scribbu/framesv24.cc"],
 [("tag write / parse","scribbu/id3v23.cc"),("frame write_header / serialize","scribbu/framesv23.cc"),("frame parsers","scribbu/id3v23.cc")],
 ["bytes written by a tag","accessors of the tag read back"])

p("C03","A tag's reported size is exactly what it writes, and padding is absorbed exactly",
 "For every tag, the size it reports equals the number of bytes it actually writes (less the ten-byte header) and the size it declares in its header (which leaves out a footer). When a tagset is adjusted to fill a given space, the result fills it to the byte with padding spread as the chosen strategy says, or the request is refused without altering any tag; writing a tagset in place never changes the length of the file. Left to choose, a tagset is written in place whenever it fits the space of the old one, reducing its padding where that is allowed.",
 ["inputs","configurations"],
 "every tag over the bounded frame alphabet with every padding size up to the bound and both unsynchronisation settings; every tagset of up to three tags, every target size around the current one, every strategy",
 "tests check a few sizes; the arithmetic has to be right for every combination of frame sizes, remainders and strategies",
 ["scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/tagset.hh"],
 [("size()","scribbu/id3v23.cc"),("adjust_padding_to","scribbu/tagset.hh"),("emplace strategies","scribbu/tagset.hh")],
 ["size reported, size declared in the header, number of bytes written, padding of each tag"])

p("C04","Unsynchronisation is exact: no false sync is written, and reading undoes it",
 "When a tag is written unsynchronised, the bytes after the header contain no false MPEG synchronisation (0xff followed by 0xe0 or more, nor an ambiguous 0xff 0x00 from the data), the header says so, and reading undoes it exactly. When it is written without unsynchronisation the data is stored verbatim and the header says so. A tag reports that it needs unsynchronisation if and only if writing it verbatim would produce a false sync (for 2.4, where the scheme applies frame by frame: if and only if every frame would).",
 ["inputs","configurations"],
 "every frame payload up to the length bound over the bytes that matter to the scheme (00 01 df e0 fe ff), at every position: inside a frame, at a frame boundary, at the end of the tag with and without padding",
 "the scheme's difficulties are at boundaries (ff at the end of a frame, of a tag, before padding); tests try a few payloads",
 ["scribbu/id3v2.cc","scribbu/id3v2.hh","scribbu/framesv2.cc","scribbu/framesv2.hh","scribbu/framesv22.cc","scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/framesv23.cc"],
 [("resynchronise","scribbu/id3v2.cc"),("detail::unsynchronise / count_syncs / needs_unsync","scribbu/framesv2.hh"),("frame cache of both serialised forms","scribbu/framesv23.cc")],
 ["bytes written, flags, tag read back, needs_unsynchronisation()"])

p("C05","A tag's lookups always agree with its list of frames",
 "After any sequence of reads, insertions, removals, replacements and in-place edits, everything a tag answers about its frames (how many, whether a frame exists, a frame with that identifier, artist/title/album/... text, comments, play counts, popularimeters) is exactly what a scan of the tag's frames in order would answer. Each operation changes only the frame it addresses and keeps all others in order.",
 ["histories"],
 "every sequence of container and accessor operations up to the depth bound, for ID3v2.2, 2.3 and 2.4 tags, starting from empty and from parsed tags, over an alphabet of frames with equal and distinct identifiers",
 "lookup tables are maintained incrementally and go wrong only for particular orders of operations; tests perform one or two operations",
 ["scribbu/id3v22.cc","scribbu/id3v22.hh","scribbu/id3v23.cc","scribbu/id3v23.hh","scribbu/id3v24.cc","scribbu/id3v24.hh"],
 [("add_frame_to_lookups / remove_frame_from_lookups","scribbu/id3v23.cc"),("insert / erase / push_back / proxy assignment","scribbu/id3v23.cc"),("delete_frame","scribbu/id3v23.cc")],
 ["public accessors of the tag compared with iteration over it"],
 [("frames_, frame_map_, text_map_, comms_, pcnts_, popms_","the frame list and the indexes derived from it","scribbu/id3v23.hh")])

p("C06","Changes made to a frame are what gets written, whatever was asked of it before",
 "After any interleaving of changing a frame (setting text, descriptions, ratings, counters, tag-cloud contents) and asking for its or its tag's size, checksum or bytes, the size reported and the bytes written always reflect the frame's current contents. They are the same as for a freshly made frame with those contents.",
 ["histories"],
 "every sequence of mutators and queries up to the depth bound for every mutable frame type of ID3v2.2, 2.3 and 2.4, alone and inside a tag with and without extended-header checksum",
 "frames keep their serialised form after a query; staleness needs the order query-change-query which tests do not enumerate",
 ["scribbu/framesv2.hh","scribbu/framesv2.cc","scribbu/framesv22.hh","scribbu/framesv22.cc","scribbu/framesv23.hh","scribbu/framesv23.cc","scribbu/framesv24.hh","scribbu/framesv24.cc","scribbu/id3v23.cc"],
 [("dirty flag / ensure_cached_data_is_fresh","scribbu/framesv2.cc"),("extended header size & CRC dirtying","scribbu/id3v23.cc")],
 ["serialized_size, bytes written, tag size, checksum in the extended header"],
 [("dirty_, cached serialised forms","whether the cache reflects the frame","scribbu/framesv2.hh")])

p("C07","A copied tag or frame is equal to the original and independent of it",
 "Copying, cloning or assigning a tag (of any version, empty or not, with or without extended header) yields a tag that answers every query and writes every byte as the original does. Later changes to either one never show in the other.",
 ["histories","inputs"],
 "every tag over the bounded frame alphabet, every way of copying (copy construction, assignment over any other tag, clone) followed by every sequence of changes to either copy up to the depth bound",
 "tests copy single frames only; a copied tag has derived indexes that must be rebuilt for every combination of frames",
 ["scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/framesv22.hh","scribbu/framesv23.hh","scribbu/framesv24.hh"],
 [("copy constructors, operator=, clone","scribbu/id3v23.cc")],
 ["accessors and bytes of both tags"])

p("C08","Reading untrusted data never corrupts memory, hangs, or loses its place",
 "Whatever bytes a stream contains, looking for or reading ID3v2, ID3v1 and MP3 data terminates and either succeeds, reports absence, or throws one of the library's documented exceptions; it never touches memory outside its buffers, never uses values it did not read, and never loops forever. On success the stream is left exactly after what was consumed (or where it was, when nothing is found), and the caller's stream error settings are as they were before the call in every case.",
 ["inputs","configurations"],
 "every byte string in the bounded space: header fields, frame headers and frame bodies drawn from boundary values for every supported frame type of each version, all truncation points, all ID3v1 positions; both stream exception settings",
 "tests read well-formed files; hostile sizes, truncated bodies and missing terminators have to be tried at every position",
 ["scribbu/id3v2.cc","scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/framesv2.cc","scribbu/framesv2.hh","scribbu/framesv22.hh","scribbu/framesv23.hh","scribbu/framesv24.hh","scribbu/id3v1.cc","scribbu/mp3.cc","scribbu/id3v2-utils.cc","scribbu/scribbu.cc"],
 [("parse / parse_frame","scribbu/id3v23.cc"),("frame constructors from bytes","scribbu/framesv2.hh"),("looking_at_id3v2, ends_in_id3v1","scribbu/id3v2.cc")],
 ["exceptions thrown, stream position and exception mask, address/undefined-behaviour sanitizer, step count"])

p("C09","A crash or I/O failure during a rewrite never loses or truncates the file",
 "If rewriting a file's tags by copying is interrupted at any system call, or any system call in it fails, then at that moment the file under its own name is either the complete old file or the complete new file, or the complete old file exists under its backup name. A failure that is reported as an exception leaves the old contents reachable and no stray working file; success is reported only if the complete new file is in place. Writing an ID3v1 tag never loses what precedes the tag, and is reported as a success only if the whole tag is there; likewise writing tags to a file that did not exist.",
 ["crash_points","fault_sequences","histories"],
 "every point between two system calls of a rewrite (crash), every single failure of open/read/write/close/rename/unlink including short writes and cross-device renames, with and without backup, on an empty directory and one with earlier backups, also after earlier rewrites; tags written to a new file; ID3v1 tags written over every ending",
 "tests only see the fault-free path; crash points and failing system calls cannot be reached by them",
 ["scribbu/tagset.hh","scribbu/tagset.cc","scribbu/scribbu.cc","scribbu/id3v1.cc"],
 [("replace_id3v1","scribbu/id3v1.cc"),("maybe_emplace_tagset","scribbu/tagset.hh"),("replace_tagset_copy: temporary file, rename to backup, rename over original","scribbu/tagset.hh")],
 ["directory contents after each system call / fault"])

p("C10","Making a backup never overwrites an existing file",
 "Every backup is made under a name no existing file has, derived from the original name with the next unused number, whether the file is named by an absolute or relative path and whatever other files (including ones whose names merely resemble backups) are in the directory. After any history of n edits with backups, all earlier versions of the file exist unchanged, one per backup.",
 ["histories","configurations"],
 "every subset of a set of neighbouring file names (gaps, non-numeric and look-alike suffixes), both path forms, and every history of edits with and without backup up to the depth bound",
 "the test checks one directory and one absolute name",
 ["scribbu/tagset.cc","scribbu/tagset.hh"],
 [("get_backup_name","scribbu/tagset.cc"),("replace_tagset_copy","scribbu/tagset.hh")],
 ["directory listing and contents"])

p("C11","ID3v1 tags keep every field, and are found exactly when present",
 "Every ID3v1, ID3v1.1 and enhanced tag that is built or edited through the API and written out occupies exactly 128 (or 355) bytes in the standard layout and reads back with the same fields, truncated only to the space the format has. A tag is found if and only if the last 128 bytes of the file are one (enhanced if and only if it is preceded by an enhanced block), and finding it reports its exact extent.",
 ["inputs","histories"],
 "every sequence of setters up to the depth bound over texts of boundary lengths, for the three tag forms; every file tail over the set of marker positions and truncations",
 "tests read two or three fixed tags; the fields share space and setters switch the form of the tag, so the order of edits matters",
 ["scribbu/id3v1.cc","scribbu/id3v1.hh","scribbu/scribbu.cc"],
 [("id3v1_tag setters / write / read","scribbu/id3v1.hh"),("ends_in_id3v1, find_id3v1_tag","scribbu/id3v1.cc")],
 ["bytes written, accessors of the tag read back, reported extents"])

p("C12","Editing commands change only what they were told to, and dry runs change nothing",
 "The text, genre, popm and xtag commands modify exactly the selected tags of the named files and, in them, exactly the fields asked for; other frames, other tags, the audio and other files stay byte-for-byte the same. With the dry-run option, with a query-only option, or when nothing applies, no file is modified, created or removed.",
 ["configurations","inputs","histories"],
 "every combination of the selection options (which tag, v1/v2 only, create/always-create, dry run, backups, get) with every tag layout of 0..3 ID3v2 tags with/without ID3v1, and sequences of two commands",
 "the shell tests run a few option combinations on one or two files",
 ["src/command-utilities.cc","src/command-utilities.hh","src/text.cc","src/genre.cc","src/popm.cc","src/xtag.cc"],
 [("tagset_processor::process_file / write_tagset","src/command-utilities.cc"),("per-command process_v1/process_v2/create_*","src/genre.cc")],
 ["bytes of every file in the directory before and after running the program"])

p("C13","Play counts and ratings are counted and stored exactly",
 "Incrementing or setting a play count or popularimeter always yields the arithmetically right count, stored big-endian in as many bytes as needed, never wrapping or disturbing the rating or the owner. The popm command applies the requested count and rating to exactly the play-count and/or popularimeter frames (and owner) it was limited to.",
 ["inputs","configurations"],
 "every counter value around each byte-width boundary, every width read from a tag, every rating, all combinations of the command's limiting, creating and increment/set options with all frame sets",
 "tests increment two small numbers",
 ["scribbu/framesv2.cc","scribbu/framesv2.hh","src/popm.cc"],
 [("play_count, popularimeter counters","scribbu/framesv2.cc"),("popm traversal policies","src/popm.cc")],
 ["bytes of PCNT/POPM frames"])

p("C14","Rename templates mean what the manual says, and renaming never destroys a file",
 "A template expands to its literal text (with backslash escapes removed) and, for each replacement, the text from the preferred tag (falling back as documented) transformed by exactly the given options, in order; an ill-formed template is rejected and does not affect later ones. The rename command gives each file exactly that name with unchanged contents, never overwrites an existing file, keeps the source unless told otherwise, and in a dry run touches nothing.",
 ["inputs","configurations"],
 "every template of up to the bounded number of elements over the alphabet of literals, escapes, short and long replacements and option combinations; tags present/absent in each place with texts including leading articles, runs of white space and empty text; every arrangement of existing target files",
 "tests evaluate a few templates on one file",
 ["scribbu/tbt-lexer.ll","scribbu/tbt-parser.yy","scribbu/tbt-support.cc","scribbu/tbt-support.hh","scribbu/id3v2-utils.cc","src/rename.cc"],
 [("grammar and lexer","scribbu/tbt-parser.yy"),("term evaluation","scribbu/tbt-support.cc"),("rename","src/rename.cc")],
 ["text produced, directory contents"])

p("C15","Genre matching picks a Winamp genre at minimal edit distance",
 "For every text, the genre chosen is one whose case-insensitive Damerau-Levenshtein distance to the text is the smallest over all 192 Winamp genres, the distance reported is that distance, an exact name (in any case) maps to itself, and number-to-name and name-to-number agree. The distance is a metric: zero only for equal texts, symmetric, and within one of the distance of texts differing by one edit.",
 ["inputs"],
 "every text within two edits (insert, delete, substitute, transpose) of every genre name over a bounded alphabet, every text up to a bounded length over a small alphabet, and long texts",
 "the smoke test tries a handful of misspellings",
 ["scribbu/winamp-genres.cc","scribbu/winamp-genres.hh"],
 [("damerau_levenshtein","scribbu/winamp-genres.hh"),("match_winamp_genre, tables","scribbu/winamp-genres.cc")],
 ["returned text, number and distance"])

p("C16","Text survives conversion between encodings, or the failure is reported",
 "Converting text to any supported encoding that can represent it and back returns the same text, with a byte-order mark exactly when asked for (or when the encoding itself calls for one); text set on a frame or tag reads back the same, but for trailing blanks and NULs, in every encoding the frame format allows. Text the target cannot represent is reported as an error by default, and never silently dropped, truncated or altered unless ignoring or transliterating was asked for.",
 ["inputs","configurations"],
 "every string up to the length bound over characters of 1, 2, 3 and 4 UTF-8 bytes, for every pair of Unicode encodings and every supported 8-bit encoding, every BOM choice and every failure policy; malformed input of each kind",
 "tests convert a few fixed strings between a few encodings",
 ["scribbu/charsets.cc","scribbu/charsets.hh","scribbu/framesv22.cc","scribbu/framesv23.cc","scribbu/framesv24.cc","scribbu/framesv2.hh","scribbu/framesv2.cc"],
 [("convert_encoding, detail::descriptor","scribbu/charsets.cc"),("text frame set / as_str","scribbu/framesv23.cc")],
 ["converted bytes, text read back, exceptions"])

p("C17","Tag clouds behave as sets of keys and values and survive URL encoding",
 "A tag cloud behaves as a map from keys to sets of values under every sequence of additions, merges, updates and resets: merging is union, updating replaces the contents with those given, and membership answers agree with the contents. Its URL-encoded form (for non-empty keys) and its stored form read back as the same cloud for every text, and URL encoding and decoding are inverse on every byte string.",
 ["histories","inputs"],
 "every sequence of cloud operations up to the depth bound over small key and value sets including empty, reserved and non-ASCII text; every byte string up to the length bound for the encoder",
 "tests encode one or two examples",
 ["scribbu/framesv2.cc","scribbu/framesv2.hh","scribbu/scribbu.cc","src/xtag.cc"],
 [("tag_cloud","scribbu/framesv2.cc"),("urlencode / urldecode","scribbu/scribbu.cc")],
 ["cloud queries, encoded text, stored bytes"])

p("C18","MP3 duration is the sum over the audio frames, for every stream shape",
 "The duration reported for MPEG audio equals the number of samples in its frames divided by the sampling rate: computed from the encoder's info header when there is one that gives the numbers of frames and bytes, and by walking every frame otherwise. Any version of MPEG audio layer III, bit rate, sampling rate, padding and channel mode is handled, tags before and after the audio contribute nothing, and unusable data is reported rather than miscounted.",
 ["inputs","configurations"],
 "every valid MPEG audio header, every sequence of up to the bounded number of frames over mixed headers, with each form of encoder header, leading junk and trailing tags",
 "tests measure three files",
 ["scribbu/mp3.cc","scribbu/mp3.hh"],
 [("mp3_audio_frame","scribbu/mp3.cc"),("get_mp3_duration, find_sync","scribbu/mp3.cc"),("Xing/VBRI headers","scribbu/mp3.cc")],
 ["reported duration"])

p("C19","The parts found in a file partition it: nothing is lost or counted twice",
 "For every file, the ID3v2 tags found at its start, the track data and the ID3v1 tag found at its end are consecutive, disjoint and together are the whole file; reading tags one by one, all together or by index finds the same tags in the same order. The track's reported size and MD5 are those of exactly the bytes in between, and the files produced by the split command concatenate to the original.",
 ["inputs"],
 "every layout of 0..3 ID3v2 tags of each version (padded or not, unsynchronised or not) + audio over a set including look-alikes and lengths around each tag size + each ID3v1 form",
 "tests look at a few complete files",
 ["scribbu/scribbu.cc","scribbu/id3v2-utils.cc","scribbu/id3v2-utils.hh","scribbu/id3v1.cc","scribbu/tagset.hh","src/split.cc"],
 [("read_all_id3v2, read_id3v2, total sizes","scribbu/id3v2-utils.cc"),("track_data / compute_track_md5 / find_id3v1_tag","scribbu/scribbu.cc"),("split","src/split.cc")],
 ["extents, sizes, MD5, split outputs"])

p("C20","Reports and playlists are well-formed and say what the tags say",
 "Every report in CSV form is valid RFC 4180, whatever the tags contain, and one in tab-delimited form (of texts without tabs or line breaks) has one separator between fields; every row has as many fields as the header, for exactly the files that could be read, and each field reads back as the value in the tag, with numbers in decimal where the header says a count. JSON output is valid JSON, and a playlist has one header, then for each file its rounded duration, display title and path.",
 ["inputs","configurations"],
 "every combination of tag presence and of texts over an alphabet containing separators, quotes, line breaks and non-ASCII characters in every reported field; every comment count option; both output formats; append and overwrite",
 "tests compare output for a few tame tags",
 ["scribbu/csv-pprinter.cc","scribbu/tdf-pprinter.cc","scribbu/json-pprinter.cc","src/report.cc","src/m3u.cc","src/dump.cc"],
 [("escape","scribbu/csv-pprinter.cc"),("reporters","src/report.cc"),("m3u","src/m3u.cc")],
 ["report, JSON and playlist output parsed by an independent parser"])

p("C21","Scheme programs read what the file says, and what they write is in the file",
 "read-tagset gives every ID3v2 tag at the front of a file with its version, unsynchronisation, experimental indicator and padding, and every frame in order with its kind, flags and contents; read-id3v1-tag gives every field of the ID3v1 tag (enhanced ones included) or nothing. write-tagset and write-id3v1-tag make the file's tags exactly those given and leave the rest of the file alone; what was read and is written back unchanged keeps every frame. with-track-in, fs-tree-generator and flat-file-system-tree visit every file below a directory exactly once. A call that cannot be carried out raises a Scheme error and leaves the file as it was: no arguments crash the interpreter. All of this holds wherever the garbage collector runs.",
 ["inputs","histories","configurations","schedules"],
 "every kind of frame by text, encoding, flags and version, bounded tag sets by endings, every bounded history of edits, every slot and argument by a set of kinds of value, all small directory trees, a garbage collection at every call into Guile",
 "tests read and write a few tags; frames, versions, encodings, flags and collection points multiply",
 ["scribbu/scheme.cc","scribbu/scheme-serde.cc","scribbu/scheme-serde.hh","scheme/scribbu.scm"],
 [("read_tagset, write_tagset, read_id3v1_tag, write_id3v1_tag, with_track_in","scribbu/scheme.cc"),("de_* and ser_* functions","scribbu/scheme-serde.cc"),("fs-tree-generator, flat-file-system-tree, classes","scheme/scribbu.scm")],
 ["objects given to Scheme programs, errors raised, file contents"])

p("C22","A command that reports success has done its work, and no failure loses music",
 "Whatever system call fails, is cut short or is the last before the process is killed, while text, genre, popm, xtag, rename, split, report or m3u is at work: the music of every file is still there, complete, under some name in the directory; files not named are untouched; a playlist appended to keeps its entries. The command exits with status zero only if every file it was to write, and what it was to print on standard output, is there in full, just as without the failure; otherwise it exits with another status and says why.",
 ["crash_points","fault_sequences"],
 "every system call of 36 command lines on two directories: killed before or half-way, short transfers, every plausible error; every second failure after one",
 "tests only see the fault-free path",
 ["src/scribbu.cc","src/split.cc","src/m3u.cc","src/report.cc","src/rename.cc","src/text.cc","src/genre.cc","src/popm.cc","src/xtag.cc","src/command-utilities.hh","scribbu/tagset.hh"],
 [("xfer_bytes","src/split.cc"),("renamer::process_file","src/rename.cc"),("m3u_to_file","src/m3u.cc"),("csv_reporter, tdf_reporter","src/report.cc"),("process_dirent_args","src/command-utilities.hh")],
 ["exit status, messages, directory contents"])

p("C23","A dump shows every tag, frame and field, whatever was printed before",
 "What is printed of a tag, a frame, an ID3v1 tag or track data in the standard format names it and shows each of its fields in full: identifiers, texts (in the stream's encoding), owners, languages, counts and ratings in decimal, binary data as pairs of hexadecimal digits, sizes, flags, padding, the MD5 of the audio. A tag is shown with all its frames, once each and in order. The text does not depend on what was printed to the stream before, and a stream's settings (printer, indentation, encoding) are its own: copied by copyfmt, exchanged by swap, gone with the stream. The dump command shows exactly the selected parts of exactly the files that match, in the order given, and changes nothing.",
 ["inputs","configurations","histories"],
 "every kind of frame in three versions with every value of each field, alone and within a tag; every subset and order of the fields of a tag by flags and padding; every ID3v1 field, track and genre; all pairs (triples) of things printed to one stream in five formats; all bounded histories of two streams; every selection, filter and subset of files given to the command",
 "tests print a few tags, each to a stream of its own",
 ["scribbu/pprinter.cc","scribbu/pprinter.hh","scribbu/ostream.cc","scribbu/ostream.hh","src/dump.cc"],
 [("standard_pprinter","scribbu/pprinter.cc"),("pprint_dispatcher, pprint_manipulator","scribbu/pprinter.cc"),("ienc","scribbu/ostream.cc"),("dumper","src/dump.cc")],
 ["text inserted into streams, output of dump"])

p("C24","A command line means what it says, however it is said, or is refused whole",
 "What a command does depends only on which options it is given with which values and on which files: not on short or long spelling, on how a value is attached, on the order of the options or their place among the files. A variable of the environment counts as the option it stands for; off is as good as not set, and the command line has the last word. A command line with anything wrong in it (an unknown option, a missing, malformed or repeated value, options that contradict one another, no files, a malformed variable) is refused: status not zero, a message on standard error, nothing on standard output, no file touched. -h explains every option and does nothing else. The program hands a command its arguments unchanged.",
 ["inputs","configurations"],
 "every set of up to two (three) options of every command with each of two values, by order, spelling, place and environment; every mistake with every other option by order and place; every command and misspelling through the whole program",
 "tests give each command a few options in one way",
 ["src/scribbu.cc","src/command-utilities.cc","src/text.cc","src/genre.cc","src/popm.cc","src/xtag.cc","src/rename.cc","src/split.cc","src/report.cc","src/m3u.cc","src/dump.cc"],
 [("handle_options, print_usage, main","src/scribbu.cc"),("maybe_handle_help","src/command-utilities.cc"),("handle_genre","src/genre.cc"),("handle_popm, rating_from_text","src/popm.cc"),("handle_text","src/text.cc"),("handle_xtag","src/xtag.cc")],
 ["exit status, both outputs and the files of every command"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
