"""What each check runs."""

TAGS = {"quick": "ID3v2.2, 2.3 & 2.4 tags: every frame kind under every combination of flags; every content over {00,41,df,e0,ff} up to 4 bytes of every variable field; "
                 "all sequences of up to 2 frames under every header option & 4 paddings; frame sizes 1..300 & around every boundary to 2 MB; paddings 0..100 & boundaries; each plain & unsynchronised",
        "thorough": "as quick; contents up to 6 bytes, sequences of up to 3 frames, sizes to 5000, paddings to 2100"}

# calls of Guile's library before which a collection may happen
WRAPS = tuple("-Wl,--wrap=" + f for f in """
scm_make scm_from_utf8_string scm_from_utf8_stringn scm_from_locale_string scm_from_locale_stringn
scm_from_stringn scm_from_utf8_symbol scm_string_to_symbol scm_symbol_to_string scm_list_1 scm_list_2
scm_list_3 scm_append scm_reverse scm_reverse_x scm_append_x scm_acons scm_cons scm_c_make_bytevector
scm_list_ref scm_list_tail scm_length scm_c_public_ref scm_to_utf8_string scm_to_utf8_stringn
scm_to_locale_string scm_to_locale_stringn scm_to_stringn scm_class_of scm_call_3
""".split())

CHECKS = {
    "C01": dict(
        level="model_checking",
        technique="exhaustive exploration of edit histories on real files against a three-part model of the file",
        parts=[dict(harness="files", args=["--mode", "c01"], extra=["id3.cc"])],
        space={"quick": "tag sets of up to 2 of 9 tags by tag sets of up to 2; the same tags with paddings within 5; 17 kinds of audio by 4 endings by 5 tag sets; each under copy, in-place and automatic rewriting, "
                        "3 unsynchronisation modes, with & without backup, same & other filesystem; every ID3v1 replacement & removal; all histories of 2 operations from 10 files",
               "thorough": "as quick with all tag sets under all options, and histories of 3 operations"},
        assumptions=["one process edits the file", "tags as in C02"],
        level_note="Every operation is performed on a real file by the real code; the file and its directory are compared with the model after each.",
    ),
    "C09": dict(
        level="fault_enumeration",
        technique="a tracer kills, tears or fails every system call of a rewrite in turn",
        parts=[dict(harness="c09", variant="fast", extra=["id3.cc"])],
        space={"quick": "5 files by 4 tag sets, with & without backup, temporary directory on the same & another filesystem; 4 tag sets written to a new file; standard & enhanced ID3v1 tags written over each ending; at every system call: killed before it, killed half-way through a transfer, "
                        "short transfer, each plausible error; after each error in the cross-filesystem path, every second fault",
               "thorough": "as quick, with every pair of faults"},
        rule="a fault counts when the call it is aimed at is reached again; outcomes are distinct by what is then in the directory",
        assumptions=["the process may be killed; the machine keeps running (what was written is there)", "memory allocation succeeds", "the standard library's copy of a file reports its failures (its fallback for filesystems without sendfile does not report all: no second fault there)"],
        level_note="Every system call the real code makes is enumerated by tracing it; each fault is a run of the real code on a real directory.",
    ),
    "C10": dict(
        level="model_checking",
        technique="exhaustive exploration of edit histories in directories of resembling names",
        parts=[dict(harness="files", args=["--mode", "c10"], extra=["id3.cc"])],
        space={"quick": "7 file names, every subset of up to 3 of up to 23 resembling names, 8 ways to name the file, same & other filesystem, 3 edits each",
               "thorough": "as quick; subsets of up to 4, 4 edits"},
        assumptions=["one process edits the file", "a number may be skipped over or ignored when it has leading zeros or more than 17 digits"],
        level_note="Every history runs on real directories; the whole directory is compared after each edit.",
    ),
    "C02": dict(
        level="model_checking",
        technique="exhaustive enumeration of bounded tags; real writer & reader against an independent codec",
        parts=[dict(harness="tags", args=["--mode", "c02"], extra=["id3.cc"])],
        space=TAGS,
        assumptions=["no encrypted frames: writing one is documented as unsupported", "frame bodies of at least one byte, as the standard requires"],
        level_note="Every tag of the bounded space is built, written, decoded independently, read back and rewritten by the real code.",
    ),
    "C03": dict(
        level="model_checking",
        technique="exhaustive enumeration of bounded tags and of padding adjustments; sizes against bytes written",
        parts=[dict(harness="tags", args=["--mode", "c03"], extra=["id3.cc"]), dict(harness="files", args=["--mode", "c03"], extra=["id3.cc"])],
        space={k: v + "; adjusting sets of up to 3 tags with paddings 0..5 by -12..12 bytes; writing in place over sizes -3..3 away" for k, v in TAGS.items()},
        assumptions=["no encrypted frames", "frame bodies of at least one byte"],
        level_note="Every tag of the bounded space is measured and written by the real code.",
    ),
    "C04": dict(
        level="model_checking",
        technique="exhaustive enumeration of bounded tags; bytes written against the standard's scheme",
        parts=[dict(harness="tags", args=["--mode", "c04"], extra=["id3.cc"])],
        space=TAGS,
        assumptions=["no encrypted frames", "frame bodies of at least one byte"],
        level_note="Every tag of the bounded space is written both ways by the real code and compared with the scheme applied independently.",
    ),
    "C05": dict(
        level="model_checking",
        technique="exhaustive exploration of operation sequences on a tag against a list of frames",
        parts=[dict(harness="tagops", args=["--mode", "c05"], extra=["id3.cc"])],
        space={"quick": "2.2, 2.3 and 2.4; empty, made and read tags; all sequences of 2 of ~130 operations, all sequences of 3 of ~35 of them",
               "thorough": "all sequences of 3 whose last is one of ~35, all sequences of 4 of those 35 on the tag made"},
        assumptions=["among frames with one identifier a lookup or setter may choose any"],
        level_note="Every sequence runs on the real tag; after it every accessor is compared with a scan of the list of frames the model keeps.",
    ),
    "C06": dict(
        level="model_checking",
        technique="exhaustive exploration of interleavings of changes and queries",
        parts=[dict(harness="tagops", args=["--mode", "c06"], extra=["id3.cc"])],
        space={"quick": "every mutable frame type with and without compression, group, unsynchronisation: all sequences of 3 changes and queries; tags of five frames with and without extended header, padding, made and read: all sequences of 2",
               "thorough": "frames: sequences of 4; tags: sequences of 3 (on made tags without padding and read ones with it)"},
        assumptions=["no encrypted frames"],
        level_note="Every sequence runs on the real frames; bytes and sizes are compared with a fresh frame's and decoded independently.",
    ),
    "C07": dict(
        level="model_checking",
        technique="exhaustive enumeration of tags, ways of copying and later changes",
        parts=[dict(harness="tagops", args=["--mode", "c07"], extra=["id3.cc"])],
        space={"quick": "tags of each version over all frame kinds, flags, extended headers, footers and paddings; made, read, read unsynchronised; six ways of copying; every operation afterwards on either side; every frame kind by itself",
               "thorough": "as quick with all tags changed, and pairs of core operations"},
        assumptions=["no encrypted frames"],
        level_note="Every copy is compared with its original by every query and both forms written, before and after every change to the other.",
    ),
    "C08": dict(
        level="model_checking",
        technique="exhaustive enumeration of hostile inputs by entry point, stream position and exception mask, under sanitizers and under two memory fills",
        parts=[dict(harness="c08", name="c08", args=["--mode", "c08"], extra=["id3.cc"]),
               dict(harness="c08", name="c08u", args=["--mode", "c08u"], variant="raw", extra=["id3.cc"])],
        space={"quick": "17 entry points by 4 exception masks and 2 offsets: every header flag by version, revision and boundary size; tags of every frame kind cut at every byte (declared size kept, and put right), with every byte set to ~18 values, with pairs of header and frame bytes; every body of up to 4 bytes over 6 values for every frame identifier, every combination of frame flags; compressed bodies by claimed size and cut; extended headers; all MPEG headers; Xing, Info, LAME and VBRI headers by boundary field and cut; ID3v1 endings; two tags",
               "thorough": "every byte set to all 256 values, all frame flags on bodies of up to 2 bytes, each flag on those of 3"},
        assumptions=["any exception derived from std::exception is a documented one"],
        level_note="Every input is read by the real code through every applicable entry point.",
    ),
    "C11": dict(
        level="model_checking",
        technique="exhaustive exploration of edit sequences against a model of the layout; exhaustive enumeration of endings",
        parts=[dict(harness="c11")],
        space={"quick": "8 starting tags, all sequences of 3 of 44 settings (the third halved); every place of both layouts by 40 bytes; every length to 400 by 25 endings, 3 stream positions, 3 exception masks",
               "thorough": "sequences of 4, every byte in every place, every length to 800"},
        assumptions=["a track number of 0 is no track number, as the format has it"],
        level_note="Every sequence runs on the real code; the bytes written are compared with the standard's layout and read back three ways.",
    ),
    "C15": dict(
        level="model_checking",
        technique="exhaustive enumeration of text neighbourhoods against the full-table distance",
        parts=[dict(harness="c15")],
        space={"quick": "all 256 numbers; all 192 names in 3 cases; every text one edit away over an 8-letter alphabet; "
                        "every text two edits from names of up to 4 letters; prefixes, suffixes, pairs; all texts over 4 letters up to length 6; long texts to 1504",
               "thorough": "as quick, two edits from every name, all pairs of names, all texts over 9 letters up to length 5"},
        assumptions=["C.UTF-8 locale", "the list of 192 names is the one in the manual (harness/genres.inc)"],
        level_note="Exhaustive over the stated neighbourhoods, on the real code; the distance is compared with the full dynamic-programming table.",
    ),
    "C16": dict(
        level="model_checking",
        technique="exhaustive enumeration of texts, encodings and policies against independent encoders",
        parts=[dict(harness="c16", name=m, args=["--mode", m]) for m in ("convert", "malformed", "frames")],
        space={"quick": "to each of 98 encodings: all texts of up to 3 of 11 characters, runs of 4..40 and about block sizes of 13, 2 BOM choices, 3 policies; all pairs of encodings on texts of up to 2 of 13 characters; "
                        "all 1- and 2-byte strings of UTF-8, and 1-, 2- and 3-byte strings over 25 telling bytes of every encoding (4 bytes for those with surrogates or 4-byte forms); "
                        "texts of up to 3 characters set on, made into and read from frames, tags, comments and ID3v1 fields of every version in every encoding and over older text",
               "thorough": "as quick with texts of 4 characters, runs of up to 300, all 2-byte strings of every encoding and 3- and 4-byte strings over 43 bytes"},
        assumptions=["for encodings other than Unicode ones, ASCII and Latin-1 the mapping of characters is the system's (iconv, asked directly)",
                     "encodings the system does not know must be refused", "reading text trims trailing blanks and NULs; a leading mark is dropped when the target is UTF-8",
                     "UTF-16 and UTF-32 without a stated order carry a mark of their own"],
        level_note="Exhaustive over the stated texts on the real code; Unicode, ASCII and Latin-1 are encoded by the harness itself.",
    ),
    "C17": dict(
        level="model_checking",
        technique="exhaustive enumeration of clouds and histories of operations against a map of sets",
        parts=[dict(harness="c17", extra=["id3.cc"])],
        space={"quick": "all clouds of up to 3 keys with subsets of 3 values (all awkward to encode) for 3 owners, in URL and stored form and in frames of every version; "
                        "all histories of 3 out of about 100 operations from 3 clouds; keys and values of every length to 600; all texts of up to 2 bytes, all of up to 4 over 14 bytes, "
                        "all coded texts of up to 5 over 9 characters",
               "thorough": "4 keys, about 120 operations, lengths to 70000, texts of up to 5 bytes, coded texts of up to 6"},
        assumptions=["keys are not empty and neither keys nor values contain zero bytes (the format has no room for them)", "what an ill-formed URL encoding means is not judged"],
        level_note="Exhaustive over the stated clouds, histories and texts, on the real code; the model is std::map<key, std::set<value>>.",
    ),
    "C18": dict(
        level="model_checking",
        technique="exhaustive enumeration of headers, frame sequences and information headers against the known number of samples",
        parts=[dict(harness="c18")],
        space={"quick": "all 2^21 headers; all sequences of up to 5 frames of 8 kinds, "
                        "between 8 kinds of junk and 12 kinds of endings, cut anywhere in the last frame; Xing/Info (16 sets of fields, LAME or not, CRC or not) and VBRI headers in every version, "
                        "rate and channel mode with 9 counts, in and out of place; whole files with tags around 73 sequences",
               "thorough": "as quick, sequences of up to 6 frames, files of up to 3"},
        assumptions=["durations are compared to a relative 1e-9", "a final frame that is cut short may or may not be counted",
                     "a VBRI header is looked for in frames without CRC only (encoders differ on its place otherwise)"],
        level_note="Exhaustive over the stated streams, on the real code; every stream is put together from frames of known length, so the right answer is known without parsing.",
    ),
    "C19": dict(
        level="model_checking",
        technique="exhaustive enumeration of file layouts, each taken apart by every means and compared with the parts it was made of",
        parts=[dict(harness="c19", cli=True, extra=["id3.cc", "cli.cc"])],
        space={"quick": "all sequences of up to 2 of 26 tags (all versions, unsynchronised, footers, sizes about the limits of the size field, ending in look-alikes of ID3v1 tags) and of 3 of 10, "
                        "by 45 kinds of audio (lengths about those of tags and blocks, look-alikes) by 4 endings; read one by one, all together, by index, from streams and files, and by the split command",
               "thorough": "as quick, the command on all of them, and sequences of 4 of 10 tags"},
        assumptions=["tags are complete; a tag running past the end of the file is C08's", "an incomplete header followed by an ID3v1 tag is excluded (the two make up a header)"],
        level_note="Every file is put together from parts, so the right extents are known without parsing; the real code takes it apart, directly and through the command.",
    ),
    "C12": dict(
        level="model_checking",
        technique="exhaustive exploration of commands, options and file layouts, and of pairs of commands, against a model of the file",
        parts=[dict(harness="edits", name="c12", args=["--mode", "c12"], cli=True, extra=["id3.cc", "cli.cc"])],
        space={"quick": "about 390 files (0 to 3 tags of all versions, with extended headers, footers, groups, compression, unsynchronisation; 4 kinds of ID3v1 tag; 3 kinds of audio) by about 660 command lines of text, genre, popm and xtag "
                        "(what to set or delete, which tags, creation, backups, unsynchronisation, dry run, query, improper ones); all pairs of 8 commands on 42 files; every command on 4 selections of a tree of 7 files and a link",
               "thorough": "as quick, all pairs on all files, and all pairs of any command and one of the 8"},
        assumptions=["of several text frames with one identifier any may be edited (no such files here)", "whether text also edits ID3v1 tags when --tag is given is not judged (the manual and the code differ): the tag is either as it was or edited accordingly",
                     "combinations of --v1-only with the creation of ID3v2 tags (and the reverse) are not judged", "the locale names a language (comments copied from ID3v1 tags are said to be in it)"],
        level_note="Every command line is run by the program's own code in a directory of its own; every file there is compared before and after, and decoded independently.",
    ),
    "C13": dict(
        level="model_checking",
        technique="exhaustive exploration of histories of counter operations and of popm's options against integers",
        parts=[dict(harness="edits", name=m, args=["--mode", m], cli=True, extra=["id3.cc", "cli.cc"]) for m in ("c13l", "c13c")],
        space={"quick": "PCNT and POPM frames of every version, made or read with counters of 0 to 9 bytes, for 33 counts about every power of 256; all histories of 2 of 38 operations; "
                        "popm: 3 limits by 3 ways of creation by 4 owners by 10 ratings by 5 counts on 33 tags, and 67 counts on tags with each of 33 counts; three runs in a row about the limits; improper numbers and ratings",
               "thorough": "as quick, histories of 3"},
        assumptions=["counters wider than 8 bytes may be refused", "counting beyond 2^64-1 must be refused"],
        level_note="Exhaustive over the stated counts, widths and options on the real code; the frames' bytes are decoded independently.",
    ),
    "C14": dict(
        level="model_checking",
        technique="exhaustive enumeration of templates, of strings near templates, and of renamings in directories, against an evaluator and a recogniser of our own",
        parts=[dict(harness="templates", name=m, args=["--mode", m], cli=True, extra=["id3.cc", "cli.cc"]) for m in ("c14t", "c14g", "c14r")],
        space={"quick": "4 replacements by 45 sources & encodings by 15 ID3v2 by 13 ID3v1 texts by 4 versions; every choice of the, capitalization, white space & output options on 13 texts; every order of up to 3 options; "
                        "all sequences of 3 of 19 elements on 5 files; all strings of up to 4 of 18 tokens, and all within two edits (one, for long ones) of 13 templates, each followed by good templates; "
                        "9 sets of files by 6 templates by 8 options by 3 destinations by 3 ways to name them by every subset of targets in the way; every amount of room",
               "thorough": "as quick; orders of 4 options, sequences of 4, strings of 5, two edits of all templates"},
        assumptions=["the C locale", "tags do not contain path separators"],
        level_note="Every template of the bounded space is parsed and expanded by the real code on real files; every renaming runs on a real directory, all of which is compared.",
    ),
    "C20": dict(
        level="model_checking",
        technique="exhaustive enumeration of tags, options and histories; output read back by parsers of our own",
        parts=[dict(harness="reports", name=m, args=["--mode", m], cli=True, extra=["id3.cc", "cli.cc"]) for m in ("c20r", "c20j", "c20m")],
        space={"quick": "18 texts by 15 fields by 3 versions by 3 formats by 5 numbers of comments; pairs of texts by pairs of fields; 13 counts by 0-19 comments and 0-19 counts; every genre; all header flags; enhanced texts at every boundary; "
                        "all triples of 9 files (some unreadable); 8 names by 6 directories; as JSON: every frame (private, encryption & tag cloud ones included) with every (pair of) 18 texts, all header flags, a 23rd of the pairs of frames, every ID3v1 field, dump of every subset of 6 files with every selection; "
                        "playlists: 1150 combinations of titles by 3 durations by 3 names by 3 outputs, 0-199 frames, all histories of 3 of 8 runs from 5 states of the playlist",
               "thorough": "as quick; all pairs of fields, a 5th of the pairs of frames, up to 2000 frames, histories of 4"},
        assumptions=["a UTF-8 locale", "texts have no separators in tab-delimited reports"],
        level_note="Every report of the bounded space is made by the real commands on real files and parsed independently.",
    ),
    "C21": dict(
        level="model_checking",
        technique="exhaustive enumeration of files, objects, histories, directory trees and collection points; evaluated by Guile in the real module",
        parts=[dict(harness="scm", name=m, args=["--mode", m], cli=True, extra=["id3.cc", "cli.cc"], link=WRAPS) for m in ("read", "write", "v1", "history", "args", "walk", "gc")],
        space={"quick": "read, and written back in 4 ways: every kind of frame with every text, encoding & flag in 3 versions, orders of up to 3 frames, 0-400 frames, paddings, sets of up to 2 tags by audio by endings; "
                        "written: every kind of frame with every text in 3 versions, 81 settings of the flags, 4 ways of writing over 4 beginnings & 4 endings; ID3v1: every field by 11 texts, every subset of the fields; "
                        "all histories of 3 edits from 6 files; each slot & argument by 32 kinds of value; all trees of up to 3 files (6 kinds) & directories; a collection at each call made into Guile, in 32 programs",
               "thorough": "as quick; histories of 4 edits, trees of 4 nodes, sets of 3 tags, all orders written back in 4 ways"},
        assumptions=["a UTF-8 locale", "a collection occurs only where the library calls into Guile"],
        level_note="Every program is evaluated by Guile with the real module on real files; the oracle is a model of the file, decoded independently.",
    ),
    "C22": dict(
        level="fault_enumeration",
        technique="a tracer kills, tears or fails every system call of each command in turn",
        parts=[dict(harness="commands", variant="fast", cli=True, extra=["id3.cc", "cli.cc"])],
        space={"quick": "36 command lines (27 of text, genre, popm, xtag, rename, split, report, m3u; 9 with standard output a file) by 2 directories; at every system call on their files: killed before it, killed half-way through a transfer, "
                        "short transfer, each plausible error; after the first plausible error of each call that writes, at every later call killed or failing",
               "thorough": "as quick; after each error and short transfer of each call that writes, at every later call killed or failing in each way"},
        rule="a fault counts when the call it is aimed at is reached again; outcomes are distinct by command and what is then in the directory",
        assumptions=["the process may be killed; the machine keeps running (what was written is there)", "memory allocation succeeds", "lseek on a regular file does not fail", "the standard library's copy of a file reports its failures (its fallback for filesystems without sendfile does not report all: no second fault there)"],
        level_note="Every system call the real commands make is enumerated by tracing them; each fault is a run of the real command on a real directory, compared with a run without faults.",
    ),
    "C23": dict(
        level="model_checking",
        technique="exhaustive enumeration of frames, tags, options and histories of streams; output searched for all it must show",
        parts=[dict(harness="dumps", name=m, args=["--mode", m], cli=True, extra=["id3.cc", "cli.cc"]) for m in ("frame", "tag", "v1", "seq", "stream", "cmd")],
        space={"quick": "every kind of frame in 3 versions: 9 text frames, user-defined texts and comments with all pairs of 12 texts in every encoding (6 languages), owners by data, ratings by counters, counts of up to 5 bytes, 0-20 bytes of private data, clouds of tags, each by 3 indentations, alone, in a tag made and in a tag read; "
                        "every subset of 7 fields by 3 orders by 4 paddings by flags; ID3v1: 12 texts by 7 fields by 5 tracks, every genre, standard & enhanced; all pairs of 60 things (triples of 11) on one stream in 5 formats; all histories of 4 of 15 operations on two streams; "
                        "dump: every subset of 5 files by every selection by 4 filters by indentation, from files and from a directory; all sequences of 3 of 8 runs",
               "thorough": "as quick; all orders by encoding and indentation, triples ending in any of the 60, histories of 5"},
        assumptions=["a UTF-8 locale", "each manipulator is inserted once"],
        level_note="Everything is printed by the real inserters and the real command; the text is searched for what an independent model of the tag says it must show.",
    ),
    "C24": dict(
        level="model_checking",
        technique="exhaustive enumeration of command lines and environments; different ways of saying the same thing compared, faulty ones must do nothing",
        parts=[dict(harness="options", name=m, args=["--mode", m], cli=True, extra=["id3.cc", "cli.cc"]) for m in ("same", "env", "refused", "help", "program")],
        space={"quick": "9 commands, 80 options: every set of up to 2 options, each with 2 values, by every order, 4 spellings, 3 places among the files, switches run together; every such set by each part of it set in the environment, 4 ways of on & off, both set; "
                        "every option with a value that is none, with no value, given twice, a switch with a value, unknown options, contradictions, malformed environment variables, each with every other option and value by order and place; no files at all; -h with every option; the whole program with every command, global option and misspelling",
               "thorough": "as quick; every set of up to 3 options"},
        assumptions=["a UTF-8 locale", "the documentation names the options, their short forms and the values they take"],
        level_note="The real commands are run on real files; status, both outputs and every file are compared. The table of options and values is written from the documentation, not taken from the code.",
    ),
}

# properties with no check, and why
NOT_APPLICABLE = {}
