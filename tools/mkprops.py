#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only for readable editing): python3 tools/mkprops.py"""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: anchors["observe_at"]=observe
    if state: anchors["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":anchors})

A="src/atom/"; T="src/tag/"
p("C01","Declared atom sizes equal the bytes emitted",
 "Every atom that writing or dumping a tag emits declares, in its own length field, exactly the number of bytes emitted for it including its header. This covers the item, mean, name and data atoms, the item list and every newly created enclosing atom and file type atom, for every kind of value (binary, UTF-8, UTF-16, image), any number of values and any text.",
 ["inputs"],"all tags: any identifiers, any number of items and values, any value kind and content",
 "Tests write a handful of tags made of UTF-8 and ASCII values; a size that is wrong for one value kind, one identifier kind or one nesting level is never produced there.",
 [A+"mod.rs",A+"data.rs",A+"head.rs",A+"ilst.rs",A+"meta.rs",A+"udta.rs",A+"moov.rs",A+"hdlr.rs",A+"ftyp.rs"],
 [("length computed by len()/size() and written ahead of the content","src/atom/mod.rs AtomData::{len,write}, WriteAtom::{size,write_head}"),("payload length per value kind","src/atom/data.rs Data::{len,write_raw}")],
 ["Tag::dump_to","Tag::write_to"])
p("C02","Writing replaces only the metadata region",
 "A successful write puts the new metadata exactly where the old item list was, or, where the item list or part of its hierarchy is missing, at the end of the innermost enclosing atom that exists. All bytes that followed the replaced region reappear unmodified, shifted by exactly the size difference, and the file length changes by that same difference.",
 ["inputs"],"all parseable files (every combination of present and missing hierarchy levels, any atom order and sizes) and all tags",
 "The sample files exercise three layouts; missing levels, metadata placed before media data, and shrinking next to a missing handler are not reached.",
 [A+"mod.rs",A+"head.rs"],
 [("bounds of old item list, start of moved data, size difference, set_len, rewriting of moved data","src/atom/mod.rs write_tag_to")],
 ["Tag::write_to"])
p("C03","Enclosing atom lengths follow the metadata size",
 "After a successful write the length field of every already existing atom that encloses the metadata (movie, user data, metadata) has changed by exactly the size difference of the metadata. This holds for 32-bit and for 64-bit length fields, and no other atom's length field is touched.",
 ["inputs"],"all parseable files, including extended (64-bit) heads at any level, and all tags",
 "No sample has a 64-bit length on an enclosing atom, and re-reading with this library tolerates several wrong lengths.",
 [A+"mod.rs",A+"head.rs"],
 [("collection of existing enclosing atoms and rewriting of their length fields","src/atom/mod.rs write_tag_to")],["Tag::write_to"])
p("C04","Chunk offsets keep pointing at the same media data",
 "After a successful write, every entry of every chunk offset table, 32-bit and 64-bit, in every track, points at the same media bytes as before: an entry pointing at or behind the moved data is shifted by exactly the size difference, and any other entry keeps its value. Entries are rewritten in place, in order, and none is skipped.",
 ["inputs"],"all parseable files: any number of tracks, tables and entries, media data before, after or on both sides of the metadata",
 "The tests never look at chunk offsets after a write: audio info and tags are read back, the media is not.",
 [A+"mod.rs",A+"stco.rs",A+"co64.rs",A+"stbl.rs"],
 [("adjusting of sample table chunk offsets","src/atom/mod.rs write_tag_to"),("reading the tables","src/atom/stco.rs, src/atom/co64.rs")],["Tag::write_to"])
p("C05","A rejected write leaves the file untouched",
 "If writing a tag fails because the target file or the tag cannot be handled (malformed or unsupported content, missing atoms, unreadable data, values that do not fit), no byte of the file and not its length has been changed. Only a failure of a modifying operation itself may leave a partial result.",
 ["inputs","fault_sequences"],"all files, all tags, and a failure at any read or validation step",
 "Tests only write to well-formed samples; no test makes a write fail, so none sees what a failure leaves behind.",
 [A+"mod.rs",A+"stco.rs",A+"co64.rs"],
 [("all reading and checking happens before the first modifying call","src/atom/mod.rs write_tag_to")],["Tag::write_to","Tag::write_to_path"])
p("C06","Success means every byte was handed to the destination",
 "When a write or dump reports success, no byte of it is still held in a buffer of the library: everything was passed on and any failure in doing so was reported. While reading and writing share one file, no read or write ever happens at a position left behind by the other side.",
 ["inputs","fault_sequences"],"all writes and dumps, a failing write at any point",
 "A missing final flush is hidden by the flush on drop, which only loses errors; tests never inject a failing write.",
 [A+"mod.rs",T+"mod.rs"],
 [("flush before success; absolute seeks after switching between reader and writer","src/atom/mod.rs write_tag_to, src/tag/mod.rs dump_to_path")],["Tag::write_to","Tag::dump_to"])
p("C07","No I/O or decoding failure is swallowed",
 "If any read, seek, write, resize or flush fails, or a required piece of content cannot be decoded, while reading, writing or dumping a tag, the call returns an error; an I/O failure is returned as the I/O kind carrying the original error. The only tolerated failures are unknown channel configuration and sample rate codes, which are reported as absent.",
 ["fault_sequences","inputs"],"a failure of any single I/O operation or decoding step, at any point of any operation",
 "Tests run on healthy files only; an error path that is dropped or turned into a default is never executed.",
 ["src/error.rs",A+"mod.rs",A+"head.rs",A+"data.rs",T+"mod.rs"],
 [("error propagation with ? and explicit wrapping","every fallible call in src/atom and src/tag"),("conversion of io::Error","src/error.rs From impls")],["Tag::read_from","Tag::write_to","Tag::dump_to"])
p("C08","Reading arbitrary bytes never panics",
 "Reading a tag from any byte stream, and the parsing done before a write, either yields a result or returns an error; no size, length, count, time scale or other value found in the stream causes a panic or an arithmetic overflow.",
 ["inputs"],"all byte streams (and all failures of the underlying reader)",
 "Tests read four well-formed files; no malformed size, zero time scale or truncated descriptor is ever fed in.",
 [A+"mod.rs",A+"head.rs",A+"mvhd.rs",A+"mp4a.rs",A+"data.rs",A+"stco.rs",A+"co64.rs",A+"meta.rs",A+"stsd.rs"],
 [("size checks in head parsing, guarded subtraction","src/atom/head.rs parse_head, AtomBounds, seek_to_end; src/atom/mod.rs AtomData::parse; src/atom/mvhd.rs; src/atom/mp4a.rs")],["Tag::read_from","Tag::write_to"])
p("C09","Parsing always advances and allocates only for data present",
 "Parsing any byte stream makes progress: every step over an atom or descriptor counts at least its header toward the enclosing size, sizes smaller than their header are rejected, and skipping never moves backwards. Memory is never reserved for a size found in the stream unless that many bytes were actually found to be present.",
 ["inputs"],"all byte streams, in particular ones whose declared sizes are zero, tiny, or far larger than the stream",
 "A hang or a huge allocation needs a crafted size; tests contain none.",
 [A+"head.rs",A+"data.rs",A+"mod.rs",A+"stco.rs",A+"co64.rs",A+"mp4a.rs"],
 [("minimum size checks","src/atom/head.rs parse_head"),("reading of sized content","src/atom/data.rs ReadData")],["Tag::read_from"])
p("C10","Every atom is consumed or skipped by exactly its size",
 "While parsing, the next atom is always looked for exactly where the previous one ends according to its declared size, whether the previous one was understood, skipped as unknown, or only located, and whether its size was given in 32 or 64 bits. The contents of a container are looked at only within the container's declared size, all of it.",
 ["inputs"],"all streams whose nested sizes are consistent, with any unknown atoms, any order and any head form",
 "The samples contain a fixed set of atoms; a skip that is off for one head form, one atom kind or one position needs other layouts.",
 [A+"mod.rs",A+"head.rs",A+"moov.rs",A+"udta.rs",A+"meta.rs",A+"ilst.rs",A+"trak.rs",A+"mdia.rs",A+"minf.rs",A+"stbl.rs",A+"stsd.rs",A+"mp4a.rs",A+"mvhd.rs",A+"hdlr.rs",A+"stco.rs",A+"co64.rs",A+"mdat.rs",A+"ftyp.rs"],
 [("child loops: seek by content length, counter advanced by full length","every parse_atom/find_atom, AtomData::parse, read_tag_from, write_tag_to")],["Tag::read_from","Tag::write_to"])
p("C11","Writing edits the item list that reading reads",
 "The item list that a write locates and replaces is the one a read of the same file takes its items from: both look for the same nested atoms (movie, user data, metadata, item list), treat duplicates at each level the same way, and accept or reject the same metadata versions.",
 ["inputs"],"all files, including ones with repeated movie, user data, metadata or item list atoms",
 "The samples have each atom once; a divergence between the locating and the reading code shows only on other layouts.",
 [A+"mod.rs",A+"moov.rs",A+"udta.rs",A+"meta.rs",A+"ilst.rs"],
 [("twin traversals","ParseAtom::parse_atom and FindAtom::find_atom of moov, udta, meta, ilst; read_tag_from and write_tag_to")],["Tag::read_from","Tag::write_to"])
p("C12","Value type codes and encodings agree both ways",
 "Each kind of value is written under the well-known type code of its kind (0 reserved, 1 UTF-8, 2 UTF-16 big endian, 13 JPEG, 14 PNG, 21 big endian signed, 27 BMP), and content found under that code is read back as that same kind with the inverse encoding. Any other type code is rejected with an error naming that code.",
 ["inputs"],"all 2^32 type codes, all value kinds, all contents",
 "Tests never write or read UTF-16, BMP or unknown codes.",
 [A+"data.rs"],
 [("type code tables","src/atom/data.rs Data::{write_typed,write_raw,parse}")],["Tag::read_from","Tag::dump_to"])
p("C13","Views on a value agree on its kind",
 "For every value, the byte, string and image views (shared, mutable and consuming), the kind tests and the format-specific views give consistent answers: a view yields the stored content exactly for the kinds it documents and nothing for all others. Images keep their format when converted to a value and back.",
 ["inputs"],"all value kinds times all views",
 "Tests use two or three of the seven kinds with some of the views.",
 [A+"data.rs","src/types.rs"],
 [("per-kind match tables","src/atom/data.rs impl Data, From<Img> for Data")],["Data"])
p("C14","Code tables of typed enumerations are consistent",
 "Media type and advisory rating codes convert to enumeration values and back without loss, media type codes, channel configurations and sample rate indices outside the defined ranges are rejected, and each channel configuration and sample rate reports the channel count and frequency that MPEG-4 audio assigns to its code.",
 ["inputs"],"all 256 codes of each enumeration",
 "Tests touch two media types, two ratings, one channel configuration and one sample rate.",
 ["src/types.rs"],
 [("code tables","src/types.rs MediaType, AdvisoryRating, ChannelConfig, SampleRate")],["MediaType","AdvisoryRating","ChannelConfig","SampleRate"])
p("C15","Each named accessor sticks to its own item",
 "All accessors of one named field (get, take, set, add, remove, in singular and plural form) operate on one and the same identifier, the one documented for that field, and on no other; different fields use different identifiers. The genre convenience accessors operate on the standard and custom genre items and on no other.",
 ["inputs","programs"],"all named accessors, all tags",
 "Tests call a subset of the roughly 200 generated and handwritten accessors, mostly set and get with one value.",
 [T+"mod.rs",T+"tuple.rs",T+"genre.rs","proc/src/lib.rs",A+"ident.rs"],
 [("accessor macros and handwritten accessors","src/tag/mod.rs, src/tag/tuple.rs, src/tag/genre.rs, proc/src/lib.rs"),("identifier constants","src/atom/ident.rs")],["Tag"])
p("C16","What a setter stores, its getter returns",
 "For every named field, after setting it (or adding to it when empty) the matching getters and takers return exactly the given value or values in order, for every value of the argument type, and after removing or taking it they return nothing. Setting replaces all earlier values of the field, adding keeps them.",
 ["inputs","histories"],"all argument values (every integer, enumeration value, text, image, list) and any earlier content of the field",
 "Tests set one or two values per field on an otherwise empty tag.",
 [T+"mod.rs",T+"genre.rs","proc/src/lib.rs",A+"data.rs"],
 [("encoding in setters, decoding in getters","src/tag/mod.rs, src/tag/genre.rs, proc/src/lib.rs")],["Tag"])
p("C17","Track and disc pairs: number and total are independent",
 "Setting the track (disc) number never changes the total and setting the total never changes the number, whatever the item held before; values read back are the ones set, with 0 read as absent. Removing one of the two keeps the other, and the item disappears when neither is left.",
 ["inputs","histories"],"all stored byte contents of the item (any length), all numbers, both pairs",
 "Tests run one sequence with non-zero values on a freshly created item.",
 [T+"tuple.rs",A+"data.rs"],
 [("big endian pair layout, in-place update","src/tag/tuple.rs, be_int!/set_be_int! in src/atom/data.rs")],["Tag::track","Tag::disc"])
p("C18","A tag holds at most one, never empty, entry per identifier",
 "After any sequence of operations on a tag, including reading it, there is at most one entry per identifier and no entry without values, so an emptied field is gone and the tag can always be written and read again. Values keep the order in which they were set, added or read.",
 ["histories","inputs"],"all sequences of tag operations, all files read",
 "Tests exercise short fixed sequences; the empty list and repeated items in a file are not among them.",
 [T+"mod.rs",A+"ilst.rs",A+"mod.rs"],
 [("search before insert, removal of emptied entries, merging of repeated items","src/tag/mod.rs data accessors, src/atom/ilst.rs parse_atom, src/atom/mod.rs AtomData::parse")],["Tag"],
 [("atoms","list of identifier/values entries","src/tag/mod.rs Tag")])
p("C19","Identifiers match exactly when kind and content match",
 "Two identifiers are treated as the same item exactly if both are four-character codes with equal bytes, or both are freeform with equal mean and equal name; comparing, matching, converting and looking up identifiers all agree on this. Converting an identifier to its owned form and back loses nothing.",
 ["inputs"],"all pairs of identifiers of any kind",
 "Tests look up a few fixed identifiers and never near-misses (same name under another mean).",
 [A+"ident.rs"],
 [("PartialEq<DataIdent>, Ident, From conversions, idents_match","src/atom/ident.rs")],["Ident","DataIdent","Fourcc","FreeformIdent"])
p("C20","Reading never modifies, writing never creates or truncates",
 "Reading a tag and inspecting it never modifies, creates or truncates any file. Writing a tag to a path only opens an existing file and never creates, truncates or appends; only dumping to a path creates or replaces a file, and nothing but the given path is touched.",
 ["inputs"],"all paths and files, all public operations",
 "Tests never write to a missing path nor check files after reading.",
 [T+"mod.rs",A+"mod.rs"],
 [("file opening modes","src/tag/mod.rs read_from_path, write_to_path, dump_to_path"),("modifying calls only in the write path","src/atom/mod.rs")],["Tag"])
p("C21","Audio information comes from the specified fields",
 "Duration, channel configuration, sample rate and bitrates are taken from exactly the bytes and bits the MP4 format assigns to them (movie header version 0 and 1, elementary stream, decoder config and decoder specific descriptors, with descriptor lengths of one to four bytes). Duration equals the stored duration divided by the stored time scale.",
 ["inputs"],"all field values, both movie header versions, all descriptor length encodings",
 "The samples only have version 0 movie headers and a handful of values.",
 [A+"mvhd.rs",A+"mp4a.rs",A+"mod.rs",T+"readonly.rs"],
 [("field offsets and bit masks","src/atom/mvhd.rs, src/atom/mp4a.rs"),("assignment to the audio info","src/atom/mod.rs read_tag_from")],["Tag::audio_info"])
p("C22","No size or offset is silently truncated on write",
 "When a tag is written or dumped, every length field and every chunk offset stored holds the full value it stands for; a value too large for its field makes the operation fail instead of storing its low bits.",
 ["inputs"],"all tags and files, in particular values of 4 GiB and more and offsets near 2^32",
 "Tests would need multi-gigabyte values or files.",
 [A+"mod.rs",A+"head.rs"],
 [("casts to 32 bit in front of a write","src/atom/mod.rs AtomData::write, write_tag_to; src/atom/head.rs write_head")],["Tag::write_to","Tag::dump_to"])
p("C23","Emitted metadata has the layout the reader expects",
 "The metadata emitted by a write or dump is laid out as the reader takes it apart: hierarchy and order of enclosing atoms, version and flag bytes, handler, freeform mean and name, type code, locale and value, so that reading an emitted item yields the identifier and value it was emitted for.",
 ["inputs"],"all identifiers and value kinds",
 "Tests re-read a few tags with the same code; layouts of UTF-16, BMP and multi-value freeform items are not covered, and the handler is never looked at.",
 [A+"mod.rs",A+"data.rs",A+"meta.rs",A+"ilst.rs",A+"hdlr.rs"],
 [("writer and parser of the item hierarchy","src/atom/mod.rs AtomData::{parse,write}, src/atom/meta.rs, src/atom/ilst.rs, src/atom/head.rs")],["Tag::dump_to","Tag::read_from"])
p("C24","Inspecting a tag never panics",
 "Every accessor that inspects, formats or edits a tag returns normally for any stored values, of any kind, length and content, that reading a file or editing can produce.",
 ["inputs","histories"],"all stored values, in particular empty and short ones, and all arguments",
 "Tests only use values produced by the setters, which have the full length.",
 [T+"mod.rs",T+"tuple.rs",T+"genre.rs",T+"readonly.rs",A+"data.rs","proc/src/lib.rs"],
 [("length checks in front of indexing","be_int!, media_type, advisory_rating, standard_genres, stanard_genre")],["Tag"])
p("C25","Generic retain, remove and take affect exactly their kind",
 "Removing or retaining only bytes, strings or images never removes a value of another kind, and removes exactly the values of that kind that are meant (all of them, or those the predicate rejects). Taking or removing by identifier affects only that identifier; the same holds for the operations spanning all identifiers.",
 ["inputs","histories"],"all tags with any mix of value kinds under an identifier",
 "The examples use one or two kinds per operation.",
 [T+"mod.rs",A+"data.rs"],
 [("predicates handed to retain_data(_of), filters on taken values","src/tag/mod.rs data accessors")],["Tag"])
p("C26","Standard genre codes map to the listed names",
 "A stored standard genre code c from 1 to 80 is reported as the c-th name of the public genre list and any other code as unknown. The genre convenience getters list known standard genres first and then the custom ones, a single genre is the first of that list, and setting a genre leaves exactly the given custom genres.",
 ["inputs","histories"],"all 65536 codes and any mix of standard and custom genres",
 "Tests use two codes.",
 [T+"genre.rs"],
 [("code to name lookup and chaining","src/tag/genre.rs")],["Tag::genre","Tag::genres"])
p("C27","Reading back a written tag yields the same tag",
 "For every parseable file and every tag, reading the file after a successful write yields a tag with the same items and values, and unchanged audio information.",
 ["inputs","histories"],"all files times all tags",
 "Tests do this for three tags and four files.",
 [A+"mod.rs"],[("whole write and read paths","src/atom")],["Tag::write_to","Tag::read_from"])
p("C28","An interrupted write never destroys media data",
 "If the process or machine stops at any point during a write, the media data of the file is still intact and can be found.",
 ["crash_points"],"every point between two modifying operations of a write",
 "No test interrupts a write.",
 [A+"mod.rs"],[("in-place rewriting (no mechanism exists)","src/atom/mod.rs write_tag_to")],["Tag::write_to"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,x["id"]
print(len(P))
