#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept here so that the wording has one home).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
B="src/binary/"; S="src/stream/"; X="src/xml/"

p("C01","Opening any byte sequence returns a result: no panic, hang or huge allocation",
  "Opening a file whose bytes are arbitrary always returns either a locked database or an error. It never panics, never fails to terminate, and never allocates an amount of memory out of proportion to the size of the input, whatever lengths the input claims.",
  ["inputs"],"every byte string presented as a KDBX 3 or 4 file: truncated anywhere, any field identifiers, lengths, field order, parameter dictionary contents",
  "The tests open ten well formed files. Malformed lengths, short fields and odd dictionaries form a space no list of examples covers.",
  [B+"read.rs",B+"header.rs",B+"variant_dict.rs",B+"header_fields.rs","src/utils.rs"],
  [("file prelude and header parsing",B+"read.rs:from_reader"),("TLV parser",B+"header.rs:HeaderParser"),("parameter dictionary parser",B+"variant_dict.rs:parse_variant_dict")],
  "result of from_reader; panic, step and allocation counters")
p("C02","Unlocking any opened file returns a result: no panic, hang or huge allocation",
  "Unlocking an opened file always returns either an unlocked database or an error, for every header the file may carry and every payload, including payloads whose checksums are valid but whose content is malformed. It never panics, never fails to terminate and never allocates out of proportion to the file, apart from the work the key derivation parameters themselves ask for.",
  ["inputs"],"every cipher, compression, key derivation and inner stream identifier, every length of IV, seed, salt and stream key, every inner header, block framing and padding, in KDBX 3 and KDBX 4",
  "The tests unlock ten well formed files with the right key; headers that parse but make no sense never reach the unlock path.",
  [B+"kdbx.rs",B+"header.rs",S+"pipeline.rs",S+"hmac.rs",S+"block_cipher.rs",S+"kdbx3.rs",S+"random.rs","src/crypto.rs"],
  [("unlock",B+"kdbx.rs:unlock"),("cipher set-up",S+"pipeline.rs"),("inner header",B+"header.rs:KdbxInnerHeader::read"),("block framing",S+"hmac.rs, "+S+"kdbx3.rs")],
  "result of unlock")
p("C03","Saving and reopening a database gives back the same content and settings",
  "A database saved with a key and opened again with that key has the same entries, groups, fields, history, times, metadata and inner header data, under every supported combination of cipher, compression, key derivation function and inner stream cipher. This holds whatever the size of the content, including sizes at and around the internal block sizes. If a save reports success the resulting file can be opened.",
  ["inputs","configurations"],"cipher x compression x KDF x inner cipher; content lengths covering every residue of the cipher block size and lengths around one or more 1 MiB blocks; symbolic field text",
  "The round trip test writes one small database with one configuration. Defects that depend on the length modulo 16, on crossing 1 MiB or on a particular configuration stay unseen.",
  [B+"kdbx.rs",S+"pipeline.rs",S+"hmac.rs",S+"block_cipher.rs",S+"stream_cipher.rs",X+"serialize.rs",X+"parse.rs"],
  [("write path",B+"kdbx.rs:Unlocked::write"),("read path",B+"kdbx.rs:Locked::unlock"),("block writer",S+"hmac.rs:HmacWriter"),("padding",S+"block_cipher.rs")],
  "database() and inner_header() after reopening")
p("C04","A file with a modified header is never unlocked",
  "If any byte of the header of a KDBX 4 file, from the signature up to and including the stored header hash and header authentication code, differs from what was written, the file cannot be opened and unlocked: one of the two steps reports an error. This holds also when the modifier recomputes the unkeyed header hash.",
  ["inputs","fault_sequences"],"every replacement of header bytes (any positions and values within the bound), with and without a recomputed header hash, with fields edited, appended or duplicated",
  "One test flips one byte. The claim is about every modification, including those made by someone who recomputes the hash.",
  [B+"header.rs",B+"read.rs",B+"kdbx.rs","src/crypto.rs"],
  [("header hash check",B+"header.rs:KdbxHeader::read"),("header authentication check",B+"kdbx.rs:unlock_v4"),("HMAC comparison","src/crypto.rs:verify_header_block")],
  "result of from_reader + unlock")
p("C05","A file with a modified payload never yields different content",
  "If the payload of a KDBX 4 file is changed in any way without knowledge of the key - bytes altered, blocks removed, reordered, repeated, taken from another position, resized, or the file cut short - then unlocking either reports an error or gives exactly the content that was saved. Partial or altered content is never returned.",
  ["inputs","fault_sequences"],"every altered byte of tags, lengths and data; every truncation point; every permutation, duplication and omission of blocks within the bound; all ciphers and compressions",
  "No test alters a payload. Acceptance of a changed payload shows only for particular alterations.",
  [S+"hmac.rs",S+"block_cipher.rs",S+"pipeline.rs","src/crypto.rs"],
  [("block verification",S+"hmac.rs:HMacReader::buffer_next_block"),("block key","src/crypto.rs:block_key"),("data tag","src/crypto.rs:verify_data_block")],
  "result of unlock and its database")
p("C06","A wrong key is refused and the locked database is handed back intact",
  "Unlocking with any password and key file other than those the file was saved with reports an error (a password alone and a key file alone that make the same key by the format's rules are not different). The error carries the locked database unchanged, so that a further attempt with the right key succeeds with the same result as if the failed attempts had not happened.",
  ["inputs","histories"],"every pair of distinct credentials within the length bound (empty, absent, password only, key file only, both), any number of failed attempts up to the bound, KDBX 3 and 4",
  "Tests use one wrong password at most; collisions between kinds of credentials and state left by a failed attempt need all pairs and sequences.",
  ["src/crypto.rs",B+"kdbx.rs"],
  [("credential composition","src/crypto.rs:CompositeKey::composed"),("failed unlock",B+"kdbx.rs:FailedUnlock")],
  "FailedUnlock.0, result of the second unlock")
p("C07","Any conforming KDBX 4 file can be read, however its writer laid it out",
  "A KDBX 4 file produced by another conforming writer opens and unlocks to the content it encodes. This holds for every order of header fields, every division of the payload into blocks, unknown extra header fields, either form of the AES key derivation identifier, any minor version, and any end-of-header filler.",
  ["inputs","configurations"],"field orders, block splits, extra fields, minor versions, all ciphers, compressions, KDFs and inner ciphers; symbolic parameter and field bytes",
  "The ten sample files come from two writers with fixed layouts.",
  [B+"read.rs",B+"header.rs",B+"variant_dict.rs",S+"hmac.rs",S+"pipeline.rs",S+"block_cipher.rs",B+"kdbx.rs"],
  [("header parser",B+"header.rs"),("payload reader",S+"pipeline.rs:kdbx4_read_stream"),("inner header",B+"header.rs:KdbxInnerHeader::read")],
  "header(), inner_header(), raw_xml(), database()")
p("C08","Files written conform to the KDBX 4 format and decode with other readers",
  "A saved file has the layout of the KDBX 4 format: signature, version, header fields, header hash, keyed header authentication code, authenticated payload blocks no larger than the format's block size in ascending order ending with an empty block, standard padding, and the prescribed key derivation. An independent reader that follows the format therefore recovers exactly the settings, the inner header and the document that were saved.",
  ["inputs","configurations"],"all configurations, symbolic seeds, IVs, salts, KDF parameters, credentials and field text; content sizes over block boundaries",
  "Tests only read their own output back, so a mistake made on both sides goes unseen.",
  [B+"kdbx.rs",B+"header.rs",B+"variant_dict.rs",B+"header_fields.rs",S+"hmac.rs",S+"block_cipher.rs",S+"pipeline.rs","src/crypto.rs"],
  [("write",B+"kdbx.rs:Unlocked::write"),("block writer",S+"hmac.rs:HmacWriter"),("key schedule","src/crypto.rs")],
  "bytes passed to the output of write")
p("C09","KDBX 3 files are read correctly and damaged ones are refused",
  "A conforming KDBX 3 file, compressed or not and divided into any number of hashed blocks, unlocks to the content it encodes. If the start bytes do not match or the content of a block does not match its stored hash, unlocking reports an error.",
  ["inputs","configurations","fault_sequences"],"block splits, compression, cipher, inner ciphers, rounds, symbolic content; altered block bytes, hashes, lengths and start bytes",
  "There is one KDBX 3 sample, compressed and in one block, and no damaged one.",
  [S+"kdbx3.rs",S+"pipeline.rs",B+"header.rs",B+"kdbx.rs"],
  [("hashed block reader",S+"kdbx3.rs"),("start bytes check",S+"pipeline.rs:kdbx3_read_stream"),("legacy fields",B+"header.rs:from_legacy_fields")],
  "result of unlock")
p("C10","Keys derive from all credentials and parameters as specified, or fail",
  "The keys protecting a file depend on the password, the key file and every key derivation parameter exactly as the KDBX format prescribes. A key derivation function or a parameter value that the library cannot honour is refused with an error when the key is set or used, and never replaced by a weaker or different value.",
  ["inputs","configurations"],"every credential kind; Argon2d/Argon2id/AES with symbolic iterations, memory, lanes, version, salt and rounds over their full integer ranges; unknown KDF identifiers",
  "Tests derive keys for a handful of ordinary parameter sets; truncated or ignored parameters only show with extreme values.",
  ["src/crypto.rs",B+"header_fields.rs","src/utils.rs"],
  [("key derivation","src/crypto.rs:ComposedKey::master_key"),("parameter decoding",B+"header_fields.rs:TryFrom<VariantDict>")],
  "result of set_key and unlock; bytes written")
p("C11","The XML document preserves every part of a database",
  "Writing a database as XML and parsing the result gives back an equal database: group tree and order, entries, field names, values and protection, history, times, flags, metadata and custom data, for every text including markup characters, line breaks and leading or trailing white space. An empty value and an absent value count as the same. Content that cannot be represented in XML is refused when writing rather than written as a document that cannot be read.",
  ["inputs"],"symbolic text bytes (all valid UTF-8 within the length bound) at every text position, symbolic numbers, flags, times and identifiers, tree shapes within the bound",
  "Tests use a few ASCII words. White space, control characters, empty names and markup appear in no test.",
  [X+"serialize.rs",X+"parse.rs",X+"decoders.rs","src/database.rs"],
  [("serialiser",X+"serialize.rs:write_xml"),("parser",X+"parse.rs:parse_xml")],
  "write_xml output, parse_xml result")
p("C12","Protected values are stored only encrypted and in keystream order",
  "In the stored document the value of a protected field appears only as the base64 of its bytes combined with the next bytes of the inner keystream, in document order over custom data, fields and history, and unprotected text consumes no keystream. Reading a document applies the same rule, so any mixture of protected and unprotected values is recovered exactly.",
  ["inputs","configurations"],"symbolic values and keystream, every assignment of protection to the fields of a small tree with custom data, subgroups and history, both inner ciphers",
  "Tests hold one or two protected values, so a keystream position wrong only after history or custom data stays unseen.",
  [X+"serialize.rs",X+"parse.rs",S+"random.rs","src/database.rs"],
  [("protected writing",X+"serialize.rs:write_field"),("protected reading",X+"parse.rs:parse_field"),("inner cipher",S+"random.rs")],
  "raw_xml bytes and values after parsing")
p("C13","Parsing any XML returns a usable database or an error",
  "Parsing a document whose bytes are arbitrary returns a database or an error and never panics or fails to terminate. Every operation of the database it returns, including access to the root group, works without panicking.",
  ["inputs"],"every byte string up to the bound, and every document built from the format's elements with missing, repeated, misplaced or wrongly nested elements and symbolic text",
  "Tests parse well formed documents from real clients only.",
  [X+"parse.rs",X+"decoders.rs","src/database.rs"],
  [("element loops",X+"parse.rs"),("value decoding",X+"decoders.rs")],
  "result of parse_xml, root()")
p("C14","Timestamps and identifiers survive encoding, and bad ones are refused safely",
  "Every whole-second date and time that can be held encodes to text that decodes to the same instant, and the encoding is the base64 of the little endian count of seconds since the start of year 1. ISO 8601 text decodes to the same instant in UTC, identifiers encode to base64 of their 16 bytes and back, and text that is neither valid base64 nor ISO 8601 gives no value; no text causes a panic.",
  ["inputs"],"every representable second (symbolic 64 bit count), every 16 byte identifier, every text up to the bound, ISO texts with symbolic digits and offsets",
  "Tests decode a few dates; range limits and malformed text are open.",
  [X+"decoders.rs"],[("codecs",X+"decoders.rs")],"decode_*/encode_* results")
p("C15","Header settings written are the settings read back",
  "The cipher, compression, seeds, IV, key derivation function and all its parameters, unknown identifiers, plugin data and other extra header fields of a saved file are the same when the file is opened again, and so are the inner stream settings and inner header data such as attachments. Parameter dictionary values keep their type and value.",
  ["inputs","configurations"],"symbolic parameter values over full integer ranges, unknown UUIDs with arbitrary dictionaries, symbolic extra field identifiers and data, all hash seeds for dictionary order within the bound",
  "Tests compare headers of one configuration; extreme values and unknown fields are not exercised.",
  [B+"header.rs",B+"header_fields.rs",B+"variant_dict.rs"],
  [("header writer",B+"header.rs:KdbxHeader::write"),("dictionary writer",B+"variant_dict.rs:write_variant_dict"),("identifier tables",B+"header_fields.rs")],
  "header() and inner_header()")
p("C16","Group tree operations add, find and remove exactly what was asked",
  "Over any tree of groups and entries, finding visits exactly the descendants, returns a match whenever one exists and never a non-match; recursive iteration yields every descendant exactly once; counts match. Removing takes out exactly the one child with the given identifier and returns it, leaving everything else unchanged and in order; the mutable forms give the same results as the immutable ones.",
  ["inputs","histories"],"every tree shape up to the bound with symbolic identifiers and names (including duplicates), every predicate outcome, sequences of operations",
  "Tests look up one entry in one sample tree.",
  ["src/database.rs"],[("search","src/database.rs:Group::find_*"),("removal","src/database.rs:Group::remove_*"),("iteration","src/database.rs:recursive_*")],
  "return values and tree contents")
p("C17","Field operations keep values, names and protection as set",
  "After any sequence of operations on an entry's fields, every field has the name, value and protection that the operations imply: setting a value keeps the protection of the field, clearing removes the value and keeps the protection, changing the protection keeps the value, and passwords and one-time-password secrets are protected. Named accessors return the value of the first field with that name, removing a name removes every field with it and no other, and other fields keep their order and content.",
  ["histories","inputs"],"every sequence of operations up to the bound, symbolic names and values",
  "Tests set a few fields once; state carried through sequences such as clear followed by set is not covered.",
  ["src/database.rs"],[("field state","src/database.rs:Field"),("entry accessors","src/database.rs:Entry")],
  "Field::value/protected/key, Entry accessors")
p("C18","Keeping a new version preserves the old state and all earlier versions",
  "Storing a new version appends a copy of the entry's current fields, times and identifier to its history and leaves the entry itself and all earlier versions unchanged; the stored copy has no history of its own. Later edits to the entry never alter stored versions, and removing a version returns it and keeps the order of the rest.",
  ["histories"],"every sequence of edits, version points and history removals up to the bound, with symbolic values",
  "No test edits an entry after storing a version.",
  ["src/database.rs"],[("versioning","src/database.rs:Entry::new_version"),("history list","src/database.rs:History")],
  "Entry::history()")
p("C19","Writing a locked database reproduces a file that still unlocks",
  "A database that was opened but not unlocked, or handed back after a failed unlock, writes out the same bytes that were read. The written file therefore opens and unlocks with the same key to the same content, for KDBX 3 and KDBX 4.",
  ["inputs","configurations"],"every conforming file of the reference writer: versions, field orders, extra fields, symbolic field bytes and payload",
  "No test writes a locked database.",
  [B+"kdbx.rs",B+"header.rs",B+"read.rs"],[("locked write",B+"kdbx.rs:Locked::write")],"bytes written")
p("C20","Saves after any sequence of key and setting changes open with the latest key",
  "After any sequence of setting keys, changing header or inner header settings, editing content, saving and reopening, a save that reports success opens with the key set last and shows the current settings and content, and earlier keys no longer open it. Saving without a key is refused, and saving never changes the database being saved. A database that was read from a KDBX 3 file is never saved in a form that cannot be opened.",
  ["histories","configurations"],"every sequence of operations up to the bound, symbolic passwords and contents",
  "Tests set one key and save once.",
  [B+"kdbx.rs","src/crypto.rs"],[("set_key",B+"kdbx.rs:set_key"),("save",B+"kdbx.rs:Unlocked::write")],
  "result of write, reopening of the bytes")
p("C21","One-time-password parameters read back as they were set",
  "For every base32 secret (with or without padding), period and digit count, a one-time-password value built from them reports exactly that secret, period and digit count, also after being stored in an entry. For any stored text the accessors return the named parameter of the URL or nothing, and never panic.",
  ["inputs"],"symbolic secret characters, period and digits; parameter orders; arbitrary text up to the bound",
  "One test reads one sample value.",
  ["src/database.rs"],[("URL parameters","src/database.rs:Otp")],"Otp accessors")
p("C22","Results do not depend on how reads and writes are divided",
  "Opening a file gives the same result however the reader divides its bytes over calls, including single bytes and interrupted calls. Saving or exporting to a writer that accepts any part of the data per call delivers the same file or document as writing to memory.",
  ["inputs","fault_sequences","schedules"],"every division of reads and writes within the bound (symbolic chunk sizes per call, interruption points) over header and payload",
  "Tests read from files and memory, which always deliver everything asked for.",
  ["src/utils.rs",B+"read.rs",B+"kdbx.rs",S+"hmac.rs"],
  [("caching reader","src/utils.rs:CachingReader"),("payload reading",B+"read.rs")],
  "header(), unlock result, bytes written")
p("C23","Input and output failures are always reported",
  "If the underlying reader or writer fails at any point while opening, saving or exporting, the operation returns an error. A save that returns success has delivered the complete file.",
  ["fault_sequences"],"every failure point (symbolic byte position) of the reader and the writer, error and zero-length-write behaviours",
  "No test has a failing reader or writer.",
  [B+"read.rs",B+"kdbx.rs",B+"header.rs",S+"pipeline.rs",X+"serialize.rs"],
  [("write path",B+"kdbx.rs:Unlocked::write"),("XML export",X+"serialize.rs:write_xml"),("open",B+"read.rs:from_reader")],
  "returned errors, delivered bytes")
p("C24","Secret values and keys are fresh for every new database",
  "Every newly created database takes its seed, IV, key derivation salt and inner stream key in full from the operating system's random source, with no byte constant, shared or derived from another, and identifiers of new entries and groups come from it as well.",
  ["inputs"],"every outcome of the random source (symbolic random bytes)",
  "A test sees one random outcome; that each stored byte depends on its own random byte is a claim over all outcomes.",
  [B+"header.rs","src/database.rs",B+"kdbx.rs"],[("new header",B+"header.rs:from_os_random"),("new identifiers","src/database.rs:Default")],
  "header() and inner_header() of a new database")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
