"""What each check runs: harness functions and their parameters (bounds)."""

BUDGET = {"quick": 300, "thorough": 3600}

ASSUMPTIONS = [
    "SHA-2, HMAC, AES, Twofish, ChaCha20, Salsa20, Argon2's core and CRC-32 are replaced by models: the real function on "
    "concrete input, an ideal function (equal inputs give equal outputs; hashes and block ciphers injective) on symbolic input",
    "compression runs libflate's encoder in its stored-block mode; libflate's decoder is executed as it is",
    "the clock is fixed, hash-map seeds are fixed per path, random bytes are fixed or symbolic as the harness says",
    "single allocations above 64 MiB count as a failure; 200 million IR instructions on one path count as a hang",
]


def grid(name, *axes):
    r = [[]]
    for a in axes:
        r = [x + [v] for x in r for v in a]
    return ["%s:%s" % (name, ",".join(map(str, x))) for x in r]


CHECKS = {
    "C01": {
        "jobs": grid("c01_raw", range(0, 21)) + grid("c01_fields", (4,), range(0, 18)) + grid("c01_fields", (3,), range(0, 12))
        + grid("c01_replace", (4,), range(5), (0, 1, 2, 4, 8, 15, 16, 17, 32, 33)) + grid("c01_replace", (3,), range(9), (0, 1, 3, 4, 7, 8, 9, 16, 32))
        + grid("c01_length", (4,), range(5)) + grid("c01_length", (3,), range(9)) + grid("c01_dict", range(0, 13))
        + grid("c01_entry", (0,), range(3), (0, 1, 4, 7, 8, 16)) + grid("c01_entry", (1,), range(6), (0, 4, 8, 15, 16)) + grid("c01_cut", (3, 4)),
        "thorough": grid("c01_raw", range(21, 25)) + grid("c01_fields", (4,), range(18, 23)) + grid("c01_fields", (3,), range(12, 16)) + grid("c01_dict", (13,)),
        "covers": {"c01_cut": [0, 1], "c01_replace": [0, 1], "c01_entry": [0, 1]},
        "bounds": "any file of up to 20 bytes; any 17 (KDBX 4) or 11 (KDBX 3) bytes after the version; a whole header with any one field's identifier and data "
                  "(0 to 33 bytes) or claimed length arbitrary; any parameter dictionary of up to 12 bytes; any one dictionary entry's type, value and lengths arbitrary; every truncation",
        "assumptions": ["claimed lengths are small (each value) or at least 64 KiB", "field data of 12 bytes and more is not a parameter dictionary; dictionary strings have at most 8 arbitrary bytes"],
    },
    "C02": {
        "jobs": grid("c02_ids", range(3)) + grid("c02_lengths", range(3), (0,), (0, 1, 8, 11, 12, 13, 15, 16, 17, 24, 32)) + grid("c02_lengths", (0, 2), (1,), (0, 1, 31, 32, 33, 64))
        + grid("c02_kdf", range(3), (0, 1, 7, 8, 16, 31, 32, 33, 64)) + grid("c02_inner", (2,), range(10)) + grid("c02_inner_field", (1, 2, 3), (0, 1, 3, 4, 5, 31, 32, 33, 64)) + ["c02_inner_field:4,0"]
        + grid("c02_padding", (0, 1), (1, 2, 3)) + grid("c02_ragged", (0, 1), (0, 2), (1, 7, 15)) + grid("c02_ragged", (0, 1), (0, 1, 3), (0,)) + grid("c02_ragged", (2,), (0, 1, 2), (0, 1, 5))
        + grid("c02_framing", range(3)) + grid("c02_gzip", (0,), (1, 7)) + grid("c02_gzip", (1,), (1, 200)) + grid("c02_gzip", (2,), range(0, 40)) + grid("c02_gzip", (3,), (4, 8))
        + grid("c02_stream", (0, 1, 31, 32, 33, 64)) + grid("c02_xml", range(6)) + grid("c02_v3_field", range(9), (0, 1, 3, 4, 7, 8, 12, 16, 32, 33))
        + grid("c02_v3_blocks", (0,), (0, 1, 4, 10, 36, 39, 40, 44)) + grid("c02_v3_blocks", (1, 2), (0,)) + grid("c02_v3_raw", range(3), (0, 1, 16, 20, 32)),
        "thorough": grid("c02_xml", (6, 7)) + grid("c02_inner", (2,), (10, 11)),
        "covers": {"c02_ids": [1, 2], "c02_lengths": [1, 2], "c02_framing": [1, 2], "c02_gzip": [1, 2], "c02_v3_field": [0, 1, 2], "c02_v3_blocks": [1, 2], "c02_stream": [1, 2]},
        "bounds": "any cipher and compression identifier; IV lengths 0-32, seed 0-64, salt 0-64, stream key 0-64; any KDF parameter values; any inner header of up to 9 bytes and any one "
                  "inner field; any last cipher block; any trailing partial block; every block length below 80 or above 64 KiB and truncations of the framing; gzip header, block type, lengths, "
                  "checksum; any document of up to 5 bytes; KDBX 3: any one header field with 0-33 bytes or missing, any 44 bytes of blocks, any ciphertext of up to 32 bytes",
        "assumptions": ["AES key derivation has fewer than 3 rounds; Argon2 memory is below 1 MiB or above 2 TiB; lanes are one of 8 values"],
    },
    "C03": {
        "jobs": grid("c03_config", range(3), range(2), range(3), (2, 3)) + grid("c03_len", range(3), range(2), range(16))
        + grid("c03_big", (0, 1), (0,), (1024,), (48, 64)) + grid("c03_big", (0, 2), (0,), (1024,), (63, 65))
        + grid("c03_big", (2,), (0,), (1024,), (64,)) + grid("c03_big", (2,), (1,), (1024,), (0, 30, 64)) + grid("c03_big", (2,), (0,), (2048,), (64,)),
        "thorough": grid("c03_big", (0, 1), (0,), (1024,), (47, 49, 63, 65)) + grid("c03_big", (0,), (1,), (1024,), (0, 30, 64)) + grid("c03_big", (0,), (0,), (2048,), (48, 64)),
        "steps": 4000000000,
        "bounds": "every cipher x compression x key derivation x inner cipher with text and secret of two symbolic characters each; "
                  "every content length modulo 16 with a symbolic character; content of 1 MiB and 2 MiB, 1 byte and 1 cipher block less and more",
    },
    "C04": {
        "jobs": grid("c04_prefix", (0, 4, 8), (4,)) + ["c04_prefix:0,12", "c04_prefix:8,2", "c04_prefix:10,2"]
        + grid("c04_data", (0, 2), (0,), (0, 1, 2, 3, 5, 6), (0, 8, 16, 24), (8,)) + grid("c04_data", (1,), (1, 2), (0, 2, 3), (0,), (16,))
        + ["c04_two:2,%d,%d" % (a, b) for a in (0, 2, 3, 5, 6) for b in (2, 3, 5, 6) if a < b] + grid("c04_field", range(7), (0, 1))
        + grid("c04_dict", (0,), range(3), range(7)) + grid("c04_dict", (1,), range(6), range(7)) + ["c04_hash"]
        + grid("c04_fields", (0,), (0, 1, 2, 4, 16)) + grid("c04_fields", (1, 2, 3), (0,)) + grid("c04_fields", (4, 5), (0, 1, 4, 5)) + ["c04_tag:0", "c04_tag:1"],
        "covers": {"c04_data": [1], "c04_fields": [0, 1], "c04_dict": [0, 1], "c04_tag": [1], "c04_hash": [0]},
        "bounds": "header of one comment field and every KDF; any 4 or all 12 bytes of signature and version; any 8 or 16 byte window of any field; two fields at once; any one identifier, "
                  "claimed length, dictionary type, name character, value or length; fields and dictionary entries added, repeated, left out and moved; any stored hash and any authentication code; "
                  "each with the stored and with a recomputed header hash",
        "assumptions": ["AES rounds and Argon2 lanes put in by the modifier are below 4"],
    },
    "C05": {
        "jobs": grid("c05_bytes", (2,), (0,), range(0, 500, 8), (8,)) + grid("c05_bytes", (0, 1), (0, 1), (0, 30, 36, 60, 128, 140, 160, 260, 300, 460), (6,))
        + grid("c05_bytes", (2,), (1,), (0, 30, 36, 60, 128, 140, 260, 300, 470, 490), (6,))
        + grid("c05_cut", range(3), range(2)) + grid("c05_blocks", range(3), (0,), (0, 1, 2, 3, 4), (0,)) + grid("c05_blocks", (0, 2), (1,), (3, 4), (0, 3)) + grid("c05_blocks", (2,), (0,), (5,), (1,))
        + grid("c05_resize", range(3), range(2)),
        "covers": {"c05_bytes": [0], "c05_blocks": [0, 1], "c05_resize": [0, 1]},
        "bounds": "payload of three blocks and an end block; any 8 byte window of it; every truncation; every sequence of up to 5 of its blocks; blocks joined, divided at every place, emptied "
                  "and retagged; all ciphers and compressions",
    },
    "C06": {
        "jobs": ["c06_pair:%d,%d,%d,%d" % (a, x, b, y) for a in range(4) for b in range(4) for x in (0, 1, 2) for y in (0, 1, 2) if not (a == 0 and x) and not (b == 0 and y) and (a or b) and not (x == y == 0 and (a == b or (a, b) in ((1, 2), (2, 1))))]
        + ["c06_shift:1,2,2,1", "c06_shift:0,2,2,0", "c06_shift:0,1,1,0", "c06_shift:3,1,2,2"] + grid("c06_repeat", range(3), range(2), range(3), (1, 3)) + grid("c06_v3", range(3), range(2)),
        "bounds": "every pair of kinds of credentials (none, password, key file, both) with 0 to 2 arbitrary bytes each; one and three failed attempts; KDBX 3 with eight concrete credentials",
        "assumptions": ["a password and a key file of the same bytes, each on its own, are the same key by the format and not counted as different", "passwords are ASCII"],
    },
    "C07": {
        "jobs": grid("c07_config", range(3), range(2), range(3), (2, 3)) + grid("c07_order", range(3)) + grid("c07_dict", range(3), (0, 1)) + grid("c07_extra", (0, 1, 2, 4, 32), (0, 4))
        + grid("c07_inner", (0, 1, 3)) + grid("c07_split", range(3), range(2), (1, 2, 15, 16, 17, 31, 32, 33, 100)) + grid("c07_gzip", range(3), range(5)) + grid("c07_key", (0, 1, 2, 3), (0, 1, 3, 32, 33, 64)),
        "thorough": grid("c07_split", range(3), range(2), [n for n in range(3, 130) if n not in (15, 16, 17, 31, 32, 33, 100)]) + grid("c07_key", (1, 2, 3), [n for n in range(2, 80) if n not in (3, 32, 33, 64)]),
        "bounds": "every configuration with a symbolic seed, minor version and character; every order of 6 header fields and of the parameter dictionary, unknown dictionary entries; one extra outer and inner "
                  "field of any identifier with 0-32 arbitrary bytes; first block of 1-33 or 100 bytes with second of 1-33 or all blocks that size; stored, fixed and dynamic Huffman compression and gzip header options; "
                  "no credential, password and key file of 0-64 arbitrary bytes",
        "assumptions": ["passwords are ASCII", "the compressed content of the Huffman-coded files is concrete (two streams made by zlib)"],
    },
    "C08": {
        "jobs": grid("c08_config", range(3), range(2), range(3), (2, 3), range(7)) + grid("c08_len", range(3), range(2), range(16))
        + grid("c08_big", (0, 1), (0,), (1024,), (48, 63, 64)) + grid("c08_big", (2,), (0,), (1024, 2048), (63, 64, 65)) + grid("c08_big", (2,), (1,), (1024,), (0, 30, 64)),
        "thorough": grid("c08_big", (0,), (0, 1), (2048, 3072), (47, 48, 49, 63, 64, 65)),
        "steps": 4000000000,
        "bounds": "every configuration with in turn text and secret, seed, IV, salt, credentials, inner key symbolic; every content length modulo 16; content around 1 and 2 MiB",
        "assumptions": ["passwords are ASCII"],
    },
    "C09": {
        "jobs": grid("c09_config", range(3), range(2), (2, 3), range(3), range(5)) + grid("c09_split", range(3), range(2), (1, 2, 15, 16, 17, 31, 32, 33, 100)) + grid("c09_order", range(9))
        + grid("c09_damage", range(3), range(2), (0,), (0, 1, 14, 28)) + grid("c09_damage", range(3), range(2), (1,), (0, 50, 96)) + grid("c09_damage", range(3), range(2), (2,), (0, 14, 28)) + grid("c09_damage", range(3), range(2), (3, 4, 5), (0,)),
        "thorough": grid("c09_split", range(3), range(2), [n for n in range(3, 130) if n not in (15, 16, 17, 31, 32, 33, 100)]) + grid("c09_damage", range(3), range(2), (0, 1, 2), range(2, 27)),
        "bounds": "every cipher, compression and inner cipher with 0-2 rounds and in turn two characters, seed, start bytes, minor version, comment and filler symbolic; block sizes as in C07; every rotation of the header "
                  "fields with any two exchanged; any 4 start bytes, block bytes, hash bytes changed; blocks exchanged or shortened",
    },
    "C10": {
        "jobs": grid("c10_aes", (0, 1, 16, 31, 32, 33, 64)) + grid("c10_rounds", (16, 31, 32, 33, 63)) + grid("c10_argon", range(2), (0, 7, 8, 16, 32, 33, 64), range(7)) + grid("c10_unknown", (0, 1)) + grid("c10_unknown_file", range(4))
        + grid("c10_key", (0,), (0,), range(3)) + grid("c10_key", (1, 2, 3), (0, 1, 2, 31, 32, 33, 63, 64, 65), range(3)) + grid("c10_read", range(1), (32,)) + grid("c10_read", (1, 2), (8, 9, 16, 32, 33, 64)),
        "covers": {"c10_argon": [0, 1], "c10_aes": [0, 1], "c10_key": [1]},
        "bounds": "AES: 0-3 rounds with any salt of 0-64 bytes, and 2^16, 2^31, 2^32, 2^33, 2^63 rounds (plus 0-2), which must not come back early; Argon2: memory below 256 KiB or at least 4 TiB, iterations below 3 or at "
                  "least 2^32, 7 values of lanes, any version, any salt of 0-64 bytes; any unknown function identifier; every credential kind with 0-65 arbitrary bytes",
        "assumptions": ["passwords are ASCII"],
    },
    "C11": {
        "jobs": grid("c11_text", range(14), (0, 1, 2, 4, 5, 6, 7, 8, 9)) + ["c11_text:8,3"] + grid("c11_times", range(4), range(9)) + grid("c11_uuid", range(4), (0, 3, 6, 9, 12, 15)) + ["c11_flags", "c11_tree:0", "c11_tree:1"]
        + grid("c11_fields", (1, 2, 3)) + ["c11_custom", "c11_nested", "c11_roots"],
        "thorough": grid("c11_text", (0, 5, 7, 10, 12), (3,)) + ["c11_tree:2"],
        "covers": {"c11_text": [0, 1]},
        "bounds": "14 text positions, each with every text of 0-2 ASCII characters (3 for field values), one character of 2, 3 or 4 bytes, and any ASCII character within text, markup and white space; "
                  "every identifier byte in windows of three; any second of a minute and five dates for every time; counts 0-99 and ten larger ones; all flags; trees of depth 2 with up to 2 groups, entries of up to 3 fields and 2 versions; two top level groups",
        "assumptions": ["an empty value and an absent value are the same", "dates are otherwise decided by C14"],
    },
    "C12": {
        "jobs": grid("c12_write", range(3), (0, 1)) + grid("c12_back", range(3), (0, 3, 6, 9, 12)) + grid("c12_read", range(4), (0, 1), (0, 3, 6, 9)) + grid("c12_file", (2, 3), range(3)),
        "thorough": grid("c12_back", range(3), [n for n in range(30) if n % 3]) + grid("c12_read", range(4), (0, 1), [n for n in range(10) if n % 3]),
        "bounds": "three trees (custom data and versions; nested groups with versions; empty and long values) with every assignment of protection to 5 or 6 values; every keystream and every protected value when writing; "
                  "when reading every window of three bytes of keystream and value, four spellings of the mark, two orders of elements; both inner ciphers",
        "assumptions": ["protected values are ASCII"],
    },
    "C13": {
        "jobs": grid("c13_raw", (0, 11), (0, 1, 2, 3, 4, 5), (0,)) + grid("c13_raw", range(1, 11), (1, 2, 3), (0, 1)) + grid("c13_raw", (1, 5, 10), (4,), (1,)) + grid("c13_tokens", range(1, 11), (2,), (30,), (0,))
        + grid("c13_tokens", (5, 7), (3,), (14,), (0,)) + grid("c13_value", range(20), (0, 1, 2), (0,)) + grid("c13_value", (0, 1), (2,), (1, 6)) + grid("c13_value", (3, 4, 5, 6, 7), (1, 2), (2, 4, 5))
        + grid("c13_value", (9,), (2,), (3, 5, 6, 7)) + grid("c13_value", (0, 3, 11), (3,), (0,)) + grid("c13_deep", range(4), (1, 60)),
        "thorough": grid("c13_raw", (0,), (6,), (0,)) + grid("c13_raw", range(1, 11), (4,), (0, 1)) + grid("c13_tokens", range(1, 11), (3,), (30,), (0,)) + grid("c13_tokens", (5,), (4,), (14,), (0,)) + grid("c13_value", range(20), (3,), (0,)),
        "covers": {"c13_raw": [0, 1], "c13_tokens": [0, 1], "c13_value": [0, 1]},
        "bounds": "every document of up to 5 bytes; any 3 bytes within each of 10 contexts, closed or not (4 in three of them); every sequence of 2 elements out of 30, their ends, text and the end of the document in 10 contexts, "
                  "of 3 out of 14 in two; every text of up to 2 ASCII characters (3 in some) in each of 20 elements, alone and within identifiers, dates and numbers; nesting of 60",
        "assumptions": ["nesting deep enough to exhaust the stack is not covered"],
    },
    "C14": {
        "jobs": grid("c14_encode", range(24), (0,)) + grid("c14_roundtrip", range(1, 21), (0,)) + grid("c14_decode", range(1, 21), (0,)) + grid("c14_encode", (24, 25), (1,))
        + grid("c14_roundtrip", (0, 21, 22, 23, 24, 25), (1,)) + grid("c14_decode", (0, 21, 22, 23, 24, 25), (1,)) + ["c14_uuid"] + grid("c14_text", range(7)) + ["c14_change:0,10"]
        + grid("c14_change", (1, 2, 3, 4), range(0, 24, 2)) + grid("c14_range", (0, 1, 2, 4, 5)) + grid("c14_iso", range(1, 7), range(3)) + grid("c14_offset", (0, 1), (0, 1))
        + grid("c14_iso_text", range(39)),
        "thorough": grid("c14_range", (3, 6, 7)) + ["c14_roundtrip:0,0", "c14_change:0,0", "c14_iso:0,2", "c14_iso:0,0", "c14_iso:0,1", "c14_change:0,9"] + ["c14_%s:0,0,%d" % (k, y) for y in list(range(1901, 2301)) + list(range(3, 9999, 37)) for k in ("encode", "roundtrip", "decode")],
        "covers": {"c14_text": [0, 1], "c14_change": [0, 1], "c14_iso": [0, 1], "c14_offset": [0, 1], "c14_iso_text": [0, 1]},
        "bounds": "every second of 20 years between 2 and 9999 (thorough: of 700 years) and of years 0, -1, -400 when encoding; first, last and leap days of years before 1 and of the first and last year that can be held; "
                  "every count within 4 seconds of the limits, the 2^32 seconds beyond the upper limit and everything beyond 2^63/1000; every identifier; every text of up to 6 ASCII characters; valid texts with any two adjacent characters replaced; "
                  "ISO texts with any one part of two arbitrary digits, any offset hours or minutes, every truncation",
        "assumptions": ["years that are not given, and counts between the limits and 2^63/1000, are left to the thorough tier", "leap seconds (second 60) are not given an oracle"],
    },
    "C15": {
        "jobs": grid("c15_config", range(3), range(2), range(3), (2, 3), range(4)) + grid("c15_extra", (0, 1, 2, 5, 20), (0, 3, 300)) + grid("c15_ids", (0,), (0, 4, 8, 12)) + ["c15_ids:1,0"]
        + grid("c15_read", range(3), (0, 1, 32, 65)) + grid("c15_dict", range(8), (0, 1, 4), range(6)) + grid("c15_carry", range(8), (0, 3), range(6)) + grid("c15_full", range(3), (0, 1, 32)) + grid("c15_three", (2, 3)),
        "thorough": grid("c15_extra", (255, 256, 65536), (0, 70000)) + grid("c15_dict", range(8), (255, 256), range(6)) + grid("c15_carry", range(8), (255, 256), range(6, 40)),
        "covers": {"c15_ids": [0, 1], "c15_carry": [0], "c15_full": [0]},
        "bounds": "every configuration with in turn seed, IV, inner key and key derivation parameters symbolic (0-2 AES rounds; Argon2 memory 32-256 KiB, 1-2 iterations, 1-3 lanes, versions 0x10 and 0x13); "
                  "parameters of a file over their full ranges, salts of 0-65 bytes; any four bytes of a cipher identifier, any compression identifier; every dictionary value type with any value of 0-4 bytes under six names and six hash seeds; "
                  "extra fields with any identifier and 0-20 bytes",
        "assumptions": ["a parameter set that cannot be used for deriving keys is followed into a written file only as an extra header field"],
    },
    "C16": {
        "jobs": grid("c16_find", (8,), range(2)) + ["c16_walk:8"] + grid("c16_remove", (6, 7), range(2)) + grid("c16_sequence", (2,), (4,), range(7)) + grid("c16_sequence", (0, 4), (3,), range(7)),
        "thorough": grid("c16_find", (9,), range(2)) + ["c16_walk:9"] + grid("c16_remove", (8,), range(2)) + grid("c16_sequence", (1,), (5,), range(7)) + grid("c16_sequence", (4,), (4,), range(7)),
        "covers": {"c16_find": [0, 1], "c16_remove": [0, 1, 2, 3]},
        "bounds": "every tree of up to 8 nodes below the root (7 with symbolic identifiers), 4 levels, at most three entries and three groups in a group; every outcome of the predicate per node; any identifiers, also repeated; "
                  "sequences of 4 operations on trees of up to 2 nodes and of 3 operations on trees of up to 4 nodes",
    },
    "C17": {
        "jobs": grid("c17_sequence", (0, 3), (4,), range(8), range(8)) + grid("c17_sequence", (1, 2, 4), (3,), range(8), range(8)) + grid("c17_full", range(5), (2,)) + grid("c17_names", (1, 2, 3, 4, 5), (0, 1, 2, 3), (0, 1, 2, 3)) + grid("c17_names", (3,), (5, 8, 12), (5, 8, 12))
        + grid("c17_value", (0, 1, 2, 20, 300)),
        "thorough": grid("c17_sequence", (1, 2, 4), (4,), range(8), range(8)) + grid("c17_full", range(5), (3,)),
        "covers": {"c17_names": [0, 1]},
        "bounds": "sequences of 4 operations (title, password) or 3 (user name, URL, one-time password) of 8 kinds on an empty entry over two names, and of 2 on an entry with six fields and repeated names, with arbitrary one character values; "
                  "up to 5 fields with arbitrary names; values of up to 300 arbitrary characters",
    },
    "C18": {
        "jobs": grid("c18_sequence", (5,), range(10), range(10)) + grid("c18_many", (1, 2, 3, 8, 12, 40)) + ["c18_push"],
        "thorough": grid("c18_sequence", (6,), range(10), range(10)) + ["c18_many:300"],
        "bounds": "sequences of 5 operations (storing a version, removing any version, 7 kinds of edit with arbitrary values); up to 40 versions; versions pushed and edited in place",
    },
    "C19": {
        "jobs": grid("c19_any", (3, 4), (0, 1, 5, 100), range(3)) + grid("c19_layout", (3, 4), range(9), (0, 1, 2, 3, 4, 8, 16, 32)) + grid("c19_dict", range(3), range(4)) + grid("c19_config", (3,), range(3), range(2), (0,), range(4))
        + grid("c19_config", (4,), range(3), range(2), range(3), range(4)) + grid("c19_touched", (3, 4), range(6)) + grid("c19_damaged", (3, 4), range(4)),
        "thorough": grid("c19_any", (3, 4), (1000, 70000), range(3)) + grid("c19_layout", (3, 4), range(9), (5, 6, 7, 300)),
        "covers": {"c19_layout": [0, 1], "c19_damaged": [0, 1]},
        "bounds": "every byte of seed, IV, start bytes, inner key, cipher and compression identifiers, minor version, comment, public data, filler, header tag and up to 100 payload bytes at once; one more header field with any identifier and "
                  "0-32 bytes (not a parameter dictionary above 8) at every position; rotated parameter dictionaries with unknown entries; every configuration written before and after a failed unlock; settings changed while locked; damaged and cut files",
    },
    "C20": {
        "jobs": grid("c20_sequence", (0, 1), (3,), range(9), range(9), (0,)) + grid("c20_sequence", (2,), (3,), range(9), range(9), (0,)) + grid("c20_sequence", (3,), (2,), range(9), range(9), (1,)) + grid("c20_misfit", range(3), range(9))
        + grid("c20_keys", (1, 2, 3), range(2), range(3)) + grid("c20_content", range(3), range(2)),
        "thorough": grid("c20_sequence", (0, 1, 3), (4,), range(9), range(9), (0,)) + grid("c20_sequence", (0, 1, 3), (3,), range(9), range(9), (1,)),
        "covers": {"c20_sequence": [0, 1, 2], "c20_misfit": [0, 1]},
        "bounds": "sequences of three operations (key, key derivation, cipher, compression, inner stream, seed, edit, save and reopen, save and continue) on a new database, an opened KDBX 4 file and an opened KDBX 3 file, and of two operations with "
                  "symbolic seeds and keys on a file saved before; settings that do not fit each other (IV lengths 0-39, any unknown cipher, compression and inner cipher, inner keys of 0-44 bytes, short and long seeds); two arbitrary passwords of 1-3 characters "
                  "one after the other; a symbolic character edited between saves; Argon2 and AES costs as small as in the other checks",
    },
    "C21": {
        "jobs": grid("c21_make", range(0, 27), (0, 1, 6), (3,), (0,), range(4)) + grid("c21_make", (1, 16), (0,), (0, 3), (3,), (0,)) + grid("c21_make", (0, 2), (0,), (1,), (0,), (0,)) + grid("c21_make", (2,), (0,), (0,), (1,), (0,))
        + grid("c21_saved", range(0, 4), (0, 1, 4)) + grid("c21_window", range(7), (1, 2)) + grid("c21_insert", range(7), (1, 2)) + grid("c21_any", range(0, 7), range(3), range(3)) + grid("c21_any", range(0, 5), (3,), range(3)) + grid("c21_wide", range(7)),
        "thorough": grid("c21_make", (2, 16), (0,), (1, 2), (1,), (0,)) + grid("c21_make", range(27, 70), (0,), (3,), (0,), (0,)) + grid("c21_window", range(7), (3,)) + grid("c21_insert", range(7), (3,)) + grid("c21_any", (7, 8, 9, 10), range(3), (0,)),
        "covers": {"c21_any": [0, 1, 2, 3], "c21_window": [0, 1, 2, 3]},
        "bounds": "every base32 secret of 0-26 characters (69 in the thorough tier) with 0, 1 or 6 padding characters; periods and digit counts: all below 10, all below 1000 (10000 in the thorough tier), 18 values up to the largest; "
                  "stored into an entry without, with an unprotected and with a protected earlier value, and saved and reopened; seven texts with 1-2 arbitrary ASCII characters replaced or inserted at every position, any text of up to 6 characters after "
                  "three beginnings, four wide characters at every position; all larger numbers go through the standard library's number formatting and parsing and are left to it",
    },
    "C22": {
        "jobs": grid("c22_open", (3, 4), range(6), range(6), (0,), (0,)) + grid("c22_open", (3, 4), (2, 5), (0,), range(0, 45, 3), (3,)) + grid("c22_damaged", (3, 4), range(5), (0, 1), (0,), (1,)) + grid("c22_damaged", (3, 4), (2, 4), (0,), range(2, 40, 3), (3,))
        + grid("c22_import", (0, 3), range(6), (0, 3), (2,), (1,)) + grid("c22_import", (1,), range(6), (0,), (1,), (1,)) + grid("c22_import", (2,), (0, 1, 2), (0,), (2,), (1,)) + grid("c22_save", range(6), range(6), (0,), (2,)) + grid("c22_save", (2, 5), (0, 4), (0, 2, 4), (3,))
        + grid("c22_locked", (3, 4), range(6), (0, 1, 2, 4), (4,)) + grid("c22_export", (1,), range(6), (0,), (2,)) + grid("c22_export", (0,), (0, 1, 3), range(0, 90, 15), (3,)),
        "thorough": grid("c22_open", (3, 4), range(6), range(6), range(0, 60, 5), (5,)) + grid("c22_export", (1,), range(6), range(0, 400, 20), (3,)) + grid("c22_save", range(6), range(6), range(0, 40, 4), (4,)),
        "covers": {"c22_damaged": [0, 1], "c22_import": [0, 1]},
        "bounds": "every call takes everything, 1, 2, 3, 13 or 64 bytes, except for one to four consecutive calls (starting anywhere in the first 45 read calls) which take 1, 2, 7 or all bytes or are interrupted in every combination; both format versions, all ciphers, "
                  "compressed or not, one symbolic character in the name; files cut anywhere, with a damaged byte anywhere, with any version bytes, with symbolic trailing bytes; importing and exporting documents; saving unlocked and locked",
    },
    "C23": {
        "jobs": grid("c23_open", (3, 4), range(4), range(6)) + grid("c23_cut", (3, 4), (0, 1)) + grid("c23_import", range(3), range(6)) + grid("c23_save", (0, 2, 5), (0, 1), (0, 2, 3, 6, 7)) + grid("c23_save", (1,), (0,), range(8)) + grid("c23_locked", (3, 4), (0, 1, 3), range(8)) + grid("c23_export", (0, 1), range(8)),
        "thorough": grid("c23_save", range(6), range(4), range(8)) + grid("c23_export", (2, 3), range(8)),
        "covers": {"c23_open": [1], "c23_save": [0, 1], "c23_locked": [0, 1], "c23_export": [0, 1]},
        "bounds": "a failure at any byte position (symbolic within 32-byte stretches) of files of 480-1320 bytes and documents of 600-900 bytes, lasting or passing, six error kinds, a writer that accepts nothing more, failing flushes; reads and writes of 1, 3, 64 or all bytes; files cut at any position; symbolic comment or name",
    },
    "C24": {
        "jobs": grid("c24_every", range(5), (2600,)) + grid("c24_one", range(5), (2600,)),
        "thorough": grid("c24_one", range(5), (4000,)),
        "covers": {"c24_every": [0], "c24_one": [0]},
        "bounds": "2600 symbolic random bytes; one or two new databases, headers, inner headers, copies, and entries, groups and roots created one after the other; two runs compared: all random bits inverted, and one random byte at a symbolic position changed by a symbolic amount",
    },
}

NOT_APPLICABLE = {}
