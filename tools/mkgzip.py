#!/usr/bin/env python3
"""Payloads compressed by zlib with real Huffman codes (the model of the
library's encoder only emits stored blocks): harness/data/*.gz and the plain text."""
import os, zlib, struct
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "data")
key = bytes((i * 7 + 3) & 255 for i in range(64))
tlv = lambda i, d: bytes([i]) + struct.pack("<I", len(d)) + d
inner = tlv(1, struct.pack("<I", 3)) + tlv(2, key) + tlv(0, b"")
entries = "".join("<Entry><UUID>AQECAwQFBgcICQoLDA0O%sw==</UUID><String><Key>Title</Key><Value>title number %d</Value></String>"
                  "<String><Key>Notes</Key><Value>%s</Value></String></Entry>" % (chr(65 + i), i, "".join("%d " % (i * k * k * 7919 % 100003) for k in range(1, 40))) for i in range(10, 22))
xml = ("<KeePassFile><Meta><DatabaseName>compressed</DatabaseName></Meta><Root><Group><UUID>AAECAwQFBgcICQoLDA0ODw==</UUID>"
       "<Name>r</Name>" + entries + "</Group></Root></KeePassFile>").encode()
plain = inner + xml
def gz(level, strategy):
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 9, strategy)
    return b"\x1f\x8b\x08\0\0\0\0\0\0\xff" + c.compress(plain) + c.flush() + struct.pack("<II", zlib.crc32(plain), len(plain))
open(D + "/plain.bin", "wb").write(plain)
open(D + "/dynamic.gz", "wb").write(gz(9, zlib.Z_DEFAULT_STRATEGY))
open(D + "/fixed.gz", "wb").write(gz(9, zlib.Z_FIXED))
