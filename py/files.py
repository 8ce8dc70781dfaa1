"""Files of the tools : WAVE and LC3, written and parsed independently of /repo"""
import struct
def chunk(i, d, pad=True): return i + struct.pack("<I", len(d)) + d + (b"\0" if pad and len(d) & 1 else b"")
def wav(r, raw, ch, sr, bits, sbytes, plain):
    """A WAVE file, with optional chunks and forms of the format chunk"""
    f = 0 if plain else r.randrange(4); e = b""
    if f == 1: e = struct.pack("<H", 0)
    elif f >= 2: e = struct.pack("<HHI", 22, bits, 0) + struct.pack("<H", 1) + bytes.fromhex("000000001000800000aa00389b71")
    fmt = struct.pack("<HHIIHH", 0xfffe if f >= 2 else 1, ch, sr, sr * ch * sbytes, ch * sbytes, bits) + e
    body = b"WAVE" + chunk(b"fmt ", fmt)
    if not plain:
        for _ in range(r.choice((0, 0, 1, 2, 3))): body += chunk(r.choice((b"LIST", b"bext", b"fact", b"JUNK", b"cue ")), r.randbytes(r.choice((0, 1, 4, 26, 27, r.randrange(600)))))
    body += chunk(b"data", raw)
    if not plain:
        for _ in range(r.choice((0, 0, 1, 2))): body += chunk(b"LIST", r.randbytes(r.randrange(3000)))
    return b"RIFF" + struct.pack("<I", len(body)) + body
def parse_wav(b):
    """(format, channels, rate, bits, sample bytes, data), or the description of what is wrong"""
    if len(b) < 12 or b[:4] != b"RIFF" or b[8:12] != b"WAVE": return "no RIFF/WAVE header"
    if struct.unpack("<I", b[4:8])[0] != len(b) - 8: return "RIFF size %d for a file of %d bytes" % (struct.unpack("<I", b[4:8])[0], len(b))
    at = 12; fmt = data = None
    while at < len(b):
        i, n = b[at:at + 4], struct.unpack("<I", b[at + 4:at + 8])[0]; c = b[at + 8:at + 8 + n]
        if len(c) != n: return "chunk %r of %d bytes, %d present" % (i, n, len(c))
        if i == b"fmt ": fmt = c
        if i == b"data": data = c
        at += 8 + n + (n & 1)
        if at == len(b) + 1: at -= 1 # padding of the last chunk is left out
    if fmt is None or data is None or len(fmt) < 16: return "no format or data"
    f, ch, sr, br, al, bits = struct.unpack("<HHIIHH", fmt[:16])
    if br != sr * al or not ch or al % ch: return "format %s" % ((f, ch, sr, br, al, bits),)
    return f, ch, sr, bits, al // ch, data
def parse_lc3(b):
    if len(b) < 18: return "no header"
    i, hs, sr, br, ch, dt, ep, n = struct.unpack("<HHHHHHHI", b[:18])
    if i != 0xcc1c or hs not in (18, 20) or ep: return "header %s" % b[:20].hex()
    hr = struct.unpack("<H", b[18:20])[0] if hs == 20 else 0; at = hs; fr = []
    while at < len(b):
        s = struct.unpack("<H", b[at:at + 2])[0] if at + 2 <= len(b) else -1
        if s < 0 or at + 2 + s > len(b): return "frame cut at %d" % at
        fr.append(b[at + 2:at + 2 + s]); at += 2 + s
    return hr, sr * 100, br * 100, ch, dt * 10, n, fr
def lc3_file(hr, sr, br, ch, dt, n, frames, ext=False):
    hs = 20 if hr or ext else 18
    return struct.pack("<HHHHHHHI", 0xcc1c, hs, sr // 100, br // 100 & 65535, ch, dt // 10, 0, n) + (struct.pack("<H", hr) if hs == 20 else b"") + b"".join(struct.pack("<H", len(f)) + f for f in frames)

