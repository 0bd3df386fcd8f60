"""Independent encoders and decoders (not the library's)."""
ENCS = ["UTF8", "UTF16BE", "UTF16LE", "UCS2BE", "UCS2LE", "UCS4BE", "UCS4LE"]
ISO = {1: "iso8859_1", 2: "iso8859_2", 3: "iso8859_3", 4: "iso8859_4", 5: "iso8859_9", 6: "iso8859_10",
       7: "iso8859_13", 8: "iso8859_14", 9: "iso8859_15"}
BAD8 = 0x7FFFFFFF
_isomap = {}


def isomap(p):
    if p not in _isomap:
        m = {}
        for b in range(256):
            try:
                m[b] = ord(bytes([b]).decode(ISO[p]))
            except UnicodeDecodeError:
                m[b] = 0xFFFD
        _isomap[p] = (m, {c: b for b, c in m.items() if c != 0xFFFD})
    return _isomap[p]


def iso_page(enc):
    return int(enc[3:]) if enc.startswith("ISO") else 0


def utf8(c):
    if c < 0x80:
        return bytes([c])
    n, lim = 2, 0x800
    while c >= lim:
        n += 1
        lim <<= 5
    lead = (0xFF00 >> n) & 0xFF
    out = []
    for _ in range(n - 1):
        out.append(0x80 | (c & 0x3F))
        c >>= 6
    return bytes([lead | c] + out[::-1])


def char(enc, c):
    """bytes of c in enc, None if not representable"""
    if enc == "UTF8":
        return utf8(c) if c < 0x80000000 else None
    if enc.startswith("ISO"):
        b = isomap(iso_page(enc))[1].get(c)
        return None if b is None else bytes([b])
    bo = "big" if enc.endswith("BE") else "little"
    if enc.startswith("UCS4"):
        return c.to_bytes(4, bo)
    if c < 0x10000:
        if enc.startswith("UTF16") and 0xD800 <= c < 0xE000:
            return None
        return c.to_bytes(2, bo)
    if enc.startswith("UCS2") or c > 0x10FFFF:
        return None
    c -= 0x10000
    return (0xD800 + (c >> 10)).to_bytes(2, bo) + (0xDC00 + (c & 0x3FF)).to_bytes(2, bo)


def can(enc, c):
    return char(enc, c) is not None


def encode(enc, cps):
    """-> (bytes, offsets) offsets[k] = byte offset of character k, offsets[len] = total; None if impossible"""
    out = bytearray()
    offs = [0]
    for c in cps:
        b = char(enc, c)
        if b is None:
            return None
        out += b
        offs.append(len(out))
    return bytes(out), offs


def unit(enc):
    return 1 if enc == "UTF8" or enc.startswith("ISO") else (4 if enc.startswith("UCS4") else 2)


def decode(enc, data):
    """bytes -> list of code points; -9 marks bytes that are no character"""
    out = []
    i = 0
    n = len(data)
    if enc.startswith("ISO"):
        m = isomap(iso_page(enc))[0]
        return [m[b] for b in data]
    if enc == "UTF8":
        while i < n:
            b = data[i]
            if b < 0x80:
                out.append(b)
                i += 1
                continue
            ln = 0
            while ln < 8 and (b << ln) & 0x80:
                ln += 1
            if ln < 2 or ln > 6 or i + ln > n or any(x & 0xC0 != 0x80 for x in data[i + 1:i + ln]):
                out.append(-9)
                i += 1
                continue
            v = b & (0x7F >> ln)
            for x in data[i + 1:i + ln]:
                v = (v << 6) | (x & 0x3F)
            if utf8(v) != data[i:i + ln]:
                out.append(-9)
                i += 1
                continue
            out.append(v)
            i += ln
        return out
    bo = "big" if enc.endswith("BE") else "little"
    u = unit(enc)
    while i < n:
        if i + u > n:
            out.append(-9)
            break
        v = int.from_bytes(data[i:i + u], bo)
        i += u
        if enc.startswith("UTF16") and 0xD800 <= v < 0xE000:
            if v >= 0xDC00 or i + 2 > n:
                out.append(-9)
                continue
            w = int.from_bytes(data[i:i + 2], bo)
            if not 0xDC00 <= w < 0xE000:
                out.append(-9)
                continue
            i += 2
            v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00)
        if v > 0x7FFFFFFF:
            v = -9
        out.append(v)
    return out
