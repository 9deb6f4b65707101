"""Decoder/encoder for pizauth dumps: nonce(12) || ChaCha20-Poly1305(bincode(Dump))."""
import os, struct

KEY = bytes.fromhex("66a247a85e48cfecaaed9b36eba97d5350d4286375097a44eeffb9c4546b65a3")
M32 = 0xffffffff


def _block(key, ctr, nonce):
    st = list(struct.unpack("<16I", b"expand 32-byte k" + key + struct.pack("<I", ctr) + nonce))
    w = st[:]

    def qr(a, b, c, d):
        w[a] = (w[a] + w[b]) & M32; x = w[d] ^ w[a]; w[d] = ((x << 16) | (x >> 16)) & M32
        w[c] = (w[c] + w[d]) & M32; x = w[b] ^ w[c]; w[b] = ((x << 12) | (x >> 20)) & M32
        w[a] = (w[a] + w[b]) & M32; x = w[d] ^ w[a]; w[d] = ((x << 8) | (x >> 24)) & M32
        w[c] = (w[c] + w[d]) & M32; x = w[b] ^ w[c]; w[b] = ((x << 7) | (x >> 25)) & M32
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(a + b) & M32 for a, b in zip(st, w)])


def _stream(key, nonce, data):
    out = bytearray()
    for i in range(0, len(data), 64):
        ks = _block(key, 1 + i // 64, nonce)
        out += bytes(a ^ b for a, b in zip(data[i:i + 64], ks))
    return bytes(out)


def _tag(key, nonce, ct):
    otk = _block(key, 0, nonce)[:32]
    r = int.from_bytes(otk[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(otk[16:], "little")
    p = (1 << 130) - 5
    msg = ct + b"\0" * (-len(ct) % 16) + struct.pack("<QQ", 0, len(ct))
    acc = 0
    for i in range(0, len(msg), 16):
        acc = (acc + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % p
    return ((acc + s) & ((1 << 128) - 1)).to_bytes(16, "little")


def encrypt(pt, nonce=None):
    nonce = nonce or os.urandom(12)
    ct = _stream(KEY, nonce, pt)
    return nonce + ct + _tag(KEY, nonce, ct)


def decrypt(b):
    if len(b) < 28:
        raise ValueError("short")
    nonce, ct, tag = b[:12], b[12:-16], b[-16:]
    if _tag(KEY, nonce, ct) != tag:
        raise ValueError("tag")
    return _stream(KEY, nonce, ct)


class _R:
    def __init__(self, b): self.b, self.i = b, 0
    def u64(self): v = struct.unpack_from("<Q", self.b, self.i)[0]; self.i += 8; return v
    def u32(self): v = struct.unpack_from("<I", self.b, self.i)[0]; self.i += 4; return v
    def u8(self): v = self.b[self.i]; self.i += 1; return v
    def s(self):
        n = self.u64()
        if self.i + n > len(self.b): raise ValueError("eof")
        v = self.b[self.i:self.i + n].decode(); self.i += n; return v
    def opt(self): return self.s() if self.u8() else None


def decode(b):
    """-> (version, {name: (conf dict, ts dict|None)}); ts = dict(tok, rtok, obt=(s,ns), exp=(s,ns))"""
    r = _R(decrypt(b))
    ver = r.u64()
    acc = {}
    for _ in range(r.u64()):
        name = r.s()
        c = dict(auth_uri=r.s())
        c["auth_uri_fields"] = [(r.s(), r.s()) for _ in range(r.u64())]
        c["client_id"] = r.s()
        c["client_secret"] = r.opt()
        c["redirect_uri"] = r.s()
        c["scopes"] = [r.s() for _ in range(r.u64())]
        c["token_uri"] = r.s()
        ts = None
        if r.u32() == 1:
            ts = dict(tok=r.s(), obt=(r.u64(), r.u32()), exp=(r.u64(), r.u32()), rtok=r.opt())
        if name in acc: raise ValueError("duplicate account in dump")
        acc[name] = (c, ts)
    if r.i != len(r.b):
        raise ValueError("trailing bytes")
    return ver, acc


def _s(x): x = x.encode(); return struct.pack("<Q", len(x)) + x
def _o(x): return b"\0" if x is None else b"\1" + _s(x)


def encode(acc, version=1):
    o = struct.pack("<QQ", version, len(acc))
    for name, (c, ts) in acc.items():
        o += _s(name) + _s(c["auth_uri"]) + struct.pack("<Q", len(c["auth_uri_fields"]))
        for k, v in c["auth_uri_fields"]: o += _s(k) + _s(v)
        o += _s(c["client_id"]) + _o(c["client_secret"]) + _s(c["redirect_uri"])
        o += struct.pack("<Q", len(c["scopes"])) + b"".join(_s(x) for x in c["scopes"]) + _s(c["token_uri"])
        if ts is None: o += struct.pack("<I", 0)
        else: o += struct.pack("<I", 1) + _s(ts["tok"]) + struct.pack("<QI", *ts["obt"]) + struct.pack("<QI", *ts["exp"]) + _o(ts["rtok"])
    return o


def make(acc, version=1):
    return encrypt(encode(acc, version))


if __name__ == "__main__":
    a = {"x": (dict(auth_uri="a", auth_uri_fields=[("k", "v")], client_id="c", client_secret=None, redirect_uri="r", scopes=["s"], token_uri="t"),
               dict(tok="T", rtok=None, obt=(1, 2), exp=(3, 4)))}
    d = make(a)
    assert decode(d) == (1, a)
    print("ok")
