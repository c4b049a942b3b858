"""Generators of inputs.  They know the shape of GIF files, not what the
decoder should make of them; the TLA+ specification decides that."""

BYTES = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 191, 254,
         255]
U16 = [0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 32767,
       32768, 40000, 65534, 65535]
NETSCAPE = list(b"NETSCAPE2.0")
ANIMEXTS = list(b"ANIMEXTS1.0")
H89 = list(b"GIF89a")
H87 = list(b"GIF87a")


def byte(r):
    return r.choice(BYTES) if r.random() < .6 else r.randrange(256)


def u16(r):
    return r.choice(U16) if r.random() < .6 else r.randrange(65536)


def le(n):
    return [n & 255, n >> 8 & 255]


def blob(r, n):
    if n > 3 and r.random() < .1:       # all the same
        return [byte(r)] * n
    return [r.randrange(256) for _ in range(n)]


# ------------------------------------------------------------------ layout

def lsd(w, h, flags=0, bg=0, ar=0):
    return le(w) + le(h) + [flags, bg, ar]


def start(r, w, h, flags):
    """Header and screen of either version, with anything where it has no
    effect on pictures"""
    return r.choice((H87, H89, H89)) + lsd(w, h, flags | r.randrange(16) << 3,
                                           byte(r), byte(r))


def subs(chunks):
    out = []
    for c in chunks:
        out += [len(c)] + list(c)
    return out + [0]


def chunk(data, sizes):
    """Divide data into sub-blocks of the given sizes (cyclic)"""
    out, i, k = [], 0, 0
    while i < len(data):
        n = sizes[k % len(sizes)]
        out.append(data[i:i + n])
        i += n
        k += 1
    return out


def ext(label, chunks):
    return [0x21, label] + subs(chunks)


def gce(flags=0, delay=0, tr=0):
    return ext(0xF9, [[flags] + le(delay) + [tr]])


def loop_ext(n, ident=NETSCAPE):
    return ext(0xFF, [ident, [1] + le(n)])


def img(left, top, w, h, flags=0):
    return [0x2C] + le(left) + le(top) + le(w) + le(h) + [flags]


# --------------------------------------------------------------------- LZW

class Packer:
    def __init__(self):
        self.v = self.n = 0
        self.out = []

    def put(self, code, width):
        self.v |= code << self.n
        self.n += width
        while self.n >= 8:
            self.out.append(self.v & 255)
            self.v >>= 8
            self.n -= 8

    def done(self):
        if self.n:
            self.out.append(self.v & 255)
            self.v = self.n = 0
        return self.out


class Stream:
    """Code stream with table and width bookkeeping (lengths of strings only)"""

    def __init__(self, min_):
        self.min = min_
        self.clear, self.end = 1 << min_, (1 << min_) + 1
        self.p = Packer()
        self.codes = []
        self.total = 0
        self.reset()

    def reset(self):
        self.w = self.min + 1
        self.lens = [1] * self.clear + [0, 0]
        self.prev = 0

    def put(self, code):
        """A clear, end or defined code"""
        self.p.put(code, self.w)
        self.codes.append(code)
        if code == self.clear:
            self.reset()
        elif code != self.end:
            n = len(self.lens)
            ln = self.lens[code] if code < n else self.prev + 1
            if self.prev and n < 4096:
                self.lens.append(self.prev + 1)
            self.prev = ln
            self.total += ln
            if len(self.lens) == 1 << self.w and self.w < 12:
                self.w += 1

    def raw(self, code):
        """Any code, without bookkeeping (it is undefined)"""
        self.p.put(code & ((1 << self.w) - 1), self.w)
        self.codes.append(code)

    def valid(self, r, how="mix"):
        """A defined data code"""
        n = len(self.lens)
        lit = r.randrange(self.clear)
        if not self.prev:
            return lit
        new = self.end + 1
        k = r.random()
        if how == "literals":
            return lit
        if how == "run":
            return n if n < 4096 else n - 1
        if how == "old":
            return r.randrange(new, n) if n > new else lit
        if k < .35 or n == new:
            return n if (k < .1 and n < 4096) else lit
        if k < .5:
            return n if n < 4096 else r.randrange(new, n)
        if k < .7:
            return n - 1
        return r.randrange(new, n)

    def bytes(self):
        return list(self.p.done())


def lzw_encode(data, min_, greedy=True, defer=False, r=None, end=True,
               clear=True):
    """Ordinary encoder; defer: keep using a full table"""
    s = Stream(min_)
    if clear:
        s.put(s.clear)
    d, cur = {(i,): i for i in range(s.clear)}, ()
    nxt = s.end + 1
    for x in data:
        c = cur + (x,)
        if c in d and (greedy or not cur or r.random() < .5):
            cur = c
            continue
        s.put(d[cur])
        if nxt < 4096:
            d.setdefault(c, nxt)
            nxt += 1
        elif not defer:
            s.put(s.clear)
            d = {(i,): i for i in range(s.clear)}
            nxt = s.end + 1
        if r is not None and r.random() < .004:
            s.put(s.clear)
            d = {(i,): i for i in range(s.clear)}
            nxt = s.end + 1
        cur = (x,)
    if cur:
        s.put(d[cur])
    if end:
        s.put(s.end)
    return s.bytes()


def min_size(data):
    m = max(data, default=0)
    n = 2
    while (1 << n) <= m:
        n += 1
    return n


def image_data(data, min_=None, sizes=(255,), **kw):
    m = min_ if min_ is not None else min_size(data)
    return [m] + subs(chunk(lzw_encode(data, m, **kw), sizes))


def pixels(r, n, colors, how=None):
    """Index data of various kinds"""
    colors = max(1, colors)
    how = how or r.choice(["noise", "runs", "one", "ramp", "two", "rare",
                           "sparse", "again"])
    if how == "sparse":     # few values, far apart or differing in one bit
        k = r.randrange(colors)
        vs = [r.randrange(colors) for _ in range(r.randint(2, 12))]
        vs += [v for v in (k ^ 1 << b for b in range(8)) if v < colors]
        return [r.choice(vs) for _ in range(n)]
    if how == "again":      # a part which is repeated with small changes
        part = [r.randrange(colors) for _ in range(r.randint(1, 300))]
        out = []
        while len(out) < n:
            if r.random() < .5:
                part[r.randrange(len(part))] = r.randrange(colors)
            out += part
        return out[:n]
    if how == "noise":
        return [r.randrange(colors) for _ in range(n)]
    if how == "one":
        return [r.randrange(colors)] * n
    if how == "ramp":
        return [i % colors for i in range(n)]
    if how == "two":
        a, b = r.randrange(colors), r.randrange(colors)
        return [r.choice((a, b)) for _ in range(n)]
    if how == "rare":
        d = [0] * n
        for _ in range(max(1, n // 50)):
            if n:
                d[r.randrange(n)] = colors - 1
        return d
    out = []
    while len(out) < n:
        out += [r.randrange(colors)] * r.randint(1, 30)
    return out[:n]


# ---------------------------------------------------------- files by blocks

def table(r, bits):
    return blob(r, 3 * (2 << bits))


def sub_chunks(r, max_chunks=4):
    sizes = [1, 2, 3, 4, 5, 11, 127, 128, 254, 255]
    if max_chunks > 2 and r.random() < .04:      # many small ones
        return [blob(r, r.choice((1, 1, 1, 2, 3)))
                for _ in range(r.choice((r.randint(5, 40), 255, 256, 257,
                                         r.randint(40, 400))))]
    out = []
    for _ in range(r.randint(0, max_chunks)):
        if out and r.random() < .15:    # the same again
            out.append(r.choice(out)[:])
        else:
            out.append(blob(r, r.choice(sizes) if r.random() < .7
                            else r.randint(1, 255)))
    return out


def extensions(r, p):
    """Some extensions, of which there are 1 / (1 - p) - 1 on average"""
    out, last = [], None
    while r.random() < p:
        if last is None or r.random() < .85:
            last = extension(r)
        out += last
    return out


def extension(r):
    """Any extension but graphic control"""
    k = r.random()
    if k < .25:
        return ext(0xFE, sub_chunks(r))
    if k < .5:
        return ext(0xFF, sub_chunks(r))
    if k < .6:
        return loop_ext(u16(r), r.choice((NETSCAPE, ANIMEXTS)))
    if k < .8:
        return ext(0x01, sub_chunks(r))
    return ext(r.choice([0, 2, 0xF8, 0xFA, 0xFD, 0x21, 0x2C, 0x3B,
                         r.randrange(256)]) , sub_chunks(r))


def image(r, left, top, w, h, colors, lct=None, il=False, flags=None, how=None,
          data=None, min_=None):
    """Image descriptor, local color table and data"""
    if flags is None:
        flags = r.randrange(256) & ~0xC7
    flags &= ~0xC7
    if il:
        flags |= 0x40
    if lct is not None:
        flags |= 0x80 | lct
    else:
        flags |= r.randrange(8)
    out = img(left, top, w, h, flags)
    if lct is not None:
        out += table(r, lct)
    if data is None:
        data = pixels(r, w * h, colors, how)
    m = min_ or r.choice([min_size(data), max(min_size(data),
                                              r.randint(2, 8))])
    return out + image_data(data, m, r.choice([(255,), (1,), (254, 1), (3,),
                                               (100, 255)]))


def small_file(r, frames=None, max_side=9, trailer=True, exts=True,
               version=None):
    """A valid file with random contents; frames fit the screen"""
    sw, sh = r.randint(1, max_side), r.randint(1, max_side)
    gct = r.randrange(8) if r.random() < .8 else None
    if gct is not None and r.random() < .5:
        gct = r.randrange(3)
    flags = r.randrange(128) & ~7 | (0x80 | gct if gct is not None
                                     else r.randrange(8))
    out = (version or r.choice((H87, H89)))[:]
    out += lsd(sw, sh, flags, byte(r), byte(r))
    if gct is not None:
        out += table(r, gct)
    n = r.randint(0, 4) if frames is None else frames
    if exts and r.random() < .4:
        out += loop_ext(r.choice((0, 1, 2, 3, 300, 65535)))
    if exts:
        out += extensions(r, .4)
    first = 0
    for _ in range(n):
        if first and r.random() < .08:      # the same frame again
            first, again = len(out), out[first:]
            out += again
            continue
        first = len(out)
        if r.random() < .6:
            out += gce(r.randrange(256), u16(r), r.randrange(8))
            if exts:
                out += extensions(r, .1)
        w, h = r.randint(1, sw), r.randint(1, sh)
        lct = r.randrange(8) if (gct is None or r.random() < .3) else None
        bits = lct if lct is not None else gct
        out += image(r, r.randint(0, sw - w), r.randint(0, sh - h), w, h,
                     2 << bits, lct, r.random() < .3)
        if exts:
            out += extensions(r, .2)
    if trailer:
        out.append(0x3B)
    return out


def any_blocks_file(r, n=None):
    """Blocks in any order, mostly readable"""
    gct = r.random() < .5
    bits = r.randrange(8) if r.random() < .3 else r.randrange(2)
    out = r.choice((H87, H89)) + lsd(u16(r), u16(r),
                                     byte(r) & ~0x87 | (0x80 if gct else 0) |
                                     bits, byte(r), byte(r))
    if gct:
        out += table(r, bits)
    for _ in range(r.randint(0, 6) if n is None else n):
        k = r.random()
        if k < .3:
            out += gce(byte(r), u16(r), byte(r))
        elif k < .6:
            w, h = r.randint(0, 6), r.randint(0, 6)
            lct = r.choice([None, None, 0, 1, r.randrange(8)])
            out += image(r, u16(r), u16(r), w, h, r.choice((2, 4, 16, 256)),
                         lct, r.random() < .3)
        else:
            out += extension(r)
    if r.random() < .9:
        out.append(0x3B)
    return out


def mutate(r, b, n=None):
    """Damage a file"""
    b = list(b)
    for _ in range(n or r.randint(1, 4)):
        k = r.random()
        i = r.randrange(len(b)) if b else 0
        if k < .5 and b:
            b[i] = byte(r)
        elif k < .6 and b:
            b[i] ^= 1 << r.randrange(8)
        elif k < .7 and b:
            del b[i:i + r.choice((1, 1, 2, 10))]
        elif k < .8:
            b[i:i] = [byte(r) for _ in range(r.choice((1, 1, 2, 5)))]
        elif k < .85 and b:
            b = b[:i]
        elif k < .92 and b:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.randint(1, 30)]
        elif len(b) > 14:
            b[r.randrange(6, 14)] = byte(r)
    return b


def small_screen(b, limit=4096):
    """Whether the claimed screen is small enough to compare pictures of"""
    if len(b) < 10:
        return True
    return (b[6] | b[7] << 8) * (b[8] | b[9] << 8) <= limit
