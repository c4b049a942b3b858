"""The checks, one function for each property.

Each combines up to three parts:
  model     the specification itself is checked exhaustively (TLC)
  replay    behaviours enumerated by TLC are executed by the real code
  validate  runs of the real code on generated input are checked against the
            specification (trace validation, TLC)
"""
import json, os, random, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen as g
import vf

CHECKS = {}


def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg


# --------------------------------------------------------------- shorthands

def dec(b, iface="blocks", **kw):
    return dict(op="decode", bytes=list(b), iface=iface, **kw)


def decode_traces(c, scns, what, limit_s=30):
    """Run decoding scenarios and validate what was observed"""
    runs = c.run(scns, limit_s)
    c.validate("TraceDecode", [vf.decode_record(s, o) for s, o, _ in runs],
               what, origin=[dict(build=b) for _, _, b in runs])


def decode_replay(c, behaviours, iface, allowed, what, **kw):
    """Replay inputs of a model; allowed: behaviour -> allowed item lists"""
    scns = [dec(x["bytes"], iface, **kw) for x in behaviours]
    c.replay(scns, [allowed(x) for x in behaviours], what,
             lambda o: o.get("items", o))


def encoded(o):
    """Observation of an encoder, also if there is none"""
    if o.get("k") != "encode":
        return dict(res=[dict(k=o.get("k"))], lens=[0], out=[], back=[])
    o = dict(o)
    o.setdefault("back", [])
    return o


def pick(c, xs, n):
    return xs if len(xs) <= n else c.rng.sample(xs, n)


def divisors(n):
    """Width and height with product n (both below 65536)"""
    if n == 0:
        return 0, 3
    for h in range(1, n + 1):
        if n % h == 0 and n // h < 65536:
            return n // h, h


# --------------------------------------------------------------------- LZW

def image_calls(d):
    w, h = divisors(len(d))
    return [dict(k="img", left=0, top=0, w=w, h=h, flags=0),
            dict(k="dat", d=d)]


SCREEN = dict(k="lsd", w=1, h=1, flags=0, bg=0, ar=0)
HEADER = dict(k="hdr", v=[56, 57, 97])
TRAILER = dict(k="trl")


def data_kinds(c):
    """Index data: all short ones over small alphabets, then lengths and
    contents around the boundaries of the code table"""
    r, out = c.rng, []
    for v in range(256):
        out.append([v])
    for a in ([0, 1], [0, 3], [0, 4], [7, 8], [0, 255], [254, 255], [127, 128],
              [15, 16], [31, 32], [63, 64]):
        for n in range(0, c.n(6, 9)):
            for i in range(2 ** n):
                out.append([a[i >> k & 1] for k in range(n)])
    for n in range(1, c.n(300, 600)):
        out.append([n % 2] * n)
        out.append(g.pixels(r, n, r.choice((2, 3, 4, 5, 16, 17, 256))))
    # the sizes at which codes get wider and the table gets full, for each
    # code size (noise fills it fastest)
    for m in range(1, 9):
        k = 2 ** m
        for w in range(m + 1, 13):
            full = 2 ** w - k
            for n in range(full - c.n(3, 6), full + c.n(3, 6)):
                if n > 0:
                    out.append(g.pixels(r, n, k, "noise"))
                    if m in (1, 8) or c.thorough:
                        out.append([(i * i // 7 + i // k) % k
                                    for i in range(n)])
    for _ in range(c.n(40, 600)):
        n = r.choice((r.randint(250, 3000), r.randint(3800, 9000)))
        k = r.choice((2, 3, 4, 8, 9, 16, 17, 33, 64, 65, 128, 129, 255, 256))
        out.append(g.pixels(r, n, k))
    # values which share all but one bit, or are far apart
    for _ in range(c.n(30, 300)):
        out.append(g.pixels(r, r.randint(300, 5000), 256,
                            r.choice(("sparse", "again"))))
    for b in range(8):
        vs = [r.randrange(256) for _ in range(8)]
        vs += [v ^ 1 << b for v in vs]
        out.append([r.choice(vs) for _ in range(3000)])
    for how in ("noise", "runs", "one", "ramp", "two", "rare", "sparse",
                "again"):
        out.append(g.pixels(r, 66000 + r.randrange(3000) * 2, 256, how))
        out.append(g.pixels(r, 30000, r.choice((2, 4, 7, 100)), how))
    # data which fills the last sub-block exactly, or almost
    for k in (2, 4, 16, 256):
        d = g.pixels(r, 4000, k, "noise")
        lens = [len(g.lzw_encode(d[:n], g.min_size(d)))
                for n in c.n(range(1, 1400), range(1, 4000))]
        for n, z in enumerate(lens, 1):
            if z > 250 and (z + 1) % 255 <= 2:
                out.append(d[:n])
    # codes for long strings
    out.append([1] * 1200000)
    out.append(([0] * 999 + [1]) * c.n(300, 1100))
    return out


def data_files(ds, group):
    """Files of several images each"""
    out, cur, size = [], [], 0
    for d in ds:
        if cur and (size + len(d) > group or len(cur) > 60):
            out.append(cur)
            cur, size = [], 0
        cur.append(d)
        size += len(d)
    if cur:
        out.append(cur)
    return [[HEADER, SCREEN] + sum((image_calls(d) for d in ds), [])
            + [TRAILER] for ds in out]


def encode_traces(c, files, what, strict=0, file=1):
    scns = [dict(op="encblock", calls=f, max=-1) for f in files]
    for s in scns:
        if file:
            s["back"] = "blocks"
    runs = c.run(scns)
    recs = []
    for s, o, _ in runs:
        o = encoded(o)
        recs.append(dict(calls=s["calls"], res=o["res"], lens=o["lens"],
                         out=o["out"], back=o["back"] if file else [],
                         file=file, strict=strict))
    return c.validate("TraceEncode", recs, what), recs


@check("C01")
def c01(c):
    """Round trip of image data"""
    c.assumptions = ["data up to 1,200,000 indices",
                     "one TLC worker per file"]
    c.build(release=True)
    c.model("LzwModel", what="encoder and decoder agree, table of 4 bits")
    if c.thorough:
        c.model("LzwModel", "LzwModelAny", "any encoder")
        c.model("LzwModel", "LzwModelFull", "table of 3 bits, gets full")
    files = data_files(data_kinds(c), 9000)
    encode_traces(c, files, "image data written and read back")


@check("C02")
def c02(c):
    """Written image data is a valid stream"""
    c.assumptions = ["data up to 1,200,000 indices"]
    c.build()
    c.model("LzwModel", what="encoder and decoder agree, table of 4 bits")
    if c.thorough:
        c.fails("LzwModel", "LzwModelNarrow", "WidthsRight is violated",
                "end code of the width of the code before it")
    files = data_files(data_kinds(c), 9000)
    r, recs = encode_traces(c, files, "image data as a code stream", 1, 0)
    cut = re.findall(r'<<"CUT", (\d+)>>', r.out)
    if cut:
        rec = recs[int(cut[0]) - 1]
        if "end-cut" not in vf.known_findings("C02"):
            c.violation("image data is written without a whole end code",
                        dict(record=rec))
        c.sample({"known finding end-cut": f"{len(cut)} images"})


def stream_image(m, body, n, sizes=(255,)):
    """File of one image with n pixels and this code stream"""
    w, h = divisors(n)
    return (g.H89 + g.lsd(1, 1) + g.img(0, 0, w, h) + [m]
            + g.subs(g.chunk(body, sizes)) + [0x3B])


def stream_images(streams):
    """File of several images: as above, one after another"""
    out = g.H89 + g.lsd(1, 1)
    for m, body, n, z in streams:
        w, h = divisors(n)
        out += g.img(0, 0, w, h) + [m] + g.subs(g.chunk(body, z))
    return out + [0x3B]


def some_streams(c, n, streams):
    """n files with two to five short ones of these streams, often of the same
    code size"""
    r, by = c.rng, {}
    for x in streams:
        if len(x[1]) < 700:
            by.setdefault(x[0], []).append(x)
    files = []
    for _ in range(n):
        m = r.choice(list(by))
        files.append(stream_images([
            r.choice(by[m if r.random() < .7 else r.choice(list(by))])
            for _ in range(r.randint(2, 5))]))
    return files


def valid_stream(r, m, n_codes, how, clears=0.0, first_clear=True, end=True):
    s = g.Stream(m)
    if first_clear:
        s.put(s.clear)
        while r.random() < .1:
            s.put(s.clear)
    for _ in range(n_codes):
        if r.random() < clears:
            s.put(s.clear)
            if r.random() < .2:
                s.put(s.clear)
        s.put(s.valid(r, how))
    if end:
        s.put(s.end)
    return s


def sizes(r):
    return r.choice([(255,), (1,), (2,), (254, 1), (255, 1), (7,), (128, 127),
                     (r.randint(1, 255), r.randint(1, 255))])


def valid_streams(c):
    r, out = c.rng, []
    hows = ("mix", "literals", "old", "run")
    for m in range(2, 9):
        for how in hows:
            # through every width, past the full table
            n = {"mix": 5200, "literals": 4300, "old": 4600, "run": 120}[how]
            if how == "run":
                ns = [n]
            else:
                ns = [n] if (m in (2, 8) or c.thorough) else [600]
            for k in ns:
                # long strings: keep the expansion reasonable
                s = g.Stream(m)
                s.put(s.clear)
                while len(s.codes) < k and s.total < 40000:
                    s.put(s.valid(r, how))
                if r.random() < .7:
                    s.put(s.end)
                out.append((m, s.bytes(), s.total, sizes(r)))
            for _ in range(c.n(20, 100)):
                s = valid_stream(r, m, r.randint(0, 40), how,
                                 r.choice((0, .05, .3)),
                                 r.random() < .8, r.random() < .8)
                out.append((m, s.bytes(), s.total, sizes(r)))
            # around each change of width
            for w in range(m + 1, 11):
                for d in (-1, 0, 1):
                    n = 2 ** w - 2 ** m - 1 + d
                    if 0 < n < c.n(300, 1100):
                        s = valid_stream(r, m, n, "literals",
                                         end=r.random() < .5)
                        out.append((m, s.bytes(), s.total, (255,)))
        # full table used for a while, cleared, used again
        for _ in range(c.n(1, 6)):
            s = g.Stream(m)
            if r.random() < .5:
                s.put(s.clear)
            for rep in range(2):
                for _ in range(r.randint(4100, 4400)):
                    s.put(s.valid(r, r.choice(("literals", "literals", "mix"))
                                  if s.total < 60000 else "literals"))
                s.put(s.clear)
            out.append((m, s.bytes(), s.total, sizes(r)))
    # ordinary encoders, greedy or not, with early or deferred clears
    for _ in range(c.n(150, 900)):
        n = r.choice((r.randint(1, 60), r.randint(60, 2000)))
        if r.random() < .06:
            n = r.randint(9000, 20000)
        k = r.choice((2, 4, 16, 256))
        d = g.pixels(r, n, k)
        m = r.randint(g.min_size(d), 8)
        b = g.lzw_encode(d, m, r.random() < .6, r.random() < .5, r,
                         r.random() < .8, r.random() < .8)
        out.append((m, b, len(d), sizes(r)))
    return out


def codes_replay(c, cfg, keep, what, count):
    """Behaviours of LzwCodes: streams of all short code sequences"""
    b = [x for x in c.behaviours("LzwCodes", cfg, what)
         if keep(x["items"])]
    b = pick(c, b, count)
    scns = [dec(x["bytes"]) for x in b]
    c.replay(scns, [x["items"] for x in b], what,
             lambda o: (o.get("items") or [None] * 4)[3]
             if len(o.get("items", [])) > 3 else o)


@check("C03")
def c03(c):
    """Valid streams are expanded exactly"""
    c.assumptions = ["streams up to 70,000 (thorough: 200,000) codes, strings "
                     "up to 700 (thorough: 1,500) pixels"]
    c.build(release=True)
    c.model("LzwModel", "LzwModelAny", "any encoder, decoder in step")
    good = lambda items: all(i["k"] == "dat" for i in items)
    codes_replay(c, None, good, "all short streams, code size 2", 20000)
    codes_replay(c, "LzwCodes8", good, "short streams, code size 8", 20000)
    streams = valid_streams(c)
    scns = [dec(stream_image(m, b, n, z)) for m, b, n, z in streams]
    # several in one file
    scns += [dec(f) for f in some_streams(c, c.n(50), streams)]
    # codes for long strings: only ever the one being defined, then any
    for n in c.n((700,), (700, 1100, 1500)):
        m = c.rng.randint(2, 8)
        s = valid_stream(c.rng, m, n, "run", 0, True, False)
        for _ in range(50):
            s.put(s.valid(c.rng, "old"))
        s.put(s.end)
        scns.append(dec(stream_image(m, s.bytes(), s.total)))
    # a full table used for long
    for n in c.n((70000,), (70000, 200000)):
        m = c.rng.choice((2, 8))
        s = valid_stream(c.rng, m, n, "literals", 0, True, False)
        s.put(s.end)
        scns.append(dec(stream_image(m, s.bytes(), s.total)))
        scns.append(dec(stream_image(m, s.bytes(), s.total, (1,))))
    decode_traces(c, scns, "valid streams")


@check("C04")
def c04(c):
    """Corrupt or short streams are errors; surplus is dropped"""
    c.assumptions = ["streams up to 5,000 codes"]
    c.build(release=True)
    bad = lambda items: any(i["k"] != "dat" for i in items)
    codes_replay(c, None, bad, "all short streams, code size 2", 20000)
    codes_replay(c, "LzwCodesJunk", lambda i: True,
                 "short streams with anything behind the end", 20000)
    codes_replay(c, "LzwCodes8", bad, "short streams, code size 8", 20000)
    r, scns, bad, good = c.rng, [], [], valid_streams(c)
    for m, b, n, z in good:
        if len(b) > 2500 and r.random() < .7:
            continue
        k = r.random()
        if k < .25:      # claims more pixels
            n += r.choice((1, 1, 2, 7, 100, 5000))
        elif k < .5:     # claims fewer
            n = max(0, n - r.choice((1, 1, 2, 7, 100, 5000)))
        elif k < .65:    # cut off
            b = b[:r.randrange(len(b) + 1)]
        elif k < .75:    # data behind the end
            b = b + g.blob(r, r.choice((1, 2, 10, 300)))
        elif b:          # damaged
            b = list(b)
            for _ in range(r.choice((1, 1, 3))):
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        scns.append(dec(stream_image(m, b, n, z)))
        bad.append((m, b, n, z))
    # several in one file
    scns += [dec(f) for f in some_streams(c, c.n(50), bad + good)]
    # an undefined code after any number of valid ones
    for _ in range(c.n(1000, 8000)):
        m = r.randint(2, 8)
        s = valid_stream(r, m, r.choice((0, 1, 2, 5, r.randint(0, 300))),
                         r.choice(("mix", "literals")), .02,
                         r.random() < .8, False)
        lim = 1 << s.w
        nxt = len(s.lens) + (1 if s.prev and len(s.lens) < 4096 else 0)
        if not s.prev:
            nxt = s.end + 1
        if nxt < lim:
            s.raw(r.choice((nxt, lim - 1, r.randrange(nxt, lim))))
        n = max(0, s.total + r.choice((-1, 0, 0, 1, 5)))
        tail = g.blob(r, 3) if r.random() < .5 else []
        scns.append(dec(stream_image(m, s.bytes() + tail, n, sizes(r))))
    # long strings: far more data than pixels within one sub-block
    for _ in range(c.n(12, 40)):
        m = r.randint(2, 8)
        s = valid_stream(r, m, r.choice((150, 300, 700)), "run", 0, True, False)
        for _ in range(r.choice((0, 100))):
            s.put(s.valid(r, "old"))
        s.put(s.end)
        n = r.choice((0, 1, 7, 300, s.total // 50, s.total // 2, s.total - 1,
                      s.total + 1))
        scns.append(dec(stream_image(m, s.bytes(), n, r.choice((
            (255,), (255,), (1,), (100,))))))
    # code size bytes out of range
    for m in list(range(0, 20)) + [127, 128, 255]:
        for n in (0, 1, 5):
            scns.append(dec(stream_image(m, g.blob(r, r.randint(0, 9)), n)))
    decode_traces(c, scns, "damaged, short and long streams")


# ------------------------------------------------------------------- blocks

def brief_runs(o):
    """Items as runs of kinds, for TraceTotal"""
    if o.get("k") != "decode":
        return [[o.get("k", "panic"), 1]]
    runs = []
    for i in o["items"]:
        if runs and runs[-1][0] == i["k"]:
            runs[-1][1] += 1
        else:
            runs.append([i["k"], 1])
    return runs


def fuzz_inputs(c, n):
    r, out = c.rng, []
    for _ in range(n):
        k = r.random()
        if k < .12:
            b = g.blob(r, r.randint(0, 60))
        elif k < .2:
            b = g.H89 + [g.byte(r) for _ in range(r.randint(0, 80))]
        elif k < .3:
            b = g.any_blocks_file(r)
        elif k < .55:
            b = g.mutate(r, g.any_blocks_file(r))
        elif k < .9:
            b = g.mutate(r, g.small_file(r))
        else:
            w, h = g.u16(r), g.u16(r)
            b = g.H89 + g.lsd(w, h, 0x80, 0, 0) + [0] * 6
            if r.random() < .5:
                b += g.gce(g.byte(r), 1, 0)
            b += g.img(g.u16(r), g.u16(r), g.u16(r), g.u16(r), g.byte(r) & 0x7f)
            b += [r.randint(0, 14)] + g.subs([g.blob(r, 200)]) + [0x3B]
        if r.random() < .1:
            b = g.mutate(r, b, 30)
        out.append(b)
    return out


@check("C05")
def c05(c):
    """No panic, at most one error, then the end"""
    c.assumptions = ["inputs up to about 5,000 bytes",
                     "size limit of 2^20 for arbitrary screens"]
    c.build(release=True)
    r = c.rng
    # all short inputs behind a header
    alphabet = [0x00, 0x01, 0x02, 0x21, 0x2C, 0x3B, 0xF9, 0xFF]
    head = g.H89 + g.lsd(1, 1, 0x80) + [1, 2, 3, 4, 5, 6]
    scns = []
    for n in range(0, c.n(4, 5)):
        for i in range(8 ** n):
            tail = [alphabet[i >> 3 * k & 7] for k in range(n)]
            scns.append(dec(head + tail, r.choice(("blocks", "steps", "iter")),
                            brief=True, limit=200))
    for b in fuzz_inputs(c, c.n(60000, 400000)):
        iface = r.choice(("blocks", "frames", "steps", "iter"))
        max_ = r.choice((0, 1, 100, 1 << 16, 1 << 20, 1 << 20, 1 << 20))
        scns.append(dec(b, iface, brief=True, max=max_, limit=len(b) + 300,
                        log=r.random() < .05))
    # code streams of arbitrary bytes
    for k in range(c.n(6000, 30000)):
        b = stream_image(r.randint(0, 12), g.blob(r, r.randint(0, 400)),
                         r.choice((0, 1, 10, 1000, 60000)), sizes(r))
        scns.append(dec(b, "frames", brief=True, log=k % 10 == 0))
    # far more data than pixels
    for _ in range(c.n(40, 200)):
        m = r.randint(2, 8)
        s = valid_stream(r, m, r.choice((150, 300, 700)), "run", 0, True, False)
        b = stream_image(m, s.bytes(), r.choice((0, 1, 60, 5000)), (255,))
        scns.append(dec(b, "frames", brief=True, log=True))
    # many blocks, frames and steps
    for n in (300, 70000):
        b = many_blocks(r, n)
        for iface in ("blocks", "frames", "steps", "iter"):
            scns.append(dec(b, iface, brief=True, limit=len(b)))
    # long ways to the next frame
    for b in (g.ext(0xFE, [[1]]) * 200000, g.ext(0xFE, [[1]] * 200000),
              g.img(0, 0, 1, 1) + [2] + [1, 0x44] * 200000 + [0]):
        for iface in ("blocks", "frames", "steps", "iter"):
            scns.append(dec(head + b + g.img(0, 0, 1, 1) + [
                2, 2, 0x44, 1, 0, 0x3B], iface, brief=True, limit=len(b)))
    total_traces(c, scns, "shape of decoding")


def total_traces(c, scns, what):
    runs = c.run(scns)
    c.validate("TraceTotal", [dict(iface=s["iface"], n=len(s["bytes"]),
                                   memkb=s.get("memkb", -1),
                                   peak=o.get("peak", 0),
                                   runs=brief_runs(o)) for s, o, _ in runs],
               what, origin=[s for s, _, _ in runs])


def many_blocks(r, n):
    """Many small blocks: frames of one pixel, their controls, extensions"""
    out = g.start(r, 2, 1, 0x80) + g.blob(r, 6)
    while n > 0:
        k = r.random()
        if k < .2:
            out += g.ext(0xFE, [[g.byte(r)]])
        elif k < .3:
            out += g.ext(r.choice((0xFF, 0x42)), [])
        else:
            if r.random() < .5:
                out += g.gce(r.randrange(16), g.u16(r), r.randrange(2))
                n -= 1
            # one index of 0 or 1
            out += g.img(r.randrange(2), 0, 1, 1) + [2, 2, r.choice((
                0x44, 0x4C)), 1, 0]
            n -= 1
        n -= 1
    return out + [0x3B]


@check("C06")
def c06(c):
    """Block contents"""
    c.assumptions = ["files up to about 10,000 bytes"]
    c.build()
    b = c.behaviours("StreamModel", what="all short files over a block "
                     "alphabet: contents, grammar, errors")
    decode_replay(c, pick(c, b, c.n(30000, 100000)), "blocks",
                  lambda x: x["runs"], "short files of all blocks")
    r = c.rng
    scns = [dec(g.any_blocks_file(r)) for _ in range(c.n(700))]
    scns += [dec(many_blocks(r, n)) for n in (300, 70000)]
    scns += [dec(g.mutate(r, g.any_blocks_file(r)), max=1 << 16)
             for _ in range(c.n(700))]
    # every flag byte of screen and image; every table size; every label
    for f in range(256):
        t = g.blob(r, 3 * (2 << (f & 7))) if f & 128 else []
        scns.append(dec(g.H87 + g.lsd(g.u16(r), g.u16(r), f, g.byte(r),
                                      g.byte(r)) + t + [0x3B]))
        scns.append(dec(g.H89 + g.lsd(3, 4) + g.img(g.u16(r), g.u16(r), 1, 2, f)
                        + t + g.image_data([1, 0]) + [0x3B]))
        scns.append(dec(g.H89 + g.lsd(3, 4) + g.ext(f, g.sub_chunks(r) if
                        f != 0xF9 else [g.blob(r, 4)]) + [0x3B]))
        scns.append(dec(g.H89 + g.lsd(3, 4) + [f] + g.blob(r, 12)))
        scns.append(dec(g.H89 + g.lsd(3, 4) + g.gce(f, g.u16(r), g.byte(r))
                        + [0x3B]))
    for base in (g.H87, g.H89):     # headers which differ in one byte
        for i in range(6):
            for v in range(256):
                h = base[:]
                h[i] = v
                scns.append(dec(h + g.lsd(1, 1) + [0x3B]))
    for n in range(0, 12):     # graphic control of another size
        scns.append(dec(g.H89 + g.lsd(1, 1) + [0x21, 0xF9, n] + g.blob(r, n)
                        + [0, 0x3B]))
        scns.append(dec(g.H89 + g.lsd(1, 1) + [0x21, 0xF9, 4] + g.blob(r, 4)
                        + [n, 0x3B] + g.blob(r, 10)))
    decode_traces(c, scns, "files of any blocks")


def any_block(r, big=False):
    k = r.choice("hdr lsd gct lct pt gce com app unk img dat trl".split())
    n16, n8 = (lambda: g.u16(r)), (lambda: g.byte(r))
    if k == "hdr":
        return dict(k=k, v=r.choice(([56, 57, 97], [56, 55, 97])))
    if k == "lsd":
        return dict(k=k, w=n16(), h=n16(), flags=n8(), bg=n8(), ar=n8())
    if k in ("gct", "lct"):
        return dict(k=k, c=g.table(r, r.randrange(8)))
    if k == "gce":
        return dict(k=k, flags=n8(), delay=n16(), tr=n8())
    if k == "img":
        return dict(k=k, left=n16(), top=n16(), w=n16(), h=n16(), flags=n8())
    if k == "dat":
        return dict(k=k, d=g.pixels(r, r.choice((0, 1, 5, 300)), 256))
    if k == "trl":
        return dict(k=k)
    if k == "unk":
        i = r.choice([x for x in range(256) if x not in (1, 0xF9, 0xFE, 0xFF)])
        return dict(k=k, id=[i], s=g.sub_chunks(r))
    return dict(k=k, s=g.sub_chunks(r))


def whole_file(r):
    """Blocks of a readable file"""
    def flags(t):
        n8 = g.byte(r)
        return n8 & 0x78 | 0x80 | t if t is not None else n8 & 0x7f
    t = r.choice((None, 0, 1, r.randrange(8)))
    bs = [dict(k="hdr", v=r.choice(([56, 57, 97], [56, 55, 97]))),
          dict(k="lsd", w=g.u16(r), h=g.u16(r), flags=flags(t), bg=g.byte(r),
               ar=g.byte(r))]
    if t is not None:
        bs.append(dict(k="gct", c=g.table(r, t)))
    for _ in range(r.randint(0, 5)):
        b = any_block(r)
        while b["k"] in ("hdr", "lsd", "gct", "lct", "trl", "dat"):
            b = any_block(r)
        if b["k"] == "img":
            t = r.choice((None, 0, 1, r.randrange(8)))
            d = g.pixels(r, r.choice((0, 1, 2, 30, 250)), 256)
            b["w"], b["h"] = divisors(len(d))
            b["flags"] = flags(t)
            bs.append(b)
            if t is not None:
                bs.append(dict(k="lct", c=g.table(r, t)))
            bs.append(dict(k="dat", d=d))
        else:
            bs.append(b)
    return bs + [dict(k="trl")]


@check("C07")
def c07(c):
    """Block layout"""
    c.assumptions = ["blocks up to about 800 bytes, data up to 300 indices"]
    c.build()
    c.model("StreamModel", what="layout and reading are inverse")
    r = c.rng
    files = [whole_file(r) for _ in range(c.n(900))]
    for i in range(256):    # every sub-block length; every byte value
        s = [[(i + j) % 256 for j in range(i)]] if i else []
        for k in ("com", "app", "pt"):
            files.append([HEADER, SCREEN, dict(k=k, s=s), TRAILER])
        if i not in (1, 0xF9, 0xFE, 0xFF):
            files.append([HEADER, SCREEN, dict(k="unk", id=[i], s=s), TRAILER])
        files.append([HEADER, SCREEN, dict(k="gce", flags=i, delay=i * 257,
                                           tr=255 - i), TRAILER])
        files.append([HEADER, dict(k="lsd", w=i * 256, h=i, flags=i & 127,
                                   bg=i, ar=255 - i), TRAILER])
    many = [dict(k="com", s=[[i % 256]]) for i in range(c.n(2000, 70000))]
    files.append([HEADER, SCREEN] + many + [TRAILER])
    encode_traces(c, files, "whole files written and read back")
    encode_traces(c, [[any_block(r) for _ in range(r.randint(1, 8))]
                      for _ in range(c.n(900))], "blocks in any order", file=0)


# ------------------------------------------------------------ frames, steps

@check("C08")
def c08(c):
    """Grouping into frames and preamble"""
    c.assumptions = ["up to 5 extensions and images in the model"]
    c.build()
    b = c.behaviours("FramesModel", what="all short block sequences: which "
                     "control belongs to which image, preamble contents")
    if c.thorough:
        c.model("FramesModel", "FramesModelDeep", "longer sequences")
    decode_replay(c, b, "frames", lambda x: [x["frames"]] if
                  isinstance(x["frames"][0], dict) else x["frames"],
                  "frames of short sequences")
    scns, exp = [], []
    for x in b:
        scns.append(dec(x["bytes"], "preframes"))
        exp.append(x["pre"] if isinstance(x["pre"], list) else [x["pre"]])
    c.replay(scns, exp, "preamble of short sequences",
             lambda o: (o.get("items") or [o])[0])
    r = c.rng
    scns = [dec(grouping_file(r), r.choice(("frames", "preframes")),
                npre=r.choice((1, 1, 2))) for _ in range(c.n(900))]
    scns += [dec(g.small_file(r), r.choice(("frames", "preframes")))
             for _ in range(c.n(400))]
    scns += [dec(g.mutate(r, grouping_file(r)), r.choice(("frames",
                                                          "preframes")),
                 max=1 << 16) for _ in range(c.n(300))]
    scns += [dec(long_file(r, n), iface) for n in c.n((255, 300), (
        254, 255, 256, 257, 300, 600)) for iface in ("frames", "preframes")]
    scns.append(dec(many_blocks(r, c.n(70000, 200000)), "frames"))
    one = g.gce(1, 2, 3) + g.img(0, 0, 1, 1) + [2, 2, 0x44, 1, 0]
    scns.append(dec(g.H89 + g.lsd(1, 1) + one * 65537 + [0x3B], "frames"))
    decode_traces(c, scns, "frames of files")


def long_file(r, n):
    """Many comments, then many small frames"""
    out = g.start(r, 3, 2, 0x80) + g.blob(r, 6)
    for _ in range(n):
        out += g.ext(0xFE, [g.blob(r, r.randint(1, 2))
                            for _ in range(r.choice((0, 1, 1, 2)))])
        if r.random() < .02:
            out += g.loop_ext(g.u16(r))
    for _ in range(n):
        if r.random() < .7:
            out += g.gce(r.choice((0, 1, 2, 3)) << 2 | r.randrange(2),
                         g.u16(r), r.randrange(2))
        while r.random() < .1:
            out += g.ext(r.choice((0xFE, 0xFF, 0x33)), [g.blob(r, 3)])
        x, y = r.randrange(3), r.randrange(2)
        out += g.image(r, x, y, r.randint(1, 3 - x), r.randint(1, 2 - y), 2,
                       r.choice((None, None, None, 0)), r.random() < .1)
    return out + [0x3B]


def grouping_file(r):
    """Many extensions around few images"""
    gct = r.random() < .5
    out = r.choice((g.H87, g.H89)) + g.lsd(g.u16(r), g.u16(r),
                                           0x80 if gct else 0)
    if gct:
        out += g.blob(r, 6)
    for _ in range(r.randint(0, 9)):
        k = r.random()
        if k < .25:
            out += g.gce(g.byte(r), g.u16(r), g.byte(r)) \
                if r.random() < .8 else g.gce(0, 0, 0)
        elif k < .5:
            lct = r.choice((None, None, 0))
            out += g.image(r, 0, 0, r.randint(0, 2), r.randint(0, 2), 2, lct)
        elif k < .6:
            out += g.ext(1, g.sub_chunks(r, 2))
        elif k < .75:
            out += g.loop_ext(g.u16(r), r.choice((g.NETSCAPE, g.ANIMEXTS)))
        elif k < .85:
            out += g.ext(0xFE, [g.blob(r, r.randint(1, 5))
                                for _ in range(r.randint(0, 2))])
        elif k < .93:
            out += g.ext(0xFF, [g.NETSCAPE] + [g.blob(r, r.randint(1, 4))
                                               for _ in range(r.randint(0, 2))])
        else:
            out += g.extension(r)
    return out + [0x3B]


def placed_file(r, max_side=12, n=None, gce_p=.6, il_p=.4, size=None,
                methods=()):
    """Frames anywhere on a small screen, all valid; the first ones with the
    disposal methods given"""
    sw, sh = size or (r.randint(1, max_side), r.randint(1, max_side))
    gct = r.choice((None, 0, 1, 2, 7))
    out = g.start(r, sw, sh, 0 if gct is None else 0x80 | gct)
    if gct is not None:
        out += g.table(r, gct)
    first = 0
    methods = list(methods)
    for _ in range(n or len(methods) or r.randint(1, 4)):
        if first and r.random() < .06:      # the same frame again
            first, again = len(out), out[first:]
            out += again
            continue
        first = len(out)
        w, h = r.randint(1, min(sw, 40)), r.randint(1, min(sh, 40))
        x, y = r.randint(0, sw - w), r.randint(0, sh - h)
        lct = r.choice((0, 1, 3, 7)) if gct is None or r.random() < .3 else None
        bits = gct if lct is None else lct
        if methods:
            out += g.gce(methods.pop(0) << 2 | r.randrange(2), g.u16(r),
                         r.randrange(2 << bits))
        elif r.random() < gce_p:
            out += g.gce(r.randrange(256) if r.random() < .3 else
                         r.choice((0, 1, 2, 3)) << 2 | r.randrange(2),
                         g.u16(r), r.randrange(2 << bits))
        out += g.image(r, x, y, w, h, 2 << bits, lct, r.random() < il_p)
    return out + [0x3B]


@check("C09")
def c09(c):
    """Placement, color, interlacing, transparency"""
    c.assumptions = ["screens up to 70,000 pixels"]
    c.build()
    b = c.behaviours("ComposeModel", "ComposeModelPlace",
                     "placement of one frame; interlaced rows for 0..40 rows")
    decode_replay(c, b, "steps", lambda x: [x["steps"]],
                  "one frame at any place")
    r = c.rng
    scns = [dec(placed_file(r, n=1), "steps") for _ in range(c.n(500))]
    scns += [dec(placed_file(r, 6), "steps") for _ in range(c.n(200))]
    scns += [dec(g.small_file(r), "steps") for _ in range(c.n(100))]
    # every height of interlaced frames, with distinct rows
    for h in list(range(1, c.n(41, 200))) + [255, 256, 257, 511, 512, 513, 1025,
                                             4099]:
        t = g.table(r, 7)
        top = r.randint(0, 2)
        b = g.start(r, 3, h + top + r.randint(0, 2), 0x87) + t
        data = []
        for k in range(h):
            data += [k % 256, (k * 7 + 1) % 256]
        b += g.image(r, r.randint(0, 1), top, 2, h, 256, None, True, data=data)
        scns.append(dec(b + [0x3B], "steps"))
    # every transparent index, every index, over a picture and over nothing
    for tr, bits in [(tr, b) for tr in range(256) for b in (
            7, 7, r.randrange(8))]:
        n = 2 << bits
        w = min(n, 16)
        h = n // w
        b = g.start(r, w, h, 0x80 | bits) + g.table(r, bits)
        if len(scns) % 3:
            b += g.image(r, 0, 0, w, r.randint(1, h), n, None)
        for _ in range(2):
            b += g.gce(1 | 4 * r.randrange(4), 1, tr)
            b += g.image(r, 0, 0, w, h, n, None,
                         data=r.sample(range(n), n))
        scns.append(dec(b + [0x3B], "steps"))
    # large and thin screens, large offsets
    for sw, sh, x, y, w, h in ((300, 200, 256, 130, 44, 70),
                               (65535, 1, 65530, 0, 5, 1),
                               (1, 65535, 0, 65500, 1, 35),
                               (260, 257, 0, 0, 260, 257),
                               (33000, 2, 32760, 1, 240, 1),
                               (65535, 1, 0, 0, 65535, 1),
                               (20001, 3, 1, 0, 20000, 3),
                               (4100, 16, 3, 2, 4096, 14),
                               (1025, 64, 0, 0, 1025, 64)):
        for il in (False, True):
            b = g.start(r, sw, sh, 0x87) + g.table(r, 7)
            b += g.gce(1, 258, 3) + g.image(r, x, y, w, h, 256, None, il,
                                            how="noise")
            scns.append(dec(b + [0x3B], "steps"))
    decode_traces(c, scns, "pictures of frames")


@check("C10")
def c10(c):
    """Disposal"""
    c.assumptions = ["model: 2 and 3 frames on a 2x1 and 2x2 screen"]
    c.build()
    b = c.behaviours("ComposeModel", what="all pairs of small frames with all "
                     "disposal methods against a declarative definition")
    decode_replay(c, b, "steps", lambda x: [x["steps"]], "pairs of frames")
    if c.thorough:
        c.model("ComposeModel", "ComposeModelDeep", "longer animations")
    r = c.rng
    scns = [dec(placed_file(r, r.choice((2, 3, 5)), r.randint(2, 8), .95, .2),
                "steps") for _ in range(c.n(900))]
    scns += [dec(placed_file(r, 4, r.randint(2, 5), .95, .2), "iter",
                 limit=20) for _ in range(c.n(100))]
    scns += [dec(g.small_file(r, r.randint(2, 6), 5), "steps")
             for _ in range(c.n(60))]
    scns += [dec(placed_file(r, r.choice((2, 3)), r.randint(20, 60), .95, .2),
                 "steps") for _ in range(c.n(20))]
    scns += [dec(placed_file(r, 0, 12, .95, .2, size), "steps")
             for size in ((700, 2), (2, 700), (3000, 1), (1, 3000), (60, 50))]
    # one method many times, and two in turn
    for m in range(8):
        for n in list(range(3, 12)) * c.n(6, 30) + [20, 40, 70]:
            scns.append(dec(placed_file(
                r, r.choice((2, 3, 5)), methods=[m] * n +
                [r.randrange(4) for _ in range(3)]), "steps"))
        for k in range(4):
            scns.append(dec(placed_file(r, 4, methods=[m, k] * 12), "steps"))
    scns.append(dec(long_file(r, 300), "steps"))
    scns.append(dec(many_blocks(r, c.n(70000, 200000)), "steps"))
    decode_traces(c, scns, "composed animations")


def invalid_file(r, good=None):
    """A few valid frames, then one which may be invalid, then another"""
    good = r.randint(0, 3) if good is None else good
    sw, sh = r.randint(1, 6), r.randint(1, 6)
    if r.random() < .06:
        sw, sh = r.choice(((0, sh), (sw, 0), (0, 0)))
    gct = r.choice((None, 0, 1, 2))
    out = g.start(r, sw, sh, 0 if gct is None else 0x80 | gct)
    if gct is not None:
        out += g.table(r, gct)
    for bad in [0] * good + [1] + [0] * r.randint(0, 1):
        w, h = r.randint(1, max(1, sw)), r.randint(1, max(1, sh))
        x, y = r.randint(0, max(0, sw - w)), r.randint(0, max(0, sh - h))
        lct = r.choice((0, 1)) if gct is None or r.random() < .3 else None
        bits = gct if lct is None else lct
        colors = 2 << bits
        k = r.random() if bad else 1
        if k < .15:
            w = r.choice((0, 0, sw - x + 1))
        elif k < .3:
            h = r.choice((0, 0, sh - y + 1))
        elif k < .4:
            x = sw - w + r.choice((1, 2, 65535 - sw))
        elif k < .5:
            y = sh - h + r.choice((1, 2, 65535 - sh))
        elif k < .65:
            lct = None
        if r.random() < .5:
            out += g.gce(r.choice((0, 1, 2, 3)) << 2 | r.randrange(2),
                         g.u16(r), r.choice((r.randrange(colors), colors,
                                             255)))
        data = g.pixels(r, w * h, colors)
        if .65 <= k < .95 and data:
            i = r.choice((0, len(data) - 1, r.randrange(len(data))))
            data[i] = r.choice((colors, colors, colors + 1, 255))
            # also as transparent index
            if r.random() < .3:
                out += g.gce(1, 0, data[i]) if out[-8:-6] != [0x21, 0xF9] \
                    else []
        out += g.image(r, x, y, w, h, colors, lct, r.random() < .3, data=data)
    return out + [0x3B]


@check("C11")
def c11(c):
    """Invalid frames"""
    c.assumptions = ["model: rectangles with sides and offsets up to 3"]
    c.build()
    b = c.behaviours("InvalidModel", what="every small rectangle, table and "
                     "index: which errors apply")
    decode_replay(c, b, "steps", lambda x: x["runs"], "one invalid frame")
    r = c.rng
    scns = [dec(invalid_file(r), "steps") for _ in range(c.n(1500))]
    scns += [dec(invalid_file(r), "iter", limit=30) for _ in range(c.n(100))]
    scns += [dec(invalid_file(r, n), iface, limit=2 * n + 30)
             for n in list(range(4, 40)) * c.n(4) + [100, 256, 300]
             for iface in ("steps", "iter")]
    # offsets and sizes which overflow 16 bits
    for x, y, w, h in ((65535, 0, 1, 1), (0, 65535, 1, 1), (65535, 65535, 1, 1),
                       (65535, 0, 2, 1), (65534, 1, 3, 1), (0, 65533, 1, 5),
                       (1, 1, 65535, 1), (1, 1, 1, 65535), (0, 0, 4, 3)):
        b = g.start(r, 3, 3, 0x80) + g.blob(r, 6)
        b += g.image(r, x, y, w, h, 2)
        scns.append(dec(b + [0x3B], "steps"))
    decode_traces(c, scns, "files with invalid frames")


@check("C12")
def c12(c):
    """Loop count"""
    c.assumptions = ["some loop counts by counting to the end; the others by "
                     "up to 800 steps"]
    c.build()
    b = c.behaviours("LoopModel", what="repetition over all small numbers of "
                     "steps, loop counts and errors")
    def show(o):
        """Steps of the model are 1x1; keep the color of the pixel"""
        res = []
        for i in o.get("items", [o]):
            if i.get("k") == "step":
                i = dict(k="step", n=i["px"][0])
            res.append(i)
        return res
    scns = [dec(x["bytes"], "iter", limit=len(x["got"])) for x in b]
    exp = []
    for x in b:
        got = x["got"]
        if any(i["k"] == "none" for i in got):
            k = [i["k"] for i in got].index("none")
            exp.append([got[:k + 1]])
        else:
            exp.append([got + [dict(k="more")]])
    c.replay(scns, exp, "repetition", show)
    r = c.rng
    scns = []
    for n in [0, 1, 2, 3, 4, 254, 255, 256, 257, 511, 512, 513, 700, 32767,
              32768, 65534, 65535]:
        for steps in (0, 1, 2, 3):
            b = g.start(r, 1, 1, 0x80) + g.blob(r, 6)
            b += g.loop_ext(n, r.choice((g.NETSCAPE, g.ANIMEXTS)))
            for _ in range(steps):
                b += g.gce(0, g.u16(r), 0) + g.image(r, 0, 0, 1, 1, 2)
            scns.append(dec(b + [0x3B], "iter", limit=800))
    # very many steps
    recs = []
    for counts, loop in c.n((([5, 4096], 1), ([65534, 3], 1),
                             ([r.randint(1000, 5000), 1, 30000], 2)), (
            ([5, 4096], 1), ([65534, 3], 1), ([65536, 65536], 1),
            ([1, 200000], 0), ([3000, 2, 7, 30000], 9), ([70000, 1], None))):
        b = g.start(r, 1, 1, 0x80) + g.blob(r, 6)
        b += [] if loop is None else g.loop_ext(loop)
        units = [g.gce(0, i, 0) + g.image(r, 0, 0, 1, 1, 2)
                 for i in range(len(counts))]
        many = b + [x for u, k in zip(units, counts) for x in u * k] + [0x3B]
        for iface in ("steps", "iter"):
            s = dec(many, iface, runs=True,
                    limit=sum(counts) * (loop or 1) * 2 + 10)
            for _, o, _ in c.run([s], 60):
                recs.append(dict(
                    iface=iface, bytes=b + sum(units, []) + [0x3B],
                    counts=counts, runs=[list(x) for x in zip(
                        o["items"], o["runs"])] if o.get("runs") else
                    [[dict(k=o.get("k")), 1]]))
    c.validate("TraceRepeat", recs, "very long animations")
    # to the very end of long ones
    for n in c.n((r.choice((4095, 4097, 8193, 16385)), 33000, 65535), (
            1023, 2049, 4097, 8193, 16385, 32769, 33000, 65535)):
        b = g.start(r, 1, 1, 0x80) + g.blob(r, 6) + g.loop_ext(n)
        b += g.image(r, 0, 0, 1, 1, 2)
        scns.append(dec(b + [0x3B], "iter", limit=70000))
    for _ in range(c.n(300)):
        b = looping_file(r)
        scns.append(dec(b, "iter", limit=60))
    # every number of steps, more than once
    for steps in list(range(4, c.n(70, 250))) + c.n(
            [255, 256, 257, 600], [255, 256, 257, 600, 1500]):
        b = g.start(r, 1, 1, 0x80) + g.blob(r, 6)
        b += g.loop_ext(r.choice((0, 1, 2)))
        for i in range(steps):
            b += g.gce(0, i, 0) + g.image(r, 0, 0, 1, 1, 2)
        scns.append(dec(b + [0x3B], "iter", limit=4 * steps))
    decode_traces(c, scns, "repeating iteration")


def looping_file(r):
    b = g.start(r, r.randint(1, 3), 1, 0x81) + g.blob(r, 12)
    for _ in range(r.randint(0, 2)):
        b += g.loop_ext(r.choice((0, 1, 2, 3, 256, 258, 768)),
                        r.choice((g.NETSCAPE, g.ANIMEXTS, g.NETSCAPE[:-1])))
    if r.random() < .2:
        b += g.ext(0xFF, [g.NETSCAPE, [r.choice((0, 1, 2)), 1, 0][:r.randint(
            1, 3)]])
    for _ in range(r.randint(0, 4)):
        if r.random() < .5:
            b += g.gce(r.randrange(16), g.u16(r), 1)
        b += g.image(r, 0, 0, 1, 1, 4)
        if r.random() < .1:
            b += g.loop_ext(2)
    b += [0x3B]
    k = r.random()
    if k < .2:
        b = b[:r.randrange(14, len(b))]
    elif k < .35:
        b = g.mutate(r, b, 1)
        if not g.small_screen(b, 100):
            b[6:10] = [1, 0, 1, 0]
    return b


# ----------------------------------------------------------------- encoders

def opt_table(r):
    """Optional color table; of any length, even none"""
    t = r.choice((None, None, 0, 1, r.randrange(8), -1))
    if t is None:
        return []
    return [g.table(r, t)] if t >= 0 else [g.blob(r, 3 * r.choice((0, 1, 3)))]


def frame_call(r):
    """A call of the frame encoder.  Fields are often zero, optional blocks
    often empty: present is not the same as different from the default"""
    k = r.random()
    n16 = lambda: 0 if r.random() < .2 else g.u16(r)
    n8 = lambda: 0 if r.random() < .2 else g.byte(r)
    if k < .3:
        loop = r.choice(([], [], [[g.NETSCAPE, [1] + g.le(n16())]],
                         [[g.ANIMEXTS, [1] + g.le(n16())]], [[]],
                         [g.sub_chunks(r)]))
        com = [dict(k="com", s=g.sub_chunks(r, r.choice((0, 1, 2, 4))))
               for _ in range(r.choice((0, 0, 1, 2, 3, r.randint(4, 20))))]
        if com and r.random() < .2:     # the same comment twice
            com.append(com[0])
        return dict(k="pre", v=r.choice(([56, 57, 97], [56, 55, 97])),
                    lsd=dict(k="lsd", w=n16(), h=n16(), flags=n8(), bg=n8(),
                             ar=n8()), gct=opt_table(r),
                    loop=[dict(k="app", s=s) for s in loop], com=com)
    if k < .8:
        d = g.pixels(r, r.choice((0, 1, 7, 300)), r.choice((2, 4, 256)))
        w, h = divisors(len(d))
        gce = [] if r.random() < .35 else \
            [dict(k="gce", flags=n8(), delay=n16(), tr=n8())]
        if gce and r.random() < .2:
            gce = [dict(k="gce", flags=0, delay=0, tr=0)]
        return dict(k="frame", gce=gce,
                    img=dict(k="img", left=n16(), top=n16(), w=w, h=h,
                             flags=n8()),
                    lct=opt_table(r), d=d)
    return dict(k="trl")


@check("C13")
def c13(c):
    """Frame encoder protocol"""
    c.assumptions = ["model: all sequences of 4 calls out of 5"]
    c.build()
    b = c.behaviours("EncoderModel", what="all sequences of calls: order, "
                     "output, reading back")
    c.model("EncoderModel", "EncoderModelFault", "with a failing writer")
    scns = [dict(op="encframe", calls=x["calls"]) for x in b]
    runs = c.run(scns)
    c.replay(scns, [[x["res"]] for x in b], "sequences of calls",
             lambda o: o.get("res", o))
    r = c.rng
    for _ in range(c.n(500)):
        calls = [frame_call(r) for _ in range(r.randint(1, 8))]
        if r.random() < .7:
            while calls and calls[0]["k"] != "pre":
                calls[0] = frame_call(r)
        scns.append(dict(op="encframe", calls=calls))
    # many frames
    pre = dict(k="pre", v=[56, 57, 97], lsd=SCREEN, gct=[], loop=[], com=[])
    for n in c.n((255, 256, 257, 65537), (255, 256, 257, 3000, 70000)):
        calls = [dict(k="frame", gce=[], img=dict(k="img", left=i % 65536, top=0,
                                                  w=1, h=1, flags=0),
                      lct=[], d=[i % 2]) for i in range(n)]
        scns.append(dict(op="encframe", calls=[pre] + calls + [TRAILER, pre]))
    runs = c.run(scns)
    recs = []
    for s, o, _ in runs:
        o = encoded(o)
        recs.append(dict(calls=s["calls"], res=o["res"], lens=o["lens"],
                         out=o["out"]))
    c.validate("TraceFrameEnc", recs, "frame encoder calls and output")


def step_calls(r, many=None):
    w, h = r.randint(1, 6), r.randint(1, 6)
    calls = []
    pals = []
    for _ in range(r.randint(1, 3)):
        n = r.choice((1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 128,
                      129, 255, 256, r.randint(1, 256)))
        pals.append(g.blob(r, 3 * n))
    # palettes which differ in one component, or only in length
    if r.random() < .3:
        p = list(pals[0])
        p[r.randrange(len(p))] ^= r.choice((1, 128))
        pals.append(p)
    if r.random() < .2 and len(pals[0]) > 3:
        pals.append(pals[0][:-3])
    for _ in range(many or r.randint(1, 5)):
        p = r.choice(pals)
        n = len(p) // 3
        ops = []
        for _ in range(r.randint(0, 4)):
            k = r.choice(("disp", "tr", "delay", "copy"))
            if k == "copy":
                ops.append([k, []])
            elif k == "disp":
                ops.append([k, r.choice((0, 1, 2, 3, 3, 4, 5, 6, 7,
                                         r.randrange(256)))])
            elif k == "tr":
                ops.append([k, [] if r.random() < .2 else
                            [r.choice((r.randrange(n), 0, n - 1, 255))]])
            else:
                ops.append([k, [] if r.random() < .2 else [g.u16(r)]])
        s = dict(w=w, h=h, px=g.pixels(r, w * h, n), pal=p, ops=ops)
        if r.random() < .06:
            s["w"], s["h"] = r.choice(((w + 1, h), (w, h + 1), (h, w + 7)))
            s["px"] = g.pixels(r, s["w"] * s["h"], n)
        calls.append(s)
    return calls, pals


def step_scn(calls, loop=(), gct=()):
    return dict(op="encstep", calls=calls, loop=list(loop), gct=list(gct),
                back="steps")


def step_traces(c, scns, what):
    runs = c.run(scns)
    recs = []
    for s, o, _ in runs:
        o = encoded(o)
        recs.append(dict(calls=s["calls"], loop=s["loop"], gct=s["gct"],
                         res=o["res"], lens=o["lens"], out=o["out"],
                         back=o["back"]))
    c.validate("TraceStepEnc", recs, what)


@check("C14")
def c14(c):
    """Steps survive encoding and decoding"""
    c.assumptions = ["pixel indices lie in the palette",
                     "model: up to 2 steps of 2x1 (3 in the thorough tier)"]
    c.build()
    b = c.behaviours("StepEncModel", what="all short sequences of steps: the "
                     "file means the same animation")
    if c.thorough:
        c.model("StepEncModel", "StepEncModelDeep", "3 steps, more settings")
    c.replay([step_scn(x["calls"], x["loop"], x["gct"]) for x in b],
             [[[x["res"], x["back"]]] for x in b], "short sequences of steps",
             lambda o: [o.get("res"), o.get("back")])
    r = c.rng
    scns = []
    for _ in range(c.n(600)):
        calls, pals = step_calls(r)
        gct = []
        if r.random() < .5:
            gct = [r.choice(pals + [g.blob(r, 3 * r.randint(1, 256))])]
        s = step_scn(calls, [] if r.random() < .4 else [g.u16(r)], gct)
        # settings can be set again
        if s["loop"] and r.random() < .3:
            s["before"] = [["loop", g.u16(r)]]
        if gct and r.random() < .3:
            s.setdefault("before", []).append(
                ["gct", g.blob(r, 3 * r.randint(1, 256))])
        scns.append(s)
    scns.append(step_scn(step_calls(r, 300)[0], [3]))
    # every palette size
    for n in range(1, 257):
        p = g.blob(r, 3 * n)
        scns.append(step_scn([dict(w=n, h=1, px=list(range(n)), pal=p,
                                   ops=[])]))
    # large steps
    for w, h in ((200, 150), (65535, 1), (1, 65535), (257, 3), (1000, 2),
                 (2, 1000), (5000, 1), (1, 40000)):
        p = g.blob(r, 768)
        for loop, gct in (([], []), ([g.u16(r)], []), ([0], [p]),
                          ([], [g.blob(r, 60)])):
            scns.append(step_scn([dict(w=w, h=h, px=g.pixels(
                r, w * h, 256), pal=p, ops=[["delay", [40000]]])], loop, gct))
    # too large: refused, first or later
    ok = dict(w=1, h=1, px=[0], pal=[1, 2, 3], ops=[])
    for w, h in ((65536, 1), (1, 65536), (70000, 2)):
        bad = dict(w=w, h=h, px=[], pal=[1, 2, 3], ops=[])
        scns += [step_scn([bad]), step_scn([bad, ok]), step_scn([ok, bad, ok])]
    step_traces(c, scns, "steps written and read back")


SCHEDS = [[1], [2], [3], [1, 0], [0, 1], [0, 0, 5], [7, 1, 0], [1, 2, 3, 4, 5],
          [255], [256, 1], [4096, 0], [13], [6], [0, 1, 0, 0, 64], [100000]]


ERRNO = (1, 2, 5, 9, 11, 12, 13, 16, 21, 22, 27, 28, 30, 32, 103, 104, 110, 122)


def failure(r):
    """An error of a reader or writer: its kind and a number"""
    return r.choice(([], [r.randrange(24), r.randrange(200)], [
        r.randrange(24), r.randrange(200)], [24, r.choice(ERRNO)]))


@check("C15")
def c15(c):
    """Reader schedules and failures"""
    c.assumptions = ["reads are retried after Interrupted"]
    c.build()
    b = c.behaviours("IoModel", what="all short transfer schedules with "
                     "interruptions, failures and early end")
    b = pick(c, b, c.n(6000, 60000))
    scns = [dec(x["bytes"], sched=x["sched"] + [100], fail_at=x["fail"])
            if x["fail"] >= 0 else dec(x["bytes"], sched=x["sched"] + [100])
            for x in b]
    c.replay(scns, [[[x["items"], x["pos"]]] for x in b], "reader schedules",
             lambda o: [o.get("items"), (o.get("ends") or [-1])[-1]])
    r = c.rng
    scns = []
    for _ in range(c.n(700)):
        f = g.small_file(r, max_side=5) if r.random() < .7 \
            else g.any_blocks_file(r)
        if r.random() < .5:      # bytes behind the trailer
            f = f + g.blob(r, r.randint(1, 30))
        iface = r.choice(("blocks", "frames", "steps", "preframes", "iter"))
        if not g.small_screen(f):
            iface = r.choice(("blocks", "frames", "preframes"))
        s = dec(f, iface, sched=r.choice(SCHEDS), max=1 << 16)
        if iface == "iter":
            s["limit"] = 30
        if r.random() < .5:
            s["fail_at"] = r.randrange(len(f) + 1)
            s["what"] = failure(r)
            if r.random() < .3:
                s["times"] = 1
        scns.append(s)
    # failure at every byte of a file
    for f in (g.small_file(random.Random(5), 2, 3),
              g.small_file(random.Random(6), 3, 3)):
        f = f[:900]
        for i in range(0, len(f) + 1):
            scns.append(dec(f, r.choice(("blocks", "frames", "steps")),
                            fail_at=i, sched=r.choice(SCHEDS),
                            what=failure(r)))
    # the end, or a failure, around a larger image
    one = g.start(r, 40, 30, 0x87) + g.table(r, 7) + g.image(
        r, 0, 0, 40, 30, 256, how="noise")
    for f in (one, one + [0x3B], one + g.ext(0xFE, [[1] * 255, [2] * 254]),
              one + g.gce(4, 5, 6), one + g.img(1, 2, 3, 4, 0x87)):
        for iface in ("blocks", "frames", "steps", "preframes", "iter"):
            scns.append(dec(f, iface, sched=r.choice(SCHEDS), limit=9))
            scns.append(dec(f, iface, sched=r.choice(SCHEDS), limit=9,
                            fail_at=len(f), what=failure(r)))
    # interrupted very often
    for f in (g.small_file(r, 2, 3), one + [0x3B]):
        for k in (200, 3000):
            scns.append(dec(f, "frames", sched=[0] * k + [50]))
    # large image through all schedules
    big = g.start(r, 100, 90, 0x87) + g.table(r, 7)
    big += g.image(r, 0, 0, 100, 90, 256, how="noise") + [0x3B] + [1, 2, 3]
    for sc in SCHEDS:
        scns.append(dec(big, "blocks", sched=sc))
        scns.append(dec(big, "steps", sched=sc))
    decode_traces(c, scns, "decoding from slow and failing readers")


@check("C16")
def c16(c):
    """Writer schedules and failures"""
    c.assumptions = ["what follows a failed call if the writer works again is "
                     "not checked",
                     "flushing is not required of the writer"]
    c.build()
    c.model("IoModel", what="transfers: outcome does not depend on schedule")
    c.model("EncoderModel", "EncoderModelFault", "frame encoder on a failing "
            "writer: output is a prefix")
    r = c.rng
    base = []
    for _ in range(c.n(150, 600)):
        base.append(dict(op="encblock", calls=whole_file(r)))
        base.append(dict(op="encblock", calls=[any_block(r) for _ in range(
            r.randint(1, 6))]))
        base.append(dict(op="encframe", calls=[frame_call(r)
                                               for _ in range(6)]))
        base.append(step_scn(step_calls(r)[0], r.choice(([], [7]))))
        base[-1].pop("back")
    base.append(dict(op="encblock", calls=[HEADER, SCREEN] + image_calls(
        g.pixels(r, 5000, 256, "noise")) + [TRAILER]))
    refs = c.run(base)
    scns, ref = [], []
    for s, o, _ in refs:
        o = encoded(o)
        n = len(o["out"])
        for k in range(c.n(14, 30)):
            x = dict(s, sched=r.choice(SCHEDS))
            if k >= 4:
                x["fail_at"] = r.randrange(n + 1)
                x["what"] = failure(r)
                if k == 5:      # transfers nothing instead
                    x.update(zero=True, what=[255])
                if k in (6, 7, 10, 11):     # works again afterwards
                    x["times"] = 1
                if k in (7, 11):
                    x.update(zero=True, what=[255])
                if k == 4:
                    x["fail_at"] = max(0, n - 1)
                if k > 8 and o["lens"]:     # at the end of a call
                    x["fail_at"] = r.choice(o["lens"])
            scns.append(x)
            ref.append(o)
    # every byte of a small file, all three encoders
    small = [dict(op="encblock", calls=[HEADER, dict(SCREEN, flags=0x80),
                                        dict(k="gct", c=[1] * 6),
                                        dict(k="com", s=[[1], [2, 3]])]
                  + image_calls([1, 0, 1, 1, 255]) + [TRAILER]),
             dict(op="encframe", calls=[
                 dict(k="pre", v=[56, 57, 97], lsd=dict(SCREEN, flags=0x80),
                      gct=[[2] * 6], loop=[], com=[]),
                 dict(k="frame", gce=[dict(k="gce", flags=1, delay=2, tr=3)],
                      img=dict(k="img", left=0, top=0, w=2, h=1, flags=0x80),
                      lct=[[3] * 6], d=[1, 0]), TRAILER]),
             dict(op="encstep", loop=[5], gct=[], calls=[
                 dict(w=2, h=1, px=[0, 1], pal=[1, 2, 3, 4, 5, 6], ops=[]),
                 dict(w=2, h=1, px=[1, 1], pal=[1, 2, 3], ops=[["tr", [0]]])])]
    for s, o, _ in c.run(small):
        o = encoded(o)
        for i in range(len(o["out"]) + 1):
            for sc in ([1], [100000], [3, 0]):
                scns.append(dict(s, fail_at=i, sched=sc, what=failure(r)))
                ref.append(o)
            scns.append(dict(s, fail_at=i, what=failure(r), times=1))
            ref.append(o)
            scns.append(dict(s, fail_at=i, what=[255], zero=True, times=1))
            ref.append(o)
        # interrupted very often
        scns.append(dict(s, sched=[0] * 3000 + [3]))
        ref.append(o)
    by = {id(s): o for s, o in zip(scns, ref)}
    recs = []
    for s, o, _ in c.run(scns):
        o, q = encoded(o), by[id(s)]
        recs.append(dict(fail=s.get("fail_at", -1), what=s.get("what", []),
                         once="times" in s, res=o["res"],
                         lens=o["lens"], out=o["out"], rres=q["res"],
                         rlens=q["lens"], rout=q["out"]))
    c.validate("TraceWriter", recs, "encoding to slow and failing writers",
               origin=scns if len(recs) == len(scns) else None)


@check("C17")
def c17(c):
    """Size limit and memory"""
    c.assumptions = ["memory: peak heap of the decoder within 24 bytes for "
                     "each pixel of the limit, 64 for each input byte and "
                     "4 MB; counted by the allocator of the driver"]
    c.build(release=True)
    r = c.rng
    scns = []

    def mem(max_, b):
        return (24 * max_ + 64 * len(b)) // 1024 + 4096

    def img_file(w, h, sw=1, sh=1, data=None, flags=0):
        b = g.H89 + g.lsd(sw, sh, 0x80) + [0] * 6
        if flags & 1:
            b += g.gce(g.byte(r), 1, 0)
        b += g.img(0, 0, w, h, flags) + [0] * (6 if flags & 0x80 else 0)
        return b + (data if data is not None else [2]) 

    # blocks: at the limit and beyond it, for many limits
    for _ in range(c.n(400)):
        w, h = r.choice(((g.u16(r), g.u16(r)), (r.randint(0, 300),
                                                r.randint(0, 300))))
        if w * h >= 1 << 31:
            w //= 2
        if w * h > 1 << 22 and r.random() < .8:
            w = max(1, (1 << 22) // max(h, 1))
        max_ = max(0, w * h + r.choice((-1, 0, 1, -w, w, -h, 7, -1000000)))
        b = img_file(w, h, flags=r.choice((0, 0, 1, 0x40, 0x80, 0xC0, 0xF8,
                                           0x60)))
        scns.append(dec(b, r.choice(("blocks", "frames")), max=max_,
                        memkb=mem(max_, b)))
    # the default limit
    for w, h in ((8192, 4096), (12153, 2761), (2761, 12153), (8193, 4096),
                 (8192, 4097), (65535, 512), (65535, 513),
                 (512, 65535), (513, 65535), (5793, 5792), (5793, 5793),
                 (5792, 5793), (65535, 65535), (46341, 46341),
                 (65535, 32768), (32768, 65535), (40000, 838), (40000, 839)):
        b = img_file(w, h)
        for iface in ("blocks", "frames"):
            scns.append(dec(b, iface, memkb=mem(vf.DEFAULT_MAX, b)))
        # screens: an image follows which fits
        b = img_file(1, 1, w, h, g.image_data([1]) + [0x3B])
        if w * h > vf.DEFAULT_MAX:
            scns.append(dec(b, "steps", memkb=mem(vf.DEFAULT_MAX, b)))
    # screens around the limit
    for _ in range(c.n(150)):
        w, h = r.randint(1, 60), r.randint(1, 60)
        max_ = max(0, w * h + r.choice((-1, 0, 1, -w, w, 50)))
        if r.random() < .1:
            max_ = 0
        iw, ih = r.choice(((w, h), (1, 1), (r.randint(1, w), r.randint(1, h)),
                           r.choice(((0, 0), (0, h), (w, 0)))))
        b = img_file(iw, ih, w, h, g.image_data([1] * (iw * ih)) + [0x3B],
                     r.choice((0, 0, 0x40, 0x80)))
        scns.append(dec(b, r.choice(("steps", "iter")), max=max_,
                        memkb=mem(max_, b)))
    for w, h in ((65535, 65535), (65535, 32769), (60000, 60000), (1, 65535)):
        for max_ in (0, 1, 100, 65534, 65535):
            b = img_file(1, 1, w, h, g.image_data([1]) + [0x3B])
            if w * h > max_:
                scns.append(dec(b, "steps", max=max_, memkb=mem(max_, b)))
            b = img_file(w, h, 1, 1, g.image_data([1]) + [0x3B])
            if w * h > max_:
                scns.append(dec(b, "steps", max=max_, memkb=mem(max_, b)))
    # wide and high screens within the limit
    for w, h in ((65535, 1), (1, 65535), (40000, 3), (3, 40000), (50001, 2),
                 (300, 300)):
        for max_ in (w * h - 1, w * h, w * h + 1, -1):
            b = img_file(1, 1, w, h, g.image_data([1]) + [0x3B])
            scns.append(dec(b, "steps", max=max_,
                            memkb=mem(max(max_, w * h), b)))
    # unlimited: sizes far above the default limit are accepted
    for w, h in ((300, 300), (65535, 2), (0, 0), (6000, 5600), (65535, 1100),
                 (30000, 20000), (40000, 50000)):
        scns.append(dec(img_file(w, h), "blocks", max=-1))
    # code streams which expand to far more than the image
    for _ in range(c.n(6, 20)):
        s = g.Stream(2)
        s.put(s.clear)
        n = r.choice((300, 1500, 4000))
        for _ in range(n):
            s.put(s.valid(r, "run"))
        b = stream_image(2, s.bytes(), r.choice((1, 10, 1000)))
        scns.append(dec(b, r.choice(("blocks", "frames")), max=1000,
                        memkb=mem(1000, b)))
    # many images and many sub-blocks
    b = g.H89 + g.lsd(10, 10, 0x80) + [1] * 6
    for _ in range(200):
        b += g.image(r, 0, 0, 10, 10, 2, None, flags=0)
    for iface in ("blocks", "frames", "steps"):
        scns.append(dec(b + [0x3B], iface, max=100, memkb=mem(100, b)))
    decode_traces(c, scns, "size limit and peak memory")
    # frames do not add up
    scns = []
    for disp in range(4):
        b = g.H89 + g.lsd(500, 500, 0x80) + [0] * 6
        for _ in range(60):
            b += g.gce(disp << 2, 1, 0) + g.image(r, 7, 7, 1, 1, 2,
                                                  r.choice((None, 0)))
        for iface in ("blocks", "frames", "steps"):
            scns.append(dec(b + [0x3B], iface, brief=True, max=250000,
                            memkb=mem(250000, b)))
        b = g.H89 + g.lsd(500, 500, 0x80) + [0] * 6
        b += (g.gce(disp << 2, 1, 0) + g.img(0, 0, 500, 500)
              + g.image_data([1] * 250000)) * 120
        for iface in ("blocks", "frames") if disp else ("blocks", "steps"):
            scns.append(dec(b + [0x3B], iface, brief=True, max=250000,
                            memkb=mem(250000, b)))
    total_traces(c, scns, "peak memory of many frames")


@check("C18")
def c18(c):
    """Packed fields"""
    c.assumptions = ["model: every flags value and every setter"]
    c.build()
    b = c.behaviours("FieldsModel", what="every flags value, every setter: "
                     "only the named field changes")
    c.replay([dict(op="fields", type=x["type"], calls=x["calls"],
                   loop=x["loop"]) for x in b],
             [[x["obs"]] for x in b], "setters and getters",
             lambda o: o.get("obs", o))
    r = c.rng
    scns = []

    def call(ty):
        if ty == "lsd":
            k = r.choice(("w", "h", "flags", "bg", "ar", "cfg", "copycfg"))
        elif ty == "img":
            k = r.choice(("left", "top", "w", "h", "flags", "il", "cfg",
                          "copycfg"))
        else:
            k = r.choice(("flags", "disp", "dispnum", "ui", "delay", "idx",
                          "tr"))
        if k in ("w", "h", "left", "top", "delay"):
            return [k, g.u16(r)]
        if k == "cfg":
            return [k, [r.randrange(2), r.randrange(2),
                        r.choice((r.randint(0, 256), 2 ** r.randint(0, 8)))]]
        if k == "copycfg" or k in ("flags", "bg", "ar", "idx", "dispnum"):
            return [k, g.byte(r)]
        if k in ("il", "ui"):
            return [k, r.randrange(2)]
        if k == "disp":
            return [k, r.randrange(8)]
        return [k, [] if r.random() < .3 else [g.byte(r)]]
    for _ in range(c.n(1500)):
        ty = r.choice(("lsd", "img", "gce"))
        scns.append(dict(op="fields", type=ty, loop=[],
                         calls=[call(ty) for _ in range(r.randint(1, 8))]))
    # configurations of every length
    for n in list(range(0, 300)) + [511, 512, 1000, 65535]:
        for ex in (0, 1):
            scns.append(dict(op="fields", type="cfg", loop=[],
                             calls=[[ex, r.randrange(2), n]]))
    # color tables of any number of colors
    for n in range(0, 257):
        scns.append(dict(op="fields", type="tables", loop=[],
                         calls=[g.blob(r, 3 * n)]))
    field_traces(c, scns, "fields")


def field_traces(c, scns, what):
    recs = [dict(type=s["type"], loop=s["loop"], calls=s["calls"],
                 obs=o.get("obs", [o])) for s, o, _ in c.run(scns)]
    c.validate("TraceFields", recs, what)


@check("C19")
def c19(c):
    """Loop counts"""
    c.build()
    r = c.rng
    scns = []
    for n in range(65536):
        scns.append(dict(op="fields", type="app", loop=[n], calls=[]))
    ids = [g.NETSCAPE, g.ANIMEXTS, list(b"netscape2.0"), list(b"NETSCAPE2.1"),
           list(b"NETSCAPE"), list(b"NETSCAPE2.0 "), list(b"ANIMEXTS2.0"),
           list(b"NETSCAPE1.0"), list(b"ANIMEXTS1."), list(b"XMP DataXMP"),
           [0] * 11, [1]]
    datas = [[1, 0, 0], [1, 5, 0], [1, 0, 5], [1, 255, 255], [0, 5, 0],
             [2, 5, 0], [255, 1, 1], [1, 5], [1], [1, 5, 0, 0], [1, 2, 3, 4, 5],
             [3, 1, 5]]
    for i in ids:
        scns.append(dict(op="fields", type="app", loop=[], calls=[i]))
        for d in datas:
            scns.append(dict(op="fields", type="app", loop=[], calls=[i, d]))
            scns.append(dict(op="fields", type="app", loop=[],
                             calls=[i, d, [1, 9, 9]]))
            scns.append(dict(op="fields", type="app", loop=[],
                             calls=[d, i, d]))
    # one byte of the identifier changed
    for ident in (g.NETSCAPE, g.ANIMEXTS):
        for k in range(11):
            x = ident[:]
            x[k] ^= r.choice((1, 32, 128))
            scns.append(dict(op="fields", type="app", loop=[],
                             calls=[x, [1, 5, 0]]))
    for _ in range(c.n(300)):
        scns.append(dict(op="fields", type="app", loop=r.choice(
            ([], [g.u16(r)])), calls=[r.choice(ids + datas)
                                      for _ in range(r.randint(0, 3))]))
    field_traces(c, scns, "loop counts")
    # in files: written, and recognized in front of the first frame
    for_steps = [step_scn([dict(w=1, h=1, px=[0], pal=[1, 2, 3], ops=[])], [n])
                 for n in g.U16 + [r.randrange(65536)
                                   for _ in range(c.n(30))]]
    step_traces(c, for_steps, "loop count of written files")
    scns = []
    for i in ids:
        for d in datas:
            b = g.H89 + g.lsd(1, 1, 0x80) + [9] * 6
            if r.random() < .3:
                b += g.loop_ext(g.u16(r))
            b += g.ext(0xFF, [i, d]) + g.image(r, 0, 0, 1, 1, 2) + [0x3B]
            scns.append(dec(b, "preframes"))
            scns.append(dec(b, "iter", limit=9))
    decode_traces(c, scns, "loop counts of files")


@check("C20")
def c20(c):
    """Truncation"""
    c.assumptions = ["each file is cut at every byte"]
    c.build()
    b = c.behaviours("StreamModel", "StreamModelCuts", "all short files cut "
                     "at every byte")
    b = pick(c, b, c.n(8000, 50000))
    decode_replay(c, b, "blocks", lambda x: x["runs"], "short files, cut")
    r = c.rng
    scns = []
    for k in range(c.n(40, 200)):
        f = g.small_file(r, r.randint(0, 3), 4, True, k % 2 == 0)
        if len(f) > 900:
            f = g.small_file(r, 2, 3, True, False)
        cuts = range(len(f)) if len(f) < 500 or c.thorough else \
            sorted(r.sample(range(len(f)), 500))
        for i in cuts:
            scns.append(dec(f[:i], r.choice(("blocks", "frames", "steps",
                                             "preframes"))))
    # within data of several sub-blocks, and after a full table
    big = g.start(r, 80, 70, 0x87) + g.table(r, 7)
    big += g.image(r, 0, 0, 80, 70, 256, how="noise") + [0x3B]
    big = big[:-1] + g.gce(0, 1, 2) + big[781:]
    for i in r.sample(range(len(big)), c.n(60, 400)) + [
            781, 782, len(big) // 2 - 4, len(big) // 2 - 3, len(big) - 2,
            len(big) - 1]:
        scns.append(dec(big[:i], r.choice(("blocks", "frames", "steps"))))
    decode_traces(c, scns, "cut files")


# ---------------------------------------------------------------- the command

ANSI = re.compile(rb"\x1b\[[0-9;]*m")
ROW = re.compile(r"^(i?)\s*(\d+)\s+(\d+\.\d\d)\s+(\S+)\s+(\d+)x(\d+)\s+"
                 r"(\d+),(\d+)\s+(\d+)(g?)\s+(\S+)\s*$")
HEAD = re.compile(r"^GIF(\w+), frames: (\d+)(?:, repeat: (∞|\d+))?(.*)$")


def parse_reports(out):
    """Reports of the command; lines which are not understood are kept, and
    match nothing"""
    lines = ANSI.sub(b"", out).decode("utf-8", "replace").split("\n")
    reports, i = [], 0
    if lines and lines[-1] == "":
        lines.pop()
    while i < len(lines):
        rep = dict(name=lines[i].strip().strip('"'), v=[], n=-1, loop=[],
                   com=[], head=[], rows=[])
        reports.append(rep)
        i += 1
        m = HEAD.match(lines[i]) if i < len(lines) else None
        if not m:
            rep["rows"].append(["?"])
            return reports
        rep["v"] = list(m.group(1).encode())
        rep["n"] = int(m.group(2))
        if m.group(3):
            rep["loop"] = [0 if m.group(3) == "∞" else int(m.group(3)) or -1]
        rest = m.group(4)
        i += 1
        coms = [rest] if rest.strip() else []
        while i < len(lines) and lines[i].lstrip().startswith("#"):
            coms.append(lines[i])
            i += 1
        rep["com"] = [list(x.lstrip()[1:].strip(" \t\r\x0b\x0c").encode())
                      for x in coms]
        if i < len(lines):
            rep["head"] = lines[i].split()
            i += 1
        for _ in range(rep["n"]):
            m = ROW.match(lines[i]) if i < len(lines) else None
            i += 1
            if not m:
                rep["rows"].append(["?"])
                continue
            x = m.groups()
            rep["rows"].append([1 if x[0] else 0, int(x[1]),
                                round(float(x[2]) * 100), x[3], int(x[4]),
                                int(x[5]), int(x[6]), int(x[7]), int(x[8]),
                                1 if x[9] else 0,
                                -1 if x[10] == "-" else int(x[10])])
        # more rows than frames
        while i < len(lines) and ROW.match(lines[i]):
            rep["rows"].append(["?"])
            i += 1
    return reports


def text(r):
    words = ["a", "gif", "made by x", "", " ", "two  words", "#1", "\n", "\t",
             "line\nbreak", "\n\n", "x\r\n", "long " * 9, "caf\u00e9",
             "\u221e \u6f22", "\U0001f600", "frames: 3, repeat: 2", "GIF89a"]
    s = "".join(r.choice(words) for _ in range(r.randint(0, 4)))
    while len(s.encode()) > 255:
        s = s[:-1]
    return list(s.encode())


def cli_file(r, n=None, com=()):
    """Frames and extensions; com: numbers of lines of comments in front"""
    sw, sh = g.u16(r), g.u16(r)
    gct = r.choice((None, 0, 1, 5, 7))
    b = r.choice((g.H87, g.H89)) + g.lsd(sw, sh, r.randrange(8) if gct is None
                                         else 0x80 | gct, g.byte(r))
    if gct is not None:
        b += g.table(r, gct)
    def extras():
        out = []
        while r.random() < .4:
            k = r.random()
            if k < .6:
                out += g.ext(0xFE, [x for x in (text(r) for _ in range(
                    r.choice((0, 1, 2, 12)))) if x])
            elif k < .8:
                out += g.loop_ext(r.choice((g.u16(r), r.randint(0, 12))),
                                  r.choice((g.NETSCAPE, g.ANIMEXTS)))
            else:
                out += g.ext(r.choice((1, 0xFF, 0x33)), g.sub_chunks(r, 2))
        return out
    for k in com:
        b += g.ext(0xFE, [[r.randint(33, 126) for _ in range(
            r.choice((1, 20, 200, 254, 255)))] for _ in range(k)])
    b += extras()
    n = n or r.choice((1, 1, 2, 3, 12))
    for _ in range(n):
        if r.random() < .7:
            b += g.gce(r.randrange(256), g.u16(r), g.byte(r))
        lct = r.choice((None, None, 0, 2, 7))
        w, h = r.randint(0, 5), r.randint(0, 5)
        if n > 20:
            b += g.image(r, g.u16(r), g.u16(r), w & 1, h & 1, 2, None,
                         r.random() < .4)
            continue
        b += g.image(r, g.u16(r), g.u16(r), w, h, r.choice((2, 256)), lct,
                     r.random() < .4)
        b += extras()
    return b + [0x3B]


@check("C21")
def c21(c):
    """The gift command"""
    c.assumptions = ["lines of comments: UTF-8 text only",
                     "the report is read by columns, colors removed"]
    exe = vf.build_cli()
    r = c.rng
    d = os.path.join(vf.BUILD, f"cli-files-{os.getpid()}")
    os.makedirs(d)
    recs, origin = [], []
    try:
        for k in range(c.n(160, 1500)):
            names, files = [], []
            for j in range((1, 1, 0, 1, 1, 1)[k] if k < 6 else r.choice((
                    1, 1, 1, 2, 3, 8 if k % 9 == 0 else 4))):
                if names and r.random() < .15:
                    # the same file again
                    x = r.randrange(len(names))
                    names.append(names[x])
                    files.append(files[x])
                    continue
                name = os.path.join(d, r.choice((
                    f"f{k}_{j}.gif", f"f {k} {j}", f"\u00fc{k},{j}.x.gif")))
                x = r.random() if k > 5 else 1
                if x < .06:
                    b = None
                elif x < .14:
                    f = cli_file(r)
                    b = f[:r.randrange(len(f))]
                elif x < .2:
                    b = g.mutate(r, cli_file(r), 1)
                    # keep sizes moderate
                else:
                    b = cli_file(r, {0: 101, 1: 1002}.get(k), {
                        3: [1] * 70, 4: [120], 5: [5, 1, 9]}.get(k, ()))
                if b is not None:
                    with open(name, "wb") as f:
                        f.write(bytes(b))
                elif r.random() < .3:
                    os.makedirs(name)
                names.append(name)
                files.append([] if b is None else [b])
            env = dict(os.environ)
            env.pop("RUST_LOG", None)
            if r.random() < .2:
                env["RUST_LOG"] = r.choice(("trace", "debug", "gift=warn"))
            try:
                p = subprocess.run([exe] + names, stdout=subprocess.PIPE,
                                   env=env, stderr=subprocess.PIPE, timeout=60)
            except subprocess.TimeoutExpired as e:      # an observation
                recs.append(dict(names=names, files=files, status=-1,
                                 reports=[]))
                origin.append(dict(stdout="", stderr=str(e)))
                break
            recs.append(dict(names=names, files=files, status=p.returncode,
                             reports=parse_reports(p.stdout)))
            origin.append(dict(stdout=p.stdout.decode("utf-8", "replace"),
                               stderr=p.stderr.decode("utf-8", "replace")))
    finally:
        shutil.rmtree(d)
    c.validate("TraceCli", recs, "reports of the gift command", origin=origin)


@check("C22")
def c22(c):
    """Decode and encode again"""
    c.build()
    c.assumptions = ["files with at least one frame for the frame level"]
    r = c.rng
    c.model("StreamModel", what="layout and reading are inverse")
    scns = []
    for _ in range(c.n(700)):
        level = r.choice(("blocks", "frames"))
        if level == "blocks":
            f = r.choice((g.any_blocks_file, g.small_file, grouping_file))(r)
            if f[-1] != 0x3B:
                continue
        else:
            f = r.choice((lambda r: g.small_file(r, r.randint(1, 4)),
                          placed_file))(r)
        scns.append(dict(op="transcode", bytes=f, level=level))
    # other encoders' streams
    for m, b, n, z in pick(c, valid_streams(c), c.n(60)):
        if n <= 20000:
            scns.append(dict(op="transcode", bytes=stream_image(m, b, n, z),
                             level="blocks"))
    runs = [(s, encoded(o)) for s, o, _ in c.run(scns)]
    again = [dict(op="transcode", bytes=o["out"], level=s["level"])
             for s, o in runs]
    recs = []
    seconds = vf.run_harness(c.exe["debug"], again, "C22again")
    for (s, o), o2 in zip(runs, seconds):
        recs.append(dict(level=s["level"], bytes=s["bytes"], res=o["res"][0],
                         out=o["out"], again=encoded(o2)["out"]))
    c.validate("TraceTranscode", recs, "files decoded and encoded again")


@check("C23")
def c23(c):
    """Step settings"""
    c.assumptions = ["model: all sequences of 3 calls out of 13"]
    c.build()
    b = c.behaviours("SettingsModel", what="all sequences of settings: last "
                     "value wins, order does not matter")
    c.replay([dict(op="fields", type="step", calls=x["ops"], loop=[])
              for x in b], [[x["obs"]] for x in b], "settings of a step",
             lambda o: o.get("obs", o))
    # what is written: the graphic control of the frame
    scns = [dict(op="encstep", loop=[], gct=[], back="frames",
                 calls=[dict(w=1, h=1, px=[0], pal=[1, 2, 3], ops=x["ops"])])
            for x in b]
    c.replay(scns, [[x["gce"]] for x in b], "settings as written",
             lambda o: (o.get("back") or [{}])[0].get("gce", o))
    r = c.rng
    scns, recs = [], []
    for _ in range(c.n(600)):
        calls, _ = step_calls(r, 1)
        ops = calls[0]["ops"] + step_calls(r, 1)[0][0]["ops"]
        scns.append(dict(op="fields", type="step", loop=[], calls=ops))
        calls[0]["ops"] = ops
        recs.append(step_scn(calls))
    field_traces(c, scns, "settings of a step")
    step_traces(c, recs, "settings as written")


# ---------------------------------------------------------------- streaming

def pipe_events(o):
    """Items and arrivals, in order"""
    if o.get("k") != "decode":
        return [dict(k=o.get("k"))]
    ev, n = [], 0
    for item, seen in zip(o["items"], o["seen"]):
        while n < seen:
            ev.append(dict(k="arr", n=o["arrivals"][n]))
            n += 1
        ev.append(item)
    return ev


def pipe_positions(o):
    """How far the reader was after each of these events"""
    pos, n = [], 0
    for end, seen in zip(o.get("ends", []), o.get("seen", [])):
        pos += [0] * (seen - n) + [end]
        n = seen
    return pos


@check("C24")
def c24(c):
    """Nothing is read ahead"""
    c.assumptions = ["the repeating iterator is not included; it reads the "
                     "whole file first"]
    c.build()
    c.model("PipeModel", what="writer and reader of a pipe: blocks are "
            "returned once they are there (liveness)")
    c.fails("PipeModel", "PipeModelLate", "Prompt was violated",
            "reader which reads one byte ahead")
    b = c.behaviours("PipeModel", "PipeModelLazy", "orders of arrivals and "
                     "items")
    b = pick(c, b, c.n(4000, 40000))
    scns = []
    for x in b:
        arr = [0] + [e["n"] for e in x["ev"] if e["k"] == "arr"]
        scns.append(dec(x["bytes"],
                        arrive=[n - m for m, n in zip(arr, arr[1:])]))
    c.replay(scns, [[x["ev"]] for x in b], "arrivals and items", pipe_events)
    r = c.rng
    scns = []
    for _ in range(c.n(200)):
        iface = r.choice(("blocks", "frames", "preframes", "steps"))
        n = r.choice((1, 1, 2, 3))
        f = []
        for _ in range(n):
            f += r.choice((lambda r: g.small_file(r, r.randint(1, 3), 4),
                           lambda r: placed_file(r, 5),
                           lambda r: looping_file(r),
                           lambda r: g.small_file(r, 1, 3)))(r)
        if r.random() < .1:
            f = g.mutate(r, f, 1)
        if len(f) > 1200:
            f = f[:1200]
        # bytes, then words, or everything at once
        arrive = r.choice(([1], [1] * 30 + [20], [3, 1], [7], [50, 1],
                           [r.randint(1, 90) for _ in range(9)], [300],
                           [100000]))
        if len(f) > 300 and max(arrive) < 10:
            arrive = [9 * x for x in arrive]
        scns.append(dec(f, iface, arrive=arrive, files=n, max=1 << 16,
                        sched=r.choice(([], [], [1], [0, 5], [100000]))))
    # long image data: many sub-blocks
    for iface in ("blocks", "frames", "steps"):
        f = g.H89 + g.lsd(60, 40, 0x87) + g.table(r, 7)
        f += g.image(r, 0, 0, 60, 40, 256, how="noise") + [0x3B]
        for arrive in ([256], [255], [1000, 1], [100000]):
            scns.append(dec(f + f, iface, files=2, arrive=arrive))
    runs = c.run(scns)
    c.validate("TracePipe", [dict(iface=s["iface"], bytes=s["bytes"],
                                  max=s.get("max", vf.DEFAULT_MAX),
                                  ev=pipe_events(o), pos=pipe_positions(o))
                             for s, o, _ in runs],
               "decoding from a pipe", origin=[s for s, _, _ in runs])


# -------------------------------------------------------------- compression

@check("C25")
def c25(c):
    """Image data is compressed"""
    c.assumptions = ["data up to 1,200,000 indices"]
    c.build()
    c.model("LzwModel", what="longest strings only; seen in the bytes")
    c.model("LzwModel", "LzwModelFull", "any encoder, table gets full: use of "
            "longest strings is seen in the bytes")
    if c.thorough:
        c.model("LzwModel", "LzwModelAny", "any encoder")
    encode_traces(c, data_files(data_kinds(c), 9000),
                  "longest strings of the code table", 2, 0)


# ------------------------------------------------------------------- values

def value_traces(c, scns, what):
    recs = [dict(type=s["type"], kind=s.get("kind", ""), calls=s["calls"],
                 obs=o.get("obs", [])) for s, o, _ in c.run(scns)]
    c.validate("TraceValues", recs, what)


@check("C26")
def c26(c):
    """Blocks as values"""
    c.build()
    b = c.behaviours("ValuesModel", what="sub-blocks added in every order, "
                     "all pairs of some blocks")
    c.replay([dict(op="values", type="pair" if x["kind"] == "pair" else "sub",
                   kind=x["kind"], calls=x["calls"]) for x in b],
             [[x["obs"]] for x in b], "sub-blocks and pairs of blocks",
             lambda o: o.get("obs", o))
    r = c.rng
    scns = []
    for kind in ("pt", "com", "app", "unk"):
        # the same again
        for n in range(1, 256):
            s = g.blob(r, n)
            scns.append(dict(op="values", type="sub", kind=kind,
                             calls=[s] * r.randint(2, 4) + [[7], s]))
        for n in list(range(0, 4)) + list(range(250, 260)) + [
                511, 512, 513, 1000, 65535, 65536, 65537]:
            scns.append(dict(op="values", type="sub", kind=kind,
                             calls=[[3], g.blob(r, n), [4, 5]]))
        for _ in range(c.n(40)):
            scns.append(dict(op="values", type="sub", kind=kind, calls=[
                g.blob(r, r.choice((0, 1, 2, 3, 11, 254, 255, 256, 257, 300)))
                for _ in range(r.randint(0, 12))]))
    for n in list(range(0, 50)) + list(range(760, 780)):
        scns.append(dict(op="values", type="tables", calls=[g.blob(r, n)]))

    # a block, and one which differs a little
    def changed(x):
        if isinstance(x, list):
            x = x[:]
            k = r.randrange(4)
            if k == 0 and len(x) > 1:
                del x[r.randrange(len(x))]
            elif k == 1 and len(x) > 1:
                i = r.randrange(len(x))
                x[i], x[i - 1] = x[i - 1], x[i]
            elif x:
                i = r.randrange(len(x))
                x[i] = changed(x[i])
            return x
        return x ^ 1 << r.randrange(8)
    # every bit of every field
    for x in (dict(k="lsd", w=g.u16(r), h=g.u16(r), flags=g.byte(r),
                   bg=g.byte(r), ar=g.byte(r)),
              dict(k="img", left=g.u16(r), top=g.u16(r), w=g.u16(r), h=g.u16(r),
                   flags=g.byte(r)),
              dict(k="gce", flags=g.byte(r), delay=g.u16(r), tr=g.byte(r))):
        wide = ("w", "h", "left", "top", "delay")
        for f in [f for f in x if f != "k"]:
            for i in range(16 if f in wide else 8):
                y = dict(x)
                y[f] ^= 1 << i
                scns.append(dict(op="values", type="pair", calls=[x, y]))
    for _ in range(c.n(400)):
        x = any_block(r)
        y = dict(x)
        f = [k for k in x if k != "k"]
        if f and r.random() < .8:
            k = r.choice(f)
            y[k] = changed(x[k])
            if k == "c":
                y[k] = y[k][:len(y[k]) // 3 * 3]
        elif r.random() < .5:
            y = any_block(r)
        if y.get("k") in ("hdr",) and len(y["v"]) != 3:
            continue
        scns.append(dict(op="values", type="pair", calls=[x, y]))
        scns.append(dict(op="values", type="pair", calls=[y, x]))
    value_traces(c, scns, "values")


ERRORS = ["MalformedHeader", "InvalidBlockCode", "InvalidBlockSequence",
          "MalformedGraphicControlExtension", "UnexpectedEndOfFile",
          "InvalidLzwData", "TooLargeImage", "IncompleteImageData",
          "InvalidFrameDimensions", "MissingColorTable", "InvalidColorIndex",
          "InvalidRasterDimensions"]


@check("C27")
def c27(c):
    """Errors as values"""
    c.build()
    r = c.rng
    scns = []
    for _ in range(c.n(20)):
        calls = [[e, []] for e in ERRORS]
        vers = {(56, 56, 97), (56, 57, 98), (0, 0, 0)}
        vers |= {tuple(g.byte(r) for _ in range(3)) for _ in range(5)}
        calls += [["UnsupportedVersion", list(v)] for v in sorted(vers)]
        calls += [["Io", [[k, r.randrange(256)]]] for k in range(24)]
        calls += [["Io", [k]] for k in ERRNO]
        calls += [["TryFromInt", [r.choice((0, 999, 1256, 5000))]]]
        r.shuffle(calls)
        scns.append(dict(op="values", type="errors", calls=calls))
    value_traces(c, scns, "texts and sources of errors")


# --------------------------------------------------------------------- main

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check ID [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    c = vf.Check(prop, tier)
    try:
        CHECKS[prop](c)
        c.finish()
        return 0
    except vf.ToolError as e:
        print(f"{prop}: ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
