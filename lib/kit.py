"""Building blocks for the scenario generators: a unit is an independent piece of
trace, generated from its own random stream."""
import os, random, sys, threading
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')]
import rfx, stim, wire
from rfx import F_RLGR1, F_NOACCEL, F_PRO1, E_ALPHA, E_KEY, BPP, Fault

YUV = 4
TILE_WORST = 22 + 3 * 24595 + 4720

def ample(ntiles, nregs=1, nq=1):
    return 47 + 14 + 18 + 22 + 8 + 8 * nregs + 5 * max(1, nq) + ntiles * TILE_WORST

class Req:
    """One request (everything but the capacity)."""
    __slots__ = ('img', 'tiles', 'regs', 'quants', 'flags', 'ex', 'off', 'nq', 'nr')
    def __init__(self, img, tiles, regs=((0, 0, 64, 64),), quants=None, flags=0, ex=1, off=0, nq=None, nr=None):
        self.nq, self.nr = nq, nr
        self.img, self.tiles, self.regs, self.quants, self.flags, self.ex, self.off = img, list(tiles), list(regs), quants, flags, ex, off
    def ample(self):
        return ample(len(self.tiles), len(self.regs), max(self.nq or 0, len(self.quants or [1])))
    def cut(self, a, b=None):
        return Req(self.img, self.tiles[a:b], self.regs, self.quants, self.flags, self.ex, self.off, self.nq, self.nr)

class Unit:
    def __init__(self, lib, name, seed, px=True):
        self.lib, self.name = lib, name
        self.r = random.Random(f'{seed}/{name}')
        self.inplace = self.r.random() < .5     # images come one after the other at one address
        self.rec = rfx.Recorder(lib, px)
        self.rec.ev[0]['name'] = name
        self.live = []
        self.ng = 0
        self.quiet = None
    # -- logged operations
    def create(self, fmt=YUV, flags=0, w=64, h=64, **k):
        e = self.rec.create(w, h, fmt, flags, **k)
        if e:
            self.live.append(e)
        return e
    def destroy(self, e):
        if e in self.live:
            self.live.remove(e)
        self.rec.destroy(e)
    def enc(self, e, q, cap=None, **k):
        k.setdefault('arena', self.inplace and not k.keys() & {'place', 'align', 'lay'})
        return self.rec.encode(e, q.img, q.tiles, q.ample() if cap is None else cap, regs=q.regs, quants=q.quants,
                               flags=q.flags, ex=q.ex, buf_off=q.off, nq=q.nq, nr=q.nr, **k)
    def agree(self, group, value, what):
        self.rec.agree(group, value, what)
    def group(self):
        self.ng += 1
        return f'g{self.ng}'
    def same(self, a, b, what):
        g = self.group()
        self.agree(g, a, what)
        self.agree(g, b, what)
    # -- unlogged twins: same library, no trace
    def q_create(self, fmt=YUV, flags=0, w=64, h=64, **k):
        if self.quiet is None:
            self.quiet = rfx.Recorder(self.lib, False)
        e = self.quiet.create(w, h, fmt, flags, **k)
        self.quiet.ev.clear()
        return e
    def q_enc(self, e, q, cap=None, **k):
        k.setdefault('arena', self.inplace and not k.keys() & {'place', 'align', 'lay'})
        x = self.quiet.encode(e, q.img, q.tiles, q.ample() if cap is None else cap, regs=q.regs, quants=q.quants,
                              flags=q.flags, ex=q.ex, buf_off=q.off, nq=q.nq, nr=q.nr, light=True, **k)
        self.quiet.ev.clear()
        return x
    def q_destroy(self, e):
        self.quiet.destroy(e)
        self.quiet.ev.clear()
    def predict(self, like, hist, q, cap=None):
        """the message a fresh encoder gives for q after the requests hist"""
        e = self.q_create(like.fmt, like.flags, like.w, like.h)
        try:
            for p in hist:
                self.q_enc(e, p)
            return self.q_enc(e, q, cap)
        finally:
            self.q_destroy(e)
    def finish(self):
        for e in list(self.live):
            self.destroy(e)
    def close(self):
        self.rec.close()
        if self.quiet:
            self.quiet.close()

    # -- inputs
    def picture(self, fmt, tw=2, th=2, kinds=None, pad=None, exact=False, alpha=None):
        """-> (img, w, h, tile list [(x, y, cx, cy)]) covering tw x th tiles"""
        r = self.r
        if fmt == YUV:
            w, h = 64 * tw, 64 * th
            t = {}
            for i in range(tw * th):
                d = stim.yuv_tile(r, kinds)
                if alpha:
                    d = d[:12288] + alpha()
                t[i] = d
            img = self.rec.yuv_image(t, 256 * tw)
            cells = [(64 * x, 64 * y, 64, 64) for y in range(th) for x in range(tw)]
            return img, w, h, cells
        bpp = BPP[fmt]
        lx = 64 if exact or r.random() < .4 else r.randrange(1, 65)
        ly = 64 if exact or r.random() < .4 else r.randrange(1, 65)
        w, h = 64 * (tw - 1) + lx, 64 * (th - 1) + ly
        data = stim.packed(r, w, h, bpp, kinds)
        if alpha and bpp == 4:
            o = bytearray(data)
            for y in range(th):
                for x in range(tw):
                    a = alpha()
                    for yy in range(min(64, h - 64 * y)):
                        n = min(64, w - 64 * x)
                        s = ((64 * y + yy) * w + 64 * x) * 4 + 3
                        o[s:s + 4 * n:4] = a[64 * yy:64 * yy + n]
            data = bytes(o)
        if pad is None:
            pad = r.choice([0, 0, 1, 3, 4, 12, 60, 256])
        stride = w * bpp + pad
        if pad:
            rows = [data[i * w * bpp:(i + 1) * w * bpp] for i in range(h)]
            data = b''.join(x + r.randbytes(pad) for x in rows[:-1]) + rows[-1]
        img = self.rec.image(data, stride)
        cells = [(64 * x, 64 * y, min(64, w - 64 * x), min(64, h - 64 * y)) for y in range(th) for x in range(tw)]
        return img, w, h, cells
    def tables(self, n=None, kinds=None):
        r = self.r
        n = r.choice([1, 1, 2, 3, 5]) if n is None else n
        return [stim.table(r, r.choice(kinds) if kinds else None) for _ in range(n)]
    def tiles(self, cells, n, nq):
        r = self.r
        return [c + tuple(r.randrange(nq) for _ in range(3)) for c in (r.choice(cells) for _ in range(n))]
    def rects(self, n):
        r = self.r
        v = lambda: r.choice([0, 1, 255, 256, 32767, 32768, 65535, r.randrange(65536), r.randrange(65536)])
        return [(v(), v(), v(), v()) for _ in range(n)]

FMT_NAMES = ['BGRA', 'RGBA', 'BGR', 'RGB', 'YUV']

def any_flags(r, pro=None):
    f = r.choice([0, F_RLGR1]) | r.choice([0, 0, F_NOACCEL]) | r.choice([0, 0, 8, 16, 24])
    if pro or (pro is None and r.random() < .35):
        f |= F_PRO1
    return f

def mutate_packed(r, data, bpp, stride):
    """an interleaved image that differs a little"""
    o = bytearray(data)
    n = len(o) // bpp
    k = r.choice([0, 1, 1, 1, 2, 3 if bpp > 1 else 1])
    if k == 0:
        i = r.choice([0, len(o) - 1, r.randrange(len(o))])
        o[i] ^= r.choice([1, 128, 255, 64])
    elif k == 1:
        # the same pixels elsewhere
        w, h = min(64, stride // bpp), min(64, len(o) // stride)
        x0, y0 = r.choice([0, 64 if stride // bpp >= 128 else 0]), r.choice([0, 64 if len(o) // stride >= 128 else 0])
        for _ in range(r.choice([1, 1, 20])):
            x, y = r.randrange(w), r.randrange(h)
            i = (y0 + y) * stride + (x0 + x) * bpp
            j = (y0 + r.randrange(h)) * stride + (x0 + (x + r.choice([2, 4, 32, r.randrange(w)])) % w) * bpp
            o[i:i + bpp], o[j:j + bpp] = o[j:j + bpp], o[i:i + bpp]
    elif k == 2:
        c = r.randrange(bpp)
        o[c::bpp] = bytes(255 - v for v in o[c::bpp])
    else:
        a, b = r.sample(range(bpp), 2)
        o[a:n * bpp:bpp], o[b:n * bpp:bpp] = o[b:n * bpp:bpp], o[a:n * bpp:bpp]
    return bytes(o)

def mutate(r, tile):
    """a tile that differs a little (so that difference tiles pay)"""
    o = bytearray(tile)
    k = r.randrange(8)
    p = r.randrange(3) * 4096
    if k == 0:
        for _ in range(r.randrange(1, 9)):
            o[r.randrange(12288)] = r.randrange(256)
    elif k == 1:
        x, y = r.randrange(57), r.randrange(57)
        for yy in range(8):
            o[p + 64 * (y + yy) + x:p + 64 * (y + yy) + x + 8] = r.randbytes(8)
    elif k == 2:
        o[p:p + 4096] = bytes(min(255, v + 9) for v in o[p:p + 4096])
    elif k == 3:
        o[p + 4032:p + 4096] = r.randbytes(64)
    elif k == 4:
        # the same samples elsewhere
        for _ in range(r.choice([1, 1, 20])):
            i, j = r.randrange(4096), r.randrange(4096)
            o[p + i], o[p + j] = o[p + j], o[p + i]
    elif k == 5:
        n = r.choice([1, 64, 128, 4096 - 64])
        o[p:p + 4096] = o[p + n:p + 4096] + o[p:p + n]
    elif k == 6:
        # a single sample
        i = p + r.choice([0, 1, 63, 4095, 4032, r.randrange(4096)])
        o[i] ^= r.choice([1, 128, 255, 64])
    else:
        o[4096:12288] = o[8192:12288] + o[4096:8192]
    return bytes(o)

# ---- replay of model behaviours --------------------------------------------------
# abstract positions 1..k -> cells of the 64 x 64 grid
CLUSTERS = [
    lambda r: [(0, 0), (1, 0), (0, 1), (1, 1)],
    lambda r: [(62, 62), (63, 62), (62, 63), (63, 63)],
    lambda r: [(31, 31), (32, 31), (31, 32), (32, 32)],
    lambda r: [(5, 9), (9, 5), (5, 5), (9, 9)],
    lambda r: [(0, 0), (63, 0), (0, 63), (63, 63)],
    lambda r: [(0, 1), (1, 0), (16, 0), (0, 16)],
    lambda r: [(15, 15), (16, 15), (15, 16), (31, 0)],
    lambda r: [(r.randrange(64), r.randrange(64)) for _ in range(4)],
]

class World:
    """Images of abstract contents at abstract positions."""
    def __init__(self, u, npos, ncont, pro, fmt=YUV, kinds=None, cells=None, width=64):
        r = u.r
        self.u, self.fmt = u, fmt
        if cells is None:
            while True:
                cells = r.choice(CLUSTERS)(r)[:npos]
                if len(set(cells)) == npos:
                    break
            if not pro:
                cells = [(x % 3, y % 3) for x, y in [(0, 0), (1, 0), (2, 1), (1, 2)]][:npos]
                width = 3
        self.cells, self.width = cells, width
        if fmt == YUV:
            self.cont = [bytes([128]) * 16384]
            while len(self.cont) < ncont:
                if len(self.cont) > 1 and r.random() < .6:
                    self.cont.append(mutate(r, self.cont[-1]))
                else:
                    self.cont.append(stim.yuv_tile(r, kinds))
        else:
            self.cont = [None] * ncont
            self.packs = [stim.packed(r, 64 * 3, 64 * 3, BPP[fmt], kinds) for _ in range(ncont)]
        self.reset_tables()
    def reset_tables(self):
        self.tabs = self.u.tables(3)
    def request(self, tiles, **k):
        """tiles [(pos, content)] -> Req; one position in one request has one content"""
        r = self.u.r
        c = {}
        for p, x in tiles:
            c.setdefault(p, x)
        t = []
        for p, x in tiles:
            cx, cy = self.cells[p - 1]
            t.append((64 * cx, 64 * cy, 64, 64, r.randrange(3), r.randrange(3), r.randrange(3)))
        off = 0
        if self.fmt == YUV:
            d = {self.cells[p - 1][1] * self.width + self.cells[p - 1][0]: self.cont[c[p]] for p in c}
            if not d:
                d = {0: self.cont[0]}
            img = self.u.rec.yuv_image(d, self.width * 256)
            off = -16384 * img.lo
        else:
            img = self.u.rec.image(self.packs[tiles[0][1] if tiles else 0], 64 * 3 * BPP[self.fmt])
        return Req(img, t, self.u.rects(r.choice([0, 1, 1, 2, 7])), r.choice([self.tabs, self.tabs, self.tabs[:]]), off=off, **k)

def spoil(r, q, nq, pro):
    """make a request that has to be rejected"""
    if not q.tiles:
        q.tiles = [(0, 0, 64, 64, 0, 0, 0)]
    i = r.randrange(len(q.tiles))
    t = list(q.tiles[i])
    if pro and r.random() < .4:
        j = r.randrange(2)
        t[j] = r.choice([4096, 4096 + 64 * r.randrange(40), -64, -64 * 5, 65536, 65536 + 64, 1 << 22, (1 << 22) + 64, 64 * 65535])
    else:
        t[4 + r.randrange(3)] = r.choice([-1, nq, nq + 1, 255, 256, 257, 256 + nq, 65536, 1 << 24, -256, 127, 128, -128, 2 ** 31 - 1, -2 ** 31]) if nq < 127 else r.choice([-1, 256, 256 + nq, 65536])
    q.tiles[i] = tuple(t)
    return q

def replay(u, hist, ncont=3, npos=3, agree=None, fmt_of=None, kinds=None, light=False, oom=True, alpha=False):
    """Carry out one behaviour of the model.  agree: set of
       'twin'  - every message equals the one of a fresh encoder that gets the delivered requests only
       'tiles' - a shortened message's tiles equal those in an ample buffer"""
    r = u.r
    agree = agree or set()
    H = {}
    for op in hist:
        h = op['h']
        if op['op'] == 'create':
            fl = r.choice([0, F_RLGR1]) | r.choice([0, F_NOACCEL]) | (F_PRO1 if op['pro'] else 0)
            fmt = YUV if op['pro'] or fmt_of is None else fmt_of(r)
            e = u.create(fmt, fl, *(r.choice([0, 1, 65535, 32768] + [r.randrange(1, 4096)] * 12) for _ in 'wh'), ex=r.randrange(2))
            H[h] = [e, World(u, npos, ncont, op['pro'], fmt, kinds), [], False]
        elif op['op'] == 'destroy':
            u.destroy(H.pop(h)[0])
        else:
            e, w, past, maybe = H[h]
            if r.random() < .15:
                w.reset_tables()
            q = w.request([tuple(t) for t in op['tiles']])
            key = op['key'] and e.pro
            q.flags = (E_KEY if op['key'] else 0) | (E_ALPHA if alpha and r.random() < .4 else 0)
            q.ex = 1 if q.flags or r.random() < .7 else 0
            if op['bad']:
                spoil(r, q, len(q.quants), e.pro)
            base = [] if key else past
            full = None
            if not op['bad'] and (q.tiles or not e.pro):
                full = u.predict(e, base, q)
            cap = aim(r, op, full, e.pro, q, e)
            fail = 0
            if op['oom'] and oom:
                fail = r.randrange(1, max(2, len(q.tiles) + 1))
            rv, n, out = u.enc(e, q, cap, fail=fail, light=light, ofill=r.choice([0, 0x5c, 0xff]))
            if rv < 0:
                if key:
                    H[h][3] = True
            else:
                if maybe and not key and out[:2] == b'\xc0\xcc':
                    past = []
                if key:
                    past = []
                done = q.cut(0, rv)
                if 'twin' in agree and (done.tiles or not e.pro):
                    rv2, n2, out2 = u.predict(e, past, done)
                    u.same(out2, out, 'message of a fresh encoder given the delivered requests, and of this one')
                elif 'tiles' in agree and full and not maybe:
                    share_tiles(u, e, q, full[2], out)
                if key:
                    done.flags &= ~E_KEY
                H[h][2] = past + [done]
                H[h][3] = False

def share_tiles(u, e, q, full, part):
    """tiles of a (possibly shortened) message are those of the ample one"""
    al = bool(q.flags & E_ALPHA and q.ex and not e.pro)
    a, b = wire.split(full, e.pro, al), wire.split(part, e.pro, al)
    if not a or not b:
        return      # malformed: reported by the trace specification
    k = len(b['tiles'])
    u.same(b''.join(full[s:t] for s, t in a['tiles'][:k]), b''.join(part[s:t] for s, t in b['tiles']),
           'tiles in a short buffer and in an ample one')

def aim(r, op, full, pro, q, e):
    """a capacity at which the call should end as it did in the model"""
    if not full or full[0] < 0:
        return r.choice([q.ample(), q.ample(), r.randrange(0, 200)])
    msg = full[2]
    d = wire.split(msg, pro, bool(q.flags & E_ALPHA and q.ex and not pro))
    st, k = op['stage'], op['sent']
    if d is None:
        return q.ample()
    def between(a, b):
        return r.choice([a, max(a, b - 1), max(0, b - 1), r.randrange(a, max(a + 1, b))])
    if st == 'header' and d['hdr']:
        return between(0, d['hdr'])
    if st in ('header', 'begin'):
        return between(d['hdr'], d['begin'])
    if st == 'region':
        return between(d['begin'], d['region'])
    if st == 'done' and k >= len(d['tiles']):
        return r.choice([q.ample(), q.ample(), len(msg), len(msg) + r.randrange(0, 30), q.ample() + r.randrange(1000)])
    s = d['region'] if k == 0 else d['tiles'][k - 1][1] if k - 1 < len(d['tiles']) else d['end']
    t = d['tiles'][k][1] if k < len(d['tiles']) else d['end']
    if pro:
        return r.choice([s + 6, s + 7, t + 5, max(0, t - 1), r.randrange(s, t + 6)])
    return r.choice([s + 8, s + 24595 + 19, s + r.randrange(8, 26000), t + 24000])
