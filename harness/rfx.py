"""ctypes binding of the library under test plus trace recording.

A Recorder turns calls into the lines of a trace (list of dicts, written as
ndjson).  Nothing here judges anything: verdicts are TLC's."""
import ctypes as C, json, os, random, struct

FMT = dict(BGRA=0, RGBA=1, BGR=2, RGB=3, YUV=4)
BPP = {0: 4, 1: 4, 2: 3, 3: 3, 4: 4}
F_RLGR1 = 1; F_NOACCEL = 64; F_PRO1 = 128
E_ALPHA = 1; E_KEY = 256
FILL_OUT = 0x5C
ARENA = 80 << 20

class Fault(Exception):
    """The library crashed or hung in this call; the trace ends here."""


class Call(C.Structure):
    _fields_ = [('handle', C.c_void_p), ('out', C.c_void_p), ('cap', C.c_int), ('buf', C.c_void_p), ('w', C.c_int),
                ('h', C.c_int), ('stride', C.c_int), ('regions', C.c_void_p), ('nregions', C.c_int), ('tiles', C.c_void_p),
                ('ntiles', C.c_int), ('quants', C.c_void_p), ('nquants', C.c_int), ('flags', C.c_int), ('fresh', C.c_int),
                ('fmt', C.c_int), ('cflags', C.c_int), ('ret', C.c_int), ('bytes', C.c_int), ('fault', C.c_int), ('me', C.c_int)]

class Lib:
    def __init__(self, so):
        self.so = so
        self.c = C.CDLL(so)
        c = self.c
        c.shim_galloc.restype = C.c_void_p
        c.shim_galloc.argtypes = [C.c_size_t, C.c_int, C.c_int]
        c.shim_gfree.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
        c.shim_gprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int]
        c.shim_gslack_ok.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int]
        c.shim_fence.restype = C.c_void_p
        c.shim_fence.argtypes = [C.c_int]
        c.shim_fence_free.argtypes = [C.c_void_p, C.c_int]
        c.shim_alloc_stats.argtypes = [C.POINTER(C.c_long)]
        c.shim_alloc_fail.argtypes = [C.c_long, C.c_int]
        c.shim_create.argtypes = [C.c_int] * 5 + [C.POINTER(C.c_void_p), C.POINTER(C.c_int)]
        c.shim_destroy.argtypes = [C.c_void_p, C.POINTER(C.c_int)]
        c.shim_encode.argtypes = [C.c_int, C.c_int, C.c_void_p, C.c_void_p, C.POINTER(C.c_int), C.c_void_p,
                                  C.c_int, C.c_int, C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_int,
                                  C.c_void_p, C.c_int, C.c_int, C.POINTER(C.c_int)]
        c.shim_rlgr.argtypes = [C.c_int, C.c_void_p, C.c_void_p, C.c_int, C.c_int, C.POINTER(C.c_int)]
        c.shim_dwt.argtypes = [C.c_int, C.c_void_p, C.c_void_p, C.c_void_p, C.c_void_p, C.c_int, C.POINTER(C.c_int)]
        c.shim_cycle.argtypes = [C.c_int] * 6 + [C.c_void_p, C.c_void_p, C.c_int, C.c_void_p, C.c_int, C.c_int, C.c_int, C.c_void_p, C.c_int,
                                 C.c_void_p, C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_int, C.POINTER(C.c_int)]
        c.shim_burst.argtypes = [C.c_int, C.c_int, C.c_uint, C.c_int, C.c_int, C.c_void_p, C.c_void_p, C.c_int, C.c_void_p,
                                 C.c_int, C.c_int, C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_int,
                                 C.c_void_p, C.c_int, C.c_int, C.POINTER(C.c_int), C.c_int, C.POINTER(C.c_int)]
        c.shim_branches.argtypes = [C.POINTER(Call), C.POINTER(C.c_size_t), C.c_long]
        c.shim_branches.restype = C.c_long
        c.shim_race.argtypes = [C.POINTER(Call), C.POINTER(C.c_long), C.c_int]
        c.shim_digest.argtypes = [C.c_void_p, C.c_long, C.POINTER(C.c_uint)]
        self.arena = None
        c.shim_init()
    def another(self):
        """the library loaded once more, with static data as at its start; init() of this one afterwards"""
        import shutil, tempfile
        d = tempfile.mkdtemp(prefix='lib-', dir=os.path.dirname(self.so))
        try:
            return Lib(shutil.copy(self.so, d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    def write(self, p, d):
        C.memmove(p, bytes(d), len(d))
    def read(self, p, n):
        return C.string_at(p, n)
    def close(self):
        pass
    def put(self, img):
        """one place in memory that holds one image after the other"""
        if self.arena is None:
            self.arena = GBuf(self, ARENA, 1, -1)
        self.c.shim_gprotect(self.arena.p, ARENA, 1, 1)
        for o, d in img.chunks:
            self.write(self.arena.p + o, d)
        self.c.shim_gprotect(self.arena.p, ARENA, 1, 0)
        return self.arena.p
    def stats(self):
        a = (C.c_long * 6)()
        self.c.shim_alloc_stats(a)
        return dict(zip(('allocs', 'frees', 'live', 'bytes', 'badfree', 'failed'), a))
    def digest(self, b):
        o = (C.c_uint * 2)()
        self.c.shim_digest(C.cast(C.c_char_p(bytes(b)), C.c_void_p), len(b), o)
        return [o[0] & 0xffff, o[0] >> 16, o[1] & 0xffff, o[1] >> 16]

class Remote:
    """The functions of the shim in the 32-bit process: arguments passed by reference and
    arrays are copied there and back."""
    NAMES = ('galloc gfree gprotect gslack_ok fence fence_free alloc_stats alloc_fail cpu init create destroy encode burst '
             'rlgr dwt scratch cycle').split()
    POINTERS = ('galloc', 'fence', 'scratch')
    def __init__(self, exe):
        import subprocess
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.out = os.fdopen(os.dup(self.p.stdin.fileno()), 'wb', 1 << 20)
        self.inp = os.fdopen(os.dup(self.p.stdout.fileno()), 'rb', 1 << 20)
        self.scratch = self.call('scratch')
    def send(self, *words):
        self.out.write(struct.pack('<%dI' % len(words), *[w & 0xffffffff for w in words]))
    def get(self, n):
        try:
            self.out.flush()
            b = self.inp.read(n)
        except OSError:
            b = b''
        if len(b) != n:
            raise Fault('the 32-bit process ended')
        return b
    def call(self, name, *args):
        self.send(67, self.NAMES.index(name), len(args), *args)
        return struct.unpack('<I' if name in self.POINTERS else '<i', self.get(4))[0]
    def write(self, p, d):
        if len(d):
            self.send(87, p, len(d))
            self.out.write(d)
    def read(self, p, n):
        if n == 0:
            return b''
        self.send(82, p, n)
        return self.get(n)
    def __getattr__(self, name):
        name = name[5:]
        if name not in self.NAMES:
            raise AttributeError(name)
        def f(*args):
            back = []
            at = self.scratch
            a = []
            for v in args:
                o = getattr(v, '_obj', v if isinstance(v, C.Array) else None)
                if o is None:
                    a.append(v or 0)
                    continue
                vals = list(o) if isinstance(o, C.Array) else [o.value or 0]
                self.write(at, struct.pack('<%dI' % len(vals), *[x & 0xffffffff for x in vals]))
                back.append((o, at, len(vals)))
                a.append(at)
                at += 4 * len(vals)
            r = self.call(name, *a)
            for o, p, n in back:
                vals = struct.unpack('<%d%s' % (n, 'I' if isinstance(o, C.c_void_p) else 'i'), self.read(p, 4 * n))
                if isinstance(o, C.Array):
                    o[:] = vals
                else:
                    o.value = vals[0]
            return r
        return f

class Lib32(Lib):
    """The 32-bit library, in a process of its own."""
    def __init__(self, exe, near):
        self.near = near        # a library in this process, for digests
        self.c = Remote(exe)
        self.arena = None
        self.c.shim_init()
    def write(self, p, d):
        self.c.write(p, bytes(d))
    def read(self, p, n):
        return self.c.read(p, n)
    def digest(self, b):
        return self.near.digest(b)
    def close(self):
        self.c.p.kill()
        self.c.p.wait()

class GBuf:
    """Guarded memory.  place 0: ends at an inaccessible page, 1: starts after one."""
    def __init__(self, lib, size, place=0, fill=0, data=None, readonly=False):
        self.lib, self.size, self.place, self.fill = lib, size, place, fill
        self.p = lib.c.shim_galloc(size, place, fill)
        assert self.p
        if data is not None and len(data):
            lib.write(self.p, data)
        if readonly:
            lib.c.shim_gprotect(self.p, size, place, 0)
    def read(self, n):
        return self.lib.read(self.p, n)
    def slack_ok(self):
        return bool(self.lib.c.shim_gslack_ok(self.p, self.size, self.place, self.fill))
    def free(self):
        if self.p:
            self.lib.c.shim_gfree(self.p, self.size, self.place)
            self.p = None

def ints(seq):
    return (C.c_int * max(1, len(seq)))(*seq)

def ibytes(rows):
    flat = [v for r in rows for v in r]
    return bytes((C.c_int * len(flat))(*flat)) if flat else b''

class Img:
    """Image contents: chunks [(offset, bytes)] in size bytes, and the trace line that records them."""
    def __init__(self, lib, size, chunks, stride):
        self.lib, self.size, self.chunks, self.stride = lib, size, chunks, stride
        self.bufs = {}
        self.line = 0
    def at(self, place, align):
        """guarded read-only memory with the contents; place 2 means in front of a guard page and `align` off it"""
        k = (place, align)
        if k not in self.bufs:
            g = GBuf(self.lib, self.size + align, place, -1)
            for o, d in self.chunks:
                self.lib.write(g.p + (0 if place == 0 else align) + o, d)
            self.lib.c.shim_gprotect(g.p, g.size, place, 0)
            self.bufs[k] = g
        return self.bufs[k].p + (0 if place == 0 else align)
    def spread(self, stride, place):
        """the rows of a packed image |stride| bytes apart, upside down when negative; address of row 0"""
        k = (place, stride, 's')
        data, st = self.chunks[0][1], self.stride
        n = (len(data) + st - 1) // st
        a = abs(stride)
        if k not in self.bufs:
            w = min(st, a)
            g = GBuf(self.lib, (n - 1) * a + w, place, -1)
            for r in range(n):
                d = data[r * st:r * st + w]
                self.lib.write(g.p + (r if stride > 0 else n - 1 - r) * a, d)
            self.lib.c.shim_gprotect(g.p, g.size, place, 0)
            self.bufs[k] = g
        return self.bufs[k].p + (0 if stride > 0 else (n - 1) * a)
    def free(self):
        for g in self.bufs.values():
            g.free()
        self.bufs = {}

class Enc:
    def __init__(self, rec, hid, handle, w, h, fmt, flags):
        self.rec, self.hid, self.handle = rec, hid, handle
        self.w, self.h, self.fmt, self.flags = w, h, fmt, flags
        self.pro = bool(flags & F_PRO1)

class Recorder:
    """px: log image contents (checks that look at payloads need them)."""
    def __init__(self, lib, px=True):
        self.lib = lib
        self.bare = False       # planes of YUV images that are not asked for are inaccessible during a call
        s = lib.stats()
        self.ev = [dict(ev='unit', live=s['live'], liveb=s['bytes'])]
        self.nh = 0
        self.px = px
        self.imgs = {}
        self.calls = 0
    def log(self, **k):
        self.ev.append(k)
        return len(self.ev)

    def create(self, w=64, h=64, fmt=0, flags=0, cpu=0, ex=1, fail=0):
        lib = self.lib
        hp = C.c_void_p(0xdead0)
        res = C.c_int(-99)
        lib.c.shim_cpu(cpu)
        s0 = lib.stats()
        if fail:
            lib.c.shim_alloc_fail(fail, 1)
        f = lib.c.shim_create(ex, w, h, fmt, flags, C.byref(hp), C.byref(res))
        lib.c.shim_alloc_fail(0, 0)
        lib.c.shim_cpu(0)
        s1 = lib.stats()
        self.nh += 1
        hid = self.nh
        self.log(ev='create', h=hid, w=w, hgt=h, fmt=fmt, flags=flags, cpu=cpu, ex=ex,
                 ret=res.value, fault=f, oom=s1['failed'] - s0['failed'],
                 live=s1['live'], liveb=s1['bytes'], bad=s1['badfree'])
        if f:
            raise Fault('create')
        if res.value != 0:
            return None
        return Enc(self, hid, hp.value, w, h, fmt, flags)

    def destroy(self, enc):
        res = C.c_int(-99)
        f = self.lib.c.shim_destroy(enc.handle if enc else None, C.byref(res))
        s = self.lib.stats()
        self.log(ev='destroy', h=enc.hid if enc else 0, ret=res.value, fault=f, live=s['live'],
                 liveb=s['bytes'], bad=s['badfree'])
        if enc:
            enc.handle = None
        if f:
            raise Fault('destroy')

    def image(self, data, stride):
        """Register image contents; logged once, referred to by line number."""
        key = (bytes(data), stride)
        if key not in self.imgs:
            im = Img(self.lib, len(data), [(0, bytes(data))], stride)
            im.line = self.log(ev='img', stride=stride, px=list(data) if self.px else [])
            self.imgs[key] = im
        return self.imgs[key]

    def yuv_image(self, tiles, stride):
        """tiles: {index: 16384 bytes (Y U V A planes)}; index = row * (stride / 256) + column.
        The memory begins with the first tile: offset -16384 * (first index) makes indices come out right."""
        key = (tuple(sorted(tiles.items())), stride)
        if key not in self.imgs:
            lo, hi = min(tiles), max(tiles)
            im = Img(self.lib, 16384 * (hi - lo + 1), [(16384 * (i - lo), bytes(t)) for i, t in tiles.items()], stride)
            im.lo = lo
            im.line = self.log(ev='img', stride=stride, px=[],
                               tl=[list(tiles[i]) if i in tiles else [] for i in range(lo, hi + 1)] if self.px else [])
            self.imgs[key] = im
        return self.imgs[key]

    def close(self):
        for im in self.imgs.values():
            im.free()

    def hide(self, img, base, off, tiles, alpha):
        """make all planes of a YUV image inaccessible that the tiles do not consist of -> what was hidden"""
        keep = set()
        for t in tiles:
            o = off + (t[1] << 8) * (img.stride >> 8) + (t[0] << 8)
            keep |= {o // 4096 + i for i in range(4 if alpha else 3)}
        gone, runs = [k for k in range(img.size // 4096) if k not in keep], []
        for k in gone:
            if runs and runs[-1][1] == k:
                runs[-1][1] = k + 1
            else:
                runs.append([k, k + 1])
        runs = [(base + 4096 * a, 4096 * (b - a)) for a, b in runs]
        for a, n in runs:
            self.lib.c.shim_gprotect(a, n, 1, 2)
        return runs

    def dims(self, enc, tiles):
        """width and height given with a request: of the encoder, of the tiles, or more"""
        self.calls += 1
        k = self.calls % 5
        if k == 1 and len(tiles):
            return max(t[0] + t[2] for t in tiles), max(t[1] + t[3] for t in tiles)
        return (65535, 65535) if k == 3 else (enc.w, enc.h)

    def encode(self, enc, img, tiles, cap, regs=((0, 0, 64, 64),), quants=None, flags=0, ex=1,
               place=0, oplace=0, align=0, light=False, fail=0, fail_all=1, ofill=FILL_OUT, nq=None,
               timed=10, kind='encode', extra=None, buf_off=0, lay=None, arena=False, nr=None, long=None):
        """long: a function that gives the parts of a long message to be logged instead of all of it.
        light: log a digest of the payload instead of the bytes.
        lay (stride, x, y): rows of the packed image in memory that far apart, its first pixel being (x, y).
        arena: the image is copied to where the others of this kind were before (a frame buffer that changes in place)."""
        lib = self.lib
        line, stride = img.line, img.stride
        hidden = []
        if lay:
            stride, bpp = lay[0], BPP[enc.fmt]
            src = img.spread(stride, place) - lay[2] * stride - lay[1] * bpp
            buf_off = -lay[2] * img.stride - lay[1] * bpp
        elif arena and img.size <= ARENA:
            src = lib.put(img) + buf_off
        else:
            src = img.at(place, align) + buf_off
            if self.bare and enc.fmt == 4 and align == 0:
                hidden = self.hide(img, src - buf_off, buf_off, tiles, ex and flags & 1 and not enc.pro)
        rb = GBuf(lib, 16 * len(regs), place, 0, ibytes(regs), readonly=True)
        tb = GBuf(lib, 28 * len(tiles), place, 0, ibytes(tiles), readonly=True)
        qb = None
        if quants is not None:
            qb = GBuf(lib, 5 * len(quants), place, 0, bytes(v for q in quants for v in q), readonly=True)
        ob = GBuf(lib, max(cap, 0), oplace, ofill)
        n = C.c_int(cap)
        res = C.c_int(-99)
        s0 = lib.stats()
        if fail:
            lib.c.shim_alloc_fail(fail, fail_all)
        if nq is None:
            nq = 0 if quants is None else len(quants)
        if nr is None:
            nr = len(regs)
        f = lib.c.shim_encode(ex, timed, enc.handle, ob.p, C.byref(n), src, *self.dims(enc, tiles), stride,
                              rb.p, nr, tb.p, len(tiles), qb.p if qb else None, nq, flags, C.byref(res))
        lib.c.shim_alloc_fail(0, 0)
        for a, n_ in hidden:
            lib.c.shim_gprotect(a, n_, 1, 0)
        s1 = lib.stats()
        ok = ob.slack_ok()
        nn = n.value
        out = b''
        if not f and res.value >= 0 and 0 <= nn <= cap:
            out = ob.read(nn)
        clean = 1 if ok else 0
        e = dict(ev=kind, h=enc.hid, flags=flags, ex=ex, cap=cap, img=line,
                 off=buf_off // 16384 if enc.fmt == 4 else buf_off, nr=nr, nq=nq,
                 regs=[list(r) for r in regs], tiles=[list(t) for t in tiles],
                 quants=[list(q) for q in quants] if quants is not None else [], dq=1 if quants is None else 0,
                 ret=res.value, n=nn, fault=f, clean=clean, oom=s1['failed'] - s0['failed'],
                 live=s1['live'], liveb=s1['bytes'], bad=s1['badfree'])
        if light:
            e['dg'] = lib.digest(out)
            e['out'] = []
        elif long:
            e['ev'], e['out'] = 'long', []
            e.update(long(out))
        else:
            e['out'] = list(out)
        if extra:
            e.update(extra)
        self.ev.append(e)
        for b in (rb, tb, qb, ob):
            if b is not None:
                b.free()
        if f:
            raise Fault('encode')
        return res.value, nn, out

    def encode_fenced(self, enc, img, cx, cy, tile, cap, quants=None, flags=0, right=True):
        """One tile of a packed image whose cy rows of cx pixels each end (right)
        or begin (not right) at an inaccessible page."""
        lib = self.lib
        line, data, stride = img.line, img.chunks[0][1], img.stride
        bpp = BPP[enc.fmt]
        rb = cx * bpp
        base = lib.c.shim_fence(cy)
        for r in range(cy):
            lib.write(base + r * 8192 + (4096 - rb if right else 0), data[r * stride:r * stride + rb])
        tx, ty = tile[0], tile[1]
        buf = base + (4096 - rb if right else 0) - ty * 8192 - tx * bpp
        tb = GBuf(lib, 28, 0, 0, ibytes([tile]), readonly=True)
        reg = GBuf(lib, 16, 0, 0, ibytes([(0, 0, 64, 64)]), readonly=True)
        qb = GBuf(lib, 5 * len(quants), 0, 0, bytes(v for q in quants for v in q), readonly=True) if quants else None
        ob = GBuf(lib, cap, 0, FILL_OUT)
        n = C.c_int(cap); res = C.c_int(-99)
        f = lib.c.shim_encode(1, 10, enc.handle, ob.p, C.byref(n), buf, *self.dims(enc, [tile]), 8192, reg.p, 1, tb.p, 1,
                              qb.p if qb else None, len(quants) if quants else 0, flags, C.byref(res))
        s1 = lib.stats()
        out = ob.read(n.value) if not f and res.value >= 0 and 0 <= n.value <= cap else b''
        self.ev.append(dict(ev='encode', h=enc.hid, flags=flags, ex=1, cap=cap, img=line, off=-ty * stride - tx * bpp, nr=1, nq=len(quants) if quants else 0,
                            regs=[[0, 0, 64, 64]], tiles=[list(tile)], quants=[list(q) for q in quants] if quants else [],
                            dq=0 if quants else 1, ret=res.value, n=n.value, fault=f, clean=1 if ob.slack_ok() else 0,
                            oom=0, live=s1['live'], liveb=s1['bytes'], bad=s1['badfree'], out=list(out), fence=1))
        for b in (tb, reg, qb, ob):
            if b is not None:
                b.free()
        lib.c.shim_fence_free(base, cy)
        if f:
            raise Fault('encode')
        return res.value, n.value, out

    def burst(self, enc, img, tiles, cap, count, first, every=997, regs=((0, 0, 64, 64),), quants=None, flags=0, ex=1, buf_off=0):
        """first: number of the first frame of the burst (only to choose what is logged)"""
        lib = self.lib
        line, stride = img.line, img.stride
        rb = GBuf(lib, 16 * len(regs), 0, 0, ibytes(regs), readonly=True)
        tb = GBuf(lib, 28 * len(tiles), 0, 0, ibytes(tiles), readonly=True)
        qb = GBuf(lib, 5 * len(quants), 0, 0, bytes(v for q in quants for v in q), readonly=True) if quants else None
        ob = GBuf(lib, cap, 0, FILL_OUT)
        maxlog = count // every + 400
        log = (C.c_int * (18 * maxlog))()
        m = C.c_int(0)
        f = lib.c.shim_burst(count, every, first, ex, 200, enc.handle, ob.p, cap, img.at(0, 0) + buf_off, enc.w, enc.h, stride, rb.p, len(regs),
                             tb.p, len(tiles), qb.p if qb else None, len(quants) if quants else 0, flags, log, maxlog, C.byref(m))
        a = list(log[:18 * m.value])
        self.ev.append(dict(ev='burst', h=enc.hid, fault=f, count=[count // 65536, count % 65536],
                            heads=[a[18 * i:18 * i + 18] for i in range(m.value)]))
        for b in (rb, tb, qb, ob):
            if b is not None:
                b.free()
        if f:
            raise Fault('burst')

    def cycle(self, enc, img, step, period, tiles, cap, count, regs=((0, 0, 64, 64),), quants=None, every=997):
        """one image after the other, over and over: [[i, ret, bytes, digest..]]"""
        lib = self.lib
        rb = GBuf(lib, 16 * len(regs), 0, 0, ibytes(regs), readonly=True)
        tb = GBuf(lib, 28 * len(tiles), 0, 0, ibytes(tiles), readonly=True)
        qb = GBuf(lib, 5 * len(quants), 0, 0, bytes(v for q in quants for v in q), readonly=True) if quants else None
        ob = GBuf(lib, cap, 0, FILL_OUT)
        maxlog = count // every + 3 * period + 40
        log = (C.c_int * (8 * maxlog))()
        m = C.c_int(0)
        f = lib.c.shim_cycle(count, every, period, step, 6 if enc.flags & 128 else 8, 300, enc.handle, ob.p, cap, img.at(0, 0), enc.w, enc.h, img.stride,
                             rb.p, len(regs), tb.p, len(tiles), qb.p if qb else None, len(quants) if quants else 0, log, maxlog, C.byref(m))
        a = list(log[:8 * m.value])
        for b in (rb, tb, qb, ob):
            if b is not None:
                b.free()
        if f:
            raise Fault('cycle')
        return [[a[8 * i] * 65536 + a[8 * i + 1]] + a[8 * i + 2:8 * i + 8] for i in range(m.value)]

    def _call(self, c, enc, q, cap, fresh, keep):
        lib = self.lib
        rb = GBuf(lib, 16 * len(q.regs), 0, 0, ibytes(q.regs), readonly=True)
        tb = GBuf(lib, 28 * len(q.tiles), 0, 0, ibytes(q.tiles), readonly=True)
        qb = GBuf(lib, 5 * len(q.quants), 0, 0, bytes(v for t in q.quants for v in t), readonly=True) if q.quants else None
        ob = GBuf(lib, cap, 0, FILL_OUT)
        keep += [b for b in (rb, tb, qb, ob) if b]
        c.handle = None if fresh else enc.handle
        c.fresh, c.fmt, c.cflags = int(fresh), enc.fmt, enc.flags
        c.out, c.cap, c.buf = ob.p, cap, q.img.at(0, 0) + q.off
        c.w, c.h, c.stride = enc.w, enc.h, q.img.stride
        c.regions, c.nregions, c.tiles, c.ntiles = rb.p, len(q.regs), tb.p, len(q.tiles)
        c.quants, c.nquants, c.flags = qb.p if qb else None, len(q.quants) if q.quants else 0, q.flags
        return ob

    def branches(self, enc, q, cap, fresh, most=4000000):
        """the code addresses one call passes, in order"""
        c = Call()
        keep = []
        self._call(c, enc, q, cap, fresh, keep)
        pcs = (C.c_size_t * most)()
        n = self.lib.c.shim_branches(c, pcs, most)
        for b in keep:
            b.free()
        return pcs[:n]

    def race(self, pair, stops):
        """pair: two (encoder, request, capacity, fresh); -> [(ret, bytes, message)] of both"""
        cs = (Call * 2)()
        keep = []
        obs = [self._call(cs[i], *pair[i], keep) for i in range(2)]
        flat = [v for s in stops for v in s]
        self.lib.c.shim_race(cs, (C.c_long * max(1, len(flat)))(*flat), len(stops))
        res = []
        f = 0
        for i in range(2):
            enc, q, cap, fresh = pair[i]
            c = cs[i]
            f = f or c.fault
            out = b''
            if not c.fault and c.ret >= 0 and 0 <= c.bytes <= cap:
                out = obs[i].read(c.bytes)
            res.append((c.ret, c.bytes, out, c.fault))
        for b in keep:
            b.free()
        return res, f

    def agree(self, group, value, what):
        """value: bytes (digested) or a list of ints"""
        if isinstance(value, (bytes, bytearray)):
            value = [len(value)] + self.lib.digest(value)
        self.log(ev='agree', g=group, res=value, what=what)

    def rlgr(self, which, coefs, size, diff=0, ofill=FILL_OUT, log=True, ref=0, dec=0):
        lib = self.lib
        cb = GBuf(lib, 8192, 0, 0, bytes((C.c_short * 4096)(*coefs)), readonly=(which < 2))
        ob = GBuf(lib, size, 0, ofill)
        res = C.c_int(-99)
        f = lib.c.shim_rlgr(which, cb.p, ob.p, size, diff, C.byref(res))
        ok = ob.slack_ok()
        out = ob.read(res.value) if (not f and 0 <= res.value <= size) else b''
        e = dict(ev='rlgr', ref=ref, dec=dec, which=which, diff=diff, size=size, coefs=list(coefs), ret=res.value,
                 fault=f, clean=1 if ok else 0, out=list(out))
        cb.free(); ob.free()
        if log:
            self.ev.append(e)
        if f:
            raise Fault('rlgr')
        return res.value, out, e

    def dwt(self, which, samples, q, coefs=None, n=64, log=True):
        """transform entry points; returns 4096 coefficients"""
        lib = self.lib
        ib = GBuf(lib, 4096, 0, 0, bytes(samples), readonly=True)
        qb = GBuf(lib, 5, 0, 0, bytes(q), readonly=True)
        ob = GBuf(lib, 8192, 0, 0x77, bytes((C.c_short * 4096)(*coefs)) if coefs is not None else None)
        tb = GBuf(lib, 8192, 0, 0x33)
        res = C.c_int(-99)
        off = 0
        if which == 5:
            off = 2 * (4096 - n)
        f = lib.c.shim_dwt(which, qb.p, ib.p, ob.p + off, tb.p, n, C.byref(res))
        out = list((C.c_short * 4096).from_buffer_copy(ob.read(8192))) if not f else []
        e = dict(ev='dwt', which=which, q=list(q), smp=list(samples), cin=list(coefs) if coefs is not None else [],
                 n=n, ret=res.value, fault=f, out=out)
        for b in (ib, qb, ob, tb):
            b.free()
        if log:
            self.ev.append(e)
        if f:
            raise Fault('dwt')
        return e
