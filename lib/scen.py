"""Scenario generators.  units(id, tier, seed) lists the independent pieces of
trace a check consists of; PLAN says which aspects of the trace specification
and which runs of the design specification belong to the check."""
import ctypes as C
import random, threading
import model, stim, wire
from kit import *

# id -> aspects judged on the recorded traces
ASPECTS = {
    'C01': ['frame'],
    'C02': ['echo'],
    'C03': ['seq'],
    'C04': ['mem'],
    'C05': ['fail', 'seq', 'agree'],
    'C06': ['prefix', 'agree'],
    'C07': ['rlgr'],
    'C08': ['agree', 'dwt'],
    'C09': ['payload', 'dwt'],
    'C10': ['color', 'agree'],
    'C11': ['client', 'agree'],
    'C12': ['alpha', 'agree'],
    'C13': ['payload', 'agree'],
    'C14': ['payload', 'choice', 'agree'],
    'C15': ['agree', 'seq'],
    'C16': ['agree', 'known'],
    'C17': ['resource'],
}

class Job:
    def __init__(self, name, fn, cost=1.0, px=False, decode=0, lib=''):
        self.name, self.fn, self.cost, self.px, self.decode, self.lib = name, fn, cost, px, decode, lib

GEN = {}
def gen(pid):
    def d(f):
        GEN[pid] = f
        return f
    return d

# jobs that also run on the 32-bit library with its own assembler and on the library without any,
# by the beginnings of their names
TWINS = {'C01': 'mixed session', 'C02': 'mixed session', 'C03': 's k l', 'C04': 'sweep fence placed planes s', 'C05': 's fp fc stop edge deep',
         'C06': 's resume stops edge', 'C07': 'each- dec- blk size', 'C08': 'path- dwt', 'C09': 'kind- tab- mix fmt entry',
         'C10': 'fmt size cube yuv pro same', 'C11': 'c- p- cm pm flat', 'C12': 'a- as- am-', 'C13': 's t edge', 'C14': 'kind- tab- mix',
         'C15': 's m join flag', 'C16': 's env by rep scr', 'C17': 'create nomem grow s t'}
def units(pid, tier, seed):
    J = GEN[pid](tier == 'thorough', seed)
    T = [j for j in J if j.lib == '' and j.name.startswith(tuple(TWINS[pid].split())) and not j.name.startswith('stride')]
    for lib, every, first in (('x86', 6 if pid == 'C08' else 14, 2), ('plain', 24, 5)):
        for j in T[first::every]:
            t = Job(f'{j.name}@{lib}', j.fn, j.cost * 1.2, j.px, j.decode, lib)
            J.append(t)
    return J

CAPS = '{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 22}'
def session_jobs(num, seed, name, cost, px=False, calls=8, handles='{1, 2}', modes='{TRUE, FALSE}', key=6, bad=8, per=5, pos=3, cont=3, **k):
    """Jobs replaying num behaviours drawn from the session specification"""
    B = model.behaviours(num, seed, calls=calls, key=key, bad=bad, depth=60 * calls // 4 + 60, handles=handles, modes=modes,
                         pos='{%s}' % ', '.join(map(str, range(1, pos + 1))), content='{%s}' % ', '.join(map(str, range(cont))), tiles=3, caps=CAPS)
    jobs = []
    for i in range(0, len(B), per):
        def fn(u, bs=B[i:i + per]):
            for b in bs:
                replay(u, b, npos=pos, ncont=cont, **k)
                u.finish()
        jobs.append(Job(f'{name}{i}', fn, cost * len(B[i:i + per]), px))
    return jobs

# ---------------------------------------------------------------- C01, C02
def mixed(u, n, echo=False):
    """random configurations and requests, a few calls each"""
    r = u.r
    for _ in range(n):
        fmt = r.randrange(5)
        fl = any_flags(r, pro=(fmt == YUV and r.random() < .5))
        e = u.create(fmt, fl, r.choice([0, 1, 64, 255, 256, 1920, 4096, 32768, 65535, r.randrange(1, 65536)]),
                     r.choice([0, 1, 64, 255, 256, 1080, 4096, 32767, 65535, r.randrange(1, 65536)]), ex=r.randrange(2))
        img, w, h, cells = u.picture(fmt, r.choice([1, 2, 3]), r.choice([1, 2]),
                                     kinds=['flat', 'edge', 'low', 'text', 'blocks', 'dots', 'gradh', 'bars'] if r.random() < .85 else None)
        for _ in range(r.randrange(2, 7)):
            nq = r.choice([1, 2, 3, 17])
            q = Req(img, u.tiles(cells, r.randrange(0, 6), nq), u.rects(r.choice([0, 1, 1, 2, 3, 20])), u.tables(nq),
                    flags=r.choice([0, 0, E_ALPHA, E_KEY, E_ALPHA | E_KEY, 2, 4, 64]), ex=r.choice([0, 1, 1, 1]))
            if r.random() < .3:
                q.quants, q.nq = None, r.choice([0, 0, 1, 2, 3, 17, 255])
                q.tiles = [t[:4] + (0, 0, 0) for t in q.tiles]
            cap = q.ample() if r.random() < .6 else r.choice([r.randrange(40, 400), 25000 + r.randrange(60000), r.randrange(q.ample()), r.randrange(30, 3000)])
            u.enc(e, q, cap)
        u.destroy(e)

def many_tiles(u, n, fmt, fl, flags=0, kinds=('flat',)):
    e = u.create(fmt, fl, 4096, 4096)
    img, w, h, cells = u.picture(fmt, 3, 2, kinds=list(kinds))
    q = Req(img, u.tiles(cells, n, 1), u.rects(1), u.tables(1, ['coarse']), flags=flags)
    u.enc(e, q, min(q.ample(), 64 * n + 400000) if len(kinds) == 1 else None)
    u.enc(e, q, min(q.ample(), 64 * n + 400000) if len(kinds) == 1 else None)

def far_tiles(u, n, fmts=(0, 1, 2, 3, 4)):
    """tile coordinates over the whole 16-bit range of the wire format"""
    r = u.r
    for _ in range(n):
        fmt = r.choice(fmts)
        pro = fmt == YUV and r.random() < .5
        e = u.create(fmt, any_flags(r, pro=pro), 65535, 65535)
        img, w, h, cells = u.picture(fmt, 1, 1, kinds=['low', 'flat'], pad=0, exact=True)
        for _ in range(4):
            lim = 64 if pro else 65536
            gx, gy = (r.choice([0, 1, 63, 64, 127, 128, 255, 256, 257, 511, 1023, 4095, 32767, 32768, 65535, r.randrange(65536)]) % lim for _ in range(2))
            x, y = 64 * gx, 64 * gy
            off = -((y << 8) + (x << 8)) if fmt == YUV else -(y * img.stride + x * BPP[fmt])
            q = Req(img, [(x, y, 64, 64, 0, 0, 0)], quants=None, off=off, flags=r.choice([0, E_ALPHA]), nq=r.choice([0, 0, 4]))
            u.enc(e, q)
        u.destroy(e)

def many_quants(u, n, fmt, fl):
    r = u.r
    e = u.create(fmt, fl, 300, 200)
    img, w, h, cells = u.picture(fmt, 2, 1, kinds=['flat', 'low'])
    for _ in range(2):
        q = Req(img, u.tiles(cells, 5, n) + [cells[0] + (n - 1, 0, n - 1), cells[0] + (0, n - 1, 0)], u.rects(1), u.tables(n))
        u.enc(e, q)

def many_regs(u, n, fmt, fl):
    e = u.create(fmt, fl, 300, 200)
    img, w, h, cells = u.picture(fmt, 1, 1, kinds=['flat'])
    q = Req(img, u.tiles(cells, 1, 1), u.rects(n), u.tables(1))
    u.enc(e, q)
    u.enc(e, q, 47 + 30 + 8 * n + 60 + 4000 + (0 if e.pro else 74000))

def bad_counts(u, pro, fmt=YUV):
    """counts of rectangles and tables that their fields cannot hold: refused, without a trace in the stream"""
    r = u.r
    fl = any_flags(r, pro=pro)
    e = u.create(fmt, fl, 64, 64)
    img, w, h, cells = u.picture(fmt, 1, 1, kinds=['flat', 'low'], exact=True)
    hist = []
    tabs, regs = u.tables(256), u.rects(1) * 65536
    kinds = ['regs', 'regs-', 'tabs', 'tabs-', 'null']
    for k in r.sample(kinds, 5):
        q = Req(img, u.tiles(cells, 1, 1), u.rects(1), u.tables(1), flags=r.choice([0, 0, 2]))
        f = q.cut(0)
        if k == 'regs':
            f.regs = regs
        elif k == 'regs-':
            f.nr = r.choice([-1, -2, -100, -65535, -65536, -(1 << 28), -2 ** 31])
        elif k == 'tabs':
            f.quants = tabs * r.choice([1, 1, 2])
            f.tiles = [t[:4] + tuple(r.choice([0, 255, len(f.quants) - 1]) for _ in range(3)) for t in f.tiles]
        elif k == 'tabs-':
            f.nq = r.choice([-1, -2, -100, -256, -2 ** 31])
            if r.random() < .5:
                f.tiles = []
        else:
            # no tables: their number means nothing
            f.quants, f.nq = None, r.choice([-1, -1000, -100000])
            f.regs = u.rects(40)
            rv, n, out = u.enc(e, f, r.choice([60, 100, 150, 300, 380, 400, f.ample()]))
            if rv >= 0:
                hist.append(f.cut(0, rv))
            continue
        rv, n, out = u.enc(e, f, f.ample() + 1000)
        if rv >= 0:
            hist.append(f.cut(0, rv))
        p = u.predict(e, hist, q)
        rv, n, out = u.enc(e, q)
        u.same(p[2], out, 'message of an encoder that saw no failing call, and of this one')
        hist.append(q)

def bad_deep(u, pro, fmt=YUV):
    """an unknown table or an off-grid tile far back in a long list: refused, without a trace in the stream"""
    r = u.r
    e = u.create(fmt, any_flags(r, pro=pro), r.choice([0, 64, 4096]), r.choice([0, 64, 4096]))
    img, w, h, cells = u.picture(fmt, 2, 1, kinds=['flat', 'low'], exact=True)
    hist = []
    for n in r.sample([130, 257, 258, 300, 520, 1030, 3000], 3):
        nq = r.choice([1, 2, 255])
        q = Req(img, u.tiles(cells, 2, nq), u.rects(1), u.tables(nq, ['coarse']))
        f = Req(img, [cells[i % 2] + (0, nq - 1, 0) for i in range(n)], q.regs, q.quants)
        i = r.choice([n - 1, n - 2, min(n - 1, 256), min(n - 1, 255), r.randrange(n // 2, n)])
        t = list(f.tiles[i])
        if pro and r.random() < .5:
            t[r.randrange(2)] = r.choice([4096, 4096 + 64, 8192, -64, -4096, 65536 * 64])
        else:
            t[4 + r.randrange(3)] = r.choice([nq, nq + 1, -1, 256, 65536, -256, 2 ** 31 - 1, -2 ** 31])
        f.tiles[i] = tuple(t)
        p = u.predict(e, hist, q)
        u.enc(e, f, r.choice([f.ample(), 400000, 60 * n]))
        rv, k, out = u.enc(e, q)
        u.same(p[2], out, 'message of an encoder that saw no failing call, and of this one')
        hist.append(q)
    u.destroy(e)

def huge_list(u, n, fmt, fl, cap=1 << 23):
    """more tiles than a message can count"""
    e = u.create(fmt, fl, 64, 64)
    img, w, h, cells = u.picture(fmt, 1, 1, kinds=['flat'], exact=True)
    q = Req(img, [cells[0] + (0, 0, 0)] * n, quants=u.tables(1, ['coarse']))
    u.enc(e, q, cap)

def long_message(u, fmt, fl, flags=0, n=2500):
    """tile data of more than 16 MB"""
    e = u.create(fmt, fl, 4096, 4096)
    img, w, h, cells = u.picture(fmt, 3, 3, kinds=['noise'], exact=True)
    # tables in turn: differences from the tile before must not be short
    q = Req(img, [cells[i % 9] + (i // 9 % 2,) * 3 for i in range(n)], quants=[stim.FINEST, (0x66, 0x66, 0x66, 0x76, 0x77)], flags=flags)
    for c in (q.ample(), q.ample() // 8):
        u.enc(e, q, c, timed=60, long=lambda b: wire.parts(b, e.pro, bool(flags & E_ALPHA)))
    u.destroy(e)

def big_message(u, fmt, fl, n, flags=0):
    e = u.create(fmt, fl, 4096, 4096)
    img, w, h, cells = u.picture(fmt, 3, 3, kinds=['noise'])
    q = Req(img, (u.tiles(cells, n, 1)), quants=[stim.FINEST], flags=flags)
    u.enc(e, q)
    u.enc(e, q, q.ample() // 2)

def shape_jobs(thorough, echo):
    J = []
    k = 6 if thorough else 1
    for i in range(40 * k):
        J.append(Job(f'mixed{i}', lambda u: mixed(u, 7), 1.2))
    for i in range(8 * k):
        J.append(Job(f'far{i}', lambda u: far_tiles(u, 8), .3))
    confs = [(0, 0), (3, F_RLGR1), (4, 0), (4, F_PRO1)]
    for n in (255, 256, 257, 300, 700) + ((4000, 30000, 65535) if thorough else ()):
        for fmt, fl in confs:
            for fg in ((0, E_ALPHA) if not fl & F_PRO1 else (0,)):
                J.append(Job(f'tiles{n}-{fmt}-{fl}-{fg}', lambda u, a=(n, fmt, fl, fg): many_tiles(u, *a), n / 300))
    for n in (1, 2, 127, 128, 129, 254, 255):
        for fmt, fl in confs:
            J.append(Job(f'quants{n}-{fmt}-{fl}', lambda u, a=(n, fmt, fl): many_quants(u, *a), .1))
    for n in (0, 1, 2, 255, 256, 257, 3000, 32768, 65535):
        for fmt, fl in ((0, 0), (4, F_PRO1)):
            J.append(Job(f'regs{n}-{fmt}-{fl}', lambda u, a=(n, fmt, fl): many_regs(u, *a), n / 8000))
    for fmt, fl in confs:
        for fg in ((0, E_ALPHA) if not fl & F_PRO1 else (0,)):
            J.append(Job(f'big-{fmt}-{fl}-{fg}', lambda u, a=(fmt, fl, 9, fg): big_message(u, *a), 1))
    for i, (fmt, fl, fg) in enumerate(((1, 0, 0), (0, F_RLGR1, E_ALPHA), (YUV, F_PRO1, 0))):
        J.append(Job(f'long{i}', lambda u, a=(fmt, fl, fg): long_message(u, *a), 1))
    for i in range(6 * k):
        J.append(Job(f'counts{i}', lambda u, i=i: bad_counts(u, i % 2 == 0, YUV if i % 2 == 0 else u.r.randrange(5)), .6))
    J.append(Job('list-c', lambda u: huge_list(u, 65536 + u.r.randrange(3), u.r.randrange(5), 0), 8))
    J.append(Job('list-p', lambda u: huge_list(u, 65536 + u.r.randrange(3), YUV, F_PRO1), 8))
    for i in range(3 * k):
        J.append(Job(f'scarce{i}', lambda u: scarce(u, 6), .3))
    return J

@gen('C01')
def _c01(thorough, seed):
    return shape_jobs(thorough, False) + session_jobs(400 if thorough else 60, seed, 'session', .1, alpha=True, fmt_of=lambda r: r.randrange(5))

@gen('C02')
def _c02(thorough, seed):
    return shape_jobs(thorough, True) + session_jobs(300 if thorough else 40, seed, 'session', .1, alpha=True, fmt_of=lambda r: r.randrange(5))

# ---------------------------------------------------------------- C03
def bursts(u, count, pro, fmt=YUV, fl=0, tiles=0):
    """long runs of calls on one encoder, with failing calls and (progressive) key frames in between"""
    r = u.r
    e = u.create(fmt, fl | (F_PRO1 if pro else 0), *(r.choice([0, 1, 64, 64, 1920, 65535]) for _ in 'wh'), ex=r.randrange(2))
    img, w, h, cells = u.picture(fmt, 1, 1, kinds=['flat'], exact=True)
    t = [cells[0] + (0, 0, 0)] * tiles
    q = Req(img, t)
    no = 0
    for k in range(3):
        if k == 1:
            u.enc(e, q, 5)
            u.enc(e, q, 60)
        if k == 2 and pro:
            q.flags = E_KEY
            no = 0
        u.enc(e, q); no += 1
        q.flags = 0
        u.enc(e, q); no += 1
        n = count if k == 0 else r.randrange(2, 400)
        u.rec.burst(e, img, q.tiles, 200 + 400 * max(1, tiles), n, no, every=997 if n < 10 ** 6 else 99991, regs=[(0, 0, 64, 64)], ex=r.randrange(2))
        no += n
        u.enc(e, q); no += 1
    u.destroy(e)

@gen('C03')
def _c03(thorough, seed):
    J = session_jobs(1500 if thorough else 320, seed, 's', .1, calls=8)
    J += session_jobs(400 if thorough else 60, seed + 1, 'k', .12, calls=10, handles='{1}', modes='{TRUE}', key=3, bad=5)
    J += session_jobs(200 if thorough else 30, seed + 2, 'l', .3, calls=24, handles='{1}', key=9, bad=6, per=2)
    J += session_jobs(200 if thorough else 30, seed + 3, 'f', .15, fmt_of=lambda r: r.randrange(5), alpha=True)
    for i, (fmt, fl) in enumerate([(0, 0), (1, F_RLGR1), (2, F_NOACCEL), (3, 0), (4, 0)]):
        J.append(Job(f'burst{i}', lambda u, a=(fmt, fl): bursts(u, 70000, False, *a), 1))
        J.append(Job(f'burst-t{i}', lambda u, a=(fmt, fl): bursts(u, 300, False, *a, 1), .5))
    J.append(Job('burst-pro', lambda u: bursts(u, 66000, True, tiles=1), 12))
    J.append(Job('burst-long', lambda u: bursts(u, (1 << 24) + 1000, False), 4))
    if thorough:
        J.append(Job('burst-2^31', lambda u: bursts(u, (1 << 31) - 1000, False), 60))
    return J

# ---------------------------------------------------------------- C04
def sweep(u, fmt, fl, flags, kinds, table, ntiles, nregs, nq, caps, place, oplace, exact=False):
    r = u.r
    img, w, h, cells = u.picture(fmt, 2, 1, kinds=kinds, exact=exact)
    q = Req(img, (cells * ntiles)[:ntiles], u.rects(nregs), [table] * nq if nq else None, flags=flags)
    q.tiles = [t + (r.randrange(max(1, nq)), 0, max(0, nq - 1)) for t in q.tiles]
    if not nq:
        q.nq = r.choice([0, 0, 2, 60])
    e = u.create(fmt, fl, 128, 64)
    full = u.predict(e, [], q)
    n = full[1]
    if caps == 'low':
        cs = list(range(0, min(n, 260) + 1))
    elif caps == 'ends':
        al = bool(flags & E_ALPHA)
        d = wire.split(full[2], e.pro, al) or dict(hdr=0, begin=0, region=0, tiles=[], end=0)
        pts = {d['hdr'], d['begin'], d['region'], d['end'], n}
        for a, b in d['tiles']:
            pts |= {a, b, a + 19, a + 21, a + 22, a + 24595, a + 19 + 24595, a + 21 + 24595, b + 24595}
            hl = 22 if e.pro else 21 if al else 19
            p = a + hl
            for j in range(3):
                p += int.from_bytes(full[2][a + (14 if e.pro else 13) + 2 * j:a + (16 if e.pro else 15) + 2 * j], 'little')
                pts |= {p, p + 24595}
        cs = sorted({c + k for c in pts for k in range(-10, 11) if 0 <= c + k} | {q.ample()})
    elif caps == 'walk':
        # every capacity over a stretch of the entropy-coded data
        a = r.randrange(max(1, n - 300))
        cs = list(range(a, a + 300))
    else:
        cs = [r.randrange(0, n + 26000) for _ in range(150)]
    for c in cs:
        k = r.random()
        if e.pro and k < .5:
            q.flags = flags | E_KEY        # keep the full size: difference tiles would be short
        else:
            q.flags = flags
        q.ex = 1
        u.enc(e, q, c, place=place, oplace=oplace, light=True)
    u.destroy(e)

def fenced(u, n):
    """rows that end (or begin) at inaccessible memory"""
    r = u.r
    for _ in range(n):
        fmt = r.randrange(4)
        e = u.create(fmt, any_flags(r, pro=False), 64, 64)
        for _ in range(6):
            cx, cy = r.choice([1, 2, 63, 64, r.randrange(1, 65)]), r.choice([1, 2, 63, 64, r.randrange(1, 65)])
            img = u.rec.image(stim.packed(r, cx, cy, BPP[fmt]), cx * BPP[fmt])
            tx, ty = r.choice([0, 64, 640]), r.choice([0, 64, 640])
            u.rec.encode_fenced(e, img, cx, cy, (tx, ty, cx, cy, 0, 0, 0), 90000, quants=[stim.table(r)],
                                flags=r.choice([0, E_ALPHA]) if fmt < 2 else 0, right=r.random() < .6)
        u.destroy(e)

def placed(u, n):
    """images that end or begin at inaccessible memory; single tiles of larger images; all formats"""
    r = u.r
    for _ in range(n):
        fmt = r.randrange(5)
        e = u.create(fmt, any_flags(r, pro=(fmt == YUV and r.random() < .5)), 64, 64)
        for _ in range(4):
            img, w, h, cells = u.picture(fmt, r.choice([1, 1, 2]), r.choice([1, 2]))
            q = Req(img, u.tiles(cells, r.randrange(1, 4), 2), u.rects(r.randrange(3)), u.tables(2), flags=r.choice([0, E_ALPHA] if fmt in (0, 1, 4) else [0]))
            u.enc(e, q, r.choice([None, None, r.randrange(100, 100000)]), place=r.randrange(2), oplace=r.randrange(2), light=True)
        u.destroy(e)

def planes(u, n):
    """tiles anywhere in the grid; all but the planes asked for is inaccessible"""
    r = u.r
    for _ in range(n):
        pro = r.random() < .5
        e = u.create(YUV, any_flags(r, pro=pro), 4096, 4096)
        for _ in range(3):
            x, y = (r.choice([0, 1, 31, 32, 62, 63, r.randrange(64)]) for _ in 'xy')
            W = r.choice([64, x + 1, x + 2, 100])
            d = {y * W + x: stim.yuv_tile(r)}
            for k in (1, W, W + 1):
                if r.random() < .5:
                    d[y * W + x + k] = stim.yuv_tile(r)
            img = u.rec.yuv_image(d, 256 * W)
            ts = [t for t in [(x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)] if t[1] * W + t[0] in d and t[0] < min(W, 64) and t[1] < 64]
            ts = [(64 * a, 64 * b, 64, 64, 0, 0, 0) for a, b in r.sample(ts, r.randrange(1, len(ts) + 1))]
            u.enc(e, Req(img, ts, u.rects(1), u.tables(1), flags=r.choice([0, E_ALPHA]), off=-16384 * img.lo),
                  r.choice([None, None, r.randrange(100, 100000)]), place=r.randrange(2), oplace=r.randrange(2), light=True)
        u.destroy(e)

NOISY = ['noise', 'extreme', 'check', 'rownoise', 'dots']
@gen('C04')
def _c04(thorough, seed):
    J = []
    r = random.Random(f'C04/{seed}')
    confs = [(0, 0), (0, F_RLGR1), (1, F_NOACCEL), (2, 0), (3, F_RLGR1 | F_NOACCEL), (4, 0), (4, F_RLGR1), (4, F_PRO1), (4, F_PRO1), (4, F_PRO1), (4, F_PRO1)]
    reps = 6 if thorough else 1
    i = 0
    for rep in range(reps):
        for fmt, fl in confs:
            for fg in ((0, E_ALPHA) if fmt in (0, 1, 4) and not fl & F_PRO1 else (0,)):
                for caps in ('low', 'ends', 'rnd', 'walk'):
                    for kinds in (['noise'], ['flat'], NOISY) if caps != 'low' else (NOISY,):
                        nq, nr, nt = r.choice([0, 1, 1, 2, 9]), r.choice([0, 1, 3, 12]), r.choice([1, 2, 2, 3])
                        tab = r.choice([stim.FINEST, stim.DEFAULTQ, stim.table(r)])
                        J.append(Job(f'sweep{i}', lambda u, a=(fmt, fl, fg, kinds, tab, nt, nr, nq, caps, r.randrange(2), r.randrange(2)): sweep(u, *a), .35))
                        i += 1
    for i in range(16 * reps):
        J.append(Job(f'fence{i}', lambda u: fenced(u, 8), .15))
        J.append(Job(f'placed{i}', lambda u: placed(u, 12), .15))
    for i in range(6 * reps):
        J.append(Job(f'counts{i}', lambda u, i=i: bad_counts(u, i % 2 == 0, YUV if i % 2 == 0 else u.r.randrange(5)), .6))
    J += session_jobs(60 * reps, seed, 's', .06, light=True, fmt_of=lambda r: r.randrange(5), alpha=True)
    for i in range(12 * reps):
        J.append(Job(f'planes{i}', lambda u: planes(u, 12), .15))
    def bare(j):
        def fn(u, f=j.fn):
            u.rec.bare = True
            f(u)
        j.fn = fn
    for j in J:
        bare(j)
    return J

# ---------------------------------------------------------------- C05
def failures(u, n, pro, fmt=YUV):
    """each kind of failing call between successful ones; everything compared with a twin that never sees the failures"""
    r = u.r
    for _ in range(n):
        fl = r.choice([0, F_RLGR1]) | r.choice([0, F_NOACCEL]) | (F_PRO1 if pro else 0)
        e = u.create(fmt, fl, 128, 128)
        tw = u.q_create(fmt, fl, 128, 128)
        img, w, h, cells = u.picture(fmt, 2, 2, kinds=['low', 'text', 'flat', 'dots', 'noise'], exact=True)
        for _ in range(r.randrange(3, 8)):
            nq = r.choice([1, 2, 5, 255])
            q = Req(img, u.tiles(cells, r.randrange(1, 5), nq), u.rects(r.randrange(3)), u.tables(nq), flags=r.choice([0, 0, 2, E_ALPHA if fmt != 2 and fmt != 3 else 0]))
            for _ in range(r.choice([0, 1, 1, 2])):
                k = r.choice(['bad', 'bad', 'cap', 'cap', 'oom'])
                f = q.cut(0)
                if k == 'bad':
                    got = u.enc(e, spoil(r, f, nq, pro), r.choice([None, None, 100]))
                elif k == 'oom' and pro:
                    got = u.enc(e, f, fail=r.randrange(1, 1 + len(f.tiles)))
                else:
                    # capacities mostly refused, in the header, frame begin or region
                    got = u.enc(e, f, r.choice([0, 1, 11, 12, 13, 21, 22, 23, 24, 33, 34, 35, 46, 47, 48, 60, 61, 62, r.randrange(90), r.randrange(200)]))
                if got[0] >= 0:
                    # it did not fail after all: the twin gets what was delivered
                    u.q_enc(tw, f.cut(0, got[0]))
            rv, n1, out = u.enc(e, q)
            rv2, n2, out2 = u.q_enc(tw, q)
            u.same(out2, out, 'message of an encoder that saw no failing call, and of this one')
        u.q_destroy(tw)
        u.destroy(e)

def each_stop(u, pro, fmt, fl, thorough):
    """a call that fails at every capacity, each followed by a successful one"""
    r = u.r
    img, w, h, cells = u.picture(fmt, 2, 1, kinds=['text', 'low'], exact=True)
    q = Req(img, u.tiles(cells, 2, 2), u.rects(1), u.tables(2))
    e = u.create(fmt, fl, 128, 64)
    hist = []
    full = u.predict(e, [], q)
    top = min(full[1], 110 if not pro else full[1])
    caps = list(range(0, top)) if thorough else sorted({r.randrange(top) for _ in range(24)} | set(range(20, min(top, 110), 7)) | {0, top - 1})
    i = 0
    for c in caps:
        rv, n, out = u.enc(e, q, c)
        if rv >= 0:
            hist.append(q.cut(0, rv))
        if i % 3 == 0:
            p = u.predict(e, hist, q)
            rv, n, out = u.enc(e, q)
            u.same(p[2], out, 'message of an encoder that saw no failing call, and of this one')
            hist.append(q)
            if len(hist) > 12:
                u.destroy(e)
                e = u.create(fmt, fl, 128, 64)
                hist = []
        i += 1

def bounds(msg, d, pro, al):
    """where the components of the tiles of a message end"""
    pts = []
    hl, at = (22, 14) if pro else (21, 13) if al else (19, 13)
    for a, b in d['tiles']:
        p = a + hl
        row = [p]
        for j in range(3):
            p += int.from_bytes(msg[a + at + 2 * j:a + at + 2 * j + 2], 'little')
            row.append(p)
        pts.append(row + [b])
    return pts

def edge_stops(u, n, fmt, fl, agree=True, kinds=('low', 'text', 'dots', 'noise', 'blocks', 'edge'), steps=5):
    """calls that run out of room inside or just after a chosen component of a tile, the picture changing all the time"""
    r = u.r
    pro = bool(fl & F_PRO1)
    for _ in range(n):
        e = u.create(fmt, fl, 128, 64)
        hist = []
        if fmt == YUV:
            cur = {i: stim.yuv_tile(r, list(kinds)) for i in range(2)}
        tabs = u.tables(2, ['finest', 'mid', 'default'])
        def fresh():
            if fmt == YUV:
                for i in cur:
                    if r.random() < .8:
                        cur[i] = mutate(r, cur[i]) if r.random() < .8 else stim.yuv_tile(r, list(kinds))
                img = u.rec.yuv_image(dict(cur), 512)
                cells = [(0, 0, 64, 64), (64, 0, 64, 64)]
            else:
                img, w, h, cells = u.picture(fmt, 2, 1, kinds=list(kinds), exact=True)
            return Req(img, u.tiles(cells, r.choice([1, 1, 2, 3]), 2), u.rects(1), tabs)
        q = fresh()
        if r.random() < .8:
            u.enc(e, q)
            hist.append(q)
        for _ in range(steps):
            q = fresh()
            for _ in range(r.choice([1, 1, 2])):
                full = u.predict(e, hist, q)
                d = wire.split(full[2], pro, False) if full[0] >= 0 else None
                if not d:
                    break
                row = r.choice(bounds(full[2], d, pro, False))
                cap = row[r.choice([0, 1, 2, 3, 3, 4, 4])] + (6 if pro else r.choice([0, 8, 8 + 24595, 24595])) + r.choice([0, -1, -1, -2, -3, -4, -5, -6, -7, -8, 1, 2, -r.randrange(40)])
                rv, nn, out = u.enc(e, q, max(0, cap), ofill=r.choice([0, 0x5c, 0xff]))
                if rv >= 0:
                    hist.append(q.cut(0, rv))
            q = fresh()
            p = u.predict(e, hist, q) if agree else None
            rv, nn, out = u.enc(e, q)
            if agree:
                u.same(p[2], out, 'message of an encoder that saw no failing call, and of this one')
            hist.append(q)
        u.destroy(e)

@gen('C05')
def _c05(thorough, seed):
    k = 9 if thorough else 1
    J = session_jobs(160 * k, seed, 's', .15, agree={'twin'}, bad=4, key=8, per=4)
    J += session_jobs(60 * k, seed + 1, 'p', .15, agree={'twin'}, bad=4, key=12, modes='{TRUE}', handles='{1}', calls=10, per=4)
    J += session_jobs(30 * k, seed + 2, 'f', .15, agree={'twin'}, bad=4, key=8, fmt_of=lambda r: r.randrange(5), per=4)
    for i in range(40 * k):
        J.append(Job(f'fp{i}', lambda u: failures(u, 3, True), .3))
        J.append(Job(f'fc{i}', lambda u: failures(u, 2, False, u.r.randrange(5)), .3))
    for i, (fmt, fl) in enumerate([(4, F_PRO1), (4, F_PRO1), (4, 0), (0, F_RLGR1), (3, F_NOACCEL)]):
        for j in range(2 * k):
            J.append(Job(f'stop{i}-{j}', lambda u, a=(bool(fl & F_PRO1), fmt, fl, thorough): each_stop(u, *a), 1))
    for i in range(12 * k):
        J.append(Job(f'counts{i}', lambda u: bad_counts(u, False, u.r.randrange(5)), .5))
        J.append(Job(f'countsp{i}', lambda u: bad_counts(u, True), .5))
    for i in range(6 * k):
        J.append(Job(f'deepp{i}', lambda u: bad_deep(u, True), .5))
        J.append(Job(f'deep{i}', lambda u: bad_deep(u, False, u.r.randrange(5)), .5))
    for i in range(24 * k):
        J.append(Job(f'edge{i}', lambda u: edge_stops(u, 3, YUV, F_PRO1 | u.r.choice([0, F_NOACCEL])), .5))
    for i in range(8 * k):
        J.append(Job(f'edgec{i}', lambda u: edge_stops(u, 2, u.r.randrange(5), any_flags(u.r, pro=False)), .5))
    return J

# ---------------------------------------------------------------- C06
def resume(u, n):
    """deliver a list of tiles through buffers that are too short, comparing with the ample encoding"""
    r = u.r
    for _ in range(n):
        fmt = r.choice([4, 4, 4, 0, 1, 2, 3])
        pro = fmt == YUV and r.random() < .6
        fl = any_flags(r, pro=pro)
        img, w, h, cells = u.picture(fmt, 3, 2, kinds=r.choice([['noise'], ['low', 'text', 'flat'], None]))
        nq = 2
        q = Req(img, u.tiles(cells, r.randrange(1, 9), nq), u.rects(1), u.tables(nq), flags=r.choice([0, E_ALPHA]) if fmt in (0, 1, 4) and not pro else 0)
        e = u.create(fmt, fl, 192, 128)
        tw = u.q_create(fmt, fl, 192, 128)
        for rnd in range(r.choice([1, 2])):
            full = u.q_enc(tw, q)
            al = bool(q.flags & E_ALPHA)
            d = wire.split(full[2], pro, al)
            parts = []
            rest = q
            stuck = 0
            while rest.tiles and stuck < 12:
                done = len(q.tiles) - len(rest.tiles)
                rg = d['region'] if d else 100
                cut = r.randrange(done, len(q.tiles)) if d and len(d['tiles']) == len(q.tiles) else 0
                size = (d['tiles'][cut][1] - d['tiles'][done][0]) if d and len(d['tiles']) == len(q.tiles) else 30000
                base = rg + size + (6 if pro else 8)
                cap = r.choice([base, base - 1, base + 1, base + r.randrange(40), base - r.randrange(10), base + (0 if pro else 24595), base + r.randrange(0, 30000)]) if stuck < 8 else rest.ample()
                rv, nn, out = u.enc(e, rest, max(0, cap))
                if rv < 0 or rv > len(rest.tiles):
                    stuck += 1
                    continue
                s = wire.split(out, pro, al)
                if s:
                    parts += [out[a:b] for a, b in s['tiles']]
                if rv == 0:
                    stuck += 1
                rest = rest.cut(rv)
            if d and not rest.tiles:
                u.same(b''.join(full[2][a:b] for a, b in d['tiles']), b''.join(parts), 'tiles delivered piecewise and at once')
            if r.random() < .5:
                img, w, h, cells = u.picture(fmt, 3, 2, kinds=['low', 'text'])
                q = Req(img, u.tiles(cells, 3, 2), q.regs, q.quants, q.flags)
        u.q_destroy(tw)
        u.destroy(e)

def scarce(u, n, kinds=('low', 'flat', 'text', 'dots')):
    """one of the allocations of a call fails, in front of tiles that need none or get theirs; then the rest is asked for"""
    r = u.r
    for _ in range(n):
        e = u.create(YUV, F_PRO1 | r.choice([0, F_NOACCEL]), 192, 128)
        img, w, h, cells = u.picture(YUV, 3, 2, kinds=list(kinds), exact=True)
        known = r.sample(cells, r.randrange(1, 4))
        u.enc(e, Req(img, [c + (0, 0, 0) for c in known], quants=u.tables(1)))
        img, w, h, cells = u.picture(YUV, 3, 2, kinds=list(kinds), exact=True)
        new = [c for c in cells if c not in known]
        order = r.sample(cells, len(cells))
        q = Req(img, [c + (0, 0, 0) for c in order] + [c + (0, 0, 0) for c in r.sample(cells, 2)], quants=u.tables(1))
        for _ in range(3):
            rv, _, _ = u.enc(e, q, fail=r.randrange(1, len(new) + 1), fail_all=r.randrange(2))
            if rv > 0:
                q = q.cut(rv)
            if not q.tiles:
                break
        if q.tiles:
            u.enc(e, q)
        u.destroy(e)

def stops(u, fmt, fl, flags, thorough):
    """one request at many capacities: tiles are always a prefix, encoded alike"""
    r = u.r
    img, w, h, cells = u.picture(fmt, 2, 2, kinds=['low', 'text', 'flat', 'gradh'])
    q = Req(img, u.tiles(cells, 4, 2), u.rects(1), u.tables(2), flags=flags)
    pro = bool(fl & F_PRO1)
    e0 = u.create(fmt, fl, 128, 128)
    full = u.predict(e0, [], q)
    n = full[1]
    u.destroy(e0)
    d = wire.split(full[2], pro, bool(flags & E_ALPHA) and not pro)
    pts = []
    if d:
        for a, b in d['tiles'][:4]:
            pts += [b + k for k in (5, 6, 7, 8, 9, 22, 24595, 24595 + 19, 24595 + 21, 24595 + 27, 24594)]
    for c in (pts if thorough else r.sample(pts, min(22, len(pts)))) + [r.randrange(n + 25000) for _ in range(30 if thorough else 10)] + [q.ample()]:
        e = u.create(fmt, fl, 128, 128)
        rv, nn, out = u.enc(e, q, c)
        if rv >= 0:
            share_tiles(u, e, q, full[2], out)
        u.destroy(e)

def edge_tiles(u, n, fmt, fl):
    """changing pictures, buffers that end near the end of a component: tiles as in an ample buffer, nothing lost"""
    r = u.r
    pro = bool(fl & F_PRO1)
    for _ in range(n):
        e = u.create(fmt, fl, 128, 64)
        hist = []
        al = fmt in (0, 1, 4) and not pro and r.random() < .4
        tabs = u.tables(2, ['finest', 'mid', 'default'])
        cur = {i: stim.yuv_tile(r, ['low', 'text', 'dots', 'noise']) for i in range(2)}
        for _ in range(5):
            if fmt == YUV:
                for i in cur:
                    cur[i] = mutate(r, cur[i]) if r.random() < .8 else stim.yuv_tile(r, ['low', 'text', 'noise'])
                img = u.rec.yuv_image(dict(cur), 512)
                cells = [(0, 0, 64, 64), (64, 0, 64, 64)]
            else:
                img, w, h, cells = u.picture(fmt, 2, 1, kinds=['low', 'text', 'dots', 'noise'])
            q = Req(img, u.tiles(cells, r.choice([1, 2, 3]), 2), u.rects(1), tabs, flags=E_ALPHA if al else 0)
            for _ in range(6):
                full = u.predict(e, hist, q)
                d = wire.split(full[2], pro, al) if full[0] >= 0 else None
                if not d:
                    break
                row = r.choice(bounds(full[2], d, pro, al))
                cap = row[r.choice([0, 1, 2, 3, 3, 4, 4])] + (6 if pro else r.choice([0, 8, 8 + 24595, 24595])) + r.choice([0, -1, -1, -2, -3, -4, -5, -6, -7, -8, 1, 2, -r.randrange(40)])
                rv, nn, out = u.enc(e, q, max(0, cap))
                if rv >= 0:
                    share_tiles(u, e, q, full[2], out)
                    hist.append(q.cut(0, rv))
                    q = q.cut(rv)
                if not q.tiles:
                    break
        u.destroy(e)

@gen('C06')
def _c06(thorough, seed):
    k = 12 if thorough else 2
    J = session_jobs(120 * k, seed, 's', .2, agree={'tiles'}, bad=20, key=12, per=4, alpha=True, fmt_of=lambda r: r.randrange(5))
    for i in range(48 * k):
        J.append(Job(f'resume{i}', lambda u: resume(u, 4), .6))
    for i, (fmt, fl, fg) in enumerate([(0, 0, 0), (0, F_RLGR1, 1), (1, F_NOACCEL, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (4, F_RLGR1, 1), (4, F_PRO1, 0), (4, F_PRO1, 0), (4, F_PRO1, 0)]):
        for j in range(k):
            J.append(Job(f'stops{i}-{j}', lambda u, a=(fmt, fl, fg, thorough): stops(u, *a), .8))
    J.append(Job('list-c', lambda u: huge_list(u, 65536 + u.r.randrange(3), u.r.randrange(5), 0), 8))
    J.append(Job('list-p', lambda u: huge_list(u, 65536 + u.r.randrange(3), YUV, F_PRO1), 8))
    for i in range(4 * k):
        J.append(Job(f'scarce{i}', lambda u: scarce(u, 6), .3))
    for i in range(24 * k):
        J.append(Job(f'edge{i}', lambda u: edge_tiles(u, 2, YUV, F_PRO1 | u.r.choice([0, F_NOACCEL])), .6))
    for i in range(12 * k):
        J.append(Job(f'edgec{i}', lambda u: edge_tiles(u, 2, u.r.randrange(5), any_flags(u.r, pro=False)), .6))
    return J

# ---------------------------------------------------------------- C07
def rlgr_blocks(u, n, kinds=None, dec=0):
    r = u.r
    for _ in range(n):
        c = stim.coefs(r, r.choice(kinds) if kinds else None)
        for which in ([0, 1, 2, 3] if r.random() < .15 else r.sample([0, 1, 2, 3], 2)):
            diff = r.choice([64, 64, 81, 81, 16, 100]) if which >= 2 else 0
            cc = c
            if which >= 2 and r.random() < .3:
                # keep the differences inside 16 bits as well as letting them wrap
                cc = c[:4096 - diff] + [max(-16000, min(16000, v)) for v in c[4096 - diff:]]
            u.rec.rlgr(which, cc, 1 << 21, diff, ofill=r.choice([0, 0x5c, 0xff, 0xaa]), dec=dec)

def rlgr_sizes(u, n):
    """buffers around and below the size needed; result must not depend on what was in the buffer"""
    r = u.r
    for _ in range(n):
        c = stim.coefs(r)
        for which in (2, 3, r.choice([0, 1])):
            diff = 0 if which < 2 else r.choice([64, 81])
            ret, out, e = u.rec.rlgr(which, c, 1 << 21, diff)
            ref = len(u.rec.ev)
            if which < 2:
                sizes = [ret + r.randrange(8, 200), 1 << 20]
            else:
                sizes = [ret, ret - 1, ret + 1, ret + 2, ret + 3, ret + 7, ret + 8, ret - r.randrange(1, 9), ret // 2, r.randrange(0, ret + 1), 0, 1, 2, 3, 4]
                sizes = r.sample(sizes, 8)
            for s in sizes:
                if s >= 0:
                    u.rec.rlgr(which, c, s, diff, ofill=r.choice([0, 0xff, 0x5c, 0xaa]), ref=ref)

def rlgr_each(u, kind, dec=0):
    r = u.r
    for which in range(4):
        diff = 0 if which < 2 else r.choice([64, 81])
        u.rec.rlgr(which, stim.coefs(r, kind), 1 << 21, diff, ofill=r.choice([0, 0xff]), dec=dec)

def rlgr_short(u, n, base):
    """all short coefficient strings over a small alphabet, each at the end of the block and at its beginning:
    digests must agree between the plain and the combined coder (which TLC judges on the others)"""
    r = u.r
    for _ in range(n):
        c = stim.coefs(r, r.choice(stim.CKINDS))
        d = r.choice([64, 81])
        dd = c[:]
        for i in range(4095, 4096 - d, -1):
            dd[i] = ((dd[i] - dd[i - 1] + 32768) & 65535) - 32768
        for which in (0, 1):
            a = u.rec.rlgr(which, dd, 1 << 21, 0, log=False)
            b = u.rec.rlgr(which + 2, c, 1 << 21, d, log=False)
            u.same(a[1], b[1], 'plain coder after differencing, and combined coder')

@gen('C07')
def _c07(thorough, seed):
    k = 24 if thorough else 3
    J = []
    for kd in stim.CKINDS:
        for i in range(k):
            J.append(Job(f'each-{kd}-{i}', lambda u, a=(kd, 0): rlgr_each(u, *a), 1.2))
        J.append(Job(f'dec-{kd}', lambda u, a=(kd, 1): rlgr_each(u, *a), 2.0))
    for i in range(40 * k):
        J.append(Job(f'blk{i}', lambda u: rlgr_blocks(u, 6), 2.5))
    for i in range(8 * k):
        J.append(Job(f'size{i}', lambda u: rlgr_sizes(u, 3), 2.0))
    for i in range(16 * k):
        J.append(Job(f'pair{i}', lambda u: rlgr_short(u, 40, 0), .6))
    return J

# ---------------------------------------------------------------- C08
PATHS = [(0, 0), (3, 0), (1, 0), (2, 0), (0, F_NOACCEL), (1, F_NOACCEL)]
def paths(u, n, fmt, fl):
    """the same requests to encoders on every acceleration path"""
    r = u.r
    es = [u.q_create(fmt, fl | f, 128, 128, cpu=c) for c, f in PATHS]
    for _ in range(n):
        kinds = r.choice([None, None, ['noise'], ['extreme', 'check'], ['low', 'text']])
        img, w, h, cells = u.picture(fmt, r.choice([1, 2]), 1, kinds=kinds)
        for _ in range(r.choice([2, 3])):
            nq = r.choice([1, 2, 3])
            q = Req(img, u.tiles(cells, r.randrange(1, 3), nq), u.rects(1), u.tables(nq), flags=r.choice([0, 0, E_ALPHA if fmt in (0, 1, 4) else 0]))
            al = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 12, 15])
            g = u.group()
            for (c, f), e in zip(PATHS, es):
                rv, nn, out = u.q_enc(e, q) if u.inplace else u.q_enc(e, q, place=1, align=al)
                u.agree(g, [rv, nn] + u.lib.digest(out), f'messages on different acceleration paths (cpu {c}, flags {fl | f})')
    for e in es:
        u.q_destroy(e)

def dwt_paths(u, n, log):
    r = u.r
    for _ in range(n):
        s, q = stim.plane(r), stim.table(r)
        outs = []
        for which in (0, 1, 2):
            e = u.rec.dwt(which, s, q, log=log)
            if e['ret'] != -2:
                outs.append((which, e['out']))
        if not log:
            g = u.group()
            for which, o in outs:
                u.agree(g, u.lib.digest(bytes(v & 255 for v in o) + bytes(v >> 8 & 255 for v in o)), f'transform {which} and others')

@gen('C08')
def _c08(thorough, seed):
    k = 32 if thorough else 4
    J = []
    for fmt, fl in [(0, 0), (1, F_RLGR1), (2, 0), (3, F_RLGR1), (4, 0), (4, F_RLGR1), (4, F_PRO1), (4, 0)]:
        for i in range(4 * k):
            J.append(Job(f'path-{fmt}-{fl}-{i}', lambda u, a=(30, fmt, fl): paths(u, *a), 2))
    for i in range(16 * k):
        J.append(Job(f'dwta{i}', lambda u: dwt_paths(u, 60, False), 1))
    for i in range(16 * k):
        J.append(Job(f'dwt{i}', lambda u: dwt_paths(u, 5, True), 2.0, True))
    return J

# ---------------------------------------------------------------- C09
def classic_tiles(u, n, fmt=YUV, kinds=None, tkinds=None, per=3):
    r = u.r
    for i in range(n):
        fl = [0, F_RLGR1, F_NOACCEL, F_RLGR1 | F_NOACCEL][(i + r.randrange(2)) % 4]
        if i == 0 or r.random() < .5:
            e = u.create(fmt, fl, 64, 64, cpu=r.choice([0, 0, 1]))
        img, w, h, cells = u.picture(fmt, 1, 1, kinds=kinds, exact=True)
        nq = r.choice([1, 3])
        tabs = u.tables(nq, tkinds)
        q = Req(img, u.tiles(cells, 1, nq), quants=tabs)
        if r.random() < .05:
            q.quants, q.tiles = None, [q.tiles[0][:4] + (0, 0, 0)]
        u.enc(e, q)

def table_tiles(u, n, fmt, fl):
    """many tables, each with a pattern of its own, selected by indices all over the list"""
    r = u.r
    for _ in range(n):
        e = u.create(fmt, fl, 64, 64, cpu=r.choice([0, 0, 1]))
        nq = r.choice([255, 255, 255, 200, 130])
        tabs = u.tables(nq, ['perm', 'random', 'onehot'])
        img, w, h, cells = u.picture(fmt, 1, 1, kinds=['noise', 'text', 'walk', 'blocks'], exact=True)
        al = E_ALPHA if fmt in (0, 1, YUV) and not fl & F_PRO1 and r.random() < .4 else 0
        hi = lambda: r.choice([nq - 1, r.randrange(128, nq), r.randrange(128, nq), r.randrange(nq)])
        u.enc(e, Req(img, [cells[0] + (hi(), hi(), hi())], quants=tabs, flags=al))

def dwt_entry(u, n):
    r = u.r
    for _ in range(n):
        u.rec.dwt(3, stim.plane(r), stim.DEFAULTQ)
        u.rec.dwt(4, bytes(4096), stim.table(r), coefs=[max(-8192, min(8191, v)) for v in stim.coefs(r)])
        u.rec.dwt(5, bytes(4096), stim.DEFAULTQ, coefs=stim.coefs(r), n=r.choice([64, 64, 81, 2, 1, r.randrange(1, 4097)]))

@gen('C09')
def _c09(thorough, seed):
    k = 24 if thorough else 3
    J = []
    for i, kd in enumerate(stim.KINDS):
        for j in range(2 * k):
            J.append(Job(f'kind-{kd}-{j}', lambda u, a=[kd]: classic_tiles(u, 2, kinds=a), 1.0, True))
    for tk in ('finest', 'perm', 'onehot', 'random', 'coarse', 'mid', 'default'):
        for j in range(4 * k):
            J.append(Job(f'tab-{tk}-{j}', lambda u, a=[tk]: classic_tiles(u, 3, kinds=['noise', 'extreme', 'text', 'check2', 'walk', 'blocks'], tkinds=a), 1.4, True))
    for i in range(16 * k):
        J.append(Job(f'mix{i}', lambda u: classic_tiles(u, 4), 1.8, True))
    for fmt in range(4):
        J.append(Job(f'fmt{fmt}', lambda u, f=fmt: classic_tiles(u, 3, fmt=f), 1.8, True))
    for fmt in range(5):
        for j in range(k + (k if fmt in (0, 1, YUV) else 0)):
            J.append(Job(f'many{fmt}-{j}', lambda u, f=fmt: table_tiles(u, 2, f, u.r.choice([0, F_RLGR1, F_NOACCEL])), 1.2, True))
    for i in range(8 * k):
        J.append(Job(f'entry{i}', lambda u: dwt_entry(u, 3), 1.0, True))
    for i in range(6 * k):
        J.append(Job(f'drift{i}', lambda u: drift(u, 4, YUV), 1.8, True))
    return J

# ---------------------------------------------------------------- C10
def packed_tiles(u, n, fmt, sizes=None):
    r = u.r
    for i in range(n):
        if i == 0 or r.random() < .6:
            e = u.create(fmt, [0, F_RLGR1, F_NOACCEL, F_RLGR1 | F_NOACCEL][i % 4], 64, 64)
        bpp = BPP[fmt]
        tw, th = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        if sizes:
            cx, cy = sizes[i % len(sizes)]
            tw, th = 1, 1
        else:
            cx, cy = r.choice([64, 64, r.randrange(1, 65)]), r.choice([64, 64, r.randrange(1, 65)])
        w, h = 64 * (tw - 1) + cx, 64 * (th - 1) + cy
        pad = r.choice([0, 0, 1, 2, 4, 7, 64])
        data = stim.packed(r, w, h, bpp, r.choice([None, None, ['noise', 'extreme', 'dots', 'colnoise', 'rownoise', 'diag', 'walk']]))
        st = w * bpp + pad
        if pad:
            data = b''.join(data[y * w * bpp:(y + 1) * w * bpp] + r.randbytes(pad) for y in range(h))
        img = u.rec.image(data, st)
        x, y = 64 * r.randrange(tw), 64 * r.randrange(th)
        q = Req(img, [(x, y, min(64, w - x), min(64, h - y), 0, 0, 0)], quants=[stim.FINEST if r.random() < .8 else stim.table(r)],
                flags=r.choice([0, 0, E_ALPHA]) if fmt < 2 else 0)
        if u.inplace:
            u.enc(e, q)
        else:
            u.enc(e, q, place=r.randrange(2))

def beyond(r, stride):
    """a row so far down that its offset does not fit 31 (32) bits, or only just does"""
    g = ((1 << r.choice([31, 31, 32])) // stride) // 64
    return 64 * max(0, g + r.choice([-2, 0, 1, 2, r.randrange(1, 40)]))

def strides(u, n, fmt):
    """rows far apart, or upwards in memory"""
    r = u.r
    bpp = BPP[fmt]
    for _ in range(n):
        cx, cy = r.choice([64, r.randrange(1, 65)]), r.choice([64, r.randrange(1, 65)])
        tw, th = r.choice([(1, 1), (2, 1), (1, 2)])
        w, h = 64 * (tw - 1) + cx, 64 * (th - 1) + cy
        img = u.rec.image(stim.packed(r, w, h, bpp, ['noise', 'low', 'dots', 'diag', 'rownoise', 'walk']), w * bpp)
        a = r.choice([w * bpp, w * bpp + r.randrange(1, 100), 32767, 32768, 65535, 65536, 65537, 65536 + w * bpp, 131072 + r.randrange(5000), 1 << 20, r.randrange(w * bpp, 200000)])
        st = a if r.random() < .5 else -a
        tx, ty = r.choice([(0, 0), (0, 0), (64, 64), (640, 448), (1920, 1024)])
        if r.random() < .3:
            tx = 64 * r.choice([127, 128, 255, 256, 511, 512, 1022, 1023, 1024, 4095, 16384, 65534])
        if a > 10000 and r.random() < .35:
            ty = beyond(r, a)
        x, y = 64 * r.randrange(tw), 64 * r.randrange(th)
        t = (tx + x, ty + y, min(64, w - x), min(64, h - y), 0, 0, 0)
        e = u.create(fmt, any_flags(r, pro=False), 4096, 4096)
        q = Req(img, [t], quants=[stim.FINEST], flags=r.choice([0, E_ALPHA]) if fmt < 2 else 0)
        u.enc(e, q, place=r.randrange(2), lay=(st, tx, ty))
        u.destroy(e)

def yuv_tiles(u, n, pro):
    r = u.r
    for i in range(n):
        if i == 0 or r.random() < .5:
            e = u.create(YUV, F_PRO1 if pro else r.choice([0, F_RLGR1]), 256, 256)
        tw, th = r.choice([(2, 2), (3, 2), (1, 3)])
        img, w, h, cells = u.picture(YUV, tw, th, kinds=['low', 'blocks', 'dots', 'edge', 'gradh'])
        q = Req(img, u.tiles(cells, 2, 1), quants=[stim.FINEST])
        if r.random() < .5:
            q.tiles = [t[:2] + (r.randrange(1, 65), r.randrange(1, 65)) + t[4:] for t in q.tiles]
        u.enc(e, q)

def yuv_wide(u, n, pro):
    """tiles anywhere in images of many tiles per row"""
    r = u.r
    for _ in range(n):
        W = r.choice([64, 100, 255, 256, 257, 300, 512, 1023, 1024])
        e = u.create(YUV, F_PRO1 if pro else r.choice([0, F_RLGR1]), 4096, 4096)
        lim = 64 if pro else W
        ty = r.randrange(3) if W > 300 else r.randrange(63)
        if r.random() < .25:
            W = r.choice([2200, 4096, 5000]) if pro else r.choice([300, 1024, 4096])
            ty = max(0, (1 << r.choice([31, 31, 32])) // (16384 * W) + r.choice([-1, 0, 1, 7]))
            if pro:
                ty = min(ty, 62)
        elif r.random() < .3:
            # rows of tiles far apart, or upwards in memory
            W = r.choice([16384, 16385, 30000, 65536, -1, -2, -100, -256, -1024, -20000])
            lim = min(lim, 64) if W > 0 else min(lim, -W, 64)
            ty = r.randrange(1, 4)
        ps = [(r.choice([0, lim - 1, r.randrange(lim)]), ty + r.choice([0, 0, 1])) for _ in range(2)]
        ps[1] = (ps[1][0], ps[1][1]) if abs(ps[1][1] * W + ps[1][0] - ps[0][1] * W - ps[0][0]) < 1100 else ps[0]
        d = {y * W + x: stim.yuv_tile(r, ['low', 'blocks', 'dots', 'edge', 'gradh', 'noise']) for x, y in ps}
        img = u.rec.yuv_image(d, 256 * W)
        u.enc(e, Req(img, [(64 * x, 64 * y, 64, 64, 0, 0, 0) for x, y in dict.fromkeys(ps)], quants=[stim.FINEST], off=-16384 * img.lo))
        u.destroy(e)

def outside(u, n):
    """pixels outside the tiles and the padding between rows make no difference"""
    r = u.r
    for _ in range(n):
        fmt = r.randrange(4)
        bpp = BPP[fmt]
        fl = any_flags(r, pro=False)
        e = u.q_create(fmt, fl, 64, 64)
        w, h = r.randrange(64, 200), r.randrange(64, 200)
        gx, gy = r.randrange((w + 63) // 64), r.randrange((h + 63) // 64)
        x, y = 64 * gx, 64 * gy
        cx, cy = r.randrange(1, min(64, w - x) + 1), r.randrange(1, min(64, h - y) + 1)
        tile = stim.packed(r, cx, cy, bpp)
        g = u.group()
        for v in range(3):
            pad = r.choice([0, 1, 5, 64])
            st = w * bpp + pad
            o = bytearray(r.randbytes(st * h))
            for yy in range(cy):
                o[(y + yy) * st + x * bpp:(y + yy) * st + (x + cx) * bpp] = tile[yy * cx * bpp:(yy + 1) * cx * bpp]
            img = u.quiet.image(bytes(o), st)
            e2 = u.q_create(fmt, fl, 64, 64)
            rv, nn, out = u.q_enc(e2, Req(img, [(x, y, cx, cy, 0, 0, 0)], quants=[stim.FINEST]))
            u.agree(g, out, 'pixels outside the tile, padding or stride made a difference')
            u.q_destroy(e2)
            img.free()
            u.quiet.imgs.clear()
        # extension: the tile padded by the caller gives the same as the partial tile
        full = bytearray()
        for yy in range(64):
            s = tile[min(yy, cy - 1) * cx * bpp:(min(yy, cy - 1) + 1) * cx * bpp]
            full += s + s[-bpp:] * (64 - cx)
        img = u.quiet.image(bytes(full), 64 * bpp)
        rv, nn, o1 = u.q_enc(e, Req(img, [(0, 0, 64, 64, 0, 0, 0)], quants=[stim.FINEST]))
        img2 = u.quiet.image(tile, cx * bpp)
        rv, nn, o2 = u.q_enc(u2 := u.q_create(fmt, fl, 64, 64), Req(img2, [(0, 0, cx, cy, 0, 0, 0)], quants=[stim.FINEST]))
        u.same(o1, o2, 'a partial tile, and the same tile extended by repeating its last column and row')
        u.q_destroy(u2)
        u.q_destroy(e)
        img.free(); img2.free()
        u.quiet.imgs.clear()

def formats(u, n):
    """the same picture in all packed formats gives the same tiles"""
    r = u.r
    for _ in range(n):
        cx, cy = r.choice([64, r.randrange(1, 65)]), r.choice([64, r.randrange(1, 65)])
        px = [stim.plane(r, None, cx, cy) for _ in range(4)]
        fl = any_flags(r, pro=False)
        g = u.group()
        for fmt, order in ((0, (2, 1, 0, 3)), (1, (0, 1, 2, 3)), (2, (2, 1, 0)), (3, (0, 1, 2))):
            o = bytearray(cx * cy * BPP[fmt])
            for k, c in enumerate(order):
                o[k::BPP[fmt]] = px[c]
            u.quiet = u.quiet or rfx.Recorder(u.lib, False)
            img = u.quiet.image(bytes(o), cx * BPP[fmt])
            e = u.q_create(fmt, fl, 64, 64)
            rv, nn, out = u.q_enc(e, Req(img, [(0, 0, cx, cy, 0, 0, 0)], quants=[stim.FINEST]), place=r.randrange(2))
            u.agree(g, out, 'the same pixels in another packed format')
            u.q_destroy(e)
            img.free()
            u.quiet.imgs.clear()

def swatches(u, n, fmt):
    """tiles with many different colours: corners of the colour cube, greys, primaries"""
    r = u.r
    for _ in range(n):
        v = [0, 255, 1, 254, 127, 128]
        ch = [bytes(r.choice(v) if r.random() < .5 else r.randrange(256) for _ in range(4096)) for _ in range(BPP[fmt])]
        o = bytearray(4096 * BPP[fmt])
        for k in range(BPP[fmt]):
            o[k::BPP[fmt]] = ch[k]
        img = u.rec.image(bytes(o), 64 * BPP[fmt])
        if not u.live or r.random() < .3:
            e = u.create(fmt, F_RLGR1, 64, 64)
        u.enc(e, Req(img, [(0, 0, 64, 64, 0, 0, 0)], quants=[stim.FINEST]))

def drift(u, n, fmt, flags=0, kinds=('low', 'text', 'flat', 'dots', 'blocks')):
    """an image that changes little by little in place, on one encoder"""
    r = u.r
    e = u.create(fmt, r.choice([0, F_RLGR1, F_NOACCEL]), 64, 64)
    img, w, h, cells = u.picture(fmt, 1, 1, kinds=list(kinds), exact=True, pad=0)
    tabs = u.tables(1, ['finest', 'default', 'mid'])
    for _ in range(n):
        u.enc(e, Req(img, [cells[0] + (0, 0, 0)], quants=tabs, flags=flags), arena=True)
        d = img.chunks[0][1]
        if fmt == YUV:
            a = d[12288:]
            img = u.rec.yuv_image({0: mutate(r, d)[:12288] + (mutate_packed(r, a, 1, 64) if flags else a)}, 256)
        else:
            img = u.rec.image(mutate_packed(r, d, BPP[fmt], img.stride), img.stride)
    u.destroy(e)

@gen('C10')
def _c10(thorough, seed):
    k = 24 if thorough else 3
    J = []
    S = [(1, 1), (64, 1), (1, 64), (63, 63), (64, 63), (63, 64), (2, 2), (33, 17), (16, 15), (8, 61), (62, 3), (31, 32)]
    for fmt in range(4):
        for i in range(8 * k):
            J.append(Job(f'fmt{fmt}-{i}', lambda u, f=fmt: packed_tiles(u, 3, f), 2.0, True))
        for i in range(4):
            J.append(Job(f'size{fmt}-{i}', lambda u, f=fmt, i=i: packed_tiles(u, 3, f, S[3 * i:3 * i + 3]), 2.0, True))
        for i in range(2 * k):
            J.append(Job(f'cube{fmt}-{i}', lambda u, f=fmt: swatches(u, 2, f), 1.8, True))
        for i in range(4 * k):
            J.append(Job(f'stride{fmt}-{i}', lambda u, f=fmt: strides(u, 3, f), 2.0, True))
        for i in range(4 * k):
            J.append(Job(f'drift{fmt}-{i}', lambda u, f=fmt: drift(u, 4, f), 2.2, True))
    for i in range(8 * k):
        J.append(Job(f'yuv{i}', lambda u: yuv_tiles(u, 2, False), 1.6, True))
        J.append(Job(f'pro{i}', lambda u: yuv_tiles(u, 1, True), 1.2, True))
        J.append(Job(f'wide{i}', lambda u: yuv_wide(u, 2, u.r.random() < .4), 1.6, True))
        J.append(Job(f'out{i}', lambda u: outside(u, 40), 1))
        J.append(Job(f'same{i}', lambda u: formats(u, 40), 1))
    return J

# ---------------------------------------------------------------- C11
def client_tiles(u, n, pro, kinds=None, tkinds=None):
    r = u.r
    for i in range(n):
        fmt = YUV if pro or r.random() < .7 else r.randrange(4)
        e = u.create(fmt, F_PRO1 if pro else [0, F_RLGR1, F_NOACCEL, F_RLGR1 | F_NOACCEL][i % 4], 64, 64)
        img, w, h, cells = u.picture(fmt, 1, 1, kinds=kinds, exact=True)
        nq = r.choice([1, 2])
        tabs = u.tables(nq, tkinds)
        u.enc(e, Req(img, u.tiles(cells, 1, nq), quants=tabs))
        if pro and r.random() < .5:
            # and again, changed a little: a difference tile
            m = mutate(r, img.chunks[0][1])
            img = u.rec.yuv_image({0: m}, 256)
            u.enc(e, Req(img, u.tiles(cells, 1, nq), quants=tabs))
        u.destroy(e)

@gen('C11')
def _c11(thorough, seed):
    k = 12 if thorough else 1
    J = []
    for kd in stim.KINDS:
        J.append(Job(f'c-{kd}', lambda u, a=[kd]: client_tiles(u, 2, False, a), 1.2, True))
        J.append(Job(f'p-{kd}', lambda u, a=[kd]: client_tiles(u, 2, True, a), 3, True))
    for i in range(24 * k):
        J.append(Job(f'cm{i}', lambda u: client_tiles(u, 4, False), 2.4, True))
        J.append(Job(f'pm{i}', lambda u: client_tiles(u, 2, True), 3, True))
    for i in range(6 * k):
        J.append(Job(f'cf{i}', lambda u: client_tiles(u, 3, False, None, ['finest', 'mid']), 1.8, True))
        J.append(Job(f'pf{i}', lambda u: client_tiles(u, 2, True, None, ['finest', 'mid']), 3, True))
        J.append(Job(f'flat{i}', lambda u: client_tiles(u, 4, bool(u.r.randrange(2)), ['flat']), 2, True))
    return J

# ---------------------------------------------------------------- C12
AKINDS = ['const', 'runs', 'noise', 'rows', 'longruns', 'steps', 'big', 'half', 'sparse', 'edges', 'ramp', 'lit', 'same15']
def alpha_plane(r, kind=None):
    k = kind or r.choice(AKINDS)
    if k == 'const':
        return bytes([r.choice([0, 255, 128, r.randrange(256)])]) * 4096
    if k == 'noise':
        return r.randbytes(4096)
    if k == 'rows':
        return b''.join(bytes([r.choice([0, 255, r.randrange(256)])]) * 64 for _ in range(64))
    o = bytearray()
    if k in ('runs', 'longruns', 'lit', 'edges', 'same15'):
        while len(o) < 4096:
            if k == 'runs':
                o += bytes([r.randrange(256)]) * r.choice([1, 2, 3, 4, 5, 14, 15, 16, 17, 18, 31, 32, 33, 46, 47, 48, 49, r.randrange(1, 65)])
            elif k == 'longruns':
                o += bytes([r.choice([0, 255, 7])]) * r.randrange(40, 200)
            elif k == 'lit':
                o += r.randbytes(r.choice([1, 2, 14, 15, 16, 17, 30, 31, 32, r.randrange(1, 60)]))
                o += bytes([r.randrange(256)]) * r.choice([3, 4, 5, 10, 47])
            elif k == 'same15':
                o += r.randbytes(r.randrange(12, 19)) + bytes([o[-1] if o else 3]) * r.randrange(15, 50)
            else:
                a = r.randrange(0, 65); row = bytes([0]) * a + bytes([255]) * (64 - a)
                o += row * r.randrange(1, 4)
        return bytes(o[:4096])
    if k == 'steps':
        row = bytearray(r.randbytes(64))
        for _ in range(64):
            o += row
            d = r.choice([1, -1, 127, 128, 129, -127, -128, 0, 64, 200])
            for i in range(r.randrange(64), 64):
                row[i] = (row[i] + d) & 255
        return bytes(o)
    if k == 'big':
        return bytes(255 * ((x + y) & 1) for y in range(64) for x in range(64)) if r.random() < .3 else bytes(r.choice([0, 255]) for _ in range(4096))
    if k == 'half':
        n = r.randrange(64)
        return bytes(64 * n) + r.randbytes(4096 - 64 * n) if r.random() < .5 else r.randbytes(64 * n) + bytes([255]) * (4096 - 64 * n)
    if k == 'sparse':
        o = bytearray([255]) * 4096
        for _ in range(r.randrange(1, 200)):
            o[r.randrange(4096)] = r.randrange(256)
        return bytes(o)
    return bytes((x * r.choice([1, 1, 1, 2]) + 3 * y) & 255 for y in range(64) for x in range(64))

def alpha_tiles(u, n, fmt, kind=None):
    r = u.r
    e = None
    for _ in range(n):
        fl = any_flags(r, pro=False)
        img, w, h, cells = u.picture(fmt, r.choice([1, 2]), 1, kinds=['flat', 'low', 'edge'], alpha=lambda: alpha_plane(r, kind))
        nq = 1
        q = Req(img, [c + (0, 0, 0) for c in cells], quants=u.tables(nq), flags=E_ALPHA)
        if e is None or r.random() < .5:
            e = u.create(fmt, fl, 128, 64)
        rv, nn, out = u.enc(e, q)
        # colours are those of a message without alpha
        p = q.cut(0)
        p.flags = 0
        rv2, nn2, out2 = u.predict(e, [], p)
        a, b = wire.split(out, False, True), wire.split(out2, False, False)
        if a and b and len(a['tiles']) == len(b['tiles']):
            ca = cb = b''
            for (s, t), (s2, t2) in zip(a['tiles'], b['tiles']):
                ln = sum(int.from_bytes(out[s + 13 + 2 * j:s + 15 + 2 * j], 'little') for j in range(3))
                ca += out[s + 6:s + 19] + out[s + 21:s + 21 + ln]
                cb += out2[s2 + 6:s2 + 19] + out2[s2 + 19:t2]
            u.same(ca, cb, 'colour components with and without alpha')

def alpha_strides(u, n, fmt):
    r = u.r
    for _ in range(n):
        cx, cy = r.choice([64, r.randrange(1, 65)]), r.choice([64, r.randrange(1, 65)])
        o = bytearray(stim.packed(r, cx, cy, 4, ['low', 'flat']))
        ap = alpha_plane(r)
        o[3::4] = b''.join(ap[64 * y:64 * y + cx] for y in range(cy))
        img = u.rec.image(bytes(o), cx * 4)
        a = r.choice([cx * 4, cx * 4 + r.randrange(1, 100), 32768, 65536, 65540, 1 << 20])
        tx, ty = r.choice([(0, 0), (64, 64), (640, 448)])
        if a > 10000 and r.random() < .3:
            ty = beyond(r, a)
        e = u.create(fmt, any_flags(r, pro=False), 4096, 4096)
        u.enc(e, Req(img, [(tx, ty, cx, cy, 0, 0, 0)], quants=u.tables(1), flags=E_ALPHA), lay=(r.choice([a, -a]), tx, ty))
        u.destroy(e)

@gen('C12')
def _c12(thorough, seed):
    k = 32 if thorough else 4
    J = []
    for kd in AKINDS:
        for fmt in (0, 1, 4):
            for i in range(2 * k):
                J.append(Job(f'a-{kd}-{fmt}-{i}', lambda u, a=(6, fmt, kd): alpha_tiles(u, *a), 1, True))
    for fmt in (0, 1):
        for i in range(4 * k):
            J.append(Job(f'as-{fmt}-{i}', lambda u, a=(6, fmt): alpha_strides(u, *a), .7, True))
    for fmt in (0, 1, 4):
        for i in range(6 * k):
            J.append(Job(f'am-{fmt}-{i}', lambda u, a=(6, fmt): alpha_tiles(u, *a), 1, True))
        for i in range(3 * k):
            J.append(Job(f'drift-{fmt}-{i}', lambda u, f=fmt: drift(u, 6, f, E_ALPHA), 1, True))
    return J

# ---------------------------------------------------------------- C13
def grid(u, cells, steps):
    """different sequences of images at many positions of one encoder, against one encoder per sequence"""
    r = u.r
    ns = 5
    conts = [stim.yuv_tile(r, ['low', 'flat', 'dots', 'edge', 'blocks']) for _ in range(3)]
    conts += [mutate(r, c) for c in conts] + [bytes([128]) * 16384]
    tabs = u.tables(3)
    def pick():
        c = [r.randrange(len(conts))]
        while len(c) < steps:
            c.append(r.choice([c[-1], (c[-1] + 3) % 6, r.randrange(len(conts))]))
        return [(x, (r.randrange(3), r.randrange(3), r.randrange(3))) for x in c]
    seqs = [pick() for _ in range(ns)]
    u.quiet = u.quiet or rfx.Recorder(u.lib, False)
    one = [u.quiet.yuv_image({0: c}, 256) for c in conts]
    want = []
    for s in seqs:
        e = u.q_create(YUV, F_PRO1)
        w = []
        for c, q in s:
            rv, n, out = u.q_enc(e, Req(one[c], [(0, 0, 64, 64) + q], quants=tabs))
            d = wire.split(out, True)
            a, b = d['tiles'][0]
            w.append(out[a:b])
        want.append(w)
        u.q_destroy(e)
    e = u.q_create(YUV, F_PRO1)
    assign = {p: r.randrange(ns) for p in cells}
    at = {p: 0 for p in cells}
    todo = list(cells) * steps
    r.shuffle(todo)
    # tile blocks of a position without the position bytes
    strip = lambda t: t[:9] + t[13:]
    i = 0
    while i < len(todo):
        n = r.choice([1, 3, 8])
        ps = []
        while i < len(todo) and len(ps) < n:
            if todo[i] in ps:
                break
            ps.append(todo[i]); i += 1
        # all tiles of a call are made to lie in one strip of memory: one image per call with stride of 64 tiles
        tiles = {}
        req = []
        for x, y in ps:
            c, q = seqs[assign[(x, y)]][at[(x, y)]]
            tiles[y * 64 + x] = conts[c]
            req.append((64 * x, 64 * y, 64, 64) + q)
        img = u.quiet.yuv_image(tiles, 64 * 256)
        rv, nn, out = u.q_enc(e, Req(img, req, quants=tabs, off=-16384 * img.lo))
        img.free()
        u.quiet.imgs.clear()
        d = wire.split(out, True) if rv >= 0 else None
        got = b''.join(strip(out[a:b]) for a, b in d['tiles']) if d else b''
        exp = b''
        for p in ps:
            exp += strip(want[assign[p]][at[p]])
            at[p] += 1
        u.same(exp, got, f'tile at a position {ps[:3]} in a full grid, and in an encoder with that position only')
    u.q_destroy(e)

def long_pro(u, n):
    """long requests that name positions again and again, against the same tiles one call each"""
    r = u.r
    u.quiet = u.quiet or rfx.Recorder(u.lib, False)
    np = r.choice([1, 3, 7, 16, 32, 64, 65, 128])
    P = r.sample([(x, y) for x in range(64) for y in range(64)], np)
    few = [stim.yuv_tile(r, ['low', 'flat', 'dots', 'edge', 'blocks', 'text']) for _ in range(4)]
    tabs = u.tables(3, ['default', 'mid', 'coarse', 'random'])
    fl = F_PRO1 | r.choice([0, 0, F_NOACCEL, F_RLGR1])
    e, f = u.q_create(YUV, fl), u.q_create(YUV, fl)
    cut = lambda d, out: [out[a:b] for a, b in d['tiles']]
    for _ in range(2):
        img = u.quiet.yuv_image({y * 64 + x: r.choice(few) for x, y in P}, 64 * 256)
        req = []
        while len(req) < n:
            # the same order over and over, now and then another
            for x, y in P if r.random() < .7 else r.sample(P, np):
                q = r.choice([(0, 0, 0), (0, 0, 0), tuple(r.randrange(3) for _ in range(3))])
                req.append((64 * x, 64 * y, 64, 64) + q)
        req = req[:n]
        q = Req(img, req, quants=tabs, off=-16384 * img.lo)
        rv, nn, out = u.q_enc(e, q)
        d = wire.split(out, True) if rv == n else None
        got = cut(d, out) if d else []
        exp = []
        for t in req:
            rv, nn, out = u.q_enc(f, Req(img, [t], quants=tabs, off=-16384 * img.lo))
            d = wire.split(out, True) if rv == 1 else None
            exp += cut(d, out) if d else [b'']
        img.free()
        u.quiet.imgs.clear()
        bad = next((i for i in range(n) if i >= len(got) or got[i] != exp[i]), 0)
        u.same(b''.join(exp), b''.join(got), f'{n} tiles at {np} positions in one call and one call each, first at tile {bad}')
    u.q_destroy(e)
    u.q_destroy(f)

def cycles(u, count, fmt, fl, kinds=('low', 'flat', 'dots', 'edge'), small=False):
    """few images over and over on one encoder: message i is a function of images i - 1 and i"""
    r = u.r
    p = r.randrange(2, 7)
    e = u.q_create(fmt, fl)
    if fmt == YUV:
        base = [stim.yuv_tile(r, list(kinds)) for _ in range(r.randrange(2, p + 1))]
        if small:
            # little changes, best sent as differences
            base = [mutate(r, stim.yuv_tile(r, ['text', 'walk', 'blocks']))]
            while len(base) < p:
                base.append(mutate(r, base[0]))
        img = u.quiet.yuv_image({i: r.choice(base) if i >= len(base) else base[i] for i in range(p)}, 256)
        step = 16384
    else:
        img = u.quiet.image(stim.packed(r, 64 * p, 64, rfx.BPP[fmt], list(kinds)), 64 * p * rfx.BPP[fmt])
        step = 64 * rfx.BPP[fmt]
    tabs = u.tables(3)
    t = [(0, 0, 64, 64, r.randrange(3), r.randrange(3), r.randrange(3))]
    gs = [u.group() for _ in range(p)]
    for i, *v in u.quiet.cycle(e, img, step, p, t, 40000, count, quants=tabs):
        if i >= p:
            u.agree(gs[i % p], v, f'message {i} and the one {p} calls before, the same {p} images coming again and again')
    u.q_destroy(e)

@gen('C13')
def _c13(thorough, seed):
    k = 12 if thorough else 1
    J = session_jobs(120 * k, seed, 's', 2.0, px=True, calls=7, modes='{TRUE}', handles='{1}', key=9, bad=10, per=1,
                     kinds=['low', 'text', 'blocks', 'dots', 'flat', 'edge'])
    J = J[:96 * k]
    J += session_jobs(16 * k, seed + 1, 't', 2.4, px=True, calls=8, modes='{TRUE}', handles='{1, 2}', key=9, bad=10, per=1, kinds=['low', 'dots', 'noise', 'edge'])
    r = random.Random(f'C13/{seed}')
    allc = [(x, y) for x in range(64) for y in range(64)]
    r.shuffle(allc)
    for i in range(16 * k):
        J.append(Job(f'edge{i}', lambda u: edge_stops(u, 1, YUV, F_PRO1, agree=False, kinds=('low', 'dots', 'flat', 'edge'), steps=3), 3, True))
    for i in range(4 * k):
        J.append(Job(f'scarce{i}', lambda u: scarce(u, 1, ('low', 'flat', 'dots')), 2.5, True))
    for i in range(8):
        J.append(Job(f'grid{i}', lambda u, c=allc[512 * i:512 * i + 512]: grid(u, c, 3), 3))
    for i in range(8 * k):
        J.append(Job(f'long{i}', lambda u, n=(70, 130, 300, 600)[i % 4]: long_pro(u, n), .8))
    J.append(Job('cycle', lambda u: cycles(u, 66500, YUV, F_PRO1 | u.r.choice([0, F_NOACCEL]), small=True), 14))
    for i in range(3 * k):
        J.append(Job(f'cycle{i}', lambda u: cycles(u, 1200, YUV, F_PRO1 | u.r.choice([0, F_NOACCEL]), small=i % 3 != 0), .5))
    for i in range(4 * k):
        J.append(Job(f'grid-r{i}', lambda u, c=r.sample(allc, 300): grid(u, c, 4), 3))
    return J

# ---------------------------------------------------------------- C14
def pro_tiles(u, n, kinds=None, tkinds=None):
    r = u.r
    for _ in range(n):
        e = u.create(YUV, F_PRO1 | r.choice([0, F_RLGR1, F_NOACCEL]), 64, 64)
        img, w, h, cells = u.picture(YUV, 1, 1, kinds=kinds)
        nq = r.choice([1, 3])
        tabs = u.tables(nq, tkinds)
        u.enc(e, Req(img, u.tiles(cells, 1, nq), quants=tabs))
        k = r.random()
        if k < .35:
            img = u.rec.yuv_image({0: mutate(r, img.chunks[0][1])}, 256)
            u.enc(e, Req(img, u.tiles(cells, 1, nq), quants=tabs))
        elif k < .45:
            img, w, h, cells = u.picture(YUV, 1, 1, kinds=kinds)
            u.enc(e, Req(img, u.tiles(cells, 1, nq), quants=tabs))
        u.destroy(e)

def near(u, n):
    """images with hardly any detail, so that plain and difference have about the same number of zeros"""
    r = u.r
    e = u.create(YUV, F_PRO1, 64, 64)
    nq = 3
    tabs = u.tables(nq, ['mid', 'default', 'random', 'onehot'])
    base = [r.randrange(40, 200) for _ in range(3)]
    spots = {}
    for _ in range(n):
        for k in list(spots):
            if r.random() < .3:
                del spots[k]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            spots[r.randrange(12288)] = r.choice([1, 2, 3, 4, 6, 8, 12, 20, -1, -2, -3, -5, -9, -16])
        if r.random() < .5:
            base = [max(24, min(230, b + r.randint(-9, 9))) for b in base]
        o = bytearray(b''.join(bytes([b]) * 4096 for b in base) + bytes(4096))
        for k, v in spots.items():
            o[k] += v
        img = u.rec.yuv_image({0: bytes(o)}, 256)
        u.enc(e, Req(img, [(0, 0, 64, 64) + tuple(r.randrange(nq) for _ in range(3))] if r.random() < .7 else [(0, 0, 64, 64, 0, 1, 2)], quants=tabs))
    u.destroy(e)

@gen('C14')
def _c14(thorough, seed):
    k = 20 if thorough else 2
    J = []
    for kd in stim.KINDS:
        for j in range(2 * k):
            J.append(Job(f'kind-{kd}-{j}', lambda u, a=[kd]: pro_tiles(u, 2, a), 1.4, True))
    for tk in ('finest', 'perm', 'onehot', 'random', 'coarse', 'mid', 'default'):
        for j in range(4 * k):
            J.append(Job(f'tab-{tk}-{j}', lambda u, a=[tk]: pro_tiles(u, 2, ['noise', 'extreme', 'text', 'check2', 'walk', 'blocks'], a), 1.4, True))
    for i in range(20 * k):
        J.append(Job(f'mix{i}', lambda u: pro_tiles(u, 3), 2.0, True))
    for i in range(8 * k):
        J.append(Job(f'near{i}', lambda u: near(u, 6), 1.4, True))
    for i in range(3 * k):
        J.append(Job(f'many{i}', lambda u: table_tiles(u, 2, YUV, F_PRO1), 1.4, True))
    for i in range(3 * k):
        J.append(Job(f'cycle{i}', lambda u, i=i: cycles(u, 1200, YUV, F_PRO1, small=i % 3 != 0), .5))
    return J

# ---------------------------------------------------------------- C15
def rejoin(u, n):
    """after a history, a key frame; from then on in step with a new encoder, both logged"""
    r = u.r
    for _ in range(n):
        fl = F_PRO1 | r.choice([0, F_RLGR1]) | r.choice([0, F_NOACCEL])
        size = r.choice([(640, 480), (64, 64), (4096, 4096), (r.randrange(1, 4097), r.randrange(1, 4097)), (1920, 1080)])
        e = u.create(YUV, fl, *size)
        w = World(u, 4, 4, True, kinds=['low', 'text', 'dots', 'noise', 'flat', 'blocks'])
        def req(k):
            return w.request([(r.randrange(1, 5), r.randrange(4)) for _ in range(r.randrange(1, k + 1))])
        for _ in range(r.randrange(0, 6)):
            q = req(3)
            u.enc(e, q, r.choice([None, None, None, r.randrange(60, 9000)]))
        others = r.choice([0, 0, E_ALPHA, 2, 64, 128, 512, 0x7fffffff & ~E_KEY])
        for _ in range(r.choice([0, 0, 1])):
            q = req(3)
            q.flags = E_KEY | r.choice([0, others])
            u.enc(e, spoil(r, q, 3, True) if r.random() < .3 else q, r.randrange(0, 60) if r.random() < .6 else None)
        e2 = u.create(YUV, fl, *size)
        for i in range(r.randrange(2, 6)):
            q = req(3)
            if i == 0:
                q.flags = E_KEY | others
            cap = r.choice([None, None, r.randrange(200, 9000)])
            a = u.enc(e, q, cap)
            if i == 0 and r.random() < .5:
                q.flags = 0     # a new encoder needs no flag
            b = u.enc(e2, q, cap)
            u.same([b[0], b[1]] + u.lib.digest(b[2]), [a[0], a[1]] + u.lib.digest(a[2]), 'after a key frame, and a new encoder')
            if a[0] < 0 and i == 0:
                break
        u.destroy(e)
        u.destroy(e2)

def noflag(u, n):
    """other flag bits never restart; the flag does nothing outside progressive mode"""
    r = u.r
    for _ in range(n):
        pro = r.random() < .5
        fmt = YUV if pro else r.randrange(5)
        fl = (F_PRO1 if pro else 0) | r.choice([0, F_RLGR1])
        e = u.create(fmt, fl, 64, 64)
        tw = u.q_create(fmt, fl, 64, 64)
        img, w, h, cells = u.picture(fmt, 2, 1, kinds=['low', 'text'])
        for _ in range(5):
            q = Req(img, u.tiles(cells, 2, 1), quants=u.tables(1))
            rv, n2, out2 = u.q_enc(tw, q)
            q.flags = r.choice([2, 4, 8, 16, 32, 64, 128, 512, 1024, 0x7fffffff & ~(E_KEY | E_ALPHA)]) if pro else r.choice([E_KEY, E_KEY | 2, 2])
            rv, n1, out = u.enc(e, q)
            u.same(out2, out, 'message with flag bits that mean nothing here, and without')
        u.q_destroy(tw)
        u.destroy(e)

@gen('C15')
def _c15(thorough, seed):
    k = 12 if thorough else 2
    J = session_jobs(120 * k, seed, 's', .15, agree={'twin'}, modes='{TRUE}', handles='{1}', key=3, bad=8, calls=9, per=4)
    J += session_jobs(60 * k, seed + 1, 'm', .15, agree={'twin'}, key=3, bad=8, per=4)
    for i in range(48 * k):
        J.append(Job(f'join{i}', lambda u: rejoin(u, 3), .5))
    for i in range(16 * k):
        J.append(Job(f'flag{i}', lambda u: noflag(u, 3), .4))
    return J

# ---------------------------------------------------------------- C16
def environment(u, n):
    """same requests, different surroundings"""
    r = u.r
    for _ in range(n):
        fmt = r.randrange(5)
        fl = any_flags(r, pro=(fmt == YUV and r.random() < .5))
        img, w, h, cells = u.picture(fmt, 2, 1, kinds=None)
        reqs = [Req(img, u.tiles(cells, r.randrange(1, 4), 2), u.rects(1), u.tables(2), flags=r.choice([0, E_ALPHA]) if fmt in (0, 1, 4) else 0) for _ in range(3)]
        es = [u.q_create(fmt, fl, 99, 77) for _ in range(4)]
        for q in reqs:
            g = u.group()
            small = r.random() < .25
            cap = r.randrange(100, 60000) if small else None
            for i, e in enumerate(es):
                rv, nn, out = u.q_enc(e, q, cap, ofill=[0, 0xff, 0x5c, r.randrange(256)][i], place=[0, 1, 1, r.randrange(2)][i], oplace=(i >> 1) & 1,
                                    align=[0, r.choice([1, 2, 3, 4, 8, 12, 15]), r.choice([16, 32, 48]), r.choice([64, 96, 512, 2048, r.randrange(4096)])][i])
                u.agree(g, [rv, nn if rv >= 0 else 0] + u.lib.digest(out), 'same requests, different buffer contents and placement')
        for e in es:
            u.q_destroy(e)

def bystanders(u, n):
    """an encoder among others, and alone"""
    r = u.r
    for _ in range(n):
        confs = [(4, F_PRO1), (4, F_PRO1), (r.randrange(5), 0), (4, F_RLGR1), (0, F_RLGR1 | F_NOACCEL)]
        r.shuffle(confs)
        confs = confs[:r.randrange(2, 5)]
        plans = []
        for fmt, fl in confs:
            pic = lambda: (lambda p: (p[0], p[3]))(u.picture(fmt, 2, 1, kinds=['low', 'noise', 'text', 'dots']))
            pics = [pic(), pic()]
            plans.append([Req((ic := r.choice(pics))[0], u.tiles(ic[1], r.randrange(1, 3), 2), u.rects(1), u.tables(2), flags=r.choice([0, 0, E_KEY, E_ALPHA if fmt in (0, 1, 4) else 0])) for _ in range(4)])
        alone = []
        for (fmt, fl), plan in zip(confs, plans):
            e = u.q_create(fmt, fl, 64, 64)
            alone.append([u.q_enc(e, q)[2] for q in plan])
            u.q_destroy(e)
        es = [u.create(fmt, fl, 64, 64) for fmt, fl in confs]
        at = [0] * len(es)
        while any(a < 4 for a in at):
            i = r.choice([i for i in range(len(es)) if at[i] < 4])
            rv, nn, out = u.enc(es[i], plans[i][at[i]])
            u.same(alone[i][at[i]], out, 'an encoder used alone and alternately with others')
            at[i] += 1
            if r.random() < .15:
                x = u.q_create(*r.choice(confs))
                u.q_enc(x, plans[confs.index((x.fmt, x.flags))][0])
                u.q_destroy(x)
        u.finish()

def threads(u, nthreads, rounds):
    """encoders running at the same time in different threads, against one after the other"""
    r = u.r
    confs = [(4, F_PRO1), (4, 0), (0, F_RLGR1), (1, F_NOACCEL), (2, 0), (3, 0), (4, F_PRO1 | F_RLGR1), (0, 0)]
    confs = [confs[i % len(confs)] for i in range(nthreads)]
    u.quiet = u.quiet or rfx.Recorder(u.lib, False)
    plans = []
    for fmt, fl in confs:
        img, w, h, cells = u.picture(fmt, 2, 2, kinds=['noise', 'low', 'text', 'dots'])
        plans.append([Req(img, u.tiles(cells, r.randrange(2, 6), 2), u.rects(1), u.tables(2), flags=r.choice([0, 0, E_ALPHA if fmt in (0, 1, 4) else 0])) for _ in range(6)])
        for pl in (0, 1):
            img.at(pl, 0)
    def run(i, out, rec):
        fmt, fl = confs[i]
        e = rec.create(64, 64, fmt, fl)
        for k in range(rounds):
            for q in plans[i]:
                out.append(rec.encode(e, q.img, q.tiles, q.ample(), regs=q.regs, quants=q.quants, flags=q.flags, light=True, timed=0, place=k & 1)[2])
            rec.ev.clear()
        rec.destroy(e)
    solo = [[] for _ in confs]
    for i in range(nthreads):
        run(i, solo[i], rfx.Recorder(u.lib, False))
    both = [[] for _ in confs]
    err = []
    gate = threading.Barrier(nthreads)
    def body(i):
        try:
            gate.wait()
            run(i, both[i], rfx.Recorder(u.lib, False))
        except Fault as x:
            err.append(i)
    ts = [threading.Thread(target=body, args=(i,)) for i in range(nthreads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for i in range(nthreads):
        u.same(b''.join(solo[i]), b''.join(both[i]), f'encoder of {confs[i]} alone and concurrently with others')

def preempted(u, n, most):
    """one call stopped somewhere (any branch, any instruction), another run meanwhile, wholly or in part"""
    r = u.r
    rec = rfx.Recorder(u.lib, False)
    confs = [(4, F_PRO1), (4, F_PRO1), (4, 0), (4, F_RLGR1), (0, F_RLGR1), (0, 0), (1, F_NOACCEL), (2, 0), (3, F_NOACCEL), (4, F_PRO1 | F_NOACCEL)]
    for _ in range(n):
        a, b = r.choice(confs), r.choice(confs)
        if r.random() < .6:
            b = a
        fresh = [r.random() < .3, r.random() < .4]
        def fill(i):
            fmt, fl = (a, b)[i]
            img, w, h, cells = u.picture(fmt, 1, 1, kinds=['noise', 'low', 'text', 'dots'])
            q = Req(img, u.tiles(cells, r.randrange(1, 3), 2), u.rects(1), u.tables(2), flags=r.choice([0, E_ALPHA if fmt in (0, 1, 4) and not fl & F_PRO1 else 0]))
            return q
        qs = [fill(0), fill(1)]
        def setup():
            es = []
            for i in range(2):
                fmt, fl = (a, b)[i]
                e = rec.create(64, 64, fmt, fl)
                if not fresh[i]:
                    # every second time there is a past
                    if past[i]:
                        rec.encode(e, past[i].img, past[i].tiles, past[i].ample(), regs=past[i].regs, quants=past[i].quants, flags=past[i].flags, light=True)
                es.append(e)
            rec.ev.clear()
            return es
        past = [fill(i) if r.random() < .5 else None for i in range(2)]
        def drop(es):
            for e in es:
                rec.destroy(e)
            rec.ev.clear()
        def pair(es):
            return [(es[i], qs[i], qs[i].ample(), fresh[i]) for i in range(2)]
        es = setup()
        alone, f = rec.race(pair(es), [])
        drop(es)
        if f:
            raise Fault('race')
        gs = [u.group(), u.group()]
        def put(res):
            for g, x in zip(gs, res):
                u.agree(g, [x[0], x[1], x[3]] + u.lib.digest(x[2]), f'a call of {(a, b)} alone and while another is under way')
        put(alone)
        ways = []
        for i in range(2):
            es = setup()
            pcs = rec.branches(*pair(es)[i])
            drop(es)
            at = {}
            for k, pc in enumerate(pcs):
                at.setdefault(pc, []).append(k + 1)
            ways.append(list(at.values()))
        sched = []
        for i in range(most):
            k = r.choice(r.choice(ways[0])) if ways[0] else 1
            st = r.choice([0, 0, r.randrange(1, 40), r.randrange(1, 3000)])
            s = [(k, st)]
            if r.random() < .4 and ways[1]:
                s.append((r.choice(r.choice(ways[1])), 0))
                if r.random() < .3:
                    s.append((r.randrange(1, 20000), 0))
                    s.append((r.randrange(1, 20000), 0))
            sched.append(s)
        for s in sched:
            es = setup()
            res, f = rec.race(pair(es), s)
            put(res)
            if f:
                raise Fault('race')
            drop(es)

def first_calls(u, n, most):
    """the first calls ever made to the library, alone and one stopped while another runs, as any later ones"""
    r = u.r
    rec = rfx.Recorder(u.lib, False)
    step = bool(most)
    confs = [(4, F_PRO1), (4, 0), (4, F_RLGR1), (0, F_RLGR1), (0, 0), (1, F_NOACCEL), (2, 0), (3, F_NOACCEL), (1, 0), (4, F_PRO1 | F_NOACCEL)]
    def fill(fmt, fl):
        img, w, h, cells = u.picture(fmt, 1, 1, kinds=['noise', 'low', 'text', 'dots'])
        return Req(img, u.tiles(cells, r.randrange(1, 3), 2), u.rects(1), u.tables(2), flags=r.choice([0, E_ALPHA if fmt in (0, 1, 4) and not fl & F_PRO1 else 0]))
    class Conf:
        def __init__(self, fmt, fl):
            self.fmt, self.flags, self.w, self.h = fmt, fl, 64, 64
    for _ in range(n):
        a, b = r.choice(confs), r.choice(confs)
        if r.random() < .6:
            b = a
        qs = [fill(*a), fill(*b)]
        def one(rc, c, q):
            e = rc.create(64, 64, *c)
            x = rc.encode(e, q.img, q.tiles, q.ample(), regs=q.regs, quants=q.quants, flags=q.flags, light=True)
            rc.destroy(e)
            rc.ev.clear()
            return [x[0], x[1]] + u.lib.digest(x[2])
        gs = [u.group(), u.group()]
        what = f'calls of {(a, b)}, among the first to the library, and later'
        for g, c, q in zip(gs, (a, b), qs):
            u.agree(g, one(rec, c, q), what)
        def again(f):
            lib = u.lib.another()
            try:
                return f(rfx.Recorder(lib, False))
            finally:
                u.lib.c.shim_init()
        for o in ((0, 1), (1, 0)):
            for i, v in again(lambda rc: [(i, one(rc, (a, b)[i], qs[i])) for i in o]):
                u.agree(gs[i], v, what)
        if not step:
            continue
        pair = [(Conf(*c), q, q.ample(), True) for c, q in zip((a, b), qs)]
        def pcs(rc):
            base = C.cast(rc.lib.c.shim_init, C.c_void_p).value
            return [p - base for p in rc.branches(*pair[0])]
        then, now = pcs(rec), again(pcs)
        known = set(then)
        news = [k + 1 for k, p in enumerate(now) if p not in known]
        for i in range(most):
            k = r.choice(news) if news and r.random() < .7 else r.randrange(1, len(now) + 1) if now else 1
            res, f = again(lambda rc: rc.race(pair, [(k, r.choice([0, 0, r.randrange(1, 40)]))]))
            for g, x in zip(gs, res):
                u.agree(g, [x[0], x[1]] + u.lib.digest(x[2]), what)
            if f:
                raise Fault('race')

def repeats(u, n):
    """classic tiles encoded again: in another place of the list, after other tiles, by another encoder"""
    r = u.r
    for _ in range(n):
        fmt = r.randrange(5)
        fl = r.choice([0, F_RLGR1])
        al = r.choice([0, E_ALPHA]) if fmt in (0, 1, 4) else 0
        pics = []
        for _ in range(2):
            img, w, h, cells = u.picture(fmt, 3, 1, kinds=None)
            if fmt != YUV:
                cells = cells + [(x, y, r.randrange(1, cx + 1), r.randrange(1, cy + 1)) for x, y, cx, cy in cells]
            pics.append((img, cells))
        tabs = u.tables(2)
        es = [u.create(fmt, fl | r.choice([0, F_NOACCEL]), 64, 64) for _ in range(2)]
        for _ in range(7):
            img, cells = r.choice(pics)
            u.enc(r.choice(es), Req(img, u.tiles(cells, r.randrange(1, 5), 1), u.rects(1), tabs, flags=al),
                  r.choice([None, None, r.randrange(60000, 200000)]))
        u.finish()

def crowd(u, n):
    """many encoders alive at once, in two kinds, created and destroyed in any order: all of a kind alike"""
    r = u.r
    confs = [(YUV, F_PRO1 | r.choice([0, F_NOACCEL])), (r.randrange(5), any_flags(r, pro=False))]
    reqs = []
    for fmt, fl in confs:
        pics = [u.picture(fmt, 2, 1, kinds=['low', 'flat', 'text'], exact=True) for _ in range(3)]
        reqs.append([Req(p[0], u.tiles(p[3], 1, 1), [(0, 0, 64, 64)], [stim.table(r)]) for p in pics])
    groups = [[u.group() for _ in range(3)] for _ in confs]
    es = []
    made = 0
    while made < n or es:
        if made < n and (not es or r.random() < .62):
            k = r.randrange(2)
            es.append([u.q_create(*confs[k], 128, 64), k, 0])
            made += 1
        elif made < n and len(es) < n // 2 or r.random() < .75:
            x = r.choice(es)
            if x[2] < 3:
                rv, nn, out = u.q_enc(x[0], reqs[x[1]][x[2]])
                u.agree(groups[x[1]][x[2]], [rv, nn if rv >= 0 else 0] + u.lib.digest(out), 'encoders given the same requests')
                x[2] += 1
            else:
                es.remove(x)
                u.q_destroy(x[0])
        else:
            x = es.pop(r.randrange(len(es)))
            u.q_destroy(x[0])

def screen(u, n):
    """a frame buffer whose contents change in place, the same tiles asked for again and again, against images each in memory of its own"""
    r = u.r
    for _ in range(n):
        fmt = r.choice([0, 1, 2, 3, 4, 4])
        pro = fmt == YUV and r.random() < .6
        fl = any_flags(r, pro=pro)
        es = [u.q_create(fmt, fl, 128, 128) for _ in range(2)]
        tabs = u.tables(2)
        al = r.choice([0, E_ALPHA]) if fmt in (0, 1, 4) and not pro else 0
        img, w, h, cells = u.picture(fmt, 2, 2, kinds=['low', 'text', 'flat', 'dots', 'noise'], exact=True)
        t = u.tiles(cells, r.choice([1, 1, 2, 4]), 2)
        wash = Req(u.picture(fmt, 1, 1, kinds=['noise'], exact=True)[0], [(0, 0, 64, 64, 0, 0, 0)], [(0, 0, 64, 64)], tabs, flags=al)
        for _ in range(6):
            q = Req(img, t, tabs and [(0, 0, 64, 64)], tabs, flags=al)
            g = u.group()
            for i, e in enumerate(es):
                rv, nn, out = u.q_enc(e, q, arena=i == 0)
                u.agree(g, [rv, nn if rv >= 0 else 0] + u.lib.digest(out), 'images one after the other at one address, and each at its own')
                if i == 0 and not pro and rv >= 0:
                    # a new encoder that has seen something else
                    f = u.q_create(fmt, fl, 128, 128)
                    u.q_enc(f, wash)
                    rv1, nn1, out1 = u.q_enc(f, q)
                    cut = lambda o: b''.join(o[a:b] for a, b in wire.split(o, False)['tiles'])
                    u.same(cut(out1) if rv1 >= 0 else b'', cut(out), 'tiles of a changing image, and of an encoder that never saw it before')
                    u.q_destroy(f)
            if r.random() < .4:
                img, w, h, cells = u.picture(fmt, 2, 2, kinds=['low', 'text', 'flat', 'dots', 'noise'], exact=True)
            elif r.random() < .8:
                # little changes
                if fmt == YUV:
                    img = u.rec.yuv_image({i: mutate(r, c[1]) if r.random() < .7 else c[1] for i, c in enumerate(img.chunks)}, img.stride)
                else:
                    img = u.rec.image(mutate_packed(r, img.chunks[0][1], BPP[fmt], img.stride), img.stride)
            if r.random() < .3:
                t = u.tiles(cells, r.choice([1, 2, 4]), 2)
            if r.random() < .3:
                tabs = u.tables(2)
        for e in es:
            u.q_destroy(e)

@gen('C16')
def _c16(thorough, seed):
    k = 8 if thorough else 1
    J = session_jobs(80 * k, seed, 's', .15, agree={'twin'}, handles='{1, 2, 3}', key=8, bad=10, calls=10, per=4)
    for i in range(32 * k):
        J.append(Job(f'env{i}', lambda u: environment(u, 8), 1))
        J.append(Job(f'by{i}', lambda u: bystanders(u, 3), 1))
        J.append(Job(f'rep{i}', lambda u: repeats(u, 3), 1))
        J.append(Job(f'scr{i}', lambda u: screen(u, 3), .6))
    for i in range(3 * k):
        J.append(Job(f'cycle{i}', lambda u, i=i: cycles(u, 66500 if i == 0 else 1500, *[(YUV, 0), (0, 0), (1, F_RLGR1), (2, F_NOACCEL), (3, 0), (YUV, F_RLGR1)][i % 6]), 12 if i == 0 else .5))
        J.append(Job(f'crowd{i}', lambda u: crowd(u, 400), 1.5))
    for i in range(4 * k):
        J.append(Job(f'thr{i}', lambda u: threads(u, 6, 8), 4))
    for i in range(32 * k):
        J.append(Job(f'pre{i}', lambda u: preempted(u, 3, 40), 2, lib='step'))
    for i in range(8 * k):
        J.append(Job(f'first{i}', lambda u: first_calls(u, 3, 12), 1.5, lib='step'))
        J.append(Job(f'firsta{i}', lambda u: first_calls(u, 3, 0), .4))
    return J

# ---------------------------------------------------------------- C17
def creations(u, part, parts):
    """formats, flags and sizes; both functions"""
    r = u.r
    fm = [0, 1, 2, 3, 4, -1, 5, 6, 7, 8, 255, 256, 32, 0x20028888, -2 ** 31, 2 ** 31 - 1]
    allc = [(f, fl, ex) for f in fm for fl in [0, 1, 2, 4, 8, 16, 32, 64, 128, 129, 192, 193, 256, 384, 512, 0xffff, -1, 2 ** 31 - 1] for ex in (0, 1)]
    for f, fl, ex in allc[part::parts]:
        e = u.rec.create(r.choice([0, 1, 64, 1920, 65535]), r.choice([0, 1, 64, 1080, 65535]), f, fl, ex=ex)
        if e:
            u.rec.destroy(e)

def no_memory(u, n):
    """creation with each allocation failing"""
    r = u.r
    for _ in range(n):
        for ex in (0, 1):
            for fail in (1, 2, 3, 4):
                e = u.rec.create(64, 64, r.randrange(5), any_flags(r), ex=ex, fail=fail)
                if e:
                    u.rec.destroy(e)
                u.rec.destroy(None)

def growth(u, n):
    """progressive encoders over many positions, repeated, with failing allocations and key frames; destroyed at any time"""
    r = u.r
    for _ in range(n):
        e = u.create(YUV, F_PRO1 | r.choice([0, 1, 64]), 64, 64)
        img = u.rec.yuv_image({0: bytes([128]) * 16384}, 256)
        for _ in range(r.randrange(1, 14)):
            cells = [(r.randrange(64), r.randrange(64)) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < .5:
                cells = [r.choice([(0, 0), (63, 63), (0, 63), (63, 0), (31, 32)])]
            for x, y in cells:
                q = Req(img, [(64 * x, 64 * y, 64, 64, 0, 0, 0)], off=-16384 * (y + x), flags=r.choice([0, 0, 0, 0, E_KEY]))
                if r.random() < .1:
                    spoil(r, q, 1, True)
                u.enc(e, q, r.choice([None, None, None, r.randrange(0, 120)]), fail=r.choice([0, 0, 0, 1]), light=True)
        u.destroy(e)
        if r.random() < .3:
            u.rec.destroy(None)

def allpos(u):
    """all 4096 positions, a key frame, and some again"""
    r = u.r
    e = u.create(YUV, F_PRO1, 64, 64)
    img = u.rec.yuv_image({0: bytes([100]) * 16384}, 256)
    cells = [(x, y) for x in range(64) for y in range(64)]
    r.shuffle(cells)
    for i, (x, y) in enumerate(cells):
        q = Req(img, [(64 * x, 64 * y, 64, 64, 0, 0, 0)], off=-16384 * (y + x))
        if i == 2500:
            q.flags = E_KEY
        u.enc(e, q, 3000, light=True)
    u.destroy(e)

@gen('C17')
def _c17(thorough, seed):
    k = 10 if thorough else 1
    J = [Job(f'create{i}', lambda u, i=i: creations(u, i, 8), .3) for i in range(8)]
    for i in range(8 * k):
        J.append(Job(f'nomem{i}', lambda u: no_memory(u, 10), .3))
        J.append(Job(f'grow{i}', lambda u: growth(u, 16), .6))
    J.append(Job('all', lambda u: allpos(u), 4))
    J += session_jobs(200 * k, seed, 's', .08, light=True, handles='{1, 2}', key=5, bad=6, fmt_of=lambda r: r.randrange(5), alpha=True)
    J += session_jobs(80 * k, seed + 1, 't', .1, light=True, handles='{1, 2, 3}', modes='{TRUE}', key=5, bad=6, calls=12)
    return J
