"""Inputs: sample planes, images, tables, coefficient blocks."""
import math

KINDS = ['flat', 'gradh', 'gradv', 'diag', 'noise', 'low', 'check', 'check2', 'bars', 'dots', 'impulse',
         'edge', 'extreme', 'text', 'walk', 'lastrow', 'lastcol', 'ring', 'blocks', 'rownoise', 'colnoise']

def plane(r, kind=None, n=64, m=64):
    """n columns, m rows of bytes"""
    k = kind or r.choice(KINDS)
    if k == 'flat':
        return bytes([r.choice([0, 255, 128, 127, 129, r.randrange(256)])]) * (n * m)
    if k == 'noise':
        return r.randbytes(n * m)
    if k == 'low':
        c = r.randrange(8, 248); a = r.choice([1, 2, 4, 8])
        return bytes(c + r.randint(-a, a) if a < 8 else c + r.randint(-8, 7) for _ in range(n * m))
    if k == 'gradh':
        a = r.randrange(256); s = r.choice([1, 2, 3, 4, -1, -3, 7])
        return bytes(max(0, min(255, a + s * x)) for _ in range(m) for x in range(n))
    if k == 'gradv':
        a = r.randrange(256); s = r.choice([1, 2, 3, 4, -1, -3, 7])
        return bytes(max(0, min(255, a + s * y)) for y in range(m) for _ in range(n))
    if k == 'diag':
        s = r.choice([1, 2, 3, 5]); t = r.choice([1, -1, 2])
        return bytes((s * x + t * y) & 255 for y in range(m) for x in range(n))
    if k in ('check', 'check2'):
        d = 1 if k == 'check' else r.choice([2, 3, 4, 8])
        a, b = r.choice([(0, 255), (255, 0), (100, 140), (r.randrange(256), r.randrange(256))])
        return bytes(a if (x // d + y // d) % 2 == 0 else b for y in range(m) for x in range(n))
    if k == 'bars':
        a, b = r.randrange(256), r.randrange(256); w = r.randrange(1, 17); v = r.random() < .5
        return bytes(a if ((y if v else x) // w) % 2 else b for y in range(m) for x in range(n))
    if k == 'dots':
        o = bytearray([r.randrange(256)]) * (n * m)
        for _ in range(r.randrange(1, 60)):
            o[r.randrange(n * m)] = r.randrange(256)
        return bytes(o)
    if k == 'impulse':
        o = bytearray([r.choice([128, 0, 255, 100])]) * (n * m)
        for _ in range(r.randrange(1, 4)):
            x = r.choice([0, 1, 2, n - 3, n - 2, n - 1, r.randrange(n)]); y = r.choice([0, 1, m - 2, m - 1, r.randrange(m)])
            o[(y % m) * n + x % n] = r.choice([0, 255, r.randrange(256)])
        return bytes(o)
    if k == 'edge':
        a, b = r.randrange(256), r.randrange(256); p = r.randrange(1, 64); v = r.random() < .5
        return bytes(a if (y if v else x) < p else b for y in range(m) for x in range(n))
    if k == 'extreme':
        return bytes(255 * (c & 1) for c in r.randbytes(n * m))
    if k == 'text':
        bg, fg = r.choice([(255, 0), (0, 255), (240, 20)])
        o = bytearray([bg]) * (n * m)
        for gy in range(2, m - 8, 10):
            for gx in range(2, n - 6, 7):
                for dy in range(8):
                    bits = r.randrange(64)
                    for dx in range(5):
                        if bits >> dx & 1:
                            o[(gy + dy) * n + gx + dx] = fg
        return bytes(o)
    if k == 'walk':
        o = bytearray(n * m); v = r.randrange(256)
        for i in range(n * m):
            v = max(0, min(255, v + r.randint(-5, 5))); o[i] = v
        return bytes(o)
    if k == 'lastrow':
        o = bytearray([r.randrange(256)]) * (n * m)
        o[-n:] = r.randbytes(n)
        return bytes(o)
    if k == 'lastcol':
        o = bytearray([r.randrange(256)]) * (n * m)
        for y in range(m):
            o[y * n + n - 1] = r.randrange(256)
        return bytes(o)
    if k == 'ring':
        f = r.uniform(.05, 1.2)
        return bytes(int(127.5 + 127.5 * math.cos(f * math.hypot(x - 20, y - 30))) for y in range(m) for x in range(n))
    if k == 'blocks':
        c = [[r.randrange(256) for _ in range(8)] for _ in range(8)]
        return bytes(c[(y // 8) % 8][(x // 8) % 8] for y in range(m) for x in range(n))
    if k == 'rownoise':
        return b''.join(bytes([r.randrange(256)]) * n for _ in range(m))
    if k == 'colnoise':
        return r.randbytes(n) * m
    raise ValueError(k)

def yuv_tile(r, kinds=None):
    """Y U V A planes"""
    return b''.join(plane(r, r.choice(kinds) if kinds else None) for _ in range(4))

def packed(r, w, h, bpp, kinds=None, alpha=None):
    """interleaved image of w x h pixels, channels drawn independently or alike"""
    same = r.random() < .3
    k0 = r.choice(kinds or KINDS)
    ch = []
    for c in range(bpp):
        k = k0 if same else r.choice(kinds or KINDS)
        ch.append(plane(r, k, w, h))
    if alpha is not None and bpp == 4:
        ch[3] = alpha
    o = bytearray(w * h * bpp)
    for c in range(bpp):
        o[c::bpp] = ch[c]
    return bytes(o)

DEFAULTQ = (0x66, 0x66, 0x77, 0x88, 0x98)
FINEST = (0x66,) * 5
COARSEST = (0xff,) * 5

def table(r, kind=None):
    k = kind or r.choice(['default', 'finest', 'perm', 'random', 'mid', 'coarse', 'perm', 'random', 'onehot'])
    if k == 'default':
        return DEFAULTQ
    if k == 'finest':
        return FINEST
    if k == 'coarse':
        return COARSEST if r.random() < .3 else tuple(r.choice([12, 13, 14, 15]) | r.choice([12, 13, 14, 15]) << 4 for _ in range(5))
    if k == 'perm':
        n = list(range(6, 16)); r.shuffle(n)
    elif k == 'onehot':
        a, b = r.choice([(6, 9), (7, 6), (6, 12), (10, 6), (8, 11)])
        n = [a] * 10; n[r.randrange(10)] = b
    elif k == 'mid':
        n = [r.randrange(6, 10) for _ in range(10)]
    else:
        n = [r.randrange(6, 16) for _ in range(10)]
    return tuple(n[2 * i] | n[2 * i + 1] << 4 for i in range(5))

# ---- coefficient blocks for the entropy coders -------------------------------
def _mag(r, bits):
    b = r.randint(0, bits)
    v = r.randrange(1 << b, 2 << b) - 1
    v = min(v, 32767)
    return v if r.random() < .5 else -v

CKINDS = ['zero', 'one', 'sparse', 'dense', 'mixed', 'runs', 'pow2runs', 'alt', 'extreme', 'big', 'tail', 'pairs', 'climb',
          'growing', 'negmin', 'bursts', 'picture', 'units', 'zerogr']

def coefs(r, kind=None, N=4096):
    k = kind or r.choice(CKINDS)
    o = [0] * N
    if k == 'zero':
        pass
    elif k == 'one':
        o[r.choice([0, 1, N - 1, N - 2, N - 64, N - 65, N - 81, r.randrange(N)])] = _mag(r, 14) or 1
    elif k == 'sparse':
        for _ in range(r.randrange(2, 400)):
            o[r.randrange(N)] = _mag(r, r.choice([2, 6, 14]))
    elif k == 'dense':
        b = r.randrange(0, 15)
        o = [_mag(r, b) for _ in range(N)]
    elif k == 'mixed':
        p = r.random()
        b = r.randrange(1, 12)
        o = [0 if r.random() < p else _mag(r, b) for _ in range(N)]
    elif k == 'runs':
        i = 0
        while i < N:
            i += int(r.expovariate(1 / r.choice([3, 30, 300])))
            for _ in range(r.randrange(1, 6)):
                if i < N:
                    o[i] = _mag(r, 7); i += 1
    elif k == 'pow2runs':
        i = 0
        while i < N:
            i += max(0, (1 << r.randrange(0, 11)) + r.choice([-1, 0, 1, 0, 2]))
            if i < N:
                o[i] = _mag(r, r.choice([1, 3, 9])) or 1; i += 1
    elif k == 'alt':
        a, b = _mag(r, 14), r.choice([0, 1, -1, _mag(r, 5)])
        o = [a if i % 2 else b for i in range(N)]
    elif k == 'extreme':
        o = [r.choice([32767, -32768, -32767, 32766, 0, 1, -1, 16384, -16384]) for _ in range(N)]
    elif k == 'big':
        # a large value after the parameters have come down: long unary parts
        i = 0
        while i < N:
            n = r.randrange(20, 200)
            for j in range(n):
                if i < N:
                    o[i] = r.choice([0, 1, -1]); i += 1
            if i < N:
                o[i] = r.choice([1, -1]) * r.choice([300, 1000, 5000, 20000, 32767]); i += 1
    elif k == 'tail':
        for i in range(N - r.choice([64, 81, 100, 2]), N):
            o[i] = _mag(r, 13)
    elif k == 'pairs':
        o = [0 if r.random() < .5 else r.choice([1, -1, 2, -2, 7]) for _ in range(N)]
    elif k == 'climb':
        o = [(i * r.choice([1, 1, 1, 2]) // 8) * (1 if i % 3 else -1) for i in range(N)]
    elif k == 'growing':
        b = 0
        for i in range(N):
            b = min(14, max(0, b + r.choice([-1, 0, 0, 1])))
            o[i] = _mag(r, b)
    elif k == 'negmin':
        for _ in range(r.randrange(1, 9)):
            o[r.randrange(N)] = -32768
    elif k == 'bursts':
        i = 0
        while i < N:
            i += r.randrange(1, 500)
            b = r.randrange(0, 12)
            for _ in range(r.randrange(1, 40)):
                if i < N:
                    o[i] = _mag(r, b); i += 1
    elif k == 'picture':
        for i in range(N):
            s = 2 if i < 3072 else 8 if i < 3840 else 30 if i < 4032 else 200
            v = int(r.gauss(0, s) * r.random())
            o[i] = v
    elif k == 'units':
        o = [r.choice([1, -1]) for _ in range(N)]
    elif k == 'zerogr':
        # keeps the run parameter near the change between the two modes
        for i in range(N):
            o[i] = 0 if r.random() < .62 else _mag(r, 2)
    return [max(-32768, min(32767, v)) for v in o]
