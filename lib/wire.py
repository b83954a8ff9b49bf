"""Where the blocks of a message lie, only to choose interesting capacities and
to cut out tiles for comparison.  Judging messages is RfxTrace's business."""
import struct

def split(b, pro, alpha=False):
    """-> dict(hdr, begin, region, tiles=[(start, end)], end) of offsets, or None"""
    try:
        p = 0
        d = dict(hdr=0)
        if b[:2] == b'\xc0\xcc':
            while struct.unpack_from('<H', b, p)[0] != (0xCCC1 if pro else 0xCCC4):
                p += struct.unpack_from('<I', b, p + 2)[0]
            d['hdr'] = p
        p += struct.unpack_from('<I', b, p + 2)[0]
        d['begin'] = p
        if pro:
            nr, nq = struct.unpack_from('<HB', b, p + 7)
            nt = struct.unpack_from('<H', b, p + 12)[0]
            q = p + 18 + 8 * nr + 5 * nq
        else:
            p += struct.unpack_from('<I', b, p + 2)[0]
            nq = b[p + 14 - 0] if False else struct.unpack_from('<B', b, p + 14)[0]
            nt = struct.unpack_from('<H', b, p + 16)[0]
            q = p + 22 + 5 * nq
        d['region'] = q
        t = []
        for _ in range(nt):
            n = struct.unpack_from('<I', b, q + 2)[0]
            t.append((q, q + n))
            q += n
            if q > len(b):
                return None
        d['tiles'] = t
        d['end'] = q
        return d
    except (struct.error, IndexError):
        return None

def parts(b, pro, alpha=False, most=70000):
    """of a long message: all up to the first tile, the beginning of each block from there on with its offset
    (following the lengths written), and the last bytes"""
    d = split(b[:200000], pro, alpha) or split(b, pro, alpha)
    try:
        if d is None:
            p = 0
            while struct.unpack_from('<H', b, p)[0] not in (0xCAC3, 0xCCC5) and p < 100000:
                p += 1
            q = p
        else:
            q = d['region']
    except struct.error:
        q = min(len(b), 100)
    pre = b[:q]
    heads = []
    while q + 6 <= len(b) and len(heads) < most:
        n = struct.unpack_from('<I', b, q + 2)[0]
        heads.append([q] + list(b[q:q + 22]))
        if n < 6:
            break
        q += n
    return dict(pre=list(pre), heads=heads, tail=list(b[-8:]))
