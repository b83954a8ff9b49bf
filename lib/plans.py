"""Which runs of the design specification belong to which property, assumptions, known findings."""
import json, os, re
import kit, model, rfx, tracecheck

VERIF = model.VERIF
ASSUME = [
    'the specification (spec/*.tla) states RemoteFX as the library is meant to implement it',
    'TLC evaluates it correctly; the shim (harness/shim.c) reports calls truthfully',
    'builds with gcc -O2: amd64 with assembly, amd64 without, and (where gcc -m32 code runs) 32-bit with assembly',
]

def sess(name, **k):
    return (name, lambda: model.check('MC_Session', model.cfg(**k), workers=2, timeout=1500, heap='3g'))
def rlgr(name, *a):
    return (name, lambda: model.check('MC_Rlgr', model.rlgr_cfg(*a), workers=2, timeout=1500))
def ctl(name):
    def f():
        got = model.control(name)
        if not got:
            raise model.ModelError(f'the mistake {name} went unnoticed')
        return (0, 0)
    return (f'negative control {name}', f)

def wire(name, pro, alpha, **k):
    return (name, lambda: model.check('MC_Wire', model.wire_cfg(pro, alpha, **k), workers=2, timeout=1500))
def wctl(name, pro):
    def f():
        rc, out = model.tlc('MC_Wire', model.wire_cfg(pro, 0, mistake='"%s"' % name), workers=2)
        if 'is violated' not in out:
            raise model.ModelError(f'the mistake {name} went unnoticed')
        return (0, 0)
    return (f'negative control {name}', f)
def run(name, module, cfg, **k):
    return (name, lambda: model.check(module, cfg, workers=2, timeout=1500, heap='3g', **k))
def seen(name, module, cfg):
    """a mistake the model has to notice"""
    def f():
        rc, out = model.tlc(module, cfg, workers=2, timeout=600)
        if ' violated' not in out:
            raise model.ModelError(f'{name} went unnoticed\n' + out[-2000:])
        return (0, 0)
    return ('negative control ' + name, f)

WIRE = [wire('message bytes, classic', 0, 0), wire('message bytes, alpha', 0, 1), wire('message bytes, progressive', 1, 0)]
WIREX = [wctl(m, p) for m in ('tile_short', 'count_off', 'size_off') for p in (0, 1)]
COUNT = [sess('messages count one tile', calls=2, count=1), sess('messages count one tile, histories of any length', calls=0, pos='{1}', count=1)]
ECHO = [sess('requests with different contents', calls=2, infos='{0, 1}', pos='{1}', tiles=1)]
ENDS = [sess('every call ends', calls=1, spec='FairSpec', inv='', prop='Ends'),
        sess('every call of any history ends', calls=0, pos='{1}', tiles=1, spec='FairSpec', inv='', prop='Ends')]
RESUME = [run('caller that resumes', 'RfxResume', model.resume_cfg('Image3')),
          run('caller that resumes, few tiles per message', 'RfxResume', model.resume_cfg('Image4', calls=6, count=3)),
          run('caller that resumes gets there', 'RfxResume', model.resume_cfg('Image3', caps='{7, 9}', calls=9, live=True))]
RESUMEX = [run('caller that resumes, eight calls', 'RfxResume', model.resume_cfg('Image4', calls=8, caps='{3, 5, 6, 7, 8, 9, 11}')),
           seen('resume_off', 'RfxResume', model.resume_cfg('Image3', bug='"resume_off"')),
           seen('buffers that take no tile', 'RfxResume', model.resume_cfg('Image3', caps='{5, 7}', calls=9, live=True))]
ALPHA = [run('alpha codes, 3 wide', 'MC_Alpha', model.alpha_cfg(3, 6, 'Small')),
         run('alpha codes, 2 wide', 'MC_Alpha', model.alpha_cfg(2, 8, 'Small2')),
         run('alpha codes, long runs', 'MC_Alpha', model.alpha_cfg(64, 64, 'Wide', most=3, lits='{0, 1, 15}', runs='{0, 3, 15, 16, 31, 32, 47}')),
         run('alpha values', 'MC_Alpha', model.alpha_cfg(1, 2, 'Values', inv='Lossless Accepted DeltaInverse'))]
ALPHAX = [run('alpha codes, 4 wide', 'MC_Alpha', model.alpha_cfg(4, 8, 'Small2')),
          run('alpha codes, long runs, four control bytes', 'MC_Alpha', model.alpha_cfg(64, 64, 'Wide', most=4, lits='{0, 1, 2, 15}', runs='{0, 3, 15, 16, 31, 32, 33, 47}')),
          seen('short_run', 'MC_Alpha', model.alpha_cfg(3, 6, 'Small', mistake='"short_run"')),
          seen('row_start', 'MC_Alpha', model.alpha_cfg(3, 6, 'Small', mistake='"row_start"'))]
COLOR = [run('colours and pixels', 'MC_Color', model.color_cfg(17, sizes='{1, 37, 64}'))]
COLORX = [run('colours and pixels, fine', 'MC_Color', model.color_cfg(3, sizes='{1, 2, 3, 31, 32, 37, 62, 63, 64}'))]
PICTURE = [run('pictures through the chain', 'MC_Picture', model.picture_cfg(kinds='{"flat", "checker", "edge", "last", "hash"}', levels='{0, 255}')),
           run('pictures, with history', 'MC_Picture', model.picture_cfg(kinds='{"checker", "ramp"}', levels='{3, 255}', depth=2, tables='MCOne'))]
PICTUREX = [run('pictures through the chain, all kinds', 'MC_Picture', model.picture_cfg(levels='{0, 77, 128, 255}', tables='MCTables')),
            run('pictures, with history', 'MC_Picture', model.picture_cfg(kinds='{"checker", "ramp", "dot", "hash"}', depth=3)),
            seen('no_tail', 'MC_Picture', model.picture_cfg(kinds='{"checker", "ramp"}', mistake='"no_tail"')),
            seen('no_add', 'MC_Picture', model.picture_cfg(kinds='{"checker", "ramp"}', depth=2, mistake='"no_add"'))]

def model_jobs(pid, tier):
    th = tier == 'thorough'
    jobs = []
    if pid in ('C03', 'C05', 'C06', 'C13', 'C15', 'C16', 'C17', 'C01', 'C04'):
        two = sess('two encoders', handles='{1, 2}', pos='{1}', tiles=1, calls=2, caps='{0, 5, 7}', modes='{TRUE, FALSE}')
        ever = [sess('progressive, histories of any length, one tile a call', calls=0, tiles=1),
                sess('progressive, histories of any length, one position', calls=0, pos='{1}'),
                sess('classic, histories of any length', calls=0, modes='{FALSE}')]
        if th:
            jobs = ever + [sess('progressive, three calls', calls=3), sess('classic, three calls', calls=3, modes='{FALSE}'),
                    sess('progressive, histories of any length, two tiles a call', calls=0),
                    sess('progressive, histories of any length, three positions', calls=0, tiles=1, pos='{1, 2, 3}', caps='{0, 5, 7}'),
                    sess('progressive, histories of any length, three tiles a call', calls=0, tiles=3, pos='{1}', caps='{0, 3, 5, 7, 9, 11}'),
                    two] + [ctl(c) for c in model.CONTROLS]
            if pid == 'C16':
                jobs.append(sess('two encoders, histories of any length', calls=0, handles='{1, 2}', pos='{1}', tiles=1, caps='{5, 7}'))
        else:
            jobs = ever + [sess('progressive', calls=2), two]
    if pid == 'C07':
        if th:
            return [rlgr('A5^5', 'A5', 5, 'Few', 'Accepted Lossless'), rlgr('A4^6', 'A4', 6, 'Few', 'Accepted Lossless'), rlgr('A9^3', 'A9', 3, 'Some', 'Accepted Lossless'),
                    rlgr('A5^4 unique', 'A5', 4, 'Few', 'Accepted Lossless Unique')]
        return [rlgr('A5^4', 'A5', 4, 'Few', 'Accepted Lossless Unique'), rlgr('A9^2', 'A9', 2, 'Some', 'Accepted Lossless')]
    add = {'C01': (WIRE + COUNT, WIREX), 'C02': (WIRE + ECHO, WIREX), 'C04': (ENDS, []), 'C06': (RESUME + COUNT, RESUMEX),
           'C09': (PICTURE[:1], PICTUREX[:1]), 'C10': (COLOR, COLORX), 'C11': (PICTURE, PICTUREX), 'C12': (ALPHA, ALPHAX),
           'C13': (PICTURE[1:], PICTUREX[1:]), 'C14': (PICTURE[:1], PICTUREX[:1])}.get(pid, ([], []))
    return jobs + add[0] + (add[1] if th else [])

FINDINGS = os.path.join(VERIF, 'known-findings.txt')
def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r'known: property=(\w+) (\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def corner(u):
    """the 1-pixel checker 0/255 as a progressive tile with the finest table"""
    px = bytes(255 * ((x + y) & 1) for y in range(64) for x in range(64)) + bytes([128]) * 4096 * 3
    e = u.create(4, 128, 64, 64)
    u.enc(e, kit.Req(u.rec.yuv_image({0: px}, 256), [(0, 0, 64, 64, 0, 0, 0)], quants=[(0x66,) * 5]))
    u.destroy(e)

# name in known-findings.txt -> (aspects, what to do)
REPLAY = {'corner': (['client', 'strict'], corner)}

def record_known(pid, so, d):
    """(in a child process) the traces of the listed findings"""
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 1)
    for name, text in known_findings(pid):
        aspects, fn = REPLAY[name]
        u = kit.Unit(rfx.Lib(so), name, name, True)
        fn(u)
        u.finish()
        u.close()
        for e in u.rec.ev:
            for k in ('img', 'ref'):
                if e.get(k):
                    e[k] += 1
        with open(os.path.join(d, name + '.ndjson'), 'w') as f:
            for e in [dict(ev='cfg', aspects=aspects)] + u.rec.ev:
                f.write(json.dumps(e) + '\n')

def replay_known(pid, d):
    """one KNOWN-FINDING line per listed finding of this property that still fails on its input"""
    out = []
    for name, text in known_findings(pid):
        path = os.path.join(d, name + '.ndjson')
        r = tracecheck.run(path) if os.path.exists(path) else dict(verdict='?')
        out.append(f'KNOWN-FINDING: property={pid} {text} ({r["text"]})' if r['verdict'] == 'REJECTED' else f'{name}: listed as a finding, not seen any more')
    return out
