"""Exhaustive TLC runs on the design specification (RfxSession) and on the
entropy-code specification, and the negative controls that show the listed
invariants can fail."""
import json, os, re, subprocess, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
INV = 'ClientFollows ClientInSync EncoderInSync Confined WellFormed Prefix TakesAll AmpleSucceeds BadNeverDelivered HeapExact Echo Countable'
PROP = 'FailureInvisible KeyIsFresh Isolated'

class ModelError(Exception):
    pass

def cfg(bug='', handles='{1}', pos='{1, 2}', content='{0, 1}', tiles=2, calls=3, caps='{0, 3, 5, 7, 9}', modes='{TRUE}',
        infos='{0}', count=9, more='', inv=INV, prop=PROP, spec='Spec'):
    return f'''SPECIFICATION {spec}
CONSTANTS
  Zero = 0
  Sub <- MCSub
  Add <- MCAdd
  CtrZero = 0
  CtrNext <- {'MCNext' if calls else 'MCRound'}
  Bug = {{{bug}}}
  Handle = {handles}
  Pos = {pos}
  Content = {content}
  MaxTiles = {tiles}
  MaxCalls = {calls}
  Caps = {caps}
  HLen = 2
  BLen = 1
  RLen = 1
  ELen = 1
  TLens = {{1, 2}}
  Modes = {modes}
  Infos = {infos}
  MaxCount = {count}
{more}CHECK_DEADLOCK FALSE
''' + (f'INVARIANTS {inv}\n' if inv else '') + (f'PROPERTIES {prop}\n' if prop else '')

def tlc(module, cfgtext, workers=8, timeout=600, extra=(), heap='4g'):
    d = tempfile.mkdtemp(prefix='tlc-', dir=work())
    try:
        c = os.path.join(d, 'm.cfg')
        open(c, 'w').write(cfgtext)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC, '-cp',
               '/opt/veriftools/tla/tla2tools.jar:' + cm_jar(), 'tlc2.TLC', '-workers', str(workers),
               '-metadir', d, '-noGenerateSpecTE', '-config', c, *extra, os.path.join(SPEC, module + '.tla')]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

def work():
    w = os.path.join(VERIF, 'work')
    os.makedirs(w, exist_ok=True)
    return w

_cm = None
def cm_jar():
    global _cm
    if _cm is None:
        import glob
        js = [j for j in glob.glob('/opt/veriftools/tla/*.jar') if 'ommunity' in j]
        _cm = js[0] if js else ''
    return _cm

def counts(out):
    m = re.search(r'(\d+) states generated (\d+) distinct states found', out.replace(',', ''))
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def check(module, cfgtext, **k):
    """-> (transitions, states); raises when the model itself is wrong"""
    rc, out = tlc(module, cfgtext, **k)
    if rc != 0 or 'No error has been found' not in out:
        raise ModelError(out[-3000:])
    return counts(out)

# design mistakes and what has to notice them
CONTROLS = {
    'key_keeps_refs': ('KeyIsFresh', {}),
    'key_keeps_number': ('', {}),
    'key_keeps_header': ('', {}),
    'key_always': ('', dict(modes='{FALSE}')),
    'no_update_on_diff': ('', {}),
    'update_before_fit': ('', {}),
    'fail_uses_number': ('', {}),
    'fail_uses_header': ('', {}),
    'fail_keeps_history", "no_reserve': ('', {}),
    'overrun': ('', {}),
    'stop_early': ('', {}),
    'leak_history': ('', {}),
    'stale_info': ('', dict(infos='{0, 1}', pos='{1}', tiles=1)),
    'miscount': ('', dict(count=1)),
}
def control(name):
    opt = CONTROLS[name][1]
    rc, out = tlc('MC_Session', cfg(bug='"%s"' % name, calls=2, **opt), workers=2, timeout=300)
    m = re.search(r'(?:Invariant|property) (\w+) (?:is|was) violated|Action property (\w+)', out)
    return (m.group(1) or m.group(2)) if m else None

def resume_cfg(image, caps='{3, 5, 7, 9, 11}', calls=5, modes='{TRUE, FALSE}', bug='', live=False, **k):
    more = '  Image <- %s\n' % image
    return cfg(bug=bug, caps=caps, calls=calls, modes=modes, spec='RFairSpec' if live else 'RSpec', more=more,
               inv='' if live else 'NothingLost Complete Prefix ClientInSync ClientFollows Confined', prop='Arrives' if live else '', **k)

def rlgr_cfg(alphabet, n, starts, inv):
    return f'SPECIFICATION Spec\nCONSTANTS\n  Alphabet <- {alphabet}\n  MaxLen = {n}\n  Starts <- {starts}\nCHECK_DEADLOCK FALSE\nINVARIANTS {inv}\n'

def wire_cfg(pro, alpha, most=1, mistake='', lens='MCLens', inv='ReadBack OnlyWhole Noticed'):
    b = lambda x: 'TRUE' if x else 'FALSE'
    return f'''SPECIFICATION Spec
CONSTANTS
  Pro = {b(pro)}
  Alpha = {b(alpha)}
  Rects <- MCRects
  Tables <- MCTables
  Places <- MCPlaces
  CompLens <- {lens}
  Most = {most}
  Numbers <- MCNumbers
  Mistake = {{{mistake}}}
CHECK_DEADLOCK FALSE
INVARIANTS {inv}
'''

def alpha_cfg(w, n, planes, most=99, lits='{0, 1, 2, 3, 4}', runs='{0, 1, 2, 3, 4}', mistake='', inv='Lossless Accepted Exact RawOk'):
    return f'SPECIFICATION Spec\nCONSTANTS\n  W = {w}\n  N = {n}\n  Planes <- {planes}\n  Lits = {lits}\n  Runs = {runs}\n  Most = {most}\n  Mistake = {{{mistake}}}\nCHECK_DEADLOCK FALSE\nINVARIANTS {inv}\n'

def color_cfg(step, sizes='{1, 2, 37, 63, 64}', inv='NoClamp Back Grey Monotone Orders Pixels'):
    return f'SPECIFICATION Spec\nCONSTANTS\n  Step = {step}\n  Sizes = {sizes}\nCHECK_DEADLOCK FALSE\nINVARIANTS {inv}\n'

def picture_cfg(kinds='MCAll', levels='{0, 255}', tables='MCTwo', depth=1, mistake='', inv='Faithful InStep'):
    k = f'  Kinds <- {kinds}' if kinds.isalnum() else f'  Kinds = {kinds}'
    return f'SPECIFICATION Spec\nVIEW View\nCONSTANTS\n{k}\n  Levels = {levels}\n  Tables <- {tables}\n  Depth = {depth}\n  Mistake = {{{mistake}}}\nCHECK_DEADLOCK FALSE\nINVARIANTS {inv}\n'

def behaviours(num, seed, calls=6, key=6, bad=8, depth=150, workers=1, **opt):
    """Histories drawn from the session model: list of lists of operations."""
    text = cfg(spec='GenSpec', inv='', prop='', calls=calls, **opt).replace('CONSTANTS\n', f'CONSTANTS\n  KeyOneIn = {key}\n  BadOneIn = {bad}\n', 1)
    rc, out = tlc('RfxGen', text, workers=workers, timeout=300,
                  extra=('-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed)))
    res = []
    seen = set()
    for m in re.finditer(r'<<"BEHAVIOUR", ("(?:[^"\\]|\\.)*")>>', out.replace('\n', ' ')):
        j = json.loads(m.group(1))
        if j not in seen:
            seen.add(j)
            res.append(json.loads(j))
    if not res:
        raise ModelError(out[-3000:])
    return res
