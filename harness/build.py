"""Builds the library under test from the working tree of /repo together with
the observation shim, as a shared object.  Everything is keyed by the contents
of the sources, so an unchanged tree is built once."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RFX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class BuildError(Exception):
    pass

# kinds of build: '' as released for amd64; 'step' with the shim's scheduler called at
# every branch; 'plain' without any assembler; 'x86' the 32-bit library with its own
# assembler, as a server process (serve32.c)
KINDS = ('', 'step', 'plain', 'x86')
LIBC32 = '/usr/lib32/libc.so.6'
LD32 = '/lib/ld-linux.so.2'

def sources(kind):
    arch = {'': 'amd64', 'step': 'amd64', 'x86': 'x86'}.get(kind)
    cs = sorted(glob.glob(REPO + '/src/*.c') + (glob.glob(f'{REPO}/src/{arch}/*.c') if arch else []))
    asms = sorted(glob.glob(f'{REPO}/src/{arch}/*.asm')) if arch else []
    others = sorted(glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/src/*.asm')
                    + glob.glob(REPO + '/src/*/*.h') + glob.glob(REPO + '/include/*.h'))
    mine = [HERE + '/shim.c'] + ([HERE + '/serve32.c', HERE + '/start32.S'] if kind == 'x86' else [])
    return cs, asms, others, mine

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout

def build(kind=''):
    cs, asms, others, mine = sources(kind)
    h = hashlib.sha256(kind.encode())
    for f in cs + asms + others + mine + [HERE + '/build.py']:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    key = h.hexdigest()[:20] + ('-' + kind if kind else '')
    name = 'rfx32' if kind == 'x86' else 'librfxobs.so'
    so = os.path.join(BUILD, key, name)
    if os.path.exists(so):
        try:
            os.utime(os.path.dirname(so))
        except OSError:
            pass
        return so
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        objs = []
        procs = []
        inc = os.path.join(d, 'inc')
        if kind == 'x86':
            # the one 32-bit header that is not installed, and has nothing to say
            os.makedirs(inc + '/gnu')
            open(inc + '/gnu/stubs-32.h', 'w').close()
        mode = {'x86': ['-m32', '-fno-pic', '-fno-stack-protector', '-DRFX_USE_ACCEL_X86=1', '-I' + inc, '-I/usr/include/x86_64-linux-gnu'],
                'plain': ['-fPIC']}.get(kind, ['-fPIC', '-DRFX_USE_ACCEL_AMD64=1'])
        for c in cs + mine:
            o = os.path.join(d, c.replace('/', '_') + '.o')
            objs.append(o)
            procs.append(['gcc', '-g', '-O2', '-w', '-pthread', *mode, '-DSIMD_USE_ACCEL=%d' % (kind != 'plain'),
                 *(['-DSHIM_CPUID=1'] if kind != 'plain' else []),
                 *(['-fsanitize-coverage=trace-pc'] if kind == 'step' and c not in mine else []),
                 '-I' + REPO + '/include', '-I' + REPO + '/src', '-c', c, '-o', o])
        for a in asms:
            o = os.path.join(d, a.replace('/', '_') + '.o')
            objs.append(o)
            procs.append(['nasm', *(['-felf32', '-DASM_ARCH_I386', '-DPIC'] if kind == 'x86' else ['-felf64', '-DASM_ARCH_AMD64', '-DPIC']), '-DELF',
                 '-I' + REPO + '/src/', '-o', o, a])
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, procs))
        wraps = ['malloc', 'calloc', 'free', 'realloc', 'memalign', 'aligned_alloc',
                 'posix_memalign', 'cpuid_x86' if kind == 'x86' else 'cpuid_amd64']
        wraps = ['-Wl,--wrap=' + w for w in wraps]
        if kind == 'x86':
            run(['gcc', '-m32', '-no-pie', '-nostdlib', '-o', os.path.join(d, name)] + objs + wraps
                + [LIBC32, '-Wl,-dynamic-linker,' + LD32, '-Wl,-z,noexecstack'])
        else:
            run(['gcc', '-shared', '-pthread', '-o', os.path.join(d, name)] + objs + wraps + ['-Wl,-z,notext', '-Wl,-Bsymbolic'])
        final = os.path.join(BUILD, key)
        try:
            os.rename(d, final)
        except OSError:
            shutil.rmtree(d, ignore_errors=True)
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    # keep the cache small
    ents = sorted((os.path.join(BUILD, e) for e in os.listdir(BUILD) if not e.startswith('tmp-')),
                  key=os.path.getmtime)
    for e in ents[:-16]:
        if os.path.dirname(so) != e and os.path.isdir(e):
            shutil.rmtree(e, ignore_errors=True)
    return so

if __name__ == '__main__':
    print(build(*sys.argv[1:]))
