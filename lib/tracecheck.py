"""Runs TLC with RfxTrace on recorded traces."""
import json, os, re, shutil, subprocess, tempfile
from model import SPEC, work, cm_jar, counts, ModelError

CFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'

def run(path, timeout=600, heap='3g', cpus=2):
    """-> dict(verdict='ACCEPTED'|'REJECTED', ...); raises ModelError otherwise"""
    d = tempfile.mkdtemp(prefix='tr-', dir=work())
    try:
        c = os.path.join(d, 'm.cfg')
        open(c, 'w').write(CFG)
        cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-XX:CICompilerCount=%d' % max(2, cpus), '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + d,
               '-DTLA-Library=' + SPEC, '-cp', '/opt/veriftools/tla/tla2tools.jar:' + cm_jar(), 'tlc2.TLC',
               '-workers', '1', '-metadir', d, '-noGenerateSpecTE', '-config', c, os.path.join(SPEC, 'RfxTrace.tla')]
        env = dict(os.environ, RFX_TRACE=path)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d, env=env)
        except subprocess.TimeoutExpired:
            raise ModelError('TLC timed out on ' + path)
        out = r.stdout
        m = re.search(r'<<\s*"REJECTED",\s*(\d+),\s*"(\w+)",\s*"((?:[^"\\]|\\.)*)"\s*>>', out.replace('\n', ' '))
        if m:
            return dict(verdict='REJECTED', line=int(m.group(1)), aspect=m.group(2), text=re.sub(r'\s+', ' ', m.group(3)))
        m = re.search(r'<<\s*"ACCEPTED",([\d,\s]+)>>', out.replace('\n', ' '))
        if m and r.returncode == 0 and 'No error has been found' in out:
            n = [int(x) for x in m.group(1).split(',')]
            gen, dist = counts(out)
            return dict(verdict='ACCEPTED', lines=n[0], msgs=n[1], tiles=n[2], diffs=n[3], blocks=n[4], fails=n[5],
                        states=dist, transitions=gen)
        raise ModelError(out[-4000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
