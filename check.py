#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--jobs a,b] [--keep]
Decides one property: runs the design specification (TLC, exhaustive at small
constants), drives the library built from /repo's working tree, and has TLC
check everything recorded against the trace specification."""
import argparse, json, os, pickle, sys, time, traceback, shutil, signal, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'harness')]
sys.dont_write_bytecode = True
import build, model, tracecheck, scen, kit, plans
import rfx

NSHARD = 8

def pack(jobs, n):
    """longest first onto the least loaded shard"""
    sh = [[0.0, []] for _ in range(min(n, max(1, len(jobs))))]
    for j in sorted(jobs, key=lambda j: -j.cost):
        s = min(sh, key=lambda s: s[0])
        s[0] += j.cost
        s[1].append(j)
    return [s[1] for s in sh]

def drive(pid, seed, jobs, so, path, status):
    """in a child process: run the jobs, write the trace"""
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 1)
    libs = {}
    stat = open(status, 'w')
    with open(path, 'w') as f:
        f.write(json.dumps(dict(ev='cfg', aspects=scen.ASPECTS[pid])) + '\n')
        n = 1
        for j in jobs:
            stat.write(json.dumps(dict(job=j.name, line=n + 1)) + '\n')
            stat.flush()
            if j.lib not in so:
                continue
            if '' not in libs:
                libs[''] = rfx.Lib(so[''])
            if j.lib not in libs:
                libs[j.lib] = rfx.Lib32(so[j.lib], libs['']) if j.lib == 'x86' else rfx.Lib(so[j.lib])
            lib = libs[j.lib]
            lib.c.shim_init()
            u = kit.Unit(lib, j.name, f'{pid}/{seed}', j.px)
            try:
                j.fn(u)
                u.finish()
            except rfx.Fault as x:
                if j.lib == 'x86':
                    libs.pop(j.lib).close()     # the next job gets a new process
                if not any(e.get('fault') for e in u.rec.ev):
                    u.rec.ev.append(dict(ev='crash', what=str(x)))
            except (MemoryError, OSError):
                raise
            except Exception:
                stat.write(json.dumps(dict(job=j.name, error=traceback.format_exc()[-1500:])) + '\n')
                u.rec.ev.append(dict(ev='crash', what='its results could not be interpreted'))
            if j.lib in libs:
                u.close()
            for e in u.rec.ev:
                if e.get('img'):
                    e['img'] += n
                if e.get('ref'):
                    e['ref'] += n
            for e in u.rec.ev:
                f.write(json.dumps(e, separators=(',', ':')) + '\n')
            n += len(u.rec.ev)
    stat.write(json.dumps(dict(done=n)) + '\n')
    stat.close()

def fork(fn):
    """(only while this process has a single thread)"""
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            fn()
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(rc)
    return pid

def drive_all(pid, seed, shards, so, d, tier):
    """drivers, at most NSHARD at a time; -> {shard: wait status, None when it had to be stopped}"""
    limit = 400 if tier == 'quick' else 3600
    st = {}
    run = {}
    todo = [(i, 1) for i in range(len(shards))]
    while todo or run:
        while todo and len(run) < NSHARD:
            i, attempt = todo.pop(0)
            p = fork(lambda: drive(pid, seed, shards[i], so, os.path.join(d, f's{i}.ndjson'), os.path.join(d, f's{i}.status')))
            run[p] = (i, attempt, time.time())
        time.sleep(.02)
        for p in list(run):
            i, attempt, t = run[p]
            q, s = os.waitpid(p, os.WNOHANG)
            if q:
                del run[p]
                if s != 0 and attempt == 1:
                    todo.append((i, 2))
                else:
                    st[i] = s
            elif time.time() - t > limit:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                del run[p]
                st[i] = None
    return st

def shard(jobs, st, d, i, tier):
    """-> result dict"""
    path, status = os.path.join(d, f's{i}.ndjson'), os.path.join(d, f's{i}.status')
    marks = [json.loads(l) for l in open(status)] if os.path.exists(status) else []
    errors = [m for m in marks if 'error' in m]
    lines = [(m['line'], m['job']) for m in marks if 'line' in m]
    if st is None:
        return dict(verdict='ERROR', text=f'driver did not finish (job {lines[-1][1] if lines else "?"})')
    if st != 0:
        if os.WIFSIGNALED(st):
            job = lines[-1][1] if lines else '?'
            return dict(verdict='REJECTED', job=job, line=0, aspect='any', text=f'the process died with signal {os.WTERMSIG(st)} twice')
        return dict(verdict='ERROR', text='driver failed')
    try:
        res = tracecheck.run(path, timeout=800 if tier == 'quick' else 7200, heap='3g')
    except model.ModelError as x:
        return dict(verdict='ERROR', text=str(x)[-3000:])
    res['jobs'] = len(jobs)
    res['errors'] = errors
    res['bytes'] = os.path.getsize(path)
    if res['verdict'] == 'REJECTED':
        a, job = max(x for x in lines if x[0] <= res['line'])
        res['job'] = job
        res['first'] = a
        res['trace'] = path
    return res

def short(e):
    e = dict(e)
    for k in ('px', 'tl', 'out', 'coefs', 'smp', 'cin', 'heads'):
        if k in e and len(e[k]) > 24:
            e[k] = e[k][:24] + [f'... {len(e[k])} in all'] if k != 'tl' else f'{len(e[k])} tiles'
    for k in ('regs', 'quants', 'tiles'):
        if k in e and len(e[k]) > 6:
            e[k] = e[k][:6] + [f'... {len(e[k])} in all']
    return e

def samples(path, n=2):
    out = []
    try:
        with open(path) as f:
            for l in f:
                e = json.loads(l)
                if e['ev'] in ('encode', 'rlgr', 'dwt', 'burst') and (len(out) == 0 or e['ev'] != out[-1]['ev'] or len(out) < n):
                    out.append(short(e))
                if len(out) >= n:
                    break
    except Exception:
        pass
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--jobs')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = set(a.jobs.split(',')) if a.jobs else None
    if a.replay:
        rp = json.load(open(a.replay))
        tier, seed, only = rp['tier'], rp['seed'], {rp['job']}
    t0 = time.time()
    try:
        jobs = scen.units(pid, tier, seed)
        so = {'': build.build()}
        for k in sorted({j.lib for j in jobs} - {''}):
            try:
                so[k] = build.build(k)
                if k == 'x86':
                    rfx.Lib32(so[k], None).close()
            except (build.BuildError, rfx.Fault, OSError) as x:
                if k != 'x86':
                    raise
                so.pop(k, None)
                print('the 32-bit library is left out:', str(x)[-500:])
    except build.BuildError as x:
        print('cannot build the library:', str(x)[-2000:])
        return 2
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(model.work(), f'{pid}-{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    rc = 0
    t1 = t0
    try:
        known = plans.known_findings(pid)
        if only:
            jobs = [j for j in jobs if j.name in only]
        shards = pack(jobs, NSHARD if tier == 'quick' else 4 * NSHARD)
        st = drive_all(pid, seed, shards, so, d, tier)
        if known and not only:
            os.waitpid(fork(lambda: plans.record_known(pid, so[''], d)), 0)
        t1 = time.time()
        lim = ThreadPoolExecutor(NSHARD)
        sfut = [lim.submit(shard, js, st[i], d, i, tier) for i, js in enumerate(shards)]
        mjobs = [] if only else plans.model_jobs(pid, tier)
        mpool = ThreadPoolExecutor(2)
        mfut = [(n, mpool.submit(f)) for n, f in mjobs]
        res = [f.result() for f in sfut]
        mres = []
        bad = []
        for n, f in mfut:
            try:
                mres.append((n,) + tuple(f.result()))
            except Exception as x:
                bad.append(f'design specification, {n}: {str(x)[-1500:]}')
        errs = [r for r in res if r['verdict'] == 'ERROR']
        rej = [r for r in res if r['verdict'] == 'REJECTED']
        for n, tr, st in mres:
            print(f'model {n}: {st} states, {tr} transitions')
        acc = [r for r in res if r['verdict'] == 'ACCEPTED']
        tot = {k: sum(r.get(k, 0) for r in acc) for k in ('lines', 'msgs', 'tiles', 'diffs', 'blocks', 'fails', 'states', 'transitions', 'jobs')}
        print(f'traces: {len(acc)} accepted of {len(res)}; {tot}')
        for r in res:
            for e in r.get('errors', []):
                print('driver:', e['job'], e['error'])
        if not only:
            ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
                      coverage=dict(states=sum(m[2] for m in mres) + tot['states'], transitions=sum(m[1] for m in mres) + tot['transitions'],
                                    traces_validated_against_impl=tot['jobs'],
                                    trace_events=tot['lines'], messages_checked=tot['msgs'], tiles_checked=tot['tiles'], difference_tiles=tot['diffs'],
                                    coefficient_blocks=tot['blocks'], failing_calls=tot['fails'],
                                    design_runs=[dict(run=n, states=st, transitions=tr) for n, tr, st in mres],
                                    samples=samples(os.path.join(d, 's0.ndjson')) or ['none']),
                      assumptions=plans.ASSUME, violations=len(rej))
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        if not a.replay and not only:
            for line in plans.replay_known(pid, d):
                print(line)
        if rej:
            rc = 1
            os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
            for k, r in enumerate(rej):
                rp = os.path.join(HERE, 'evidence', 'replay', f'{pid}-{k}.json')
                info = dict(property=pid, tier=tier, seed=seed, job=r['job'], aspect=r['aspect'], text=r['text'])
                if r.get('trace'):
                    ls = open(r['trace']).read().split('\n')
                    info['event'] = short(json.loads(ls[r['line'] - 1]))
                json.dump(info, open(rp, 'w'), indent=1)
                print(f"{r['job']}: {r['text']}" + (f" (event {json.dumps(info['event'])[:600]})" if 'event' in info else ''))
                print(f'VIOLATION property={pid} replay={rp}')
        elif errs or bad:
            rc = 2
        for x in bad + [r['text'] for r in errs]:
            print('ERROR', x)
    finally:
        if not a.keep:
            shutil.rmtree(d, ignore_errors=True)
    print(f'{pid} {tier} {"ok" if rc == 0 else "violated" if rc == 1 else "error"} in {time.time() - t0:.1f} s (driving {t1 - t0:.1f} s)')
    return rc

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
