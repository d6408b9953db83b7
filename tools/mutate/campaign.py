#!/usr/bin/env python3
"""Mutation campaign. Stage 1 keeps the changes that build and pass the stable tests; stage 2 runs the checks on them.
usage: campaign.py tests MUTS.jsonl OUT.jsonl [WORKERS]
       campaign.py checks SURVIVORS.jsonl OUT.jsonl HARNESS SECONDS_PER_PROPERTY ROUNDS [SLOTS]
Everything happens in copies under /tmp/w/mut."""
import json, os, shutil, subprocess, sys, threading, tempfile, signal, queue
BASE = '/tmp/w/mut'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
WANT = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def copy(i):
    d = f'{BASE}/r{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    return d

def sh(cmd, cwd, t, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -1, 'timeout'

class applied:
    def __init__(s, d, m): s.p, s.m = f"{d}/{m['file']}", m
    def __enter__(s):
        s.orig = open(s.p, 'rb').read()
        o, old = s.m['off'], s.m['old'].encode()
        assert s.orig[o:o+len(old)] == old, s.m
        open(s.p, 'wb').write(s.orig[:o] + s.m['new'].encode() + s.orig[o+len(old):])
    def __exit__(s, *a): open(s.p, 'wb').write(s.orig)

def tests(d, m):
    tmp = tempfile.mkdtemp(prefix='mt')
    try:
        rc, out = sh(['bash', '-c', 'ulimit -v 24000000; ulimit -c 0; go build ./... && for c in install/init/*.c; do gcc -fno-pie -c -o /dev/null "$c" || exit 1; done'], d, 60)
        if rc: return 'nobuild'
        rc, out = sh(['bash', '-c', 'ulimit -c 0; ulimit -t 40; go test -json -vet=off -count=1 -parallel 1 -timeout 60s ./...'], d, 90, dict(ENV, TMPDIR=tmp))
        ok = set()
        for l in out.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
        return 'pass' if WANT <= ok else 'fail'
    finally:
        sh(['pkill', '-KILL', '-f', f'^{tmp}/'], '/', 10)
        shutil.rmtree(tmp, ignore_errors=True)

def pool(jobs, n, work, out):
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    f = open(out, 'a')
    def run(i):
        d = copy(i)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            with applied(d, m): r = work(d, m, i)
            with lock:
                m.update(r); f.write(json.dumps(m, ensure_ascii=False) + '\n'); f.flush()
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

if __name__ == '__main__':
    os.makedirs(BASE, exist_ok=True)
    jobs = [json.loads(l) for l in open(sys.argv[2])]
    done = set()
    key = lambda m: (m['file'], m['off'], m['old'], m['new'])
    if os.path.exists(sys.argv[3]): done = {key(json.loads(l)) for l in open(sys.argv[3])}
    jobs = [j for j in jobs if key(j) not in done]
    if sys.argv[1] == 'tests':
        pool(jobs, int(sys.argv[4]) if len(sys.argv) > 4 else 8, lambda d, m, i: {'tests': tests(d, m)}, sys.argv[3])
    else:
        h, secs, rounds = sys.argv[4], sys.argv[5], sys.argv[6]
        slots = int(sys.argv[7]) if len(sys.argv) > 7 else 1
        def work(d, m, i):
            rc, out = sh([h, 'sweep', secs, rounds], '/', 3600, dict(os.environ, VERIF_REPO=d, VERIF_DIR='/verif', VERIF_WORKERS=str(8 // slots if slots > 1 else 8)))
            return {'rc': rc, 'out': out[-1500:]}
        pool(jobs, slots, work, sys.argv[3])
