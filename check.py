#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property by symbolic execution of /repo.

Compiles every harness/<ID>*.cpp against /repo/include (LLVM IR for the
engine, g++ and g++ -fsanitize=address for replay), explores every harness
entry with the engine, replays every counterexample and a sample of witness
paths on the native builds, writes evidence/<ID>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import os, sys, subprocess, json, glob, re, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'
pid = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): TIER = sys.argv[2]
ONLY = [a for a in sys.argv[2:] if a not in ('quick', 'thorough')]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
JOBS = min(8, os.cpu_count() or 4)
T0 = time.time()
B = f'{V}/build/{pid}'
SYMX = f'{V}/build/engine/symx'
ENTRY_T = 1200 if THOROUGH else 100        # engine seconds per entry
WALL = 5400 if THOROUGH else 600           # no new entry after this
NWIT = 400 if THOROUGH else 25

NOTES = []
STOP = [1e9]          # once a violation is found: no new entry after this
def log(*a): print(*a, flush=True)
def run(cmd, timeout=None):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, errors='replace')

def noanswer(msg, extra=''):
    log(f'NO-ANSWER property={pid} {msg}')
    if extra: log(extra[-3000:])
    sys.exit(2)

def build_engine():
    r = run(f'make -s -C {V}/engine')
    if r.returncode or not os.path.exists(SYMX): noanswer('engine does not build', r.stdout + r.stderr)

INC = f'-std=c++20 -I{REPO}/include -I{V}/harness' + (' -DVP_THOROUGH' if THOROUGH else '')
def build(src):
    n = os.path.basename(src)[:-4]; o = f'{B}/{n}'
    steps = {
      'bc': f'clang++-18 {INC} -w -DVP_CLANG_ORDER -O1 -Xclang -disable-llvm-passes -ffp-contract=off -emit-llvm -c {src} -o {o}.0.bc'
            f' && {LL}llvm-link {o}.0.bc {B}/sup.bc -o {o}.1.bc && {LL}opt -passes="function(sroa,simplifycfg<bonus-inst-threshold=8>,early-cse,simplifycfg<bonus-inst-threshold=8>)" --phi-node-folding-threshold=8 {o}.1.bc -o {o}.bc',
      'nat': f'g++ {INC} -w -O0 -rdynamic {src} {B}/vpn.o -o {o}.nat -ldl',
      'asan': f'clang++-18 {INC} -DVP_CLANG_ORDER -w -O0 -g1 -fsanitize=address -ffp-contract=off -rdynamic {src} {B}/vpa.o -o {o}.asan -ldl'}
    return n, o, steps

def main():
    shutil.rmtree(B, ignore_errors=True); os.makedirs(B); os.makedirs(f'{V}/evidence', exist_ok=True)
    ev = f'{V}/evidence/{pid}.json'
    if os.path.exists(ev): os.remove(ev)
    srcs = sorted(glob.glob(f'{V}/harness/{pid}*.cpp'))
    if not srcs: noanswer('no harness')
    pool = ThreadPoolExecutor(JOBS)
    pre = [pool.submit(build_engine),
           pool.submit(run, f'clang++-18 -std=c++20 -O1 -Xclang -disable-llvm-passes -emit-llvm -c {V}/harness/irsupport.cpp -o {B}/sup.bc'),
           pool.submit(run, f'g++ -std=c++20 -w -O1 -I{V}/harness -c {V}/harness/vp_native.cpp -o {B}/vpn.o'),
           pool.submit(run, f'clang++-18 -std=c++20 -w -O1 -fsanitize=address -I{V}/harness -c {V}/harness/vp_native.cpp -o {B}/vpa.o')]
    for p in pre:
        r = p.result()
        if r is not None and r.returncode: noanswer('support build failed', r.stderr)
    units = [build(s) for s in srcs]
    futs = {pool.submit(run, c): (n, k) for n, o, st in units for k, c in st.items()}
    broken = {}
    for f in as_completed(futs):
        r = f.result()
        if r.returncode: broken[futs[f][0]] = r.stderr
    if len(broken) == len(units): noanswer('the harness does not compile against the current tree', list(broken.values())[0])
    for n, e in broken.items():
        NOTES.append(f'{n} does not compile against the current tree and was not explored: ' + ' '.join(x for x in e.splitlines() if 'error' in x)[:300])
    units = [u for u in units if u[0] not in broken]
    t_build = time.time() - T0
    jobs = []
    for n, o, _ in units:
        r = run(f'{LL}llvm-nm --defined-only {o}.bc')
        for e in sorted(set(re.findall(r'\bvph_(\w+)', r.stdout))):
            if ONLY and not any(re.fullmatch(x, e) for x in ONLY): continue
            jobs.append((n, o, e))
    kf = {}
    for l in open(f'{V}/known_findings.txt') if os.path.exists(f'{V}/known_findings.txt') else []:
        m = re.match(r'finding: property=(\w+) entry=(\w+) id=(\S+) (.*)', l)
        if m and m[1] == pid: kf.setdefault(m[2], {})[m[3]] = m[4].strip()
    res = {}
    def explore(j):
        n, o, e = j
        left = min(WALL, STOP[0]) - (time.time() - T0)
        if left < 5: return j, {'skipped': True}
        t = min(ENTRY_T, left)
        outf, wit = f'{B}/{e}.json', f'{B}/{e}.wit'
        try:
            r = run(['timeout', '-k', '5', str(int(t * 1.5 + 60)), SYMX, f'{o}.bc', '--entry', e, '--replay', f'{o}.nat,{o}.asan', '--witness', wit,
                     '--nwitness', str(NWIT), '--time', str(t), '--out', outf] + (['--exact-timeout', '60000', '--uf-timeout', '60000'] if THOROUGH else []))
            d = json.load(open(outf))
        except Exception as ex:
            return j, {'failed': f'{ex} ' + (r.stderr[-500:] if 'r' in locals() else '')}
        d['val'], d['mism'], d['natfail'] = validate(o, e, wit)
        return j, d
    for f in as_completed([pool.submit(explore, j) for j in jobs]):
        j, d = f.result(); res[j[2]] = (j, d)
        if any(v['id'] not in kf.get(j[2], {}) for v in d.get('violations', [])): STOP[0] = min(STOP[0], time.time() - T0 + 120)
        if os.environ.get('VP_VERBOSE'):
            log(f"  {j[2]}: " + (str(d) if 'paths' not in d else f"paths={d['paths']:.0f} complete={d['complete']} viol={len(d['violations'])} undec={d.get('undecided')} why={d['incomplete_why']} val={d['val']} mism={d['mism'][:2]} t={d.get('wall_s', d.get('time', 0))}"))
    report(res, kf, t_build, srcs)

def batch(exe, wit):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:alloc_dealloc_mismatch=1')
    try: return subprocess.run([exe, '--batch', wit], capture_output=True, text=True, errors='replace', timeout=300, env=env).stdout.splitlines()
    except subprocess.TimeoutExpired: return []

def validate(o, e, wit):
    """Replay witness paths natively: same ending, same observations."""
    if not os.path.exists(wit): return 0, [], []
    W = [l.rstrip('\n') for l in open(wit)]
    if not W: return 0, [], []
    ok, mism, natfail = 0, [], []
    outs = [batch(o + '.nat', wit), batch(o + '.asan', wit)]
    for k, l in enumerate(W):
        p = l.split(';')
        want_obs = [x for x in p[3].split(',') if x] if len(p) > 3 else []
        good = True
        for oo in outs:
            if k >= len(oo): good = False; mism.append((l[:200], 'no native result')); break
            q = oo[k].split(';')
            h = q[0].split()
            got = [x for x in q[1].split(',') if x] if len(q) > 1 else []
            if h[0] in ('77', '78', '79'): good = False; mism.append((l[:200], oo[k][:200])); break
            if h[0] != '0': good = False; natfail.append((p[0], p[1], oo[k][:200])); break
            if len(got) != len(want_obs) or any(a != b and b != '?' for a, b in zip(got, want_obs)): good = False; mism.append((l[:300], oo[k][:300])); break
        ok += good
    return ok, mism, natfail

def report(res, kf, t_build, srcs):
    viol, known, undec, notes, samples = [], [], [], list(NOTES), []
    agg = dict(paths=0, forks=0, branches=0, checks=0, queries=0, solver_s=0.0, steps=0, infeasible=0)
    funcs, entries, val, good = {}, {}, 0, 0
    for e, (j, d) in sorted(res.items()):
        if 'paths' not in d:
            notes.append(f'{e}: not explored ({d})'); entries[e] = {'explored': False}; continue
        for k in agg: agg[k] += d.get(k, 0)
        for fn, c in d['functions'].items():
            a = funcs.setdefault(fn, [0, 0, 0]); a[0] += c[0]; a[1] = max(a[1], c[1]); a[2] = c[2]
        val += d['val']
        vs = [(v['id'], v['msg'], v['where'], v['inputs'], v['how']) for v in d['violations']]
        vs += [(f'native:{x[2]}', 'witness path fails in the native build', '', x[1], 'witness') for x in d['natfail']]
        for v in vs:
            if e in kf and v[0] in kf[e]: known.append((e, v[0], kf[e][v[0]]))
            else: viol.append((e, j[1]) + v)
        for u in d.get('undecided_list', []): undec.append({'entry': e, **(u if isinstance(u, dict) else {'check': u})})
        if d['mism']: notes.append(f"{e}: engine and native build differ on {len(d['mism'])} witness paths, e.g. {d['mism'][0]}")
        if not d['complete']: notes.append(f"{e}: not complete {d['incomplete_why']}")
        if d['paths'] > 0 and (d.get('checks', 0) > 0 or d['violations']): good += 1
        elif e not in kf: notes.append(f'{e}: vacuous')
        entries[e] = {'complete': d['complete'], 'paths': int(d['paths']), 'checks': int(d.get('checks', 0)), 'queries': int(d.get('queries', 0)),
                      'undecided': int(d.get('undecided', 0)), 'witness_paths_replayed': d['val']}
        try:
            for l in open(f'{B}/{e}.wit').read().splitlines()[:1]: samples.append(l[:400])
        except OSError: pass
    bounds, outside, assume = [], [], []
    for s in sorted(glob.glob(f'{V}/harness/{pid}*.*')):
        for l in open(s):
            for tag, L in (('// BOUND:', bounds), ('// OUTSIDE:', outside), ('// ASSUME:', assume)):
                if l.startswith(tag): L.append(l[len(tag):].strip())
    lib = {f: c for f, c in funcs.items() if 'etr' in f}
    def short(f):
        f = re.sub(r'<.*>', '<>', f) if len(f) > 120 else f
        return f[:160]
    names = {}
    for f, c in lib.items():
        a = names.setdefault(short(f), [0, 0, 0, 0]); a[0] += 1; a[1] += c[0]; a[2] += c[1]; a[3] += c[2]
    ok_complete = all(x.get('complete') for x in entries.values())
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', wall_s=round(time.time() - T0, 2),
      coverage=dict(states=int(agg['paths']), transitions=int(agg['branches'] or agg['forks']), traces_validated_against_impl=val, samples=samples[:40],
        exhaustive=bool(ok_complete and not undec and not NOTES),
        entries=entries, assertions_discharged=int(agg['checks']), solver_queries=int(agg['queries']), solver_s=round(agg['solver_s'], 3),
        instructions=int(agg['steps']), functions_encoded=len(lib),
        functions=[f'{k} x{v[0]} (blocks {v[2]}/{v[3]})' for k, v in sorted(names.items())][:400],
        bounds=bounds, outside_bounds=outside, undecided=undec[:50], undecided_count=len(undec), notes=notes[:50],
        build_s=round(t_build, 2), known_findings=[f'{a} {b} {c}' for a, b, c in known]),
      assumptions=assume + ['LLVM IR of clang 18 -O0-equivalent lowering models the C++ semantics; counterexamples and sampled paths are replayed on g++ builds',
        'floating-point arithmetic and libm are uninterpreted (same inputs, same result) unless a check says otherwise; comparisons and conversions are exact IEEE'],
      violations=len(viol), violation_list=[dict(entry=v[0], id=v[2], msg=v[3], where=v[4], inputs=v[5], how=v[6]) for v in viol])
    for e, i, w in sorted(set(known)): log(f'KNOWN-FINDING: property={pid} {w} [{e}:{i}]')
    for e, ids in kf.items():
        for i, w in ids.items():
            if e in res and not any(k[0] == e and k[1] == i for k in known): notes.append(f'known finding {e}:{i} not reproduced'); ev['coverage']['notes'] = notes
    for n in notes: log('note:', n[:600])
    log(f"{pid} [{TIER}] entries={len(entries)} paths={agg['paths']:.0f} checks={agg['checks']:.0f} queries={agg['queries']:.0f} solver={agg['solver_s']:.1f}s validated={val} undecided={len(undec)} wall={time.time()-T0:.1f}s")
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    if viol:
        rd = f'{V}/evidence/replay_{pid}'; shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        seen = {}
        for k, v in enumerate(viol):
            e, o, i, msg, where, inp, how = v
            key = (e, i)
            if key in seen: continue
            seen[key] = 1
            p = f'{rd}/{len(seen)}.sh'
            open(p, 'w').write(f'#!/bin/sh\n# property {pid}, entry {e}, check {i}: {msg}\n# at {where}\n# inputs (in draw order): {inp}\n'
                               f'# rebuild with: python3 {V}/check.py {pid}; 0 = holds, anything else = fails\n{o}.nat --one {e} "{inp}" && ASAN_OPTIONS=detect_leaks=0 {o}.asan --one {e} "{inp}"\n')
            os.chmod(p, 0o755)
            if len(seen) <= 12:
                log(f'  {e}/{i}: {msg} at {where} inputs={inp[:300]} ({how})')
                log(f'VIOLATION property={pid} replay={p}')
        sys.exit(1)
    if not good: noanswer('nothing was decided')
    sys.exit(0)
main()
