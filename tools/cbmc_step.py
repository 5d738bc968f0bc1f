"""Contracts on C functions: goto-cc, goto-instrument (loop contracts), CBMC; and Verus lemmas over them."""
import os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

def check(D, c):
    """c: dict(file, harnesses=[(name, [defines])], include=[dirs], quick=[defs], all=[defs])."""
    R, src = D.R, f"{D.H}/{c['file']}"
    work = f'{D.BUILD}/cbmc-{D.PROP}'
    os.makedirs(work, exist_ok=True)
    limit = 400 if D.TIER == 'quick' else 3000
    jobs = c['jobs'](D.TIER, D.SEED)
    def one(job):
        h, defs = job
        tag = '-'.join([h] + [re.sub(r'\W', '', d) for d in defs])
        a, b = f'{work}/{tag}.a', f'{work}/{tag}.b'
        t = time.time()
        cc = ['goto-cc', '-DLLRT_VERIF', f'-I{D.H}/hc'] + [f'-I{D.REPO}/{i}' for i in c['include']] + ['-D' + d for d in defs] + ['--function', h, src, '-o', a]
        rc, out = D.run(cc, timeout=120)
        if rc != 0: return tag, None, 'does not compile: ' + ' '.join(l for l in out.splitlines() if 'error' in l)[:200], out, 0
        rc, out = D.run(['goto-instrument', '--dfcc', h, '--apply-loop-contracts', a, b], timeout=120)
        if rc != 0: return tag, None, 'the loop contracts do not apply: ' + out.strip()[-200:], out, 0
        cmd = ['cbmc', b, '--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check', '--undefined-shift-check', '--sat-solver', 'cadical', '--unwind', '70', '--unwinding-assertions', '--trace']
        rc, out = D.run(cmd, timeout=max(20, min(limit, D.left() - 20)), log=f'{work}/{tag}.log')
        m = re.search(r'\*\* (\d+) of (\d+) failed', out)
        if not m: return tag, None, 'no answer within the limit', out, time.time() - t
        return tag, (int(m[1]), int(m[2])), [l for l in out.splitlines() if l.endswith(': FAILURE')], out, time.time() - t
    R.cmds.append(f"goto-cc {c['file']}; goto-instrument --dfcc HARNESS --apply-loop-contracts; cbmc --bounds-check --pointer-check ...")
    with ThreadPoolExecutor(D.NCPU) as ex: results = list(ex.map(one, jobs))
    for tag, n, fails, out, secs in results:
        unit = c['file'] + ':' + tag
        if n is None:
            R.undecided.append(f'cbmc: {unit} {fails}')
            R.units.append(dict(unit=unit, by='cbmc', status='undecided', secs=round(secs, 2)))
            continue
        bad, total = n
        R.obligations += total
        R.discharged += total - bad if bad else total
        R.units.append(dict(unit=unit, by='cbmc/cadical, loop contracts', checks=total, status='failed' if bad else 'discharged', secs=round(secs, 2)))
        if bad:
            # the contract itself, or memory safety, fails; a loop invariant that no longer fits the loop decides nothing
            stale = [f for f in fails if 'loop_invariant' in f or 'loop_step' in f or 'loop_decreases' in f or 'loop_assigns' in f or 'assigns' in f or 'unwind' in f]
            if stale:
                R.undecided.append(f'cbmc: {unit}: the loop contract does not fit the loop: {stale[0][:160]}')
            else:
                D.violation('cbmc', unit, fails[0][:200] if fails else 'failed', '', dict(failing_input=None, verifier_failed_checks=fails[:10], verifier_output=out[-6000:], replay_cmd=f'see {work}/{tag}.log'))
    return True

def lemmas(D, f):
    R = D.R
    rc, out = D.run(['verus', f'{D.H}/{f}'], timeout=max(30, min(300, D.left() - 10)))
    R.cmds.append('verus ' + f)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
    if m and rc == 0:
        R.obligations += int(m[1]); R.discharged += int(m[1])
        R.units.append(dict(unit=f, by='verus', checks=int(m[1]), status='discharged'))
    else:
        R.undecided.append(f'verus: {f}: ' + out[-200:])
