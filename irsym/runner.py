"""Runs the check of one property: build, execute symbolically, replay, report."""
from fractions import Fraction
import faulthandler
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

from . import build
from .build import VERIF, Builder, BuildError, all_sources
EVDIR = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Unit:
    """One harness entry.

    harness  file under /verif/harness
    entry    extern "C" function
    sources  files of /repo it needs (all of them when it turns out not enough)
    bounds   tier -> dict of macros; every macro is a stated bound
    split    name of a sym_choice to run as separate processes, with its size
    reach    labels that must be reached (vacuity guard)
    """

    def __init__(self, harness, entry, sources, bounds=None, limits=None, opts=None, split=None, reach=(),
                 tiers=('quick', 'thorough'), desc='', extra=(), native_extra=(), replay=True, native_defs=(),
                 tlimits=None):
        self.harness = harness
        self.entry = entry
        self.sources = sources
        self.bounds = bounds or {}
        self.limits = limits or {}
        self.tlimits = tlimits or {}
        self.opts = opts or {}
        self.split = split
        self.reach = reach
        self.tiers = tiers
        self.desc = desc
        self.extra = extra
        self.native_extra = native_extra
        self.replay = replay
        self.native_defs = native_defs


_MOD = {}


def work(job, tell=None):
    key, entry, limits, opts = job
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if os.environ.get('VERIF_DUMP'):
        faulthandler.dump_traceback_later(int(os.environ['VERIF_DUMP']), repeat=True)
    from .engine import Engine, Unsupported, Budget
    sys.setrecursionlimit(20000)
    import z3
    z3.set_param('memory_max_size', 4500)
    t = time.time()
    out = {'entry': entry, 'error': None, 'violations': [], 'undecided': [], 'fix': opts.get('fix')}
    E = None
    try:
        E = Engine(_MOD[key], limits, opts)
        if tell is not None:
            E.on_violation = lambda v: tell({k: v[k] for k in ('kind', 'label', 'stack', 'inputs', 'notes')}) if len(E.violations) <= 50 else None
        E.run_ctors()
        E.run(entry)
    except (Unsupported, Budget) as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        out['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:500])
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    if E is not None:
        out['stats'] = E.stats
        out['labels'] = {k: v for k, v in E.labels.items()}
        out['reach'] = sorted(E.reach)
        out['funcs'] = sorted(E.funcs_run)
        out['undecided'] = E.undecided[:20]
        for v in E.violations[:200]:
            out['violations'].append({k: v[k] for k in ('kind', 'label', 'stack', 'inputs', 'notes')})
        out['nviol'] = len(E.violations)
    out['wall'] = time.time() - t
    return out


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return p.stdout.split('\n')
    except OSError:
        return names


class Known:
    def __init__(self):
        self.items = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r'finding: property=(\S+) site="([^"]*)" (.*)', ln)
                if m:
                    self.items.append((m.group(1), m.group(2), m.group(3).strip()))

    def match(self, prop, label):
        for p, l, d in self.items:
            if p == prop and l == label:
                return d
        return None


def replay(B, unit, v, outdir, idx, prop):
    """Run the counterexample against the natively compiled real code."""
    os.makedirs(outdir, exist_ok=True)
    vf = os.path.join(outdir, '%s_%s_%d.txt' % (prop, unit.entry, idx))
    with open(vf, 'w') as f:
        for name, sort, val in v['inputs']:
            if re.match(r'^-?[0-9]+(/[0-9]+)?$', str(val)):
                f.write('%s %s\n' % (name, val))
    info = {'property': prop, 'harness': unit.harness, 'entry': unit.entry, 'label': v['label'], 'kind': v['kind'],
            'stack': v['stack'], 'values': vf, 'inputs': v['inputs']}
    jf = vf[:-4] + '.json'
    status = 'unreplayed'
    log = ''
    try:
        if unit.replay:
            exe = B.native(unit.harness, all_sources(), unit.native_extra, True, defines=unit.native_defs)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=42:allocator_may_return_null=1',
                       UBSAN_OPTIONS='halt_on_error=1:exitcode=43')
            cwd = os.path.join(B.dir, 'cwd')
            os.makedirs(cwd, exist_ok=True)
            try:
                p = subprocess.run([exe, unit.entry, vf], capture_output=True, text=True, timeout=60, env=env, cwd=cwd,
                                   errors='replace')
                log = (p.stdout[-1500:] + p.stderr[-2500:])
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
                log = 'timeout: does not terminate'
            if rc in (0, 77, 78, 99):
                status = {0: 'not-reproduced', 77: 'assumption-failed', 78: 'no-native', 99: 'no-native'}[rc]
            else:
                status = 'confirmed'
            if status in ('not-reproduced', 'assumption-failed') and 'uninitialised' not in v['label'] and any(
                    srt == 'real' for _, srt, _ in v['inputs']):
                # the model may rest on values of exp, sin, ... that only the
                # solver's interpretation has: look for real values nearby
                rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
                vf2 = vf[:-4] + '_near.txt'
                for k in range(60):
                    with open(vf2, 'w') as f:
                        for name, sort, val in v['inputs']:
                            if not re.match(r'^-?[0-9]+(/[0-9]+)?$', str(val)):
                                if sort != 'real':
                                    continue
                                val = '0'
                            if sort == 'real' and rng.random() < (0.3 if k < 20 else 0.7):
                                x = Fraction(val)
                                if k % 2:
                                    x = x * Fraction(rng.randint(90, 110), 100) + Fraction(rng.randint(-10, 10), 1000)
                                else:
                                    x = Fraction(rng.randint(-3000, 3000), 1000)
                                val = '%d/%d' % (x.numerator, x.denominator)
                            f.write('%s %s\n' % (name, val))
                    try:
                        p = subprocess.run([exe, unit.entry, vf2], capture_output=True, text=True, timeout=30, env=env,
                                           cwd=cwd, errors='replace')
                    except subprocess.TimeoutExpired:
                        continue
                    if p.returncode not in (0, 77, 78, 99):
                        status = 'confirmed'
                        log = 'at values near the model:\n' + p.stdout[-1500:] + p.stderr[-2500:]
                        info['values'] = vf2
                        break
            if status == 'not-reproduced' and ('uninitialised' in v['label'] or v['kind'] == 'memory'):
                # uninitialised values, and accesses inside system libraries, are only seen by valgrind
                B2 = Builder(B.defines)
                try:
                    exe2 = B2.native(unit.harness, all_sources(), unit.native_extra, False, defines=unit.native_defs)
                    p = subprocess.run(['valgrind', '-q', '--error-exitcode=55', exe2, unit.entry, vf],
                                       capture_output=True, text=True, timeout=120, cwd=cwd, errors='replace')
                    log += p.stdout[-500:] + p.stderr[-2500:]
                    if p.returncode == 55 or p.returncode == 1:
                        status = 'confirmed'
                finally:
                    B2.close()
        else:
            status = 'confirmed' if v['kind'] != 'x' else status
    except BuildError as e:
        status = 'native-build-failed'
        log = str(e)[-2000:]
    except subprocess.TimeoutExpired:
        log += 'valgrind timeout'
    info['status'] = status
    info['log'] = log
    info['how'] = 'g++ -fsanitize=address,undefined harness/%s harness/replay.cpp <repo sources>; ./a.out %s %s' % (
        unit.harness, unit.entry, info['values'])
    json.dump(info, open(jf, 'w'), indent=1)
    return status, jf, log


def run_property(prop, units, tier, meta):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = Known()
    jobs = []
    builders = {}
    units = [u for u in units if tier in u.tiers]
    errors = []
    try:
        def defs(u):
            return tuple(sorted('%s=%s' % kv for kv in u.bounds.get(tier, u.bounds.get('quick', {})).items()))
        groups = {}
        for u in units:
            groups.setdefault((u.harness, defs(u), tuple(u.extra)), []).append(u)

        def build_group(key, us, everything=False):
            h, d, ex = key
            if d not in builders:
                builders[d] = Builder(d)
            srcs = sorted(set(s for u in us for s in u.sources)) if not everything else all_sources()
            have = set(all_sources())
            if any(s not in have for s in srcs):
                srcs = all_sources()
            return builders[d].module(h, srcs, [u.entry for u in us], ex)
        results = []
        pending = []
        for key, us in groups.items():
            try:
                _MOD[key] = build_group(key, us)
            except BuildError as e:
                errors.append('build: ' + str(e)[-1500:])
                continue
            for u in us:
                limits = dict(u.limits)
                if tier == 'quick':
                    limits['deadline'] = t0 + 540
                if tier == 'thorough':
                    limits.update(u.tlimits)
                if u.split:
                    for k in range(u.split[1]):
                        pending.append((u, (key, u.entry, limits, dict(u.opts, fix={u.split[0]: k}))))
                else:
                    pending.append((u, (key, u.entry, limits, dict(u.opts))))
        early = {'confirmed': [], 'seen': {}, 'idx': 0}

        def on_violation(u, v):
            key = (u.entry, v['label'])
            if early['seen'].get(key, 0) >= 2 or known.match(prop, v['label']) is not None or early['idx'] > 12:
                return False
            early['seen'][key] = early['seen'].get(key, 0) + 1
            st, jf, log = replay(builders[defs(u)], u, v, os.path.join(EVDIR, 'replay'), early['idx'], prop)
            early['idx'] += 1
            if st == 'confirmed':
                early['seen'][key] = 3
                early['confirmed'].append((u, v, jf, log))
                return True
            return False
        results = run_jobs(pending, on_violation)
        # a function that lives in a file outside the unit's list: take everything
        retry = [(u, j) for (u, j), r in zip(pending, results)
                 if r['error'] and 'external function' in r['error']]
        if retry:
            keys = {j[0] for _, j in retry}
            for key in keys:
                try:
                    _MOD[key] = build_group(key, groups[key], True)
                except BuildError as e:
                    errors.append('build: ' + str(e)[-1500:])
            redo = [(i, x) for i, x in enumerate(pending) if x[1][0] in keys]
            rr = run_jobs([x for _, x in redo], on_violation)
            for (i, _), r in zip(redo, rr):
                results[i] = r
        return report(prop, pending, results, builders, tier, seed, known, errors, t0, meta, defs, early)
    finally:
        for b in builders.values():
            b.close()


def run_jobs(pending, on_violation=None):
    """on_violation(unit, violation) is asked as soon as one is found; once it says yes, the rest is not needed."""
    stop = None
    ctx = mp.get_context('fork')
    n = min(8, os.cpu_count() or 4, max(1, len(pending)))
    out = [None] * len(pending)
    # one process per job, so that a crash of the solver costs one job only
    running = {}
    todo = list(range(len(pending)))
    while todo or running:
        while todo and len(running) < n:
            i = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, pending[i][1]))
            p.start()
            w.close()
            running[i] = (p, r)
        ready = mp.connection.wait([r for _, r in running.values()], timeout=5)
        for i, (p, r) in list(running.items()):
            if r in ready:
                try:
                    kind, got = r.recv()
                except EOFError:
                    kind, got = 'r', {'entry': pending[i][1][1], 'error': 'worker died', 'violations': [], 'undecided': []}
                if kind == 'v':
                    if stop is None and on_violation is not None and on_violation(pending[i][0], got):
                        stop = time.time() + 20
                    continue
                out[i] = got
                p.join()
                r.close()
                del running[i]
        if stop is not None and time.time() > stop:
            for i, (p, r) in running.items():
                p.kill()
                p.join()
                r.close()
            for i in todo + list(running):
                out[i] = {'entry': pending[i][1][1], 'error': None, 'stopped': True, 'violations': [], 'undecided': []}
            break
    return out


def _child(w, job):
    try:
        w.send(('r', work(job, lambda v: w.send(('v', v)))))
    except BaseException as e:     # noqa
        w.send(('r', {'entry': job[1], 'error': 'worker: %r' % e, 'violations': [], 'undecided': []}))
    w.close()
    os._exit(0)


def report(prop, pending, results, builders, tier, seed, known, errors, t0, meta, defs, early):
    outdir = os.path.join(EVDIR, 'replay')
    confirmed, knowns, unconfirmed = list(early['confirmed']), [], []
    tot = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'steps': 0, 'asserts': 0, 'asserts_trivial': 0, 'pruned': 0}
    funcs = set()
    per = []
    undecided = []
    reached = {}
    nlab = {}
    seen = {(u.entry, v['label']): 3 for u, v, _, _ in confirmed}
    idx = early['idx']
    for (u, job), r in zip(pending, results):
        if r.get('error'):
            errors.append('%s%s: %s' % (u.entry, r.get('fix') or '', r['error']))
        for x in r.get('undecided', []):
            undecided.append('%s: %s' % (u.entry, x))
        s = r.get('stats')
        if s:
            for k in tot:
                tot[k] += s.get(k, 0)
            funcs.update(r['funcs'])
            reached.setdefault(u.entry, set()).update(r['reach'])
            for l, (a, b, c) in r['labels'].items():
                e = nlab.setdefault(u.entry + ':' + l, [0, 0, 0.0])
                e[0] += a
                e[1] += b
                e[2] += c
            per.append({'entry': u.entry, 'what': u.desc, 'bounds': dict(d.split('=') for d in defs(u)),
                        'part': r.get('fix'), 'paths': s['paths'], 'queries': s['queries'],
                        'longest_path': s.get('longest', 0), 'solver_s': round(s['solver_s'], 2), 'wall_s': round(r['wall'], 2)})
        for v in r['violations']:
            key = (u.entry, v['label'])
            if seen.get(key, 0) >= 3 or (confirmed and (idx > 12 or time.time() > t0 + 300)):
                continue
            kd = known.match(prop, v['label'])
            if kd is not None:
                if key not in seen:
                    knowns.append((v['label'], kd))
                seen[key] = 3
                continue
            st, jf, log = replay(builders[defs(u)], u, v, outdir, idx, prop)
            idx += 1
            if st == 'confirmed':
                seen[key] = 3
                confirmed.append((u, v, jf, log))
            else:
                seen[key] = seen.get(key, 0) + 1
                unconfirmed.append((u, v, jf, st))
    okkeys = {(u.entry, v['label']) for u, v, _, _ in confirmed}
    unconfirmed = [x for x in unconfirmed if (x[0].entry, x[1]['label']) not in okkeys]
    vac = []
    for u in {id(u): u for u, _ in pending}.values():
        for l in u.reach:
            if l not in reached.get(u.entry, ()):
                vac.append('%s never reaches %s' % (u.entry, l))
    if confirmed or knowns:
        vac = []   # a violated path ends early
    code = 0
    for lab, d in sorted(set(knowns)):
        print('KNOWN-FINDING: property=%s %s' % (prop, d))
    if confirmed:
        code = 1
        done = set()
        for u, v, jf, log in confirmed:
            k = (u.entry, v['label'])
            if k in done:
                continue
            done.add(k)
            print('VIOLATION property=%s replay=%s' % (prop, jf))
            print('  %s: %s [%s]' % (u.entry, v['label'], v['kind']))
            print('  inputs: ' + ' '.join('%s=%s' % (n, x) for n, _, x in v['inputs'][:40]))
    elif errors or unconfirmed or undecided or vac:
        code = 2
    for e in errors:
        print('NO-VERDICT: ' + e)
    for x in undecided[:10]:
        print('UNDECIDED: ' + x)
    for u, v, jf, st in unconfirmed:
        print('UNCONFIRMED (%s): %s: %s  %s' % (st, u.entry, v['label'], jf))
    for x in vac:
        print('VACUOUS: ' + x)
    own = [d for d in demangle(sorted(f for f in funcs)) if d and not re.match(
        r'(std::|__gnu|void std::|bool std::|operator |.* std::|__cxx|_GLOBAL|__)', d)]
    cov = {
        'explanation': 'Each harness entry runs the real functions (clang IR of the current /repo tree) on symbolic '
                       'inputs; every path within the bounds is explored and every assertion, memory access and '
                       'division on it is decided by z3 (cvc5 as second solver).',
        'functions_encoded': sorted(set(own))[:400],
        'functions_encoded_count': len(funcs),
        'paths': tot['paths'], 'infeasible_paths_pruned': tot['pruned'], 'ir_instructions': tot['steps'],
        'queries_discharged': tot['queries'], 'solver_s': round(tot['solver_s'], 2),
        'assertions_checked': tot['asserts'],
        'assertions_constant_after_simplification': tot['asserts_trivial'],
        'assertion_sites': {k: {'checked': v[0], 'by_query': v[1], 'solver_s': round(v[2], 2)} for k, v in
                            sorted(nlab.items())},
        'units': per, 'reached': {k: sorted(v) for k, v in reached.items()},
        'undecided': undecided, 'errors': errors, 'vacuity': vac,
        'known_findings_hit': [d for _, d in sorted(set(knowns))],
        'outside': meta.get('outside', ''),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed)}
    os.makedirs(EVDIR, exist_ok=True)
    json.dump(ev, open(os.path.join(EVDIR, prop + '.json'), 'w'), indent=1)
    print('%s %s: %s; %d units, %d paths, %d assertions, %d queries, solver %.1f s, wall %.1f s' % (
        prop, tier, {0: 'held within bounds', 1: 'VIOLATED', 2: 'NO VERDICT'}[code], len(pending), tot['paths'],
        tot['asserts'], tot['queries'], tot['solver_s'], time.time() - t0))
    return code
