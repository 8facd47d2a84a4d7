#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

  run.py PROP [--tier quick|thorough] [--only ENTRY] [--cov FILE] [--repo DIR]
  run.py --replay FILE          re-runs a recorded counterexample against a sanitizer build of the real code

exit 0: every entry of the harness was explored completely within its bounds and no assertion can be violated
exit 1: a counterexample was found and reproduced natively (VIOLATION line)
exit 2: anything else (build failure, incomplete exploration, counterexample that does not reproduce)
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, resource
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VS_REPO', '/repo')
VSYM = os.path.join(V, 'build', 'vsym')
CXX = 'clang++'
OUTDIR = os.environ.get('VS_OUT', os.path.join(V, 'evidence'))   # only development tools set VS_OUT
JOBS = int(os.environ.get('VS_JOBS', '8'))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildError(Exception): pass

def parse_harness(prop):
    path = os.path.join(V, 'harness', prop + '.cpp')
    src = open(path).read()
    h = {'path': path, 'sources': [], 'models': ['libc'], 'bounds': [], 'assume': [], 'outside': [], 'entries': [], 'cflags': [], 'native': []}
    for m in re.finditer(r'^//\s*(sources|models|bounds|assume|outside|cflags|native):\s*(.*)$', src, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k in ('sources', 'cflags', 'native'): h[k] += v.split()
        elif k == 'models': h[k] = v.split()
        else: h[k].append(v)
    marks = list(re.finditer(r'^VS_(ENTRY|THOROUGH)\((\w+)\)(.*)$', src, re.M))
    own = set()
    for i, m in enumerate(marks):
        end = marks[i + 1].start() if i + 1 < len(marks) else len(src)
        body = src[m.start():end]
        opts = dict(re.findall(r'(\w+)=(\S+)', (m.group(3).split('//', 1) + [''])[1]))
        first = body.split('\n', 1)[0]
        if first.split('//')[0].rstrip().endswith('}'): body = first
        else: body = body[:(body.find('\n}\n') + 3) or None] if '\n}\n' in body else body
        labels = sorted(set(re.findall(r'vs_reach\("([^"]+)"\)', body))); own |= set(labels)
        h['entries'].append({'name': m.group(2), 'thorough': m.group(1) == 'THOROUGH', 'labels': labels, 'opts': opts})
    h['shared_labels'] = sorted(set(re.findall(r'vs_reach\("([^"]+)"\)', src)) - own)
    return h

def all_sources():
    root = os.path.join(REPO, 'Source'); out = []
    for d, _, fs in os.walk(root): out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith('.cpp') and '.Windows.' not in f]
    return sorted(out)

def compile_bc(h, tier, work):
    flags = ['-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-g1', '-emit-llvm', '-c', '-w', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DTIER=%d' % (tier == 'thorough'), '-I' + os.path.join(REPO, 'Source'), '-I' + os.path.join(V, 'harness')] + h['cflags']
    units = [h['path']] + [os.path.join(REPO, 'Source', s) for s in h['sources']] + [os.path.join(V, 'models', m + '.cpp') for m in h['models'] + ['more']]
    def one(iu):
        i, u = iu; o = os.path.join(work, 'u%d.bc' % i); r = sh([CXX] + flags + [u, '-o', o])
        if r.returncode: raise BuildError('compiling %s failed:\n%s' % (u, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(JOBS) as ex: bcs = list(ex.map(one, enumerate(units)))
    a, b = os.path.join(work, 'link.bc'), os.path.join(work, 'all.bc')
    r = sh(['llvm-link-18'] + bcs + ['-o', a])
    if r.returncode: raise BuildError('llvm-link: ' + r.stdout[-2000:])
    r = sh(['opt-18', '-passes=sroa', a, '-o', b])
    if r.returncode: raise BuildError('opt: ' + r.stdout[-2000:])
    return b

NATIVE_MODES = {
    'asan': ['-fsanitize=address', '-fsanitize-address-use-after-return=always'],
    'asan-plain-new': ['-fsanitize=address', '-DNO_NEW_OVERRIDE'],
    'valgrind': ['-DNO_FILL'],
    'sched': ['-fsanitize=thread'],   # instrumented, but linked with native/sched.cpp instead of the sanitizer's runtime
}
def remaining(h):
    own = 'void Console::Write(' in open(h['path']).read()   # the harness stands in for the platform part of the console
    return [x for x in all_sources() if x not in h['sources'] and not x.startswith('UnitTest/') and not (own and x.startswith('Console.'))]
def build_native(h, tier, work, mode):
    out = os.path.join(work, 'native-' + mode)
    if os.path.exists(out): return out
    flags = ['-std=c++20', '-O0', '-g', '-w', '-rdynamic', '-ffp-contract=off', '-DTIER=%d' % (tier == 'thorough'), '-DVS_NATIVE', '-I' + os.path.join(REPO, 'Source'), '-I' + os.path.join(V, 'harness')] + NATIVE_MODES[mode] + h['cflags']
    units = [h['path'], os.path.join(V, 'native', 'rt.cpp')] + [os.path.join(REPO, 'Source', s) for s in h['sources']] + [os.path.join(V, 'native', n + '.cpp') for n in h['native']]
    if mode == 'sched': units.append(os.path.join(V, 'native', 'sched.cpp'))
    objs = []
    def one(iu):
        i, u = iu; o = os.path.join(work, 'n%s%d.o' % (mode, i)); r = sh([CXX] + [f for f in flags if not (mode == 'sched' and u.startswith(os.path.join(V, 'native')) and f.startswith('-fsanitize'))] + ['-c', u, '-o', o])
        if r.returncode: raise BuildError('native compile of %s failed:\n%s' % (u, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(one, enumerate(units)))
    r = sh([CXX] + [f for f in flags if (f.startswith('-fsanitize') and mode != 'sched') or f == '-rdynamic'] + objs + ['-o', out, '-ldl', '-lpthread'])
    if r.returncode:
        more = remaining(h)
        if more and 'undefined reference' in r.stdout: h['sources'] += more; return build_native(h, tier, work, mode)
        raise BuildError('native link failed:\n' + r.stdout[-3000:])
    return out

def replay(h, tier, work, entry, viol):
    """returns (confirmed, description)"""
    inp = os.path.join(work, 'in-%s.txt' % entry)
    open(inp, 'w').write('\n'.join(str(x[2]) for x in viol['inputs']) + '\n')
    tried = []
    modes = [('asan', '190'), ('asan', '0'), ('asan', '255'), ('asan-plain-new', ''), ('valgrind', '')]
    if viol['id'].startswith('uninit'): modes = [modes[4]] + modes[:4]
    if viol['id'].startswith('alloc-dealloc'): modes = [modes[3]]
    if any(x[0] == 'sched' for x in viol['inputs']): modes = [('sched', '')]
    for mode, fill in modes:
        exe = build_native(h, tier, work, mode)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=43:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:max_allocation_size_mb=2048:allocator_may_return_null=0:abort_on_error=0', VS_FILL=fill or '190')
        cmd = [exe, entry, inp]
        if mode == 'valgrind': cmd = ['valgrind', '-q', '--error-exitcode=44', '--leak-check=no'] + cmd
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=25)
        except subprocess.TimeoutExpired: return True, '%s: does not terminate within 25 s' % mode
        last = [l for l in r.stdout.splitlines() if 'REPLAY' in l or 'ERROR' in l or 'SUMMARY' in l or 'uninitialised' in l or 'terminate' in l]
        d = '%s: exit %d %s' % (mode, r.returncode, '; '.join(last)[:300]); tried.append(d)
        if r.returncode not in (0, 2, 77): return True, d
    return False, ' | '.join(tried)

def merge(parts):
    bad = [p for p in parts if 'error' in p]
    if bad: return bad[0]
    m = dict(parts[0])
    for p in parts[1:]:
        for k in ('paths', 'assumed_away', 'viol_paths', 'pending_states', 'forks', 'steps', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'model_hits', 'core_hits', 'range_hits', 'order_hits', 'cross_checked', 'solver_s', 'asserts_checked'): m[k] += p[k]
        for k in ('wall', 'max_path_steps', 'max_query_s'): m[k] = max(m[k], p[k])
        m['complete'] = m['complete'] and p['complete']; m['violations'] = m['violations'] + [v for v in p['violations'] if v['id'] not in [x['id'] for x in m['violations']]]
        for k in ('incomplete_why', 'asserts', 'functions'): m[k] = sorted(set(m[k]) | set(p[k]))
        m['reached'] = {l: m['reached'].get(l, 0) + p['reached'].get(l, 0) for l in set(m['reached']) | set(p['reached'])}
        for f, ls in p.get('cov', {}).items():
            for l, c in ls.items(): d = m['cov'].setdefault(f, {}); d[l] = max(d.get(l, 0), c)
    return m

def run_entry(bc, e, work, tier, cov, shard=None):
    out = os.path.join(work, '%s.%s.json' % (e['name'], shard[0] if shard else 0)); o = e['opts']
    cmd = [VSYM, bc, '--entry', e['name'], '--out', out, '--time', o.get('time', '200' if tier == 'quick' else '780'), '--max-steps', o.get('steps', '3000000')]
    if o.get('uninit') == 'off': cmd.append('--no-uninit')
    if cov: cmd.append('--cov')
    if shard: cmd += ['--shard', '%d/%d' % shard]
    r = sh(cmd, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30)))
    if r.returncode or not os.path.exists(out): return {'entry': e['name'], 'error': 'engine exit %d: %s' % (r.returncode, r.stdout[-800:])}
    d = json.load(open(out)); d['log'] = r.stdout[-2000:]; return d

def ensure_engine():
    if not os.path.exists(VSYM):
        r = sh(['bash', os.path.join(V, 'engine', 'build.sh')])
        if r.returncode: raise BuildError('engine build failed: ' + r.stdout[-2000:])

def main():
    a = sys.argv[1:]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; cov = None; verbose = False; keep = None
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if '--only' in a: i = a.index('--only'); only = a[i + 1]; del a[i:i + 2]
    if '--cov' in a: i = a.index('--cov'); cov = a[i + 1]; del a[i:i + 2]
    if '-v' in a: a.remove('-v'); verbose = True
    if '--replay' in a:
        f = json.load(open(a[a.index('--replay') + 1])); work = tempfile.mkdtemp(prefix='vsr-')
        try:
            h = parse_harness(f['property']); ok, d = replay(h, f['tier'], work, f['entry'], f['violation']); print(('reproduced: ' if ok else 'not reproduced: ') + d); return 1 if ok else 0
        finally: shutil.rmtree(work, ignore_errors=True)
    prop = a[0]; t0 = time.time(); ensure_engine(); h = parse_harness(prop); work = tempfile.mkdtemp(prefix='vs-%s-' % prop)
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['known'] if k['property'] == prop]
    rc = 0
    try:
        bc = compile_bc(h, tier, work); tb = time.time() - t0
        ents = [e for e in h['entries'] if (tier == 'thorough' or not e['thorough']) and (only is None or re.fullmatch(only, e['name']))]
        ents_sorted = sorted(ents, key=lambda e: -float(e['opts'].get('weight', '1')))
        jobs = []
        for e in ents_sorted: n = int(e['opts'].get('shards' if tier == 'quick' or 'tshards' not in e['opts'] else 'tshards', '1')); jobs += [(e, (i, n) if n > 1 else None) for i in range(n)]
        with ThreadPoolExecutor(JOBS) as ex: parts = list(ex.map(lambda j: run_entry(bc, j[0], work, tier, cov, j[1]), jobs))
        more = remaining(h)
        if more and any('undefined function vl::' in w for p in parts for w in p.get('incomplete_why', [])):   # code moved to a file the harness does not name
            print('linking the remaining sources: ' + ' '.join(more)); h['sources'] += more; bc = compile_bc(h, tier, work)
            with ThreadPoolExecutor(JOBS) as ex: parts = list(ex.map(lambda j: run_entry(bc, j[0], work, tier, cov, j[1]), jobs))
        res = [merge([p for j, p in zip(jobs, parts) if j[0] is e]) for e in ents_sorted]
        problems, confirmed, knownhits = [], [], []
        for e, r in zip(ents_sorted, res):
            if verbose: print('%-28s %s' % (e['name'], {k: r.get(k) for k in ('error', 'complete', 'wall', 'paths', 'queries', 'solver_s', 'max_path_steps', 'incomplete_why')}))
            if 'error' in r: problems.append('%s: %s' % (e['name'], r['error'])); continue
            for v in r['violations']:
                if len(confirmed) >= 3: break
                k = [x for x in known if x['entry'] == e['name'] and x['id'] == v['id']]
                ok, how = replay(h, tier, work, e['name'], v)
                if not ok: problems.append('%s: counterexample for %s (%s; %s) inputs %s does not reproduce: %s' % (e['name'], v['id'], v['what'], v['where'][:400], [(x[0], x[2]) for x in v['inputs']][:40], how)); continue
                if k: knownhits.append((k[0], v)); continue
                confirmed.append((e, v, how))
            if not r['violations']:
                if not r['complete']: problems.append('%s: exploration incomplete: %s' % (e['name'], r['incomplete_why']))
                miss = [l for l in e['labels'] if l not in r['reached']]
                if miss: problems.append('%s: vacuity witness not reached: %s' % (e['name'], miss))
                if not r['asserts_checked'] : problems.append('%s: no assertion was evaluated' % e['name'])
        if only is None and not confirmed and not problems:
            miss = [l for l in h['shared_labels'] if not any(l in r['reached'] for r in res)]
            if miss and all(e in ents for e in h['entries']) : problems.append('vacuity witness not reached: %s' % miss)
        for k, v in knownhits: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        rp = None
        for n, (e, v, how) in enumerate(confirmed):
            rp = os.path.join(OUTDIR, '%s.replay%d.json' % (prop, n)); os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump({'property': prop, 'tier': tier, 'entry': e['name'], 'violation': v, 'reproduced': how, 'rerun': 'python3 %s/run.py --replay %s' % (V, rp)}, open(rp, 'w'), indent=1)
            print('  %s: %s\n    at %s\n    inputs %s\n    native replay: %s' % (e['name'], v['what'], v['where'][:500], [(x[0], x[2]) for x in v['inputs']], how))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        for p in problems: print('PROBLEM ' + p)
        rc = 1 if confirmed else (2 if problems else 0)
        good = [r for r in res if 'error' not in r]
        fns = sorted({f for r in good for f in r['functions'] if re.search(r'\bvl::', f)})
        tot = lambda k: sum(r.get(k, 0) for r in good)
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
              'coverage': {'entries': {r['entry']: {k: r[k] for k in ('complete', 'paths', 'assumed_away', 'forks', 'steps', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'core_hits', 'range_hits', 'order_hits', 'cross_checked', 'model_hits', 'solver_s', 'asserts_checked', 'asserts', 'reached')} for r in good},
                           'functions_encoded': fns, 'functions_encoded_count': len(fns), 'sources': [s for s in h['sources']], 'bounds': h['bounds'], 'outside_the_bounds': h['outside'],
                           'paths': tot('paths'), 'instructions': tot('steps'), 'queries_discharged': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'), 'answered_from_cache_or_core': tot('cache_hits') + tot('core_hits'), 'refuted_by_interval_preprocessing': tot('range_hits'), 'decided_by_order_preprocessing': tot('order_hits'), 'preprocessing_verdicts_confirmed_by_z3': tot('cross_checked'), 'witnessed_by_model': tot('model_hits'), 'solver_s': round(tot('solver_s'), 3), 'assertions_decided': tot('asserts_checked'), 'build_s': round(tb, 2), 'problems': problems},
              'assumptions': h['assume'] + ['allocation never fails', 'C library behaves as modelled in models/ (C locale)', 'clang -O0 IR after SROA; x86-64 data layout'],
              'violations': [{'entry': e['name'], 'id': v['id'], 'what': v['what'], 'inputs': v['inputs']} for e, v, _ in confirmed]}
        os.makedirs(OUTDIR, exist_ok=True)
        if only is None: json.dump(ev, open(os.path.join(OUTDIR, prop + '.json'), 'w'), indent=1)
        if cov:
            m = {}
            for r in good:
                for f, ls in r.get('cov', {}).items():
                    for l, c in ls.items(): m.setdefault(f, {}); m[f][l] = max(m[f].get(l, 0), c)
            json.dump(m, open(cov, 'w'))
        print('%s %s: %d entries, %d paths, %d queries (%.1f s solver), %d assertions decided, %d functions of the library, %.1f s -> exit %d' % (prop, tier, len(ents), tot('paths'), tot('queries'), tot('solver_s'), tot('asserts_checked'), len(fns), time.time() - t0, rc))
    except BuildError as x:
        print('PROBLEM ' + str(x)); rc = 2
    finally:
        if os.environ.get('VS_KEEP'): print('kept', work)
        else: shutil.rmtree(work, ignore_errors=True)
    return rc
sys.exit(main())
