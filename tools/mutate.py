#!/usr/bin/env python3
"""Development tool: systematic small mutations of /repo's sources (in scratch copies).

  mutate.py OUT.jsonl SEED COUNT [FILE...]   COUNT mutants per file; records those that survive the unit tests, and whether the checks see them
"""
import sys, os, re, random, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = 'Q01 Q02 Q03 Q04 L07 L08 L09'
MAP = {'Collections/List.h': 'L01 L02 L03 L04 L08 L07', 'Collections/Dictionary.h': 'L05 L06 Q04 L07', 'Collections/Pair.h': 'V03', 'Collections/Operation.h': OPS, 'Collections/OperationConcat.h': OPS, 'Collections/OperationCopyFrom.h': 'L08 L07',
       'Collections/OperationEnumerable.h': OPS, 'Collections/OperationForEach.h': OPS + ' L05 L06', 'Collections/OperationPair.h': OPS, 'Collections/OperationSelect.h': OPS, 'Collections/OperationSequence.h': OPS, 'Collections/OperationSet.h': OPS, 'Collections/OperationString.h': OPS, 'Collections/OperationWhere.h': OPS,
       'Collections/Interfaces.h': 'C01 L08', 'Collections/PartialOrdering.h': 'O01 O02', 'Collections/PartialOrdering.cpp': 'O01 O02', 'GlobalStorage.cpp': 'G01', 'GlobalStorage.h': 'G01', 'Basic.h': 'B01 M01 M03', 'Basic.cpp': 'B01 M01',
       'Primitives/DateTime.Linux.cpp': 'D01', 'Primitives/DateTime.cpp': 'D01', 'Primitives/DateTime.h': 'D01', 'Primitives/Event.h': 'F02', 'Primitives/Function.h': 'F01', 'Primitives/Nullable.h': 'V01', 'Primitives/Pointer.h': 'M01 M02 M03', 'Primitives/Tuple.h': 'V03', 'Primitives/Variant.h': 'V02',
       'Strings/Conversion.Linux.cpp': 'U03 T01', 'Strings/Conversion.cpp': 'U01 U02 U03', 'Strings/Conversion.h': 'U01 U02 U03', 'Strings/LoremIpsum.cpp': 'X01', 'Strings/String.cpp': 'N01 N02 S04 S01', 'Strings/String.h': 'S01 S02 S03 S04', 'UnitTest/UnitTest.cpp': 'T01', 'UnitTest/UnitTest.h': 'T01', 'Exception.cpp': 'T01', 'Exception.h': 'T01', 'Console.cpp': 'T01'}
SWAP = [(r'<=', '<'), (r'(?<=[\w\)\]]) ?<(?= ?[\w\(])(?![\w:, ]*>)', ' <='), (r'>=', '>'), (r'(?<=[\w\)\]]) > (?=[\w\(])', ' >= '), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+ ?1\b', '+ 0'), (r'- ?1\b', '- 0'), (r'(?<=[\w\)\]]) \+ (?=[\w\(])', ' - '), (r'(?<=[\w\)\]]) - (?=[\w\(])', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b(?!x)', '1'), (r'\b(?<!\.)([2-9]|[1-9]\d+)\b', lambda m: str(int(m.group(0)) + 1)), (r'\b0x([0-9A-F]+)', lambda m: hex(int(m.group(1), 16) ^ 1)), (r'\b0b([01]+)', lambda m: bin(int(m.group(1), 2) ^ (1 << (len(m.group(1)) // 2)))), (r'\+\+', '--'), (r'!(?=\w)', ''), (r'(?<=if )\((?=\w)', '(!'), (r'\bbreak;', ''), (r'\bcontinue;', '')]
def mutants(f):
    t = open('/repo/Source/' + f).read(); lines = t.split('\n'); out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', '/*', 'template', 'using', 'static_assert', 'L"', 'class', 'struct', 'friend', 'typedef')) or 'CHECK_ERROR(' in s and False: continue
        code = l.split('//')[0]
        for p, r in SWAP:
            for m in re.finditer(p, code):
                if code[:m.start()].count('"') % 2: continue
                rep = r(m) if callable(r) else r; out.append((i, l[:m.start()] + rep + l[m.end():]))
        if re.match(r'^[\w\.\->\[\]\(\)\*:&<>, +=!]+;$', s) and not re.match(r'^(return|break|continue|using|typedef|static|const|extern|virtual|throw|friend|typename|delete$)', s) and not re.match(r'^[\w:<>\*& ]+\s+[\*&]?\w+(\[.*\])?;$', s) and not re.match(r'^(auto|vint|bool|T|const)\b', s):
            out.append((i, l[:len(l) - len(l.lstrip())] + ';'))
        m = re.match(r'^(\s*)([\w\.\->\[\]]+\s*=\s*)(.*);$', code)
    seen = set(); res = []
    for i, n in out:
        if n != lines[i] and (i, n) not in seen: seen.add((i, n)); res.append((f, i, lines[i], n))
    return res
def sh(c, cwd=None, env=None, t=600):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: 
        class R: returncode = 124; stdout = 'timeout'
        return R
def one(m):
    f, i, old, new = m; d = tempfile.mkdtemp(prefix='mut-', dir='/tmp'); r = d + '/repo'
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', r]); p = r + '/Source/' + f; t = open(p).read().split('\n'); assert t[i] == old; t[i] = new; open(p, 'w').write('\n'.join(t))
        os.makedirs(d + '/c'); open(d + '/c/CMakeLists.txt', 'w').write(open('/opt/vp/cmake/CMakeLists.txt').read().replace('set(REPO /repo)', 'set(REPO %s)' % r))
        p = sh('ulimit -v 16000000; CC=gcc CXX=g++ cmake -S %s/c -B %s/b -G Ninja -DCMAKE_BUILD_TYPE= && timeout 300 ninja -j2 -C %s/b UnitTest' % (d, d, d))
        res = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
        if p.returncode: return None
        p = sh('cd %s/b; ulimit -v 16000000; TZ=UTC timeout 30 ./UnitTest /R' % d)
        if p.returncode: return None
        shutil.rmtree(d + '/b', ignore_errors=True); res['checks'] = {}
        for q in MAP[f].split():
            c = sh('timeout -k 5 420 python3 %s/run.py %s' % (V, q), V, dict(os.environ, VS_REPO=r, VS_OUT=d + '/out', VS_JOBS='2')); res['checks'][q] = c.returncode
            if c.returncode == 1: w = re.findall(r'^  (\S+: .*)$', c.stdout, re.M); res['why'] = w[0][:120] if w else ''; break
            if c.returncode not in (0, 1): res['problem'] = c.stdout[-400:]
        res['caught'] = 1 in res['checks'].values(); return res
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4:] or sorted(MAP); random.seed(seed); ms = []
    for f in files: c = mutants(f); random.shuffle(c); ms += c[:n]
    random.shuffle(ms); print(len(ms), 'mutants', flush=True)
    with open(out, 'a') as o, ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda m: one(m), ms):
            if r: o.write(json.dumps(r) + '\n'); o.flush(); print(('caught  ' if r['caught'] else 'SURVIVED') , r['file'], r['line'], '|', r['old'][:70], '=>', r['new'][:70], '|', r['checks'], flush=True)
