#!/usr/bin/env python3
"""mutate.py list | run WORKER OF OUT [ID...]: small changes of /repo's sources, made one at a time in a scratch copy.

A change that builds and passes the stable tests is shown to the checks of that part of the code (short ones; MUT_ALL=1: all checks). Each line of OUT is a JSON
object: id, file, line, before, after, and what became of it: nobuild, tests, caught (by), survived.
Scratch: /tmp/mut/w<WORKER> and v<WORKER>; remove /tmp/mut afterwards.
"""
import json, os, re, subprocess, sys, random
REPO = '/repo'
SKIP = ('tests/', 'examples/', 'benches/', 'genetic.rs', 'advanced_macro.rs', 'cfg-regexp-macro', 'linear.rs', 'regular.rs', 'cfg/src')
FIRST = {
    'cfg-generate': 'C01 C02 C03 C05 C04 C10',
    'cfg-load/src/basic': 'C06 C19', 'cfg-load/src/advanced': 'C07 C19', 'cfg-load': 'C06 C07 C19',
    'cfg-regexp-logic': 'C26 C07', 'cfg-symbol/': 'C12 C08 C13 C10', 'cfg-history': 'C14 C08 C05',
    'cfg-symbol-bit-matrix/src/remap': 'C13 C10', 'cfg-symbol-bit-matrix': 'C21 C17',
    'cfg-sequence': 'C18 C14 C26', 'cfg-grammar/src/precedenced': 'C18 C14', 'cfg-grammar/src/symbol_bit_set': 'C21 C08',
    'cfg-grammar/src/occurence': 'C21 C25', 'cfg-grammar': 'C11 C12 C15 C14 C16 C21 C27 C10 C09 C20', 'cfg-classify/src/cycl': 'C17 C14',
    'cfg-classify/src/useful': 'C21 C15', 'cfg-classify/src/ll': 'C24', 'cfg-classify/src/lr': 'C22', 'cfg-classify/src/rec': 'C24 C25',
    'cfg-predict-sets': 'C23 C24', 'cfg-predict-distance': 'C25',
}
ALL = [f'C{i:02}' for i in range(1, 28)]
RUNS = {'C18': 1500, 'C19': 3000, 'C05': 3000, 'C04': 8000, 'C20': 20000}
SUBS = [
    (r'(?<![<>=\-])<(?=\s)(?!=)', ['<=', '>']), (r'(?<![<>=\-])>(?=\s)', ['>=']), (r'<=', ['<']), (r'>=', ['>']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
    (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'\+ 1\b', ['+ 2', '']), (r'- 1\b', ['- 2', '']), (r'\b0\b(?!\.\.)', ['1']), (r'\b1\b', ['2', '0']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.rev\(\)', ['']), (r'\.skip\((\w+)\)', ['']), (r'\.take\(([^()]*)\)', ['']),
    (r'\|=', ['=', '&=']), (r'&=', ['|=', '=']), (r'\+=', ['=', '-=']), (r'-=', ['+=']), (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']),
    (r'(?<=[\s(])!(?=[\w(])', ['']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_empty\(\)', ['.len() > 1']),
    (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']),
    (r'\bSome\((\w+)\) =>', ['Some(_) if false =>']), (r'\.saturating_sub\(', ['.wrapping_sub(']), (r'\.cloned\(\)', []), (r'\.\.=', ['..']), (r'(?<=[\w)\]])\.\.(?=[\w(])', ['..=']),
    (r'\bif (?!let)([^{]+) \{', ['if true {', 'if false {']), (r'\bwhile (?!let)([^{]+) \{', ['while false {']),
    (r'\.push_front\(', ['.push_back(']), (r'\.push_back\(', ['.push_front(']), (r'\.pop_front\(', ['.pop_back(']), (r'unwrap_or\(([^()]*)\)', []),
    (r'\.filter\((.*)\)$', ['']), (r'\.starts_with\(', ['.ends_with(']), (r'\.max_by', ['.min_by']), (r'\bi32\b', []),
    (r'\bforward\b', []), (r'\.sort\(\)', ['']), (r'\.dedup\(\)', ['']), (r'\.lhs\b', []), (r'\.unwrap_or_default\(\)', []),
]
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def sources():
    for f in sh('git ls-files', cwd=REPO).stdout.split():
        if f.endswith('.rs') and '/src/' in f and not any(s in f for s in SKIP):
            yield f
def mutants():
    out = []
    for f in sources():
        lines = open(f'{REPO}/{f}').read().split('\n')
        depth_test = None
        for n, line in enumerate(lines):
            if '#[cfg(test)]' in line: break
            st = line.strip()
            if not st or st.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'pub struct', 'pub enum', 'struct', 'enum', 'log::', 'type ', 'pub type', 'assert', 'debug_assert')): continue
            if re.match(r'(pub |const |unsafe )*(fn|const|static|trait) ', st): continue
            seen = set()
            code = line.split('//')[0]
            for pat, subs in SUBS:
                for m in re.finditer(pat, code):
                    if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                    for s in subs:
                        new = line[:m.start()] + s + line[m.end():]
                        if new not in seen and new != line:
                            seen.add(new); out.append((f, n, line, new))
            if st.endswith(';') and not st.startswith(('let ', 'return', '}', ')', ']', 'break', 'continue')) and st.count('(') == st.count(')') and st.count('{') == st.count('}') and not st.startswith('.') and '=>' not in st:
                out.append((f, n, line, ''))
    return [dict(id=i, file=f, line=n, before=b, after=a) for i, (f, n, b, a) in enumerate(out)]
def setup(k):
    w, v = f'/tmp/mut/w{k}', f'/tmp/mut/v{k}'
    os.makedirs('/tmp/mut', exist_ok=True)
    if not os.path.exists(w):
        sh(f'cp -a /repo {w}')
        for n in ('env', 'build', 'test'):
            s = open(f'/opt/vp/{n}.sh').read().replace('/repo', w).replace('/opt/vp/env.sh', f'{w}/target/vp-env.sh').replace('unset RUSTFLAGS', 'export RUSTFLAGS="--cap-lints warn"; unset')
            open(f'{w}/target/vp-{n}.sh', 'w').write(s)
    sh(f'cd {w} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    os.makedirs(v, exist_ok=True)
    sh(f'cd /verif && tar c --exclude=target --exclude=./seeded --exclude=./.git --exclude=./evidence --exclude=./replays --exclude=./work . | tar x -C {v}')
    sh(f"mkdir -p {v}/evidence {v}/replays {v}/work; sed -i 's#\\(path = \"\\)/repo/#\\1{w}/#' {v}/sim/Cargo.toml; sed -i 's#cd /repo#cd {w}#' {v}/build.sh")
    return w, v
def run(k, of, out, ids):
    w, v = setup(k)
    done = set()
    for f in [p for p in os.listdir('/tmp/mut') if p.startswith('res')]:
        for l in open(f'/tmp/mut/{f}'):
            d = json.loads(l)
            if d['became'] != 'nobuild' or 'err' in d: done.add(d['key'])
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ms = mutants()
    if ids: ms = [m for m in ms if m['id'] in ids]
    random.Random(5).shuffle(ms)
    for m in [m for i, m in enumerate(ms) if i % of == k]:
        m['key'] = f"{m['file']}|{m['before'].strip()}|{m['after'].strip()}|{m['line']}"
        if m['key'] in done: continue
        p = f"{w}/{m['file']}"
        orig = open(p).read()
        lines = orig.split('\n')
        assert lines[m['line']] == m['before']
        lines[m['line']] = m['after']
        open(p, 'w').write('\n'.join(lines))
        try:
            b = sh(f'. {w}/target/vp-env.sh; cd {w}; timeout 300 cargo test --workspace --all-features --no-run --offline')
            if b.returncode: m['became'] = 'nobuild'; m['err'] = [l for l in b.stderr.splitlines() if l.startswith('error')][:2]; continue
            o = f'/tmp/mut/o{k}.json'
            if os.path.exists(o): os.remove(o)
            try: sh(f'bash {w}/target/vp-test.sh {o}', timeout=150)
            except subprocess.TimeoutExpired:
                sh(f'pkill -f {w}/target'); m['became'] = 'tests'; continue
            try: passed = json.load(open(o))['passed']
            except Exception: passed = []
            if any(t not in passed for t in stable): m['became'] = 'tests'; continue
            b = sh(f'{v}/build.sh')
            if b.returncode: m['became'] = 'nosim'; m['err'] = b.stderr[-500:]; continue
            order = []
            for pre, ps in FIRST.items():
                if m['file'].startswith(pre): order += [x for x in ps.split() if x not in order]
            if os.environ.get('MUT_ALL'): order += [x for x in ALL if x not in order]
            m['became'] = 'survived'
            for c in order:
                env = dict(os.environ, SIM_RUNS=str(RUNS.get(c, 15000)), SIM_WORKERS='2', SIM_SHRINK_S='1', SIM_VERIF_DIR=v, VERIF_SEED='1')
                r = subprocess.run([f'{v}/sim/target/release/sim', 'check', c, 'quick'], env=env, text=True, capture_output=True)
                if r.returncode != 0:
                    m['became'] = 'caught'; m['by'] = c; m['rc'] = r.returncode; break
        finally:
            open(p, 'w').write(orig)
            if m.get('became'):
                with open(out, 'a') as f: f.write(json.dumps(m) + '\n')
if __name__ == '__main__':
    if sys.argv[1] == 'list':
        ms = mutants(); print(len(ms))
        from collections import Counter
        for f, c in Counter(m['file'] for m in ms).items(): print(c, f)
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], {int(x) for x in sys.argv[5:]})
