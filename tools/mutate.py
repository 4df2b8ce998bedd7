#!/usr/bin/env python3
"""Mutation campaign: small changes to copies of the library, kept if they build and pass the
existing tests, and which checks report them.  Development aid; no check uses it.

  mutate.py WORKERS SECONDS SEED [FILE_REGEX]

Works on copies under /tmp/mut; results in /tmp/mut/results.jsonl."""
import json, os, random, re, subprocess, sys, threading, time, shutil

ROOT = '/tmp/mut'
WORK, SECS, SEED = int(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3])
FILTER = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
RUNS = {'C01': 6000, 'C02': 8000, 'C03': 8000, 'C04': 8000, 'C05': 6000, 'C06': 60000, 'C07': 100000, 'C08': 10000,
        'C09': 500, 'C10': 15000, 'C11': 12000, 'C12': 80000, 'C13': 15000, 'C14': 50000, 'C16': 80000, 'C18': 8000, 'C19': 60000}
ENV = dict(os.environ)
for l in open('/opt/vp/env.sh'):
    if l.startswith('export '):
        k, v = l[7:].strip().split('=', 1)
        ENV[k] = v.strip('"').replace('$PATH', os.environ['PATH'])

def files():
    out = []
    for base in ('src', 'compose_spec_macros/src'):
        for d, _, fs in os.walk('/repo/' + base):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.relpath(os.path.join(d, f), '/repo')
                    if 'test' in p: continue
                    if FILTER and not FILTER.search(p): continue
                    out.append(p)
    return sorted(out)

def code_lines(text):
    """indices of lines that are code outside tests, comments"""
    res = []
    lines = text.split('\n')
    i, skip_depth = 0, None
    depth = 0
    pending = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]'):
            pending = True
        if pending and s.startswith('mod '):
            return res
        if pending and s.startswith('use '): pending = False; continue
        if s.startswith('//') or not s: continue
        res.append(i)
    return res

OPS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'), (r'&& !', '&& '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'),
    (r'\bis_empty\(\)', 'is_empty() == false'), (r'Option::is_none', 'Option::is_some'),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' \+ 1\b', ''), (r' - 1\b', ''),
    (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\.all\(', '.any('), (r'\.any\(', '.all('),
    (r'split_once', 'rsplit_once'), (r'rsplit_once', 'split_once'), (r'starts_with', 'ends_with'), (r'\bfind\(', 'rfind('), (r'\brfind\(', 'find('),
    (r'splitn\(', 'rsplitn('), (r'\.first\(', '.last('), (r'\.last\(', '.first('),
    (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'shift_remove', 'swap_remove'),
    (r'\?;', '.ok();'), (r'Some\(([a-z_]+)\)$', r'None'), (r'\.\.=', '..'), (r'(?<![.=])\.\.(?![.=])', '..='),
    (r'\bOk\(Some\(.*\)\)', 'Ok(None)'), (r'\.then_some\(', '.then(|| '),
    (r'skip_serializing_if = "[^"]*"', ''), (r', skip_serializing_if = "[^"]*"', ''), (r'#\[serde\(default\)\]', ''), (r'default, ', ''),
    (r'#\[serde\(flatten\)\]', ''), (r'alias = "[^"]*"', ''), (r'rename = "([^"]*)"', r'rename = "\1x"'),
    (r'Self::Item\b', 'Self::List'), (r'visit_u64', 'visit_u32'), (r'visit_none', 'visit_unit'), (r'unwrap_or_default\(\)', 'unwrap()'),
    (r'and_then', 'map'), (r'\.chain\(.*\)', ''), (r'\.filter\(.*\)', ''), (r'\.take\(\)', '.clone()'), (r'clone\(\)', 'clone_default()'),
    (r'write_char\(\'(.)\'\)', r"write_char('\1\1')"), (r'to_ascii_lowercase\(\)', 'to_ascii_uppercase()'),
    (r'is_ascii_lowercase', 'is_ascii_alphabetic'), (r'is_ascii_digit', 'is_ascii_alphanumeric'), (r'is_ascii_alphanumeric', 'is_alphanumeric'),
    (r'"([^"{}]{1,3})"', r'"\1\1"'), (r"'(.)'", "'~'"), (r'\breturn\b ', ''), (r'char_indices', 'char_indices().rev'),
    (r'extensions\.is_empty\(\)', 'true'), (r'#\[as_short.*\]', ''), (r'#\[default = (.*)\]', ''), (r'IndexMap', 'HashMap'),
]

def mutants(p):
    text = open('/repo/' + p).read()
    lines = text.split('\n')
    out = []
    for i in code_lines(text):
        l = lines[i]
        if l.strip().startswith('use ') or l.strip().startswith('pub use'): continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: out.append((p, i, n))
        for m in re.finditer(r'(?<![\w."\'x])(\d+)(?![\w."\'])', l):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)} - {v}:
                out.append((p, i, l[:m.start()] + str(w) + l[m.end():]))
        s = l.strip()
        if s.endswith(';') and re.match(r'^(self\.|[a-z_]+\(|[a-z_]+\.[a-z_]+\(|write!|[a-z_.]+ [-+*|&]?= )', s):
            out.append((p, i, re.match(r'\s*', l).group(0) + '// deleted'))
        if re.match(r'^(&& |\|\| )', s) :
            out.append((p, i, re.match(r'\s*', l).group(0) + '// deleted'))
        if s.endswith('?;') and not s.startswith('let') and not s.startswith('return'):
            out.append((p, i, re.match(r'\s*', l).group(0) + 'let _ = ' + s[:-2] + ';'))
        if re.match(r'^[A-Z][\w:]*(\(.*\)|\s*\{.*\})? => .*,$', s) or re.match(r'^Self::\w+.* => .*,$', s):
            out.append((p, i, re.match(r'\s*', l).group(0) + '// deleted'))
        if re.match(r'^\.\w+\(.*\)$', s):
            out.append((p, i, re.match(r'\s*', l).group(0) + '// deleted'))
        if s.startswith('#[') and not s.startswith('#[derive') and not s.startswith('#[cfg') and not s.startswith('#[must') and not s.startswith('#[allow'):
            out.append((p, i, re.match(r'\s*', l).group(0) + '// deleted'))
        # swap with the next line
        if i + 1 < len(lines) and s.endswith(',') and lines[i+1].strip().endswith(',') and re.match(r'^[a-z_]+,?', s) and 0:
            pass
    return out

def run(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ''

lock = threading.Lock()
done = set()
if os.path.exists(ROOT + '/results.jsonl'):
    for l in open(ROOT + '/results.jsonl'):
        j = json.loads(l); done.add((j['file'], j['line'], j['new']))

def worker(w, todo, end):
    d = f'{ROOT}/w{w}'
    repo, sim = d + '/repo', d + '/sim'
    if not os.path.exists(repo):
        os.makedirs(d, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', repo])
    subprocess.run(['git', '-C', repo, 'fetch', '-q', '/repo', 'HEAD']); subprocess.run(['git', '-C', repo, 'reset', '-q', '--hard', 'FETCH_HEAD'])
    os.makedirs(sim, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/verif/sim/', sim + '/']) if shutil.which('rsync') else subprocess.run(f'rm -rf {sim}/src; cp -a /verif/sim/src /verif/sim/Cargo.toml /verif/sim/Cargo.lock {sim}/', shell=True)
    t = open(sim + '/Cargo.toml').read().replace('path = "/repo"', f'path = "{repo}"')
    open(sim + '/Cargo.toml', 'w').write(t)
    os.makedirs(d + '/root/evidence', exist_ok=True)
    shutil.copy('/verif/known-findings.txt', d + '/root/')
    while time.time() < end:
        with lock:
            if not todo: return
            p, i, new = todo.pop()
        if (p, i, new) in done: continue
        f = f'{repo}/{p}'
        text = open(f).read(); lines = text.split('\n'); old = lines[i]; lines[i] = new
        open(f, 'w').write('\n'.join(lines))
        res = dict(file=p, line=i, old=old, new=new)
        try:
            c, o = run(['cargo', 'build', '--offline', '-q'], repo, 120)
            if c: res['status'] = 'nocompile'
            else:
                c, o = run(['cargo', 'test', '--lib', '--offline', '-q'], repo, 120)
                if c == 0:
                    c, o = run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--include-ignored', '--test-threads', '3'], repo, 300)
                if c: res['status'] = 'tests'
                else:
                    c, o = run(['cargo', 'build', '--offline', '-q', '--locked'], sim, 300)
                    if c: res['status'] = 'simbuild'; res['out'] = o[-1500:]
                    else:
                        by = {}
                        for k, n in RUNS.items():
                            env = dict(ENV, COMPOSIM_RUNS=str(n), COMPOSIM_ROOT=d + '/root', VERIF_SEED='1', COMPOSIM_WORKERS='2')
                            c, o = run(['target/debug/composim', 'check', k], sim, 300, env)
                            if c: by[k] = (re.findall(r'^run \d+: (.*)', o, re.M) or [f'exit {c}'])[0][:300]
                        res['status'] = 'caught' if by else 'SURVIVED'
                        res['by'] = by
        finally:
            open(f, 'w').write(text)
        if res['status'] != 'nocompile':
            with lock:
                open(ROOT + '/results.jsonl', 'a').write(json.dumps(res) + '\n')

os.makedirs(ROOT, exist_ok=True)
all_ = [m for f in files() for m in mutants(f)]
seen = set(); uniq = []
for m in all_:
    if m not in seen: seen.add(m); uniq.append(m)
random.Random(SEED).shuffle(uniq)
print(len(uniq), 'mutants', flush=True)
end = time.time() + SECS
ts = [threading.Thread(target=worker, args=(w, uniq, end)) for w in range(WORK)]
[t.start() for t in ts]; [t.join() for t in ts]
print('left', len(uniq))
