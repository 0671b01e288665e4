#!/usr/bin/env python3
"""Runs the analyser on edited copies of /repo: bugs must be reported, refactorings must not.
usage: mutants.py [-j N] [name-substring ...]
Each case: (name, kind, [properties], [(file, old, new), ...]); kind is 'bug' or 'ok'.
'ok' cases are run against all properties unless a list is given."""
import os, sys, subprocess, shutil, tempfile, glob, importlib.util, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASES = []
def bug(name, props, *edits): CASES.append((name, 'bug', props.split(), edits))
def ok(name, props, *edits): CASES.append((name, 'ok', props.split(), edits))
for f in sorted(glob.glob(os.path.join(ROOT, 'scripts', 'mutants', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
ALL = [l.split('"')[1] for l in open(os.path.join(ROOT, 'tool', 'registry.go')) if '{id: "' in l]
BIN = os.environ.get('SKCHECK', '/tmp/skcheck')
ENV = dict(os.environ, GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOTOOLCHAIN='local')

def run(case):
    name, kind, props, edits = case
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        wt, out = d + '/wt', d + '/out'
        shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git'))
        os.makedirs(out)
        shutil.copy(ROOT + '/KNOWN_FINDINGS.txt', out)
        for f, a, b in edits:
            s = open(wt + '/' + f).read()
            if a is None:
                s = s + b
            else:
                if s.count(a) != 1:
                    return name, 'EDIT', '%s: %d matches of %r' % (f, s.count(a), a[:40])
                s = s.replace(a, b)
            open(wt + '/' + f, 'w').write(s)
        p = subprocess.run('go build ./... && go vet ./... 2>&1 | grep -a "^never" ; true', shell=True, cwd=wt, env=ENV, capture_output=True, text=True)
        b = subprocess.run('go build ./...', shell=True, cwd=wt, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return name, 'BUILD', b.stderr[:400]
        res = []
        for pr in (props or ALL):
            p = subprocess.run([BIN, '-prop', pr, '-repo', wt, '-dir', out], env=ENV, capture_output=True, text=True, errors='replace')
            alarm = p.returncode == 1
            if p.returncode not in (0, 1):
                res.append((pr, 'rc%d' % p.returncode, p.stdout[-300:]))
            elif alarm != (kind == 'bug'):
                msg = [l for l in p.stdout.splitlines() if '[' in l and '.go:' in l][:3]
                res.append((pr, 'MISSED' if kind == 'bug' else 'FALSE ALARM', ' | '.join(m[:220] for m in msg)))
        if kind == 'bug' and len(props) > 1:   # one of the listed properties is enough
            bad = [r for r in res if r[1] == 'MISSED']
            if len(bad) < len(props):
                res = [r for r in res if r[1] != 'MISSED']
        return name, 'ok' if not res else 'BAD', '; '.join('%s %s %s' % r for r in res)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    cases = [c for c in CASES if not args or any(a in c[0] for a in args)]
    bad = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for name, st, msg in ex.map(run, cases):
            if st != 'ok':
                bad += 1
                print(st, name, msg, flush=True)
    print(len(cases), 'cases,', bad, 'bad')
main()
