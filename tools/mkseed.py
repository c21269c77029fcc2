#!/usr/bin/env python3
"""mkseed.py SPEC: development aid; writes seeded/<id>/{patch.diff,demo.sh,demo_test.go,meta.json} from a spec
file of the form
  id: x
  property: Cnn
  needs: …
  breaks: …
  pkg: serialapi            (package directory of the demo test)
  race: 1                   (optional)
  file: path                (one or more edits)
  <<<<
  old
  ====
  new
  >>>>
  demo:
  <go test source>
"""
import sys, os, re, subprocess, json, shutil, tempfile
V = '/verif'
for spec in sys.argv[1:]:
    t = open(spec).read()
    head, demo = t.split('\ndemo:\n', 1)
    meta = {}
    for k in ('id', 'property', 'needs', 'breaks', 'pkg', 'race'):
        m = re.search(r'^%s: (.*)$' % k, head, re.M)
        meta[k] = m.group(1).strip() if m else ''
    edits = re.findall(r'^file: (\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>$', head, re.M | re.S)
    d = f"{V}/seeded/{meta['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed.')
    subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm a', shell=True)
    for f, old, new in edits:
        p = f'{w}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{meta['id']}: {f}: old text found {s.count(old)} times")
        open(p, 'w').write(s.replace(old, new))
        subprocess.check_call(['gofmt', '-l', p])
    diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    open(f'{d}/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    open(f'{d}/demo_test.go.txt', 'w').write(demo)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    race = '-race ' if meta['race'] else ''
    pkg = meta['pkg']
    open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# runs demo_test.go.txt as an in-package test of ./{pkg} of the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GOTOOLCHAIN=local
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}}}" > "$t/overlay.json"
go test {race}-vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./{pkg}
''')
    print(meta['id'], 'written')
