#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the descriptions given on the command line (Python files defining
BUGS), after confirming each in a scratch copy: it builds, the stable tests pass, the demonstration
exits 0 without the change and non-zero with it."""
import sys, os, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off")

HELP = '''
// script is a transport that hands out the given reads, then err (or blocks until closed).
type script struct {
	mu     sync.Mutex
	reads  [][]byte
	err    error
	wrote  [][]byte
	werr   map[int]error
	wn     map[int]int
	closed chan struct{}
	once   sync.Once
	closes int
}

func newScript(err error, reads ...[]byte) *script {
	return &script{reads: reads, err: err, closed: make(chan struct{}), werr: map[int]error{}, wn: map[int]int{}}
}
func (s *script) Read(p []byte) (int, error) {
	s.mu.Lock()
	if len(s.reads) > 0 {
		n := copy(p, s.reads[0])
		s.reads[0] = s.reads[0][n:]
		if len(s.reads[0]) == 0 {
			s.reads = s.reads[1:]
		}
		s.mu.Unlock()
		return n, nil
	}
	err := s.err
	s.mu.Unlock()
	if err != nil {
		return 0, err
	}
	<-s.closed
	return 0, errors.New("transport closed")
}
func (s *script) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	i := len(s.wrote)
	s.wrote = append(s.wrote, append([]byte(nil), p...))
	if e := s.werr[i]; e != nil {
		return s.wn[i], e
	}
	return len(p), nil
}
func (s *script) Close() error {
	s.mu.Lock()
	s.closes++
	s.mu.Unlock()
	s.once.Do(func() { close(s.closed) })
	return nil
}

func crc(p []byte, extra byte) []byte {
	c := uint16(0xffff)
	for _, b := range append(append([]byte(nil), p...), extra) {
		t := b ^ byte(c)
		t ^= t << 4
		c = c>>8 ^ uint16(t)<<8 ^ uint16(t)<<3 ^ uint16(t)>>4
	}
	return []byte{byte(c), byte(c >> 8)}
}
func v1(seq, sys, comp, id byte, p []byte, extra byte) []byte {
	b := append([]byte{0xfe, byte(len(p)), seq, sys, comp, id}, p...)
	return append(b, crc(b[1:], extra)...)
}
func v2(flags, seq, sys, comp byte, id uint32, p []byte, extra byte) []byte {
	b := append([]byte{0xfd, byte(len(p)), flags, 0, seq, sys, comp, byte(id), byte(id >> 8), byte(id >> 16)}, p...)
	b = append(b, crc(b[1:], extra)...)
	if flags&1 != 0 {
		for i := 0; i < 13; i++ {
			b = append(b, byte(0xa0+i))
		}
	}
	return b
}
func hb(seq byte) []byte { return v1(seq, 1, 1, 0, []byte{1, 2, 3, 4, 5, 6, 7, 8, 3}, 50) }

// collect reads frames until the stream closes or d has passed without one.
func collect(fs *mavlink2.FrameStream, d time.Duration) (out [][]byte) {
	for {
		select {
		case f, ok := <-fs.Read():
			if !ok {
				return
			}
			out = append(out, append([]byte(nil), f.Bytes()...))
		case <-time.After(d):
			return
		}
	}
}

var _ = fmt.Sprint
var _ = bytes.Equal
var _ = context.Background
var _ io.Reader
var ds = mavlink2.Dialects{common.Dialect{}}
'''
HEAD = '''package mavlink2_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
%s)
'''
DEMO = '''#!/bin/bash
# Run in the repository: exits 0 if the behaviour is right, 1 if it is not.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d) || exit 0
trap 'rm -rf "${t:?}"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/overlay.json"
%s go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' %s .
'''

def sh(cmd, cwd, timeout=400):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def demo(d, cwd):
    return sh("bash %s/demo.sh" % d, cwd)

def build(bug):
    d = os.path.join(here, "seeded", bug["id"])
    base = "/repo"
    if sh("git status --porcelain", base).stdout.strip():
        return "repo not clean"
    os.makedirs(d, exist_ok=True)
    if "raw" in bug:
        src = bug["raw"]
    else:
        src = HEAD % "".join('\t%s\n' % i for i in bug.get("imports", [])) + HELP + bug["demo"]
    open(d + "/demo_test.go.txt", "w").write(src)
    open(d + "/demo.sh", "w").write(DEMO % ("CGO_ENABLED=1" if bug.get("race") else "", "-race" if bug.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = demo(d, base)
    if r.returncode != 0:
        return "demo fails on the unchanged tree:\n" + r.stdout[-1500:] + r.stderr[-1500:]
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(base, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        files = sorted({f for f, _, _ in bug["edits"]})
        fm = sh("gofmt -l " + " ".join(files), base)
        open(d + "/patch.diff", "w").write(sh("git diff", base).stdout)
        r = sh("bash /opt/vp/build.sh", base)
        if r.returncode:
            return "does not build:\n" + r.stdout + r.stderr
        out = tempfile.mktemp()
        sh("bash /opt/vp/test.sh " + out, base)
        res = json.load(open(out))
        os.unlink(out)
        passed = json.dumps(res)
        bad = [t for t in STABLE if not ok(res, t)]
        if bad:
            return "breaks tests: %s" % bad
        r = demo(d, base)
        if r.returncode == 0:
            return "demo passes with the change"
        print("   demo:", [l for l in (r.stdout + r.stderr).splitlines() if "demo_test" in l or "RACE" in l or "panic" in l][:2])
    finally:
        sh("git checkout -- .", base)
    return None

def ok(res, t):
    for k in ("passed", "pass"):
        if k in res:
            return t in res[k]
    return res.get(t) in ("pass", "passed", True)

for f in sys.argv[1:]:
    g = {}
    only = None
    if ":" in f:
        f, only = f.split(":")
    exec(open(f).read(), g)
    for bug in g["BUGS"]:
        if only and bug["id"] not in only.split(","):
            continue
        print(bug["id"], bug["prop"])
        try:
            r = build(bug)
        except Exception as e:
            r = repr(e)
        if r:
            print("   FAILED", r)
            shutil.rmtree(os.path.join(here, "seeded", bug["id"]))
