package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/botlink/go-mavlink2/util"
	"verifmc/chk"
	"verifmc/vsched"
)

// peer is a plain UDP socket on the loopback interface.
type peer struct {
	c    *net.UDPConn
	addr *net.UDPAddr
}

type udpWorld struct {
	ip    string
	port  int
	dst   *net.UDPAddr
	peers []*peer
	tag   uint32
}

// newUDP takes a loopback address of its own for this process and finds a free port on it.
func newUDP(n int) *udpWorld {
	pid := os.Getpid()
	u := &udpWorld{ip: fmt.Sprintf("127.%d.%d.%d", 64+pid>>16&63, pid>>8&255, 1+pid%254)}
	pc, err := net.ListenPacket("udp", u.ip+":0")
	if err != nil {
		panic(err)
	}
	u.dst = pc.LocalAddr().(*net.UDPAddr)
	u.port = u.dst.Port
	for i := 0; i < n; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(u.ip)})
		if err != nil {
			panic(err)
		}
		u.peers = append(u.peers, &peer{c, c.LocalAddr().(*net.UDPAddr)})
	}
	pc.Close()
	return u
}

// open binds the transport; the port must be free.
func (u *udpWorld) open() *util.UDPReadWriteCloser {
	vsched.ResetIdle()
	t, err := util.NewUDPReadWriteCloser(u.ip, u.port)
	if err != nil {
		chk.Failf("opening %s:%d: %v", u.ip, u.port, err)
	}
	u.tag++
	return t
}

func (p *peer) recv(wait bool) ([]byte, *net.UDPAddr) {
	buf := make([]byte, 70000)
	rc, err := p.c.SyscallConn()
	if err != nil {
		panic(err)
	}
	var n int
	var from syscall.Sockaddr
	deadline := time.Now().Add(3 * time.Second)
	for {
		n = -1
		rc.Control(func(fd uintptr) {
			var e error
			n, from, e = syscall.Recvfrom(int(fd), buf, syscall.MSG_DONTWAIT)
			if e != nil {
				n = -1
			}
		})
		if n >= 0 {
			break
		}
		if !wait || time.Now().After(deadline) {
			return nil, nil
		}
		time.Sleep(time.Millisecond)
	}
	a := &net.UDPAddr{}
	switch s := from.(type) {
	case *syscall.SockaddrInet4:
		a.IP, a.Port = net.IP(append([]byte(nil), s.Addr[:]...)), s.Port
	case *syscall.SockaddrInet6:
		a.IP, a.Port = net.IP(append([]byte(nil), s.Addr[:]...)), s.Port
	}
	return buf[:n], a
}

func (u *udpWorld) drain() {
	for _, p := range u.peers {
		for {
			if b, _ := p.recv(false); b == nil {
				break
			}
		}
	}
}

// datagram makes distinct contents: execution, sender and number.
func (u *udpWorld) datagram(who, i, size int) []byte {
	b := make([]byte, size)
	for k := range b {
		b[k] = byte(who*61 + i*17 + k)
	}
	if size >= 4 {
		binary.LittleEndian.PutUint32(b, u.tag)
	}
	return b
}

type udpOp struct {
	kind string // "send", "read", "write", "close"
	who  int
	size int
}

func (o udpOp) String() string {
	switch o.kind {
	case "send":
		return fmt.Sprintf("peer%d sends %d", o.who, o.size)
	case "write":
		return fmt.Sprintf("write %d", o.size)
	}
	return o.kind
}

type udpQueued struct {
	who int
	b   []byte
}

// udpSequence runs the operations on a fresh transport and compares each with the model.
func (u *udpWorld) sequence(c *chk.C, ops []udpOp) {
	u.drain()
	t := u.open()
	closed := false
	defer func() {
		if !closed {
			t.Close()
		}
	}()
	var queue []udpQueued
	first := -1
	var did []string
	fail := func(f string, a ...any) {
		chk.Failf("%s: %s", strings.Join(did, "; "), fmt.Sprintf(f, a...))
	}
	buf := make([]byte, 66000)
	for i, o := range ops {
		did = append(did, o.String())
		c.Trans(1)
		vsched.Elapse(gap)
		switch o.kind {
		case "send":
			b := u.datagram(o.who, i, o.size)
			if _, err := u.peers[o.who].c.WriteToUDP(b, u.dst); err != nil && !closed {
				panic(err)
			}
			if !closed {
				queue = append(queue, udpQueued{o.who, b})
			}
		case "read":
			if closed {
				if n, err := t.Read(buf); err == nil {
					fail("a read after closing gives %d bytes and no error", n)
				}
				break
			}
			if len(queue) == 0 {
				did = did[:len(did)-1]
				continue // would block
			}
			for k := range buf[:300] {
				buf[k] = 0xee
			}
			n, err := t.Read(buf)
			q := queue[0]
			queue = queue[1:]
			if err != nil || n != len(q.b) || !bytes.Equal(buf[:n], q.b) {
				fail("read gives %d bytes %s (error %v), want the datagram %s", n, hex(buf[:max(n, 0)]), err, hex(q.b))
			}
			if first < 0 {
				first = q.who
			}
		case "write":
			b := u.datagram(9, i, o.size)
			keep := append([]byte(nil), b...)
			n, err := t.Write(b)
			if !bytes.Equal(b, keep) {
				fail("the bytes written were changed")
			}
			switch {
			case closed:
				if err == nil {
					fail("a write after closing succeeds")
				}
			case first < 0:
				if !errors.Is(err, util.ErrNoAddress) || n != 0 {
					fail("a write before any read gives %d, %v", n, err)
				}
			default:
				if err != nil || n != len(b) {
					fail("write gives %d, %v", n, err)
				}
				g, from := u.peers[first].recv(true)
				if g == nil || !bytes.Equal(g, keep) {
					fail("peer%d received %s, want %s", first, hex(g), hex(keep))
				}
				if from.Port != u.port {
					fail("sent from port %d", from.Port)
				}
			}
			for k, p := range u.peers {
				if g, _ := p.recv(false); g != nil {
					fail("peer%d received %s, which nobody should have sent", k, hex(g))
				}
			}
		case "close":
			err := t.Close()
			if !closed && err != nil {
				fail("close gives %v", err)
			}
			closed = true
			queue = nil
		}
		h := chk.HashS(uint64(first+1)<<8|uint64(b2i(closed)), o.String())
		for _, q := range queue {
			h = chk.Hash(h, []byte{byte(q.who), byte(len(q.b))})
		}
		c.State(h)
	}
	c.Trace()
	if !closed {
		closed = true
		if err := t.Close(); err != nil {
			fail("close gives %v", err)
		}
	}
	// the port is free again
	t2, err := util.NewUDPReadWriteCloser(u.ip, u.port)
	if err != nil {
		fail("the port is not free after closing: %v", err)
	}
	// and the new transport knows no peer
	if _, err := t2.Write([]byte{1}); !errors.Is(err, util.ErrNoAddress) {
		fail("a new transport's first write gives %v", err)
	}
	t2.Close()
}

func c24(c *chk.C) {
	u := newUDP(3)
	depth := 7
	if c.Thorough {
		depth = 9
	}
	alpha := []udpOp{{"send", 0, 12}, {"send", 1, 30}, {"read", 0, 0}, {"write", 0, 17}, {"close", 0, 0}}
	block := func(pre []int, k, l int, f func([]int)) {
		forSeqs(k, l, l, func(idx []int) { f(append(append([]int(nil), pre...), idx...)) })
	}
	for l := 1; l <= depth; l++ {
		pl := l - 3
		if pl < 0 {
			pl = 0
		}
		forSeqs(len(alpha), pl, pl, func(pre []int) {
			pre = append([]int(nil), pre...)
			c.Case(func() string { return fmt.Sprintf("sequences of %d operations from %v", l, pre) }, func() {
				block(pre, len(alpha), l-pl, func(idx []int) {
					var ops []udpOp
					for _, i := range idx {
						ops = append(ops, alpha[i])
					}
					u.sequence(c, ops)
				})
			})
		})
	}
	// sizes: empty datagrams, the largest frame, the largest datagram
	sz := []int{0, 1, 280, 1472, 1473, 9000, 65507}
	forSeqs(len(sz), 3, 3, func(idx []int) {
		a, b, w := sz[idx[0]], sz[idx[1]], sz[idx[2]]
		c.Case(func() string { return fmt.Sprintf("datagrams of %d and %d bytes, writes of %d", a, b, w) }, func() {
			u.sequence(c, []udpOp{{"write", 0, w}, {"send", 0, a}, {"write", 0, w}, {"send", 1, b}, {"read", 0, 0}, {"write", 0, w}, {"send", 2, a}, {"read", 0, 0}, {"write", 0, w}, {"read", 0, 0}, {"write", 0, w}, {"close", 0, 0}, {"write", 0, w}, {"read", 0, 0}})
			u.sequence(c, []udpOp{{"send", 1, a}, {"read", 0, 0}, {"write", 0, w}, {"send", 0, b}, {"send", 0, a}, {"read", 0, 0}, {"write", 0, w}, {"write", 0, a}, {"read", 0, 0}, {"write", 0, b}})
		})
	})
	// every order of three senders, with every number of reads before the write
	forSeqs(3, 1, 4, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return fmt.Sprintf("senders %v", idx) }, func() {
			for r := 0; r <= len(idx); r++ {
				var ops []udpOp
				for _, p := range idx {
					ops = append(ops, udpOp{"send", p, 20 + p})
				}
				for i := 0; i < r; i++ {
					ops = append(ops, udpOp{"read", 0, 0})
				}
				ops = append(ops, udpOp{"write", 0, 33}, udpOp{"write", 0, 34})
				for i := r; i < len(idx); i++ {
					ops = append(ops, udpOp{"read", 0, 0}, udpOp{"write", 0, 40 + i})
				}
				u.sequence(c, ops)
			}
		})
	})
	// long exchange: many datagrams, the peer stays
	c.Case(func() string { return "a long exchange" }, func() {
		var ops []udpOp
		for i := 0; i < 400; i++ {
			ops = append(ops, udpOp{"send", (i * i) % 3, 1 + i*7%1400}, udpOp{"read", 0, 0}, udpOp{"write", 0, 1 + i*13%1400})
		}
		u.sequence(c, ops)
	})
	// only somebody else sends, for long
	for _, other := range [][]int{{1}, {1, 2}} {
		c.Case(func() string { return fmt.Sprintf("peer0 once, then only %v", other) }, func() {
			n := 1000
			if c.Thorough {
				n = 70000
			}
			ops := []udpOp{{"send", 0, 5}, {"read", 0, 0}}
			for i := 0; i < n; i++ {
				ops = append(ops, udpOp{"send", other[i%len(other)], 5 + i%3}, udpOp{"read", 0, 0})
				if i < 70 || i%50 == 0 {
					ops = append(ops, udpOp{"write", 0, 1 + i%9})
				}
			}
			u.sequence(c, ops)
			// and without a write in between
			ops = []udpOp{{"send", 0, 5}, {"read", 0, 0}}
			for i := 0; i < n; i++ {
				ops = append(ops, udpOp{"send", other[i%len(other)], 5 + i%3}, udpOp{"read", 0, 0})
			}
			u.sequence(c, append(ops, udpOp{"write", 0, 7}, udpOp{"write", 0, 8}))
		})
	}
	c.Case(func() string { return "writes only, for long" }, func() {
		n := 1000
		if c.Thorough {
			n = 70000
		}
		ops := []udpOp{{"send", 2, 5}, {"read", 0, 0}}
		for i := 0; i < n; i++ {
			ops = append(ops, udpOp{"write", 0, i % 11})
		}
		u.sequence(c, append(ops, udpOp{"send", 1, 9}, udpOp{"read", 0, 0}, udpOp{"write", 0, 7}))
	})
	c.Case(func() string { return "a blocked read and closing" }, func() {
		for known := 0; known < 2; known++ {
			u.blockedRead(c, known == 1, false)
		}
	})
	for known := 0; known < 2; known++ {
		c.Case(func() string { return fmt.Sprintf("a datagram after a long wait, peer known: %v", known == 1) }, func() {
			u.patientRead(c, known == 1)
		})
	}
}

// patientRead: a read waits for long, then there is a datagram.
func (u *udpWorld) patientRead(c *chk.C, known bool) {
	wait := 6 * time.Second
	if c.Thorough {
		wait = 100 * time.Second
	}
	u.drain()
	t := u.open()
	defer t.Close()
	if known {
		u.peers[1].c.WriteToUDP(u.datagram(1, 0, 20), u.dst)
		if _, err := t.Read(make([]byte, 100)); err != nil {
			chk.Failf("read: %v", err)
		}
	}
	type res struct {
		b   []byte
		err error
	}
	rd := make(chan res, 1)
	go func() {
		buf := make([]byte, 2000)
		n, err := t.Read(buf)
		rd <- res{buf[:max(n, 0)], err}
	}()
	from := 1
	if known {
		from = 2
	}
	b := u.datagram(from, 1, 33)
	select {
	case r := <-rd:
		chk.Failf("a read with no datagram to take gives %s, %v", hex(r.b), r.err)
	case <-time.After(wait):
	}
	u.peers[from].c.WriteToUDP(b, u.dst)
	select {
	case r := <-rd:
		if r.err != nil || !bytes.Equal(r.b, b) {
			chk.Failf("after waiting %v a read gives %s, %v; want the datagram %s", wait, hex(r.b), r.err, hex(b))
		}
	case <-time.After(10 * time.Second):
		chk.Failf("a read that waited %v does not take the datagram that then arrives", wait)
	}
	w := u.datagram(9, 2, 50)
	if n, err := t.Write(w); err != nil || n != len(w) {
		chk.Failf("after waiting %v a write gives %d, %v", wait, n, err)
	}
	if g, _ := u.peers[1].recv(true); !bytes.Equal(g, w) {
		chk.Failf("after waiting %v peer1 received %s, want %s", wait, hex(g), hex(w))
	}
	c.Trace()
}

// blockedRead: a read waits for a datagram; closing ends it, and meanwhile writes go through.
func (u *udpWorld) blockedRead(c *chk.C, known, write bool) {
	u.drain()
	t := u.open()
	buf := make([]byte, 2000)
	if known {
		u.peers[1].c.WriteToUDP(u.datagram(1, 0, 20), u.dst)
		if _, err := t.Read(buf); err != nil {
			chk.Failf("read: %v", err)
		}
	}
	type res struct {
		n   int
		err error
	}
	rd := make(chan res, 1)
	go func() { n, err := t.Read(buf); rd <- res{n, err} }()
	time.Sleep(30 * time.Millisecond)
	if write {
		wr := make(chan res, 1)
		b := u.datagram(9, 0, 50)
		go func() { n, err := t.Write(b); wr <- res{n, err} }()
		select {
		case r := <-wr:
			if known && r.err != nil {
				chk.Failf("while a read waits, a write gives %v", r.err)
			}
			if !known && !errors.Is(r.err, util.ErrNoAddress) {
				chk.Failf("while the first read waits, a write gives %v", r.err)
			}
		case <-time.After(10 * time.Second):
			chk.Failf("while a read waits, a write does not return")
		}
		if known {
			if g, _ := u.peers[1].recv(true); !bytes.Equal(g, b) {
				chk.Failf("while a read waits, a write sent %s", hex(g))
			}
		}
	}
	cl := make(chan error, 1)
	go func() { cl <- t.Close() }()
	select {
	case err := <-cl:
		if err != nil {
			chk.Failf("close gives %v", err)
		}
	case <-time.After(10 * time.Second):
		chk.Failf("while a read waits, close does not return")
	}
	select {
	case r := <-rd:
		if r.err == nil {
			chk.Failf("the read that was waiting gives %d bytes and no error", r.n)
		}
	case <-time.After(10 * time.Second):
		chk.Failf("a read that was waiting does not return after close")
	}
	c.Trace()
}

// ---- C25 ----

type udpThread struct {
	kind string // "R" reads, "W" writes, "C" closes
	n    int
}

type udpRes struct {
	start, end int
	kind       string
	b          []byte
	err        error
	n          int
}

func c25(c *chk.C) {
	u := newUDP(2)
	scns := [][]udpThread{
		{{"R", 1}, {"W", 1}},
		{{"R", 2}, {"W", 2}},
		{{"R", 1}, {"R", 1}, {"W", 1}},
		{{"R", 1}, {"W", 1}, {"W", 1}},
		{{"R", 1}, {"R", 1}, {"W", 2}},
		{{"R", 2}, {"W", 1}, {"C", 1}},
		{{"R", 1}, {"W", 2}, {"C", 1}},
		{{"W", 1}, {"W", 1}, {"C", 1}},
		{{"R", 1}, {"C", 1}, {"C", 1}},
		{{"R", 1}, {"R", 1}, {"W", 1}, {"W", 1}},
		{{"R", 1}, {"W", 1}, {"W", 1}, {"C", 1}},
		{{"R", 1}, {"R", 1}, {"W", 1}, {"C", 1}},
	}
	senders := [][]int{{0, 1, 0, 1}, {0, 0, 1, 1}}
	for _, sc := range scns {
		for _, snd := range senders {
			for pre := 0; pre < 2; pre++ {
				c.Case(func() string {
					return fmt.Sprintf("threads %v, datagrams from %v, %d read before", sc, snd, pre)
				}, func() {
					pb := 3
					if len(sc) > 3 {
						pb = 2
					}
					if c.Thorough {
						pb++
					}
					u.concurrent(c, sc, snd, pre, pb)
				})
			}
		}
	}
	c.Case(func() string { return "writes while a read waits" }, func() {
		for known := 0; known < 2; known++ {
			u.blockedRead(c, known == 1, true)
		}
	})
}

func (u *udpWorld) concurrent(c *chk.C, sc []udpThread, snd []int, pre, pb int) {
	var t *util.UDPReadWriteCloser
	var sent []udpQueued
	var results []*udpRes
	clock := 0
	cleanup := func() {
		if t != nil {
			t.Close()
			t = nil
		}
	}
	defer cleanup()
	start := func() func() {
		cleanup()
		u.drain()
		t = u.open()
		sent, results, clock = nil, nil, 0
		for i, who := range snd {
			b := u.datagram(who, i, 10+i)
			u.peers[who].c.WriteToUDP(b, u.dst)
			sent = append(sent, udpQueued{who, b})
		}
		record := func(kind string, f func(*udpRes)) {
			r := &udpRes{kind: kind, start: clock, end: -1}
			clock++
			results = append(results, r)
			f(r)
			r.end = clock
			clock++
		}
		tt := t
		read := func() {
			record("R", func(r *udpRes) {
				buf := make([]byte, 100)
				r.n, r.err = tt.Read(buf)
				if r.err == nil {
					r.b = buf[:r.n]
				}
			})
		}
		return func() {
			for i := 0; i < pre; i++ {
				read()
			}
			for ti, th := range sc {
				vsched.GoQuiet(fmt.Sprintf("%s%d", th.kind, ti), func() {
					for i := 0; i < th.n; i++ {
						switch th.kind {
						case "R":
							read()
						case "W":
							record("W", func(r *udpRes) {
								r.b = u.datagram(10+ti, i, 20+i)
								b := append([]byte(nil), r.b...)
								r.n, r.err = tt.Write(b)
							})
						case "C":
							record("C", func(r *udpRes) { r.err = tt.Close() })
						}
					}
				})
			}
		}
	}
	explore(c, vsched.Options{StmtPoints: true, SiteLimit: 8, RaceDetect: true}, vsched.Bounds{Preemptions: pb, Free: 2, Sel: -1, MaxExec: 60000}, start, func(r *vsched.Result) string {
		if len(r.Blocked) > 0 {
			return "deadlock: " + blocked(r)
		}
		closedAt, closeBegun, firstRead := 1<<30, 1<<30, 1<<30
		for _, x := range results {
			if x.kind == "C" {
				if x.end < closedAt {
					closedAt = x.end
				}
				if x.start < closeBegun {
					closeBegun = x.start
				}
			}
			if x.kind == "R" && x.err == nil && x.end < firstRead {
				firstRead = x.end
			}
		}
		// reads: each datagram at most once, none made up
		usedD := make([]bool, len(sent))
		candidates := map[int]bool{}
		nr := 0
		for _, x := range results {
			if x.kind != "R" {
				continue
			}
			if x.err != nil {
				if closeBegun > x.end {
					return fmt.Sprintf("a read fails with %v before the close", x.err)
				}
				continue
			}
			if x.start > closedAt {
				return "a read after the close succeeds"
			}
			ok := false
			for i, q := range sent {
				if !usedD[i] && bytes.Equal(q.b, x.b) {
					usedD[i], ok = true, true
					candidates[q.who] = true
					break
				}
			}
			if !ok {
				return fmt.Sprintf("a read gives %s, which was not sent or was read before", hex(x.b))
			}
			nr++
		}
		for i := 0; i < nr; i++ {
			if !usedD[i] {
				return fmt.Sprintf("datagram %d was skipped", i)
			}
		}
		if pre > 0 || sc[0].kind == "R" && (len(sc) < 2 || sc[1].kind != "R") {
			// one reader at a time: the sender of the first datagram
			candidates = map[int]bool{snd[0]: true}
		}
		// writes
		var want [][]byte
		for _, x := range results {
			if x.kind != "W" {
				continue
			}
			switch {
			case x.err == nil:
				if x.n != len(x.b) {
					return fmt.Sprintf("a write of %d bytes reports %d", len(x.b), x.n)
				}
				if x.start > closedAt {
					return "a write after the close succeeds"
				}
				want = append(want, x.b)
			case errors.Is(x.err, util.ErrNoAddress):
				if x.start > firstRead {
					return "a write after a completed read has no address"
				}
			default:
				if closeBegun > x.end {
					return fmt.Sprintf("a write fails with %v before the close", x.err)
				}
			}
		}
		got := map[string]int{}
		at := -1
		total := 0
		for k, p := range u.peers {
			for {
				g, _ := p.recv(at == k && total < len(want) || k == len(u.peers)-1 && total < len(want))
				if g == nil {
					break
				}
				if len(g) >= 4 && binary.LittleEndian.Uint32(g) != u.tag {
					continue // late datagram of an earlier execution
				}
				if at >= 0 && at != k {
					return "writes went to two peers"
				}
				if !candidates[k] {
					return fmt.Sprintf("a write went to peer%d, whose datagram was not the first read", k)
				}
				at = k
				got[string(g)]++
				total++
			}
		}
		for _, b := range want {
			if got[string(b)] != 1 {
				return fmt.Sprintf("a successful write was received %d times", got[string(b)])
			}
			delete(got, string(b))
		}
		for g := range got {
			return fmt.Sprintf("%s was sent, though no write of it succeeded", hex([]byte(g)))
		}
		return ""
	})
}
