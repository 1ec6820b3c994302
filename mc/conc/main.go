// Command conc checks the stream and transport properties by running the instrumented
// implementation under the cooperative scheduler.
package main

import "verifmc/chk"

var stream = []string{"memory between synchronisation operations is sequentially consistent (races are looked for separately)", "the transport obeys io.ReadWriteCloser; blocked calls return once it is closed"}
var udp = []string{"loopback UDP delivers datagrams in order and without loss while the receive buffer has room"}

// twice names the checks whose deep bounds may take longer than there is time.
var twice = map[string]bool{"C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true, "C18": true, "C27": true, "C30": true, "C33": true}

func main() {
	checks := []*chk.Check{
		{ID: "C08", Run: c08, Bounds: "every sequence of up to 3 (4 thorough) of 21 segments (valid frames of both versions, signed, longest, truncated; damaged checksum, payload or signature, unknown id, too short, too long, frames nested in damaged and in valid frames, half frames, lone start bytes, junk), and of 4..5 of the 8 that interact, with the input ending or staying open; every string of up to 11 (13 thorough) bytes over {fe,fd,00,01} under a dialect with valid frames in that alphabet; every 2 byte prefix before frames; every incompatibility flag byte; every payload length x version x signed x damaged; every value of every header byte; every message of every dialect; 24-bit ids at every bit; every length x flags as a false header before a frame; a frame behind every run of junk of up to 2^17 bytes (2^20 thorough) in steps of 128, and behind 2^20 bytes of 7 kinds of junk; invalid frames of 13000 (65536 thorough) senders; runs of 66136 frames through one stream; both directions of one stream in turn: every sequence of up to 3 (4 thorough) steps of receiving, sending and forwarding the same few frames, and runs of 3000 (66136 thorough)", Assumptions: stream},
		{ID: "C09", Run: c09, Bounds: "every composition into reads of 6 short streams of 12..19 bytes; every stream of 2 segments cut into three reads at every pair of positions and with empty reads and end of file with data at every position; every stream of up to 2 (3 thorough) segments at 10 fixed read sizes; 12 kB (60 kB) streams of 5 cycles x 3 phases at every read size to 300 and around the buffers' sizes; every segment cut in two at every position after 13 numbers of earlier frames; schedules of reader and consumer with 1 (2) preemptions; every cut of three segments at 10 sizes, runs of 40 empty reads, runs of 66136 frames through one stream; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C10", Run: c10, Bounds: "every sequence of up to 3 (4 thorough) of 21 segments, with and without invalid frames, read sizes all/1/50: every delivered frame re-read after every later delivery and after closing, and overwritten, appended to and re-read while later frames must not change; every payload length; all schedules of reader, consumer that overwrites, logger and closer with 1 (2) preemptions; four and five segments of those that interact, runs of 66136 frames through one stream; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C11", Run: c11, Bounds: "every sequence of up to 3 (4 thorough) of 21 segments and every string of up to 10 (12) bytes over {fe,fd,00,01}, with and without the option, against the reference scan; every payload length x version x signed x damaged; every value of every header byte, every message, the senders of C08; 2^16 bytes of 7 kinds of junk; runs of 66136 frames through one stream; both directions of one stream in turn: every sequence of up to 3 (4 thorough) steps of receiving, sending and forwarding the same few frames, and runs of 3000 (66136 thorough)", Assumptions: stream},
		{ID: "C12", Run: c12, Bounds: "every stream of up to 2 (3 thorough) of 21 segments failing after every byte with 19 kinds of failure (with and without data), read sizes all/1/7; writes failing after 0..3 good ones with 5 amounts taken x 19 kinds x idle or busy reads, all schedules with 1 (2) preemptions; four and five segments of those that interact, a failure after 66136 frames and writes; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C13", Run: c13, Bounds: "sequential: every payload length x version x flags, every value of every header byte, every sequence of up to 3 (4) segments sent, 3000 frames in a row, a write failing at each position with each of 19 errors after each number of bytes; concurrent: producers x channel capacity x write outcomes x closing by user, context, channel, end of file, logger: all schedules with 1 (2) preemptions, 1 (2) deviations at blocking points and 1 (2) at selects; frames of types the library does not know, runs of 66136 frames through one stream; both directions of one stream in turn: every sequence of up to 3 (4 thorough) steps of receiving, sending and forwarding the same few frames, and runs of 3000 (66136 thorough); schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C14", Run: c14, Bounds: "sequential: every sequence of up to 2 (3) segments read, every payload length and header byte written and read, a failure at each write with each of 19 errors after each number of bytes, loggers absent, working and failing; concurrent: readers, consumers that stop, writers that fail or block, closers: all schedules with 1 (2) preemptions, 2 (3) free deviations, 1 (2) at selects; also 66136 frames in a run; both directions of one stream in turn: every sequence of up to 3 (4 thorough) steps of receiving, sending and forwarding the same few frames, and runs of 3000 (66136 thorough); schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C15", Run: c15, Bounds: "1279 scenarios (loops x transport scripts x consumers x producers x write outcomes x 15 ways of closing and their combinations, a context of the user's own included): all schedules with 1 (2 thorough) preemptions, 2 (3) deviations at blocking points, 1 (2) at selects; scenarios with unsynchronised accesses again at statement granularity; closing from inside the transport and from inside the logger, loops started again once they have returned, closing anywhere in exchanges of 18 frames with 1 deviation at blocking points; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C16", Run: c16, Bounds: "the scenarios of C15 with threads that watch the close error: all schedules with 1 (2 thorough) preemptions, 1 (2) deviations at blocking points, 1 (2) at selects; scenarios with unsynchronised accesses again at statement granularity; closing from inside the transport and from inside the logger, loops started again once they have returned, closing anywhere in exchanges of 18 frames with 1 deviation at blocking points; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C17", Run: c17, Bounds: "1279 scenarios as in C15, run until nothing can move: all schedules with 1 (2 thorough) preemptions, 2 (3) deviations at blocking points, 1 (2) at selects; closing from inside the transport and from inside the logger, loops started again once they have returned, closing anywhere in exchanges of 18 frames with 1 deviation at blocking points; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C18", Run: c18, Bounds: "the scenarios of C15 with watchers and a logger, pairs of streams of 7 kinds made and used side by side, all accessors from several threads: all schedules with 1 (2 thorough) preemptions, happens-before race detection on every instrumented access; every ordered pair of them; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C23", Run: c23, Bounds: "all 329 messages x versions: 7 pairings of packing and validating+decoding with itself and the next message, same frame and different frames; three threads with unknown and invalid frames, checksums and frames from bytes: all schedules at statement granularity (2 visits per statement) with 1 preemption (2 thorough, one visit per statement, to 6000 schedules per pairing), race detection, results compared with the reference", Assumptions: nil},
		{ID: "C24", Run: c24, Bounds: "every sequence of up to 7 (9 thorough) operations over {datagram from peer 0, from peer 1, read, write, close}; 7 sizes^3 of datagrams and writes (0..65507); every order of up to 4 datagrams from 3 senders x number of reads before the first write; 400 alternations; a datagram after a wait of 6 s (100 s); a read blocked across writes and close; 1000 (70000 thorough) datagrams of others only and writes only", Assumptions: udp},
		{ID: "C25", Run: c25, Bounds: "12 thread configurations (1..2 readers, writers, closers) x 2 datagram orders x peer known or not: all schedules at statement granularity with 3 (4 thorough) preemptions, 2 (3) with four threads, race detection, on loopback sockets", Assumptions: udp},
		{ID: "C29", Run: c29, Bounds: "every sequence of up to 4 (5 thorough) steps over 9 (datagrams of valid, signed, damaged, half, junk, several and no frames from two peers, frames sent), with and without invalid frames; datagrams filled with frames of every payload length up to 512..1472 bytes; 600 (20000) datagrams with sends in between; concurrent: 2 lists of datagrams x sends x when they start x {stays, close, two closes, cancel, channel closed}: all schedules with 1 (2) preemptions, 1 (2) free deviations, 1 (2) at selects, on loopback sockets; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: udp},
		{ID: "C30", Run: c30, Bounds: "every sequence of up to 3 (4 thorough) of 21 segments passed on to two streams, with and without invalid frames; 1000 (30000) frames both ways and to two; 3 sources x 7 destinations (open, with log, sending back, failing, closed, at end, blocked) x one or two destinations x channel capacity x invalid frames: all schedules with 1 (2) preemptions and 1 (2) free deviations; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C31", Run: c31, Bounds: "every sequence of up to 5 (6 thorough) of 10 frames whose version, id, system, component, sequence and payload agree or differ; every two segments twice; every system x component twice, also all in one stream; every value of each id byte twice; 5000 (70000) frames of two kinds; pairs of streams", Assumptions: stream},
		{ID: "C33", Run: c33, Bounds: "2 frames each way, each arriving, sent, written and taken after 0, 1, 2 or never of those of the other direction, and 3 each way after 0..3 (4 each way thorough), channel capacity 0 and 1, with and without logger: frames arriving whole or in halves: every combination in one schedule, those of 2 frames in all schedules with 1 (2 thorough) preemptions; replies sent by the goroutine that takes the frames; up to 3 takers x 3 senders x writes that never complete x a goroutine asking the stream: all schedules with 1 (2) preemptions and 1 (2) free deviations; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C34", Run: c34, Bounds: "endless repetitions of every sequence of up to 2 (3 thorough) of 21 segments x 0, 1, 2 or 7 frames taken x 2 read sizes x invalid frames x logger; 3000 (70000) frames each way counting goroutines; writes blocking at position 0..3 x channel capacity 0..4 x 1 or 2 senders of 30 frames, all schedules with 1 (2) preemptions; neither loop, only the read loop, only the write loop x capacity x logger x closing: all schedules with 1 (2) preemptions; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
		{ID: "C27", Run: c27, Bounds: "two streams joined by a pipe: 4 message lists x replies x 5 ways of cutting reads (one chosen by the scheduler) x pipe capacity x channel capacity x {stays, closes, closes its channel, is cancelled}: all schedules of 8 threads with 1 (2 thorough) preemptions, 1 (2) free deviations, 1 (2) at selects and cuts; every message of every dialect in both versions through one connection at 9 (300) read sizes; every sequence of up to 4 (6) of 7 messages that differ in one header value or not at all; 1000 mostly equal messages each way, 66136 one way; schedules: every one, without bounds, where partial-order reduction needs at most 2000 (50000 thorough) executions for that, otherwise those within the bounds named", Assumptions: stream},
	}
	for _, ck := range checks {
		run := ck.Run
		ck.Run = func(c *chk.C) {
			passTime(c)
			if c.Thorough && twice[ck.ID] {
				// should the time not suffice for the deep bounds, everything is at least
				// explored within the quick ones
				c.Thorough = false
				run(c)
				c.Thorough = true
			}
			run(c)
		}
	}
	chk.Main(checks)
}
