//go:build go1.22

package main

import (
	"fmt"

	"github.com/crimist/trakx/zzv/vs"
)

// C34: the histories and interleavings of other properties, on the build with the fast tag.
func init() {
	register(&Check{ID: "C34", Secs: [2]int{90, 600}, Configs: func(d bool) []Config {
		seq := vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}
		hist := func(name string, alpha func() []op, n, what int) Config {
			return Config{Name: name, Run: history(alpha, n, what, fileBackup), B: seq, Bound: fmt.Sprintf("all sequences of %d operations", n)}
		}
		p := 2
		if d {
			p = 4
		}
		n := seqDepth(3, 4)
		return []Config{
			hist("histories", alphaBackup, seqDepth(3, 5), wMembers|wCounts|wLists),
			hist("histories with time", alphaTimeBackup, seqDepth(5, 6), wMembers|wCounts|wSweep),
			{Name: "announced again", Run: again(wMembers|wCounts|wSweep, true), B: seq, Bound: againBound + ", restarts between"},
			{Name: "saved contents", Run: contents, B: seq, Bound: "0..3 peers, 7 addresses, 3 ports, restart, ageing, second restart"},
			{Name: "postgres rows", Run: pgRows, B: seq, Bound: "0..3 rows of 5 contents, 5 ages, late rows"},
			{Name: "pairs of operations", Run: threadsChoice(1, 1), B: vs.Budget{Preempt: p, NoAtomic: true, Release: true}, Bound: "2 threads of 1 operation, every pair of 9 operations from 5 states"},
			{Name: "threads of 2 and 1 operations", Run: threadsChoice(2, 1), B: vs.Budget{Preempt: p - 1, NoAtomic: true}},
			{Name: "HTTP announces", Run: announceForms, B: seq, Bound: "events, left, compact, no_peer_id, numwant, family, 12 swarms"},
			{Name: "HTTP announces of known peers", Run: httpPrior, B: seq, Bound: priorBound},
			{Name: "UDP announces of known peers", Run: udpPrior, B: seq, Bound: priorBound},
			{Name: "HTTP histories", Run: announceSeq(n), B: seq, Bound: fmt.Sprintf("all sequences of %d of 10 requests", n)},
			{Name: "HTTP scrapes", Run: scrapeSwarms, B: seq},
			{Name: "UDP announces", Run: announces(false), B: seq, Bound: "8 events, 6 values left, 11 numwants, 5 ports, 3 address forms, 7 swarms"},
			{Name: "UDP sequences", Run: udpSeq(n, false), B: seq, Bound: fmt.Sprintf("all sequences of %d datagrams of 11 kinds by 2 clients, 1 or 2 threads", n)},
			{Name: "UDP datagrams sent again", Run: udpSeq(n, true), B: seq, Bound: fmt.Sprintf("all sequences of %d datagrams, all of a kind the same", n)},
			{Name: "UDP scrapes", Run: scrapes, B: seq, Bound: "0..74 torrents in 4 orders"},
			{Name: "pairs of requests", Run: concurrent(2, []int{0, 1, 2, 3}, true, false), B: vs.Budget{MaxSteps: 200_000, Preempt: 1, FreeSw: 1}},
			{Name: "whole tracker", Run: wholeStart(fileBackup, 2), B: seq, Bound: "12 contents, with and without jobs, 2 starts and stops of tracker.Run"},
		}
	}})
}
