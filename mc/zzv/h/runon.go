//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/utils"
	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C32 ----

// tickAfter returns the first multiple of period after t; multiples count from the zero time (year 1).
func tickAfter(t int64, period time.Duration) int64 {
	const zero = 62135596800
	b := new(big.Int).Mul(big.NewInt(zero), big.NewInt(1e9))
	b.Add(b, big.NewInt(t))
	m := new(big.Int).Mod(b, big.NewInt(int64(period)))
	return t + int64(period) - m.Int64()
}

// runOn: one job, every start offset and every sequence of n run durations.
func runOn(periods []time.Duration, n, times int) func() {
	return func() {
		setup(nil)
		p := periods[vs.Choose(len(periods))]
		// start offset: on a tick, just after, in the middle, just before the next
		t0 := tickAfter(vs.Now(), p)
		t0 += []int64{0, 1, int64(p / 2), int64(p) - 1}[vs.Choose(4)]
		vs.AdvanceTo(t0)
		durs := []time.Duration{0, 1, p / 3, p - 1, p, p + 1, p*2 + p/2, 3 * p}
		type run struct{ start, end int64 }
		var runs []run
		var left []time.Duration
		over := false
		for i := 0; i < n; i++ {
			left = append(left, durs[vs.Choose(len(durs))])
		}
		all := fmt.Sprint(left)
		for i, c := 1, left; i < times; i++ {
			left = append(left, c...)
		}
		task := vs.GoNamed("runon", func() {
			utils.RunOn(p, func() {
				s := vs.Now()
				if over {
					vs.Fail("the job ran concurrently with itself")
				}
				over = true
				if len(left) > 0 {
					d := left[0]
					left = left[1:]
					vs.Sleep(int64(d))
				}
				over = false
				runs = append(runs, run{s, vs.Now()})
			})
		})
		vs.WaitIdle()
		var total time.Duration
		for _, d := range left {
			total += d
		}
		end := t0 + int64(total) + int64(len(left)+4)*int64(p)
		vs.AdvanceTo(end)
		vs.WaitIdle()
		if task.Done() {
			vs.Fail("the periodic job stopped")
			return
		}
		tick := tickAfter(t0, p)
		free := t0
		for i, r := range runs {
			want := tick
			if free > want {
				want = free
			}
			if r.start != want {
				vs.Fail("period %v started %v after a tick, durations %v: run %d starts %v after the start of the job, expected %v", p, time.Duration(t0+int64(p)-tick), all, i, time.Duration(r.start-t0), time.Duration(want-t0))
				return
			}
			free = r.end
			tick += int64(p)
		}
		if tick <= end {
			vs.Fail("period %v, durations %v: %d runs until %v after the start, the next was due %v", p, all, len(runs), time.Duration(end-t0), time.Duration(tick-t0))
			return
		}
		vs.Observe(fmt.Sprint(p, t0, all, len(runs)))
		Note("period %v, durations %v: %d runs", p, all, len(runs))
	}
}

// dbJobs: the sweeps and backups of the database happen at the ticks of their periods and at no other time.
func dbJobs() {
	per := []time.Duration{0, 10 * time.Minute, 7 * time.Minute}
	trim, freq := per[vs.Choose(3)], per[vs.Choose(3)]
	expiry := []time.Duration{0, 4 * time.Minute, 25 * time.Minute}[vs.Choose(3)]
	step := []time.Duration{time.Minute, 5 * time.Minute}[vs.Choose(2)]
	setup(func(c *config.Configuration) {
		c.DB.Trim, c.DB.Backup.Frequency, c.DB.Expiry = trim, freq, expiry
		c.DB.Backup.Type = "file"
	})
	t0 := vs.Now()
	db := openDB()
	vs.WaitIdle()
	m := model{}
	h := hashN(0)
	nextTrim, nextSave := int64(1)<<62, int64(1)<<62
	if trim > 0 {
		nextTrim = tickAfter(t0, trim)
	}
	if freq > 0 {
		nextSave = tickAfter(t0, freq)
	}
	marker := []byte("seen") // replaced by every backup
	vfs.Put(backupPath, marker)
	for i := 0; i < 30; i++ {
		if i%4 == 0 && i < 20 {
			p := mpeer{ip4(1), 81, i%8 == 0, nowSec()}
			db.Save(p.IP, p.Port, p.Complete, h, idN(i))
			m.save(h, idN(i), p)
		}
		to := vs.Now() + int64(step)
		saved := false
		for nextTrim <= to || nextSave <= to {
			if nextTrim <= nextSave {
				m.trim(nextTrim/1e9, int64(expiry/time.Second))
				nextTrim += int64(trim)
			} else {
				saved = true
				nextSave += int64(freq)
			}
		}
		vs.AdvanceTo(to)
		vs.WaitIdle()
		if g, w := digest(db, h), m.digest(h); g != w {
			vs.Fail("trim every %v, expiry %v, %v after the start the database holds %s, expected %s", trim, expiry, time.Duration(to-t0), g, w)
			return
		}
		if now, _ := vfs.Get(backupPath); saved != (string(now) != string(marker)) {
			vs.Fail("backup every %v, %v after the start: backup written %v, expected %v", freq, time.Duration(to-t0), !saved, saved)
			return
		}
		vfs.Put(backupPath, marker)
	}
	vs.Observe(fmt.Sprint(trim, freq, expiry, step))
	Note("trim %v backup %v expiry %v", trim, freq, expiry)
}

func init() {
	seq := vs.Budget{MaxSteps: 400_000, FreeSw: -1}
	register(&Check{ID: "C32", Configs: func(d bool) []Config {
		ps := []time.Duration{time.Second, 7 * time.Second, 10 * time.Minute, 90 * time.Minute, time.Millisecond}
		if d {
			ps = append(ps, 24*time.Hour, 7*24*time.Hour, 13*time.Nanosecond, 100*time.Millisecond)
		}
		n := seqDepth(4, 6)
		return []Config{
			{Name: "run durations", Run: runOn(ps, n, 1), B: seq, Bound: fmt.Sprintf("%d periods, 4 start offsets, all sequences of %d of 8 durations", len(ps), n)},
			{Name: "many ticks", Run: runOn(ps, 2, 200), B: vs.Budget{MaxSteps: 10_000_000, FreeSw: -1}, Bound: "400 runs, every pair of 8 durations repeated"},
			{Name: "sweeps and backups", Run: dbJobs, B: seq, Bound: "3 x 3 periods, 3 expiries, 2 observation steps, 30 steps"},
		}
	}})
}
