package concdrv

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/vsched"
)

var cfg Config

func TestMain(m *testing.M) {
	flag.StringVar(&cfg.Sys, "sys", "rwmap", "")
	flag.StringVar(&cfg.Prop, "prop", "", "")
	flag.StringVar(&cfg.Out, "out", "", "")
	flag.Int64Var(&cfg.Seed, "seed", 1, "")
	flag.IntVar(&cfg.Part, "part", 0, "")
	flag.IntVar(&cfg.N, "parts", 1, "")
	flag.DurationVar(&cfg.Budget, "budget", 10*time.Second, "")
	flag.IntVar(&cfg.Bound, "bound", 2, "")
	flag.IntVar(&cfg.MaxDFS, "maxdfs", 3000, "")
	flag.IntVar(&cfg.RndRuns, "rndruns", 60, "")
	flag.IntVar(&cfg.Cap, "cap", 0, "")
	flag.BoolVar(&cfg.NoSys, "nosys", false, "")
	flag.StringVar(&cfg.Scen, "scen", "", "")
	flag.Parse()
	os.Exit(m.Run())
}

func TestDrive(t *testing.T) {
	// wall clock and watchdog live outside the bubble
	var wallNs, tick atomic.Int64
	start := time.Now()
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(20 * time.Millisecond)
			wallNs.Store(int64(time.Since(start)))
			if x := tick.Load(); x != last {
				last, since = x, time.Now()
			} else if time.Since(since) > 30*time.Second {
				b, _ := json.Marshal(rec{nil, append(append([]Ev(nil), evs...), Ev{"hang", 0, "", []int{}, []int{}}), 1, nil})
				os.WriteFile(cfg.Out+".hang", append(b, '\n'), 0o644)
				fmt.Println(`{"hang":true}`)
				os.Exit(10)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		wall := func() time.Duration { tick.Add(1); return time.Duration(wallNs.Load()) }
		vsched.OnProgress = func() { tick.Add(1) }
		st := Drive(New(cfg), cfg, wall, func() { fmt.Println(`{"stuck":true}`); os.Exit(10) })
		b, _ := json.Marshal(st)
		fmt.Println(string(b))
		os.Exit(0)
	})
}
