// Package racedrv runs the unmodified containers freely on many goroutines, for the race detector: the controlled
// schedules switch threads only at synchronisation operations, which is complete only if there are no data races.
package racedrv

import (
	"context"
	"errors"
	"flag"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
)

var (
	sys    = flag.String("sys", "rwmap", "")
	seed   = flag.Int64("seed", 1, "")
	rounds = flag.Int("rounds", 50, "")
)

func TestMain(m *testing.M) {
	flag.Parse()
	os.Exit(m.Run())
}

const workers = 4

// storm runs f(g, i, r) for i < n on several goroutines g that share nothing but what f touches.
func storm(round int64, n int, f func(g, i int, r *rand.Rand)) {
	var w sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < workers; g++ {
		w.Add(1)
		r := rand.New(rand.NewSource(*seed*7919 + round*31 + int64(g)))
		go func() {
			defer w.Done()
			<-start
			for i := 0; i < n; i++ {
				f(g, i, r)
			}
		}()
	}
	close(start)
	w.Wait()
}

func TestRace(t *testing.T) {
	switch *sys {
	case "rwmap":
		for i := 0; i < *rounds; i++ {
			stormMap(int64(i), &rwmap.RWMap[int, int]{}, func(n int) int { return n })
			stormMap(int64(i), &rwmap.RWMap[string, *int]{}, func(n int) *int { return &n })
		}
	case "synccache":
		synctest.Test(t, func(t *testing.T) {
			for i := 0; i < *rounds; i++ {
				stormCache(int64(i))
			}
			os.Exit(0)
		})
	case "refreshcache":
		for i := 0; i < *rounds; i++ {
			stormRefresh(int64(i))
		}
	}
}

func key[K comparable](n int) (k K) {
	switch p := any(&k).(type) {
	case *int:
		*p = n
	case *string:
		*p = string(rune('a' + n))
	}
	return
}

func stormMap[K, V comparable](round int64, m *rwmap.RWMap[K, V], mk func(int) V) {
	vals := make([]V, 4)
	for i := range vals {
		vals[i] = mk(i)
	}
	clear := round%3 != 0
	storm(round, 500, func(g, i int, r *rand.Rand) {
		k := key[K](r.Intn(4))
		v, o := vals[r.Intn(4)], vals[r.Intn(4)]
		switch r.Intn(14) {
		case 0, 1:
			m.Load(k)
		case 2, 3:
			m.Store(k, v)
		case 4:
			m.LoadOrStore(k, v)
		case 5:
			m.LoadAndDelete(k)
		case 6:
			m.Delete(k)
		case 7:
			m.Swap(k, v)
		case 8:
			m.CompareAndSwap(k, o, v)
		case 9:
			m.CompareAndDelete(k, o)
		case 10:
			m.Range(func(K, V) bool { return r.Intn(5) > 0 })
		case 11:
			m.Len()
			m.SlowLen()
		case 12:
			if clear {
				m.Clear()
			}
		default:
			m.Load(k)
			m.Load(key[K](9))
		}
	})
}

func stormCache(round int64) {
	var opt []synccache.SyncCacheConfig[int, int]
	if round%2 == 0 {
		opt = append(opt, synccache.WithDeletedCallback[int](func(int) {}))
	}
	c := synccache.NewSyncCache[int, int](time.Second, opt...)
	storm(round, 400, func(g, i int, r *rand.Rand) {
		k := r.Intn(3)
		d := []time.Duration{-time.Second, time.Millisecond, 5 * time.Second, time.Hour}[r.Intn(4)]
		switch r.Intn(13) {
		case 0, 1, 2:
			if e, ok := c.Load(k); ok {
				e.Value()
				switch r.Intn(4) {
				case 0:
					e.AddExpiration(d)
				case 1:
					e.SetExpiration(time.Now().Add(d))
				case 2:
					e.IsExpired()
				}
			}
		case 3, 4:
			c.Store(k, i, d)
		case 5, 6:
			c.LoadOrStore(k, i, d)
		case 7:
			c.LoadAndDelete(k)
		case 8:
			c.Delete(k)
		case 9:
			c.CompareValueAndDelete(k, i-1)
		case 10:
			c.Range(func(_ int, e *synccache.Entry[int]) bool { c.CompareAndDelete(k, e); return true })
		case 11:
			if r.Intn(4) == 0 {
				c.Clear()
			}
		case 12:
			switch r.Intn(3) {
			case 0:
				c.Close()
			default:
				c.Start()
			}
		}
		if i%20 == 19 { // all wake up together with the trimmer
			time.Sleep(5*time.Second - time.Duration(time.Now().UnixNano())%(5*time.Second))
		}
	})
	c.Close()
}

var errX = errors.New("x")

func outcome(i int) (int, error) {
	if i%5 == 0 {
		return 0, errX
	}
	return i, nil
}

func stormRefresh(round int64) {
	ctx := context.Background()
	age := []time.Duration{time.Microsecond, 0, -1, 20 * time.Microsecond}[round%4]
	eage := []time.Duration{0, time.Microsecond, 30 * time.Microsecond}[round%3]
	var n0, n1, n2 int // guarded by the refresh exclusion itself
	f0 := func(context.Context) (int, error) { n0++; return outcome(n0) }
	f1 := func(context.Context, int) (int, error) { n1++; return outcome(n1) }
	f2 := func(context.Context, ...int) (int, error) { n2++; return outcome(n2) }
	c0 := refreshcache0.NewRefreshCache(f0, age, refreshcache0.WithErrAge[int](eage))
	c1 := refreshcache1.NewRefreshCache(f1, age, refreshcache1.WithErrAge[int, int](eage))
	c2 := refreshcache.NewRefreshCache(f2, age, refreshcache.WithErrAge[int, int](eage))
	storm(round, 300, func(g, i int, r *rand.Rand) {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			c0.Get(ctx)
			c1.Get(ctx, i)
			c2.Get(ctx, i)
		case 4:
			c0.Refresh(ctx)
			c1.Refresh(ctx, i)
			c2.Refresh(ctx, i)
		case 5, 6:
			c0.Clear(ctx)
			c1.Clear(ctx, i)
			c2.Clear(ctx, i)
		case 7:
			c0.Raw()
			c1.Raw()
			c2.Raw()
		case 8:
			c0.Last()
			c1.LastErr()
			c2.LastTime()
			c1.LastErrTime()
			c0.MaxAge()
			c1.MaxErrAge()
		case 9:
			if r.Intn(2) == 0 {
				c0.SetRefreshFunc(f0)
				c1.SetRefreshFunc(f1)
				c2.SetRefreshFunc(f2)
			} else {
				c0.SetClearFunc(func(context.Context) error { return nil })
				c1.SetClearFunc(func(context.Context, int) error { return nil })
				c2.SetClearFunc(nil)
				c0.GetClearFunc()
				c1.GetRefreshFunc()
			}
		}
	})
}
