// Package sched is what instrumented copies of the code under test call: every iteration over a map asks in which order,
// and every statement that touches package-level variables lets other threads run.
package sched

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
)

// Hook decides for one goroutine.
type Hook interface {
	Order(n int) []int // permutation of n sorted keys, nil: sorted
	Yield()
}

var (
	hooks  sync.Map
	active atomic.Int32
	// Sites counts calls, to see whether the running binary is instrumented.
	Sites atomic.Int64
)

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	n, _ := strconv.ParseInt(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	return n
}

// With runs f with h deciding for this goroutine.
func With(h Hook, f func()) {
	id := goid()
	hooks.Store(id, h)
	active.Add(1)
	defer func() {
		active.Add(-1)
		hooks.Delete(id)
	}()
	f()
}

func hook() Hook {
	if active.Load() == 0 {
		return nil
	}
	if h, ok := hooks.Load(goid()); ok {
		return h.(Hook)
	}
	return nil
}

// Yield is a scheduling point.
func Yield() {
	Sites.Add(1)
	if h := hook(); h != nil {
		h.Yield()
	}
}

// Order iterates over a map in the order the hook chooses.
func Order[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		Sites.Add(1)
		h := hook()
		if h == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			names := make(map[K]string, len(keys))
			for _, k := range keys {
				names[k] = fmt.Sprintf("%020v", k)
			}
			sort.Slice(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
			if p := h.Order(len(keys)); p != nil {
				o := make([]K, len(keys))
				for i, j := range p {
					o[i] = keys[j]
				}
				keys = o
			}
		}
		for _, k := range keys {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}
