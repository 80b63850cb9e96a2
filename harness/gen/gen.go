// Package gen has generators that harnesses use in place of real ones.
package gen

import (
	"sync/atomic"

	"github.com/square/finch/data"
)

// Count returns 1, 2, 3, ... and remembers the run count of its last call.
type Count struct {
	N      int64
	Last   data.RunCount
	Copies int
	From   *Count
	Width  int
	Id     string
}

func (g *Count) Format() (uint, string) {
	if g.Width > 1 {
		return uint(g.Width), "%d"
	}
	return 1, "%d"
}
func (g *Count) Copy() data.Generator {
	g.Copies++
	return &Count{From: g, Width: g.Width, Id: g.Id}
}
func (g *Count) Values(rc data.RunCount) []interface{} {
	g.N++
	g.Last = rc
	v := []interface{}{g.N}
	for i := 1; i < g.Width; i++ {
		v = append(v, g.N)
	}
	return v
}
func (g *Count) Scan(any interface{}) error { return nil }
func (g *Count) Name() string               { return "count" }

// Atomic returns 1, 2, 3, ... to concurrent callers.
type Atomic struct{ N int64 }

func (g *Atomic) Format() (uint, string) { return 1, "%d" }
func (g *Atomic) Copy() data.Generator   { return &Atomic{} }
func (g *Atomic) Values(rc data.RunCount) []interface{} {
	return []interface{}{atomic.AddInt64(&g.N, 1)}
}
func (g *Atomic) Scan(any interface{}) error { return nil }
func (g *Atomic) Name() string               { return "atomic" }
