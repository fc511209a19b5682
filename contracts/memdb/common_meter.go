package memdb

import "github.com/unit-io/unitdb/metrics"

// vcCount is a counter that counts nothing: statistics are no part of a contract.
type vcCount struct{}

func (vcCount) Reset()                    {}
func (vcCount) Count() int64              { return 0 }
func (vcCount) Dec(int64)                 {}
func (vcCount) Inc(int64)                 {}
func (vcCount) Snapshot() metrics.Counter { return vcCount{} }

func vcMeter() *Meter {
	c := vcCount{}
	return &Meter{Gets: c, Puts: c, Syncs: c, Recovers: c, Dels: c}
}
