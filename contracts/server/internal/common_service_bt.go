package internal

import (
	"context"
	"sync"
	"time"

	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/stats"
	"github.com/unit-io/unitdb/server/internal/store"
)

// vcService is a service on a store in a directory of its own.
func vcService(v *vcT) *_Service {
	ctx, cancel := context.WithCancel(context.Background())
	s := &_Service{cache: new(sync.Map), context: ctx, cancel: cancel, start: time.Now(), meter: NewMeter(),
		stats: stats.New(&stats.Config{Addr: "localhost:8094", Size: 50}, stats.MaxPacketSize(1400), stats.MetricPrefix("trace"))}
	Globals.connCache = NewConnCache()
	Globals.Service = s
	var err error
	if s.mac, err = crypto.New([]byte("4BWm1vZletvrCDGWsF6mex8oBSd59m6I")); err != nil {
		v.failf("mac: %v", err)
	}
	conf := `{"reset": true, "adapters": {"unitdb": {"database": "unitdb", "mem_size": 500}}}`
	if err := store.Open(v.dir, conf, true); err != nil {
		v.failf("store: %v", err)
	}
	return s
}
