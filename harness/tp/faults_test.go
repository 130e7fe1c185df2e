//go:build go1.21

package tp

import (
	"math/rand"
	"sync"
	"time"

	"verif/harness/core"
	"verif/harness/fakekafka"
)

// faults draws a bounded number of broker misbehaviours.
func faults(c *core.C, R *rand.Rand, produce, fetch int) *fakekafka.Hooks {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(R.Int63()))
	slow := r.Intn(3) == 0
	short := r.Intn(3) == 0
	return &fakekafka.Hooks{
		Produce: func(topic string, part int32) fakekafka.Action {
			mu.Lock()
			defer mu.Unlock()
			var a fakekafka.Action
			if r.Intn(4) == 0 {
				a.Delay = time.Duration(r.Intn(15)) * time.Millisecond
			}
			if produce > 0 && r.Intn(6) == 0 {
				produce--
				switch r.Intn(4) {
				case 0:
					a.DropBefore = true
					c.Count("faults_lost_request", 1)
				case 1:
					a.DropAfter = true
					c.Count("faults_lost_answer", 1)
				case 2:
					a.Err = 6 // not leader
					c.Count("faults_not_leader", 1)
				default:
					a.Err = 7 // request timed out
					c.Count("faults_timed_out", 1)
				}
			}
			return a
		},
		Fetch: func(topic string, part int32) fakekafka.Action {
			mu.Lock()
			defer mu.Unlock()
			var a fakekafka.Action
			if slow {
				a.Delay = time.Duration(r.Intn(10)) * time.Millisecond
			}
			if short {
				a.Batches = 1 + r.Intn(4)
			}
			if fetch > 0 && r.Intn(8) == 0 {
				fetch--
				a.DropBefore = true
				c.Count("faults_fetch_dropped", 1)
			}
			return a
		},
	}
}
