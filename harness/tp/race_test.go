//go:build go1.21

package tp

import "verif/harness/core"

// Built with the race detector, the suites of the other properties are run
// again: what is looked for is unsynchronised access within the transports.
func init() {
	registry["C18"] = func(r *core.Run) {
		// first those that look at all that runs in the process
		r.Cases("close-kafka", r.Pick(96, 2400), c25kafka)
		r.Cases("close-ws", r.Pick(96, 2400), c25ws)
		r.Cases("kafka", r.Pick(48, 2400), c13kafka)
		r.Cases("restart", r.Pick(48, 2400), c14restart)
		r.Cases("ws-live", r.Pick(96, 4800), c15live)
		r.Cases("ws-proxy", r.Pick(48, 2400), c16proxy)
		r.Cases("ws-script", r.Pick(96, 4800), c16script)
		r.Cases("ws-junk", r.Pick(48, 2400), c19ws)
		r.Cases("pings", r.Pick(24, 480), c20)
		r.Cases("dedupe", r.Pick(48, 1200), c21)
		r.Cases("marker-kafka", r.Pick(24, 1200), c23kafka)
		r.Cases("marker-ws", r.Pick(48, 2400), c23ws)
		r.Cases("ready", r.Pick(24, 1200), c29)
		r.Cases("sources", r.Pick(72, 3600), c17sources)
		r.Cases("fanout", r.Pick(48, 2400), c17fanout)
	}
}
