//go:build go1.21

package main

import "github.com/chanjarster/gears/zzsim/hk"

const realCfg = "conf (all code), gopkg.in/yaml.v3, flag (standard library, as compiled)"
const stubCfg = "process environment: variables, arguments, file contents and errors, process exit (simulated)"

func main() {
	hk.Main("cfg", []*hk.Scenario{
		{Prop: "C28", Name: "conf-load", Runs: 9000, Gen: genConf, Run: runConf, Real: realCfg, Stub: stubCfg},
		{Prop: "C34", Name: "pprof-auth", Runs: 9000, By: byPprof, Gen: genPprof, Run: runPprof, Real: "confs/pprof.go; fasthttp-routing, gin, gin-contrib/pprof, net/http/pprof as compiled", Stub: "clients and sockets: requests are handed to the handlers of both frameworks by simulated goroutines"},
		{Prop: "C35", Name: "redis-client", Runs: 4000, By: byRedis, Gen: genRedis, Run: runRedis, Real: realRedis, Stub: stubRedis},
	})
}
