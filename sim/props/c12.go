package props

import "inisim/core"

var c12Mix = []string{
	"fsecs", "fsecs", "fnames", "fby", "skeys", "skeys", "snames", "shash", "shash", "skids", "skids", "xwrite", "xwrite", "xwrite", "xsave", "xshare", "xshare", "kall", "kall",
	"fnew", "fnew", "fsec", "fdel", "fdelidx", "snew", "snew", "snew", "snew", "sdel", "sdel",
	"kset", "kset", "kset", "kshadow", "kshadow", "kshadow", "kmustint", "kmuststr",
}

func genC12(r *core.Rand, tier string) core.Plan {
	o := genConcOpts(r)
	o.Nested = false
	p := genConc(r, tier, o, []string{"p", "DEFAULT", "p.a", "P", "p.b", "p.a.c", "q"}, []string{"a", "b", "A", "c", "d"}, c12Mix)
	if r.Chance(1, 3) {
		p.Pretty = genPretty(r)
		p.Pretty.Header = p.Pretty.Header && !o.NonUnique
	}
	return p
}

func init() {
	register(&core.Property{
		ID: "C12", Gen: genC12, New: func() core.Plan { return &concPlan{} }, Run: runConc,
		Quick: 900000, Thorough: 20000000,
		Rule:   "one case is a File, 2 to 4 (thorough: 5) clients with up to 5 (7) operations each, reading and writing it as a whole while others change it, and a schedule; non-trivial if at least two operations overlapped; distinct by operations and interleaving",
		Real:   "all of go-ini/ini, os and io on top of the simulated kernel",
		Stub:   "the kernel's files, package sync's locks (decided by the simulator), goroutine scheduling",
		Probes: []string{"overlapping-operations"},
	})
}
