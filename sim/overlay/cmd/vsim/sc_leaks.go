package main

// The scenarios in which everything that is opened gets closed, with what is
// left open or running counted where they say so.
func init() {
	register("closed", 600_000_000, func(c *Ctx) {
		c.leaks = true
		of := []string{"ingest", "memcopy", "hashindex", "hashappend", "fetch", "headers", "ingest", "copy", "files", "uniform", "cake", "chunks", "multimap", "ingest"}
		name := of[c.Int(len(of))]
		c.Note("closed-run:" + name)
		scenarios[name].run(c)
	})
}
