package main

const defaultReal = "every package of the repository that the property's scenarios import, compiled from the current tree with os, sync, sync/atomic, time, net/http and goroutines/channels routed to the simulator"
const defaultStub = "operating system files (in-memory file system), wall clock, goroutine scheduler, HTTP transport and the Bitcoin Core node behind it, runtime memory statistics"

var assumptions = []string{}

var plans = map[string]planT{
	"P01": {ID: "P01", Items: []planItem{{"ingest", 3500}}},
	"P02": {ID: "P02", Items: []planItem{{"ingest-twice", 3500}}},
	"P03": {ID: "P03", Items: []planItem{{"copy", 500}, {"memcopy", 3000}}},
	"P04": {ID: "P04", Items: []planItem{{"sequencer", 150000}}},
	"P05": {ID: "P05", Items: []planItem{{"fetch", 80000}}},
	"P06": {ID: "P06", Items: []planItem{{"headers", 80000}}},
	"P07": {ID: "P07", Items: []planItem{{"hashindex", 16000}}},
	"P08": {ID: "P08", Items: []planItem{{"hashindex-faults", 14000}}},
	"P09": {ID: "P09", Items: []planItem{{"hashappend", 20000}, {"hashappend-faults", 36000}}},
	"P10": {ID: "P10", Items: []planItem{{"files", 45000}, {"files-faults", 100000}}},
	"P11": {ID: "P11", Items: []planItem{{"multimap", 8000}, {"multimap-faults", 8000}}},
	"P12": {ID: "P12", Items: []planItem{{"ingest-faults", 2000}, {"ingest-aimed", 2500}}},
	"P13": {ID: "P13", Items: []planItem{{"files-durable", 200000}}},
	"P14": {ID: "P14", Items: []planItem{{"ingest-killed", 5000}}},
	"P15": {ID: "P15", Items: []planItem{{"memvalve", 500000}}},
	"P16": {ID: "P16", Items: []planItem{{"pool", 300000}}},
	"P17": {ID: "P17", Items: []planItem{{"cake", 1200}}},
	"P19": {ID: "P19", Items: []planItem{{"uniform", 16000}, {"uniform-faults", 30000}}},
	"P20": {ID: "P20", Items: []planItem{{"chunks", 20000}, {"chunks-faults", 40000}}},
	"P21": {ID: "P21", Items: []planItem{{"copy-faults", 1200}, {"memcopy-faults", 1200}}},
	"P22": {ID: "P22", Items: []planItem{{"dbread-faults", 2600}}},
	"P23": {ID: "P23", Items: []planItem{{"closed", 9000}}},
	"P24": {ID: "P24", Items: []planItem{{"apart", 7000}}},
	"P25": {ID: "P25", Items: []planItem{{"synced", 24000}}},
	"P18": {ID: "P18", Items: []planItem{{"cake-faults", 20000}}},
}
