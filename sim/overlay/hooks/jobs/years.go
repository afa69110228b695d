package jobs

import "github.com/KitchenMishap/pudding-shed/verifsim/simrt"

func init() {
	b, t := append([]int64{}, blocksEachYear...), append([]int64{}, transactionsEachYear...)
	// makes a number of years stand for a number of blocks; 0 blocks: as shipped
	simrt.Hooks["jobs.years"] = func(years int, blocks, transactions int64) {
		if blocks == 0 {
			blocksEachYear[years], transactionsEachYear[years] = b[years], t[years]
			return
		}
		blocksEachYear[years], transactionsEachYear[years] = blocks, transactions
	}
}
