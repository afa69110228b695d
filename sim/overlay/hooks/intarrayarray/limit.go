package intarrayarray

import "github.com/KitchenMishap/pudding-shed/verifsim/simrt"

func init() {
	simrt.Hooks["intarrayarray.limit"] = func(s IntArrayMapStoreReadWrite, n int64) {
		if c, ok := s.(*CachedIntArrayMapStore); ok {
			c.cacheElementCountLimit = n
		}
	}
}
