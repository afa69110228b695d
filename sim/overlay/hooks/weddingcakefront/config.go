package weddingcakefront

import (
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
)

func init() {
	simrt.Hooks["cake.creator"] = func(folder string, reassurance byte, quotas []byte) LegacyHashStoreCreator {
		config := weddingcakeback.NewCakeConfig(32, reassurance)
		for i, q := range quotas {
			config.TierBelowConfigs[i].MaxDonutForests = q
		}
		return &CakeCreator{folder: folder, tierTopCreator: weddingcakeback.NewTierTopCreator(folder, config)}
	}
}
