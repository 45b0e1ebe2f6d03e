package main

import (
	"cosmossdk.io/store"
	storetypes "cosmossdk.io/store/types"
)

func newInterBlockCache() storetypes.MultiStorePersistentCache {
	return store.NewCommitKVStoreCacheManager()
}
