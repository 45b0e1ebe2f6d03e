package main

import (
	"context"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
)

type contextContext = context.Context

// dexKeeper is the part of the module keeper the snapshots use.
type dexKeeper interface {
	GetParams(ctx sdk.Context) types.Params
	GetLastPairId(ctx sdk.Context) uint64
	GetLastPoolId(ctx sdk.Context) uint64
	GetAllPairs(ctx sdk.Context) []types.Pair
	GetAllPools(ctx sdk.Context) []types.Pool
	GetAllDepositRequests(ctx sdk.Context) []types.DepositRequest
	GetAllWithdrawRequests(ctx sdk.Context) []types.WithdrawRequest
	GetAllOrders(ctx sdk.Context) []types.Order
	IterateAllNumMMOrders(ctx sdk.Context, cb func(a sdk.AccAddress, pairId uint64, n uint32) bool)
}
