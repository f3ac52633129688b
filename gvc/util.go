package main

import (
	"math/big"
	"os"
	"sort"
	"strings"
)

func bigFromString(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad integer " + s)
	}
	return n
}
func bigFromGo(s string) *big.Int {
	n, ok := new(big.Int).SetString(strings.ReplaceAll(s, "_", ""), 0)
	if !ok {
		panic(specError("bad integer " + s))
	}
	return n
}
func pow2neg(k int) *big.Int     { return new(big.Int).Neg(pow2(k)) }
func subOne(n *big.Int) *big.Int { return new(big.Int).Sub(n, big.NewInt(1)) }
func exists(p string) bool       { _, err := os.Stat(p); return err == nil }
func must(err error) {
	if err != nil {
		panic(err)
	}
}
func sortStrings(s []string) { sort.Strings(s) }
