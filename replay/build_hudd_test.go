//go:build !buddy

package rudd_test

const build = "default"
const isBuddy = false
