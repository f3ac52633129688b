//go:build buddy

package rudd_test

const build = "buddy"
const isBuddy = true
