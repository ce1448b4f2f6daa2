// Package beta holds call sites for the C26 check.
package beta

import "github.com/go-stack/stack"

// AL0 returns its own call site.
func AL0() stack.Call {
	return stack.Caller(0)
}

// AL1 returns its own call site.
func AL1() stack.Call {
	return stack.Caller(0)
}

// AL2 returns its own call site.
func AL2() stack.Call {
	return stack.Caller(0)
}
