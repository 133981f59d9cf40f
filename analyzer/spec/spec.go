// Package spec holds the reference definitions the analyser compares the
// repository's functions with.  It is never executed.
package spec

// Require states a precondition of the specified operation.
func Require(c bool) {}
