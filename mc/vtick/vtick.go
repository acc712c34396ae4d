// Package vtick counts the steps of the repository's code; it is laid over the repository, whose functions and loops call T.
// Functions of the standard library that go through a text are replaced by those of std.go.
package vtick

// N is the number of steps, Limit where they are given up.
var N, Limit int64

// Over is what T panics with at the limit.
type Over struct{}

// T is a step.
func T() {
	N++
	if N >= Limit && Limit > 0 {
		panic(Over{})
	}
}

// through counts n bytes that are gone through.
func through(n int) {
	N += int64(n) / 8
	T()
}
