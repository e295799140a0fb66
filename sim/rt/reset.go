//go:build go1.21

package rt

var resets []func()

// OnReset registers a function that gives the variables of a package their first values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset makes the run begin with the package variables of a new process.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
