// Package clipboard stands in for github.com/atotto/clipboard in simulation
// builds: the clipboard belongs to the simulator.
package clipboard

import "errors"

// ReadFn is the simulated clipboard.
var ReadFn func() (string, error)

// Unsupported mirrors the library's variable.
var Unsupported bool

// ReadAll returns the text of the clipboard.
func ReadAll() (string, error) {
	if ReadFn == nil {
		return "", errors.New("simulated clipboard is not available")
	}
	return ReadFn()
}

// WriteAll is not used by the repository.
func WriteAll(string) error { return errors.New("simulated clipboard is read-only") }
