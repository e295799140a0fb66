// Replaces go2sky's generator: ids come from the run's random stream, so that a run with
// the same seed has the same ids.
package idgen

import (
	"fmt"

	rt "github.com/chanjarster/gears/zzsim/rt"
)

// UUID generate UUID
func UUID() (string, error) {
	return fmt.Sprintf("%016x%016x", rt.RandUint64(), rt.RandUint64()), nil
}

// GenerateGlobalID generates global unique id
func GenerateGlobalID() (string, error) { return UUID() }
