// C05: see harness/dec.
package main

import (
	"verif.local/mc/harness/dec"
	"verif.local/mc/mc/drv"
)

func main() {
	drv.Main(drv.Check{
		ID:          "C05",
		Level:       "model_checking",
		Rule:        "every interleaving, within the bounds, of writers and one consumer on the real ring, and every operation sequence to the depth bound; each payload's fate (order of delivery, 0 = dropped) is the outcome",
		Bounds:      dec.Bounds,
		Assumptions: dec.Assumptions,
		Units:       dec.Units(dec.Conserve),
	})
}
