package known

import "verif.local/mc/harness/shapes"

// Box has them as values; the first is nil.
var Box = func() shapes.Box[error] {
	all := []error{nil}
	id := func(e error) int {
		for i, k := range all {
			if Same(e, k) {
				return i
			}
		}
		return -1
	}
	for _, e := range Errors {
		if id(e) < 0 {
			all = append(all, e)
		}
	}
	return shapes.Box[error]{Name: "error (known)", N: len(all), Make: func(i int) error { return all[i] }, ID: id}
}()
