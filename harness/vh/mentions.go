package main

// mentions tells whether a term contains one of the builtin names.
func mentions(t *T, names ...string) bool {
	found := false
	t.walk(func(u *T) {
		if u.K == kSym {
			for _, n := range names {
				if u.S == "System`"+n {
					found = true
				}
			}
		}
	})
	return found
}
