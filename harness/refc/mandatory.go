package refc

// Mandatory is the number of body octets without which a message is certainly incomplete; trailing reserved
// or optional octets may or may not be missed.
func Mandatory(proto string, ver byte, kind string, m M) int {
	n := 0
	tail := 0
	for _, f := range Fields(proto, ver, kind) {
		w := f.Width
		switch {
		case f.Kind == 't':
			w = 0
		case f.Kind == 'b':
			w = len(m.B(f.Name))
		case f.Count != "":
			w *= len(m.L(f.Name))
		}
		n += w
		if f.Name == "reserve" || f.Kind == 't' {
			tail += w
		} else {
			tail = 0
		}
	}
	return n - tail
}
