package kit

// Strings calls f with every sequence over alphabet of length 0..max, shortest first. f returns false to stop.
func Strings(alphabet []string, max int, f func(parts []string) bool) {
	for n := 0; n <= max; n++ {
		if !StringsN(alphabet, n, f) {
			return
		}
	}
}

// StringsN calls f with every sequence of exactly n elements of alphabet.
func StringsN(alphabet []string, n int, f func(parts []string) bool) bool {
	idx := make([]int, n)
	parts := make([]string, n)
	for {
		for i, k := range idx {
			parts[i] = alphabet[k]
		}
		if !f(parts) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alphabet) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// Seqs calls f with every sequence of exactly n numbers in 0..k-1.
func Seqs(k, n int, f func(idx []int) bool) bool {
	idx := make([]int, n)
	for {
		if !f(idx) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < k {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// Product calls f with every tuple idx where idx[i] < dims[i].
func Product(dims []int, f func(idx []int) bool) bool {
	for _, d := range dims {
		if d == 0 {
			return true
		}
	}
	idx := make([]int, len(dims))
	for {
		if !f(idx) {
			return false
		}
		i := len(dims) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < dims[i] {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// Perms calls f with every permutation of 0..n-1.
func Perms(n int, f func(p []int) bool) bool {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(p)
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			if !rec(i + 1) {
				return false
			}
			p[i], p[j] = p[j], p[i]
		}
		return true
	}
	return rec(0)
}
