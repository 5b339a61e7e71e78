package main

import "github.com/go-air/dupi/attic/ibloom"

// bset: a set kept in a Bloom filter
type bset interface {
	add(uint32)
	has(uint32) bool
	union(bset)
	inter(bset)
	zero() bool
	raw() []byte
	ones() []int
}

// rawset uses the filter's own interface
type rawset struct {
	f ibloom.Filter
	d []byte
}

func newRaw(f ibloom.Filter, full bool) bset {
	s := &rawset{f, f.Set()}
	if full {
		for i := range s.d {
			s.d[i] = 0xff
		}
	}
	return s
}

func (s *rawset) add(v uint32)      { s.f.Add(s.d, v) }
func (s *rawset) has(v uint32) bool { return s.f.Has(s.d, v) }
func (s *rawset) union(o bset) {
	for i, b := range o.raw() {
		s.d[i] |= b
	}
}
func (s *rawset) inter(o bset) {
	for i, b := range o.raw() {
		s.d[i] &= b
	}
}
func (s *rawset) zero() bool {
	for _, b := range s.d {
		if b != 0 {
			return false
		}
	}
	return true
}
func (s *rawset) raw() []byte { return s.d }
func (s *rawset) ones() []int { return bitsOf(s.d) }

func bitsOf(d []byte) []int {
	r := []int{}
	for i := range d {
		for j := 0; j < 8; j++ {
			if d[i]>>uint(j)&1 == 1 {
				r = append(r, 8*i+j)
			}
		}
	}
	return r
}

func bloomFilter(m, k int, mode string) (ibloom.Filter, error) {
	if mode == "config" {
		return ibloom.FromConfig(&ibloom.Config{Name: "fnv32", M: m, K: k})
	}
	return ibloom.NewFnv32(m/8, k), nil
}

// bloomRun: a sequence of operations on sets of one filter; M bits, K hash
// functions; Ops: H and To name sets, Ids are values.
func bloomRun(o *op) result {
	f, err := bloomFilter(o.M, o.K, o.Mode)
	if err != nil {
		return okErr(err)
	}
	sets := map[string]bset{}
	out := []interface{}{}
	for i := range o.Ops {
		p := &o.Ops[i]
		var r interface{}
		switch p.Op {
		case "new", "full":
			if o.Text == "raw" {
				sets[p.H] = newRaw(f, p.Op == "full")
			} else {
				sets[p.H] = newPosts(f, p.Op == "full")
			}
		case "add":
			for _, v := range p.Ids {
				sets[p.H].add(v)
			}
		case "union":
			sets[p.H].union(sets[p.To])
		case "inter":
			sets[p.H].inter(sets[p.To])
		case "has":
			hs := []bool{}
			for _, v := range p.Ids {
				hs = append(hs, sets[p.H].has(v))
			}
			r = hs
		case "zero":
			r = sets[p.H].zero()
		case "bits":
			on := sets[p.H].ones()
			if on == nil {
				on = []int{}
			}
			r = [][]int{on, bitsOf(sets[p.H].raw())}
		case "ones":
			all := [][][]int{}
			for _, v := range p.Ids {
				a, b := []int{}, make([]uint32, f.K())
				f.Ones(v, func(i int) bool { a = append(a, i); return true })
				f.PutOnes(b, v)
				c := []int{}
				for _, x := range b {
					c = append(c, int(x))
				}
				all = append(all, [][]int{a, c})
			}
			c := f.Config()
			r = result{"x": all, "gk": f.K(), "gm": f.M(), "ck": c.K, "cm": c.M, "name": c.Name}
		}
		out = append(out, r)
	}
	return result{"ok": true, "err": "", "r": out}
}
