//go:build verifposts

package main

import (
	"github.com/go-air/dupi/attic"
	"github.com/go-air/dupi/attic/ibloom"
)

type postset struct{ p *attic.VerifPosts }

func newPosts(f ibloom.Filter, full bool) bset {
	if full {
		return &postset{attic.VerifFull(f)}
	}
	return &postset{attic.VerifNew(f)}
}

func (s *postset) add(v uint32) {
	if err := s.p.AddPost(v); err != nil {
		panic(err)
	}
}
func (s *postset) has(v uint32) bool { return s.p.HasPost(v) }
func (s *postset) union(o bset)      { s.p = s.p.Union(o.(*postset).p) }
func (s *postset) inter(o bset)      { s.p = s.p.Intersect(o.(*postset).p) }
func (s *postset) zero() bool        { return s.p.IsZero() }
func (s *postset) raw() []byte       { return s.p.Set }
func (s *postset) ones() []int       { return s.p.Ones(nil) }
