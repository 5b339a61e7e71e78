package attic

import "github.com/go-air/dupi/attic/ibloom"

// VerifPosts gives the checks access to the sets kept in Bloom filters.
type VerifPosts = bposts

func VerifNew(b ibloom.Filter) *VerifPosts {
	t := &bposts{}
	t.init("", b)
	return t
}

func VerifFull(b ibloom.Filter) *VerifPosts { return bpostOnes(b) }
