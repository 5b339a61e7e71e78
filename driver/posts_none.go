//go:build !verifposts

package main

import "github.com/go-air/dupi/attic/ibloom"

func newPosts(f ibloom.Filter, full bool) bset { return newRaw(f, full) }
