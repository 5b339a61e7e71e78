//go:build !verifio

package main

func ioOp(o *op) (result, bool) { return nil, false }
