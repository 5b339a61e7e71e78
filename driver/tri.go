package main

import (
	"encoding/hex"

	"github.com/go-air/dupi/attic/trigram"
	"github.com/go-air/dupi/token"
)

func ints(ts []trigram.T) []int {
	r := make([]int, len(ts))
	for i, t := range ts {
		r[i] = int(t)
	}
	return r
}

// trigrams of texts, by all ways to get them
func trigrams(o *op) result {
	out := []result{}
	for _, w := range o.Words {
		text, err := hex.DecodeString(w)
		if err != nil {
			panic("driver: " + err.Error())
		}
		toks := token.Tokenize(nil, text, 0)
		tt := []result{}
		for i := range toks {
			lit := []int{}
			for _, b := range toks[i].Lit {
				lit = append(lit, int(b))
			}
			tt = append(tt, result{"word": toks[i].Tag == token.Word, "lit": lit})
		}
		var visit, each []trigram.T
		trigram.VisitTokens(toks, func(t trigram.T) { visit = append(visit, t) })
		at := trigram.Zero()
		for _, tok := range toks {
			at = trigram.VisitToken(at, tok, func(t trigram.T) { each = append(each, t) })
		}
		out = append(out, result{"toks": tt, "visit": ints(visit), "each": ints(each), "list": ints(trigram.FromTokens(nil, toks))})
	}
	return result{"x": out}
}

func trinames(o *op) result {
	out := []result{}
	for i := o.I; i < o.I+o.N && i < trigram.NumTrigrams; i++ {
		s := []int{}
		for _, r := range trigram.T(i).String() {
			s = append(s, int(r))
		}
		out = append(out, result{"t": i, "s": s})
	}
	return result{"x": out}
}
