package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"runtime/debug"
	"syscall"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/token"
)

func tag(t token.Tag) string {
	switch t {
	case token.Word:
		return "word"
	case token.Other:
		return "other"
	}
	return fmt.Sprint(int(t))
}

// runeClass: how r is treated between two letters and alone
func runeClass(r rune) byte {
	s := string(r)
	a := token.Tokenize(nil, []byte(s), 0)
	m := token.Tokenize(nil, []byte("a"+s+"b"), 0)
	if len(a) != 1 || string(a[0].Lit) != s || a[0].Pos != 0 {
		return '?'
	}
	switch {
	case a[0].Tag == token.Word && len(m) == 1 && m[0].Tag == token.Word && string(m[0].Lit) == "a"+s+"b":
		return 'w'
	case a[0].Tag == token.Other && len(m) == 3 && m[0].Tag == token.Word && m[1].Tag == token.Other && m[2].Tag == token.Word &&
		string(m[0].Lit) == "a" && string(m[1].Lit) == s && string(m[2].Lit) == "b":
		return 'o'
	}
	return '?'
}

func (s *session) doMore(o *op) (result, bool) {
	if r, ok := ioOp(o); ok {
		return r, true
	}
	switch o.Op {
	case "fdlimit":
		// N more files can be opened; N < 0: as many as before
		var l syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
			return okErr(err), true
		}
		l.Cur = l.Max
		if o.N >= 0 {
			used := map[int]bool{}
			d, err := os.Open("/proc/self/fd")
			if err != nil {
				return okErr(err), true
			}
			names, err := d.Readdirnames(-1)
			d.Close()
			if err != nil {
				return okErr(err), true
			}
			for _, n := range names {
				v := 0
				for _, c := range n {
					v = 10*v + int(c-'0')
				}
				var st syscall.Stat_t
				if syscall.Fstat(v, &st) == nil {
					used[v] = true
				}
			}
			// the lowest limit that leaves N unused descriptors
			free, lim := 0, 0
			for free < o.N {
				if !used[lim] {
					free++
				}
				lim++
			}
			l.Cur = uint64(lim)
		}
		return okErr(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)), true
	case "gcpercent":
		// without collections, what is not closed stays open; N: percent
		debug.SetGCPercent(o.N)
		return result{"ok": true, "err": ""}, true
	case "fdcount":
		d, err := os.ReadDir("/proc/self/fd")
		return result{"ok": err == nil, "err": errs(err), "n": len(d)}, true
	case "tokensx":
		// texts in hex; N: offset; Cap: tokens that are in the destination before
		out := []result{}
		for _, w := range o.Words {
			d, err := hex.DecodeString(w)
			if err != nil {
				panic("driver: " + err.Error())
			}
			keep := append([]byte(nil), d...)
			var dst []token.T
			for i := 0; i < o.Cap; i++ {
				dst = append(dst, token.T{Tag: token.Eod, Pos: uint32(i), Lit: []byte("before")})
			}
			toks := token.Tokenize(dst, d, uint32(o.N))
			same := string(keep) == string(d) && len(toks) >= o.Cap
			for i := 0; i < o.Cap && same; i++ {
				same = toks[i].Tag == token.Eod && toks[i].Pos == uint32(i) && string(toks[i].Lit) == "before"
			}
			ts := [][]interface{}{}
			if same {
				for _, t := range toks[o.Cap:] {
					ts = append(ts, []interface{}{tag(t.Tag), int64(t.Pos) - int64(uint32(o.N)), len(t.Lit), hex.EncodeToString(t.Lit)})
				}
			}
			out = append(out, result{"t": ts, "same": same})
		}
		return result{"tokens": out}, true
	case "runes":
		type rg struct {
			Lo int    `json:"lo"`
			Hi int    `json:"hi"`
			C  string `json:"c"`
		}
		out := []rg{}
		for r := 0; r <= 0x10ffff; r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			c := string(runeClass(rune(r)))
			if n := len(out); n > 0 && out[n-1].C == c && out[n-1].Hi == r-1 {
				out[n-1].Hi = r
			} else {
				out = append(out, rg{r, r, c})
			}
		}
		return result{"runes": out}, true
	case "bconf":
		c := s.blotter(o.H).Config()
		return result{"k": c.SeqLen, "m": c.Interleave, "il": s.blotter(o.H).Interleaving()}, true
	case "bcirc":
		s.bl[o.H] = blotter.NewCirc(o.K)
		return okErr(nil), true
	case "binter":
		s.bl[o.H] = blotter.NewInterleaved(o.K, o.M)
		return okErr(nil), true
	case "blotraw":
		// a text in hex
		d, err := hex.DecodeString(o.Text)
		if err != nil {
			panic("driver: " + err.Error())
		}
		b := s.index(o.H).BlotDoc(nil, &dupi.Doc{Dat: d, End: uint32(len(d))})
		return result{"n": len(b)}, true
	case "locateall":
		// every document of every fingerprint, located in its file
		x := s.index(o.H)
		q := x.StartQuery(dupi.QueryMaxBlot)
		type fr struct {
			B   uint32 `json:"b"`
			D   string `json:"d"`
			S   uint32 `json:"s"`
			E   uint32 `json:"e"`
			Err string `json:"err"`
		}
		out := []fr{}
		for b := 0; b < x.NumShards()<<16; b++ {
			bl := dupi.Blot{Blot: uint32(b)}
			if err := q.Get(&bl); err != nil {
				return okErr(err), true
			}
			for i := range bl.Docs {
				d := &bl.Docs[i]
				id := docID(d)
				ask := uint32(b)
				if o.N > 0 && b%o.N == 0 {
					// any 32-bit value with the same remainder
					ask += uint32(x.NumShards()) << 16
				}
				st, en, err := x.FindBlot(ask, d)
				out = append(out, fr{ask, id, st, en, errs(err)})
			}
		}
		return result{"ok": true, "err": "", "loc": out}, true
	case "subst":
		// a copy of file Root at To with Words[0] replaced by Words[1]
		d, err := os.ReadFile(o.Root)
		if err == nil {
			err = os.WriteFile(o.To, bytes.ReplaceAll(d, []byte(o.Words[0]), []byte(o.Words[1])), 0644)
		}
		return okErr(err), true
	case "exec":
		return execCmd(o), true
	case "bloom":
		return bloomRun(o), true
	case "rename":
		return okErr(os.Rename(o.Root, o.To)), true
	}
	return nil, false
}

func extra(args []string) int { return 3 }
