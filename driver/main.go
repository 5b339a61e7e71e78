// Command verifdrv executes scripts of operations on the real dupi code and
// records what each returned.  It is compiled as a package of the dupi module
// through a build overlay (no file of it exists in /repo) and uses exported
// API only.
//
//	verifdrv run SCRIPT OUT    execute the ops of SCRIPT (JSON array), write
//	                           one JSON result per line to OUT
//	verifdrv actor             execute ops read line by line from stdin
//	verifdrv tokens|bloom ...  see the other files
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/dmd"
	"github.com/go-air/dupi/lock"
	"github.com/go-air/dupi/token"
)

type docIn struct {
	P string // path
	S uint32 // start
	E uint32 // end
	T string // text
	X string // text in hex
}

// unhex undoes the transport of a string that is not valid UTF-8.
func unhex(s string) string {
	if !strings.HasPrefix(s, "hex:") {
		return s
	}
	b, err := hex.DecodeString(s[4:])
	if err != nil {
		panic("driver: " + err.Error())
	}
	return string(b)
}

func (d *docIn) path() string { return unhex(d.P) }

func (d *docIn) dat() []byte {
	if d.X == "" {
		return []byte(d.T)
	}
	b, err := hex.DecodeString(d.X)
	if err != nil {
		panic("driver: " + err.Error())
	}
	return b
}

type op struct {
	Op    string
	H     string // handle of an index, indexer, query, lock, ...
	Q     string
	Root  string
	To    string
	Spath string
	// configuration
	Nsh, K, M, Nw, Fl int
	Tok               string
	Raw               bool // leave zero values alone
	Docs              []docIn
	N                 int
	Blots             []uint32
	Caps              []int
	Cap               int
	Batch             int
	Extra             int
	Words             []string
	Pass              map[string]string // hex blot -> passage
	Ops               []op              // parallel groups
	Reps              int
	Timeout           int // seconds
	Text              string
	Mode              string
	Kind              string
	Ids               []uint32
	Env               []string
	If                bool // only if there is a session H
	Far               int64
	I                 int // number of the request to an actor
}

type piece struct {
	B uint32   `json:"b"`
	D []string `json:"d"`
}

type result map[string]interface{}

type session struct {
	mu  sync.Mutex
	wr  map[string]*dupi.Indexer
	rd  map[string]*dupi.Index
	qs  map[string]*dupi.Query
	dst map[string][]dupi.Blot
	lk  map[string]*lock.File
	ad  map[string]*dmd.Adder
	dm  map[string]*dmd.T
	bl  map[string]blotter.T
	vs  map[string]interface{}
}

func newSession() *session {
	return &session{wr: map[string]*dupi.Indexer{}, rd: map[string]*dupi.Index{},
		qs: map[string]*dupi.Query{}, dst: map[string][]dupi.Blot{},
		lk: map[string]*lock.File{}, ad: map[string]*dmd.Adder{},
		dm: map[string]*dmd.T{}, bl: map[string]blotter.T{},
		vs: map[string]interface{}{}}
}

func docID(d *dupi.Doc) string {
	p := d.Path
	if !utf8.ValidString(p) {
		p = "hex:" + hex.EncodeToString([]byte(p))
	}
	return p + "@" + strconv.FormatUint(uint64(d.Start), 10) + ":" + strconv.FormatUint(uint64(d.End), 10)
}

func ids(ds []dupi.Doc) []string {
	r := make([]string, len(ds))
	for i := range ds {
		r[i] = docID(&ds[i])
	}
	return r
}

func errs(err error) string {
	if err == nil {
		return ""
	}
	if err == io.EOF {
		return "EOF"
	}
	s := err.Error()
	if s == "" || s == "EOF" {
		s = "error"
	}
	return s
}

func okErr(err error) result {
	return result{"ok": err == nil, "err": errs(err)}
}

// missing is the panic of an op whose session was not opened.
type missing string

func (s *session) query(h string) *dupi.Query {
	x := s.qs[h]
	if x == nil {
		panic(missing("nothing open as " + h))
	}
	return x
}

func (s *session) lockfile(h string) *lock.File {
	x := s.lk[h]
	if x == nil {
		panic(missing("nothing open as " + h))
	}
	return x
}

func (s *session) adder(h string) *dmd.Adder {
	x := s.ad[h]
	if x == nil {
		panic(missing("nothing open as " + h))
	}
	return x
}

func (s *session) docs(h string) *dmd.T {
	x := s.dm[h]
	if x == nil {
		panic(missing("nothing open as " + h))
	}
	return x
}

func (s *session) blotter(h string) blotter.T {
	x := s.bl[h]
	if x == nil {
		panic(missing("nothing open as " + h))
	}
	return x
}

func (s *session) writer(h string) *dupi.Indexer {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := s.wr[h]
	if x == nil {
		panic(missing("no open indexer " + h))
	}
	return x
}

func (s *session) index(h string) *dupi.Index {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := s.rd[h]
	if x == nil {
		panic(missing("no open index " + h))
	}
	return x
}

func (o *op) config() (*dupi.Config, error) {
	cfg, err := dupi.DefaultConfig(o.Root)
	if err != nil {
		return nil, err
	}
	if o.Raw || o.Nsh != 0 {
		cfg.NumShards = o.Nsh
	}
	if o.Raw || o.Nw != 0 {
		cfg.NumShatters = o.Nw
	}
	if o.Raw || o.Fl != 0 {
		cfg.DocFlushRate = o.Fl
	}
	if o.Raw || o.K != 0 {
		cfg.BlotConfig.SeqLen = o.K
		cfg.BlotConfig.Interleave = o.M
		if !o.Raw && o.M == 0 {
			cfg.BlotConfig.Interleave = 1
		}
		cfg.SeqLen = cfg.BlotConfig.SeqLen * cfg.BlotConfig.Interleave
	}
	if o.Tok != "" {
		cfg.TokenConfig.Name = o.Tok
	}
	if o.Mode == "asgiven" {
		cfg.IndexRoot = o.Root
	}
	if o.Mode == "inconsistent" {
		cfg.SeqLen++
	}
	return cfg, nil
}

func runNext(q *dupi.Query, caps []int) (n int, err error, ps []piece) {
	dst := make([]dupi.Blot, len(caps))
	for i, c := range caps {
		if c >= 0 {
			dst[i].Docs = make([]dupi.Doc, 0, c)
		}
	}
	n, err = q.Next(dst)
	for i := 0; i < n && i < len(dst); i++ {
		ps = append(ps, piece{dst[i].Blot, ids(dst[i].Docs)})
	}
	return
}

func (s *session) do(o *op) result {
	if o.If && s.wr[o.H] == nil && s.rd[o.H] == nil {
		return result{"skipped": true}
	}
	switch o.Op {
	case "create":
		cfg, err := o.config()
		if err != nil {
			return okErr(err)
		}
		x, err := dupi.IndexerFromConfig(cfg)
		if err == nil {
			s.mu.Lock()
			s.wr[o.H] = x
			s.mu.Unlock()
		}
		return okErr(err)
	case "createsimple":
		x, err := dupi.CreateIndexer(o.Root, o.Nsh, o.K)
		if err == nil {
			s.mu.Lock()
			s.wr[o.H] = x
			s.mu.Unlock()
		}
		return okErr(err)
	case "openw":
		x, err := dupi.OpenIndexer(o.Root)
		if err == nil {
			s.mu.Lock()
			s.wr[o.H] = x
			s.mu.Unlock()
		}
		return okErr(err)
	case "openr":
		x, err := dupi.OpenIndex(o.Root)
		if err == nil {
			s.mu.Lock()
			s.rd[o.H] = x
			s.mu.Unlock()
		}
		return okErr(err)
	case "prober": // of an index that is damaged: whether this works is left open
		x, err := dupi.OpenIndex(o.Root)
		if err == nil {
			x.Close()
		}
		return okErr(err)
	case "probew":
		x, err := dupi.OpenIndexer(o.Root)
		if err == nil {
			x.Close()
		}
		return okErr(err)
	case "closew":
		x := s.writer(o.H)
		s.mu.Lock()
		delete(s.wr, o.H)
		s.mu.Unlock()
		return okErr(x.Close())
	case "closer":
		x := s.index(o.H)
		s.mu.Lock()
		delete(s.rd, o.H)
		s.mu.Unlock()
		return okErr(x.Close())
	case "removew":
		x := s.writer(o.H)
		s.mu.Lock()
		delete(s.wr, o.H)
		s.mu.Unlock()
		return okErr(dupi.RemoveIndexer(x))
	case "remover":
		x := s.index(o.H)
		s.mu.Lock()
		delete(s.rd, o.H)
		s.mu.Unlock()
		return okErr(dupi.RemoveIndex(x))
	case "rootw":
		return result{"root": s.writer(o.H).Root()}
	case "rootr":
		return result{"root": s.index(o.H).Root()}
	case "add":
		x := s.writer(o.H)
		for i := range o.Docs {
			d := &o.Docs[i]
			doc := &dupi.Doc{Path: d.path(), Start: d.S, End: d.E, Dat: d.dat()}
			if d.S == 0 && d.E == 0 && o.Mode == "" {
				doc = dupi.NewDoc(d.path(), string(d.dat()))
			}
			if err := x.Add(doc); err != nil {
				return result{"ok": false, "err": errs(err), "at": i}
			}
		}
		return result{"ok": true, "err": "", "at": len(o.Docs)}
	case "fill":
		x := s.writer(o.H)
		for i := 0; i < o.N; i++ {
			if err := x.Add(&dupi.Doc{Path: "/fill", Start: uint32(i), End: uint32(i)}); err != nil {
				return result{"ok": false, "err": errs(err), "at": i}
			}
		}
		return result{"ok": true, "err": "", "at": o.N}
	case "fillpaths":
		x := s.writer(o.H)
		for i := o.I; i < o.I+o.N; i++ {
			if err := x.Add(&dupi.Doc{Path: "/many/" + strconv.Itoa(i)}); err != nil {
				return result{"ok": false, "err": errs(err), "at": i}
			}
		}
		return result{"ok": true, "err": "", "at": o.N}
	case "addsame":
		x := s.writer(o.H)
		for i := 0; i < o.N; i++ {
			d := &o.Docs[0]
			if err := x.Add(&dupi.Doc{Path: d.path(), Start: d.S, End: d.E, Dat: d.dat()}); err != nil {
				return result{"ok": false, "err": errs(err), "at": i}
			}
		}
		return result{"ok": true, "err": "", "at": o.N}
	case "get":
		q := s.index(o.H).StartQuery(dupi.QueryMaxBlot)
		var ps []piece
		for _, b := range o.Blots {
			bl := dupi.Blot{Blot: b}
			if o.Cap >= 0 {
				bl.Docs = make([]dupi.Doc, 0, o.Cap)
			}
			if err := q.Get(&bl); err != nil {
				return result{"ok": false, "err": errs(err), "p": append(ps, piece{b, ids(bl.Docs)})}
			}
			ps = append(ps, piece{b, ids(bl.Docs)})
		}
		return result{"ok": true, "err": "", "p": ps}
	case "getall":
		// every fingerprint of the space; those with documents
		x := s.index(o.H)
		q := x.StartQuery(dupi.QueryMaxBlot)
		ps := []piece{}
		for b := 0; b < x.NumShards()<<16; b++ {
			bl := dupi.Blot{Blot: uint32(b)}
			if err := q.Get(&bl); err != nil {
				return result{"ok": false, "err": errs(err), "p": append(ps, piece{uint32(b), ids(bl.Docs)})}
			}
			if len(bl.Docs) > 0 {
				ps = append(ps, piece{uint32(b), ids(bl.Docs)})
			}
		}
		return result{"ok": true, "err": "", "p": ps}
	case "qstart":
		x := s.index(o.H)
		q := x.StartQuery(dupi.QueryMaxBlot)
		s.mu.Lock()
		s.qs[o.Q] = q
		s.mu.Unlock()
		return result{"ok": true}
	case "qnext":
		q := s.query(o.Q)
		n, err, ps := runNext(q, o.Caps)
		return result{"n": n, "err": errs(err), "p": ps}
	case "qreuse":
		// one result buffer kept over the calls, as a caller would
		q := s.query(o.Q)
		dst := s.dst[o.Q]
		if dst == nil {
			dst = make([]dupi.Blot, len(o.Caps))
			for i, c := range o.Caps {
				if c >= 0 {
					dst[i].Docs = make([]dupi.Doc, 0, c)
				}
			}
			s.dst[o.Q] = dst
		}
		for i := range dst {
			if o.Caps[i] >= 0 {
				dst[i].Docs = dst[i].Docs[:0]
			} else {
				dst[i].Docs = nil
			}
		}
		n, err := q.Next(dst)
		var ps []piece
		stale := 0
		for i := 0; i < n && i < len(dst); i++ {
			ps = append(ps, piece{dst[i].Blot, ids(dst[i].Docs)})
			for j := range dst[i].Docs {
				if dst[i].Docs[j].Dat != nil {
					stale++
				}
				dst[i].Docs[j].Dat = []byte("stale")
			}
		}
		return result{"n": n, "err": errs(err), "p": ps, "stale": stale}
	case "enum":
		// everything, in batches, then some calls after the end
		x := s.index(o.H)
		q := x.StartQuery(dupi.QueryMaxBlot)
		caps := make([]int, o.Batch)
		for i := range caps {
			caps[i] = o.Cap
		}
		all := []piece{}
		for {
			n, err, ps := runNext(q, caps)
			all = append(all, ps...)
			if err != nil || n == 0 || len(all) > 2000000 {
				after := []string{}
				for i := 0; i < o.Extra; i++ {
					n2, err2, ps2 := runNext(q, caps)
					after = append(after, fmt.Sprintf("%d %s", n2, errs(err2)))
					all = append(all, ps2...)
				}
				return result{"n": n, "err": errs(err), "p": all, "after": after}
			}
		}
	case "stats":
		st, err := s.index(o.H).Stats()
		if err != nil {
			return okErr(err)
		}
		return result{"ok": true, "err": "", "root": st.Root, "docs": st.NumDocs, "paths": st.NumPaths,
			"posts": st.NumPosts, "blots": st.NumBlots,
			"meanstr": strconv.FormatFloat(st.BlotMean, 'g', -1, 64), "sigmastr": strconv.FormatFloat(st.BlotSigma, 'g', -1, 64)}
	case "info":
		x := s.index(o.H)
		c := x.Blotter().Config()
		return result{"nsh": x.NumShards(), "seqlen": x.SeqLen(), "nw": x.NumShatters(),
			"bk": c.SeqLen, "bm": c.Interleave, "root": x.Root(), "il": x.Blotter().Interleaving()}
	case "blotdoc":
		x := s.index(o.H)
		out := [][]uint32{}
		for i := range o.Docs {
			d := &o.Docs[i]
			// sometimes after something that is there already
			var dst []uint32
			for j := 0; j < i%3; j++ {
				dst = append(dst, uint32(0xa5a50000+j))
			}
			b := x.BlotDoc(dst, &dupi.Doc{Path: d.path(), Start: d.S, End: d.E, Dat: d.dat()})
			kept := len(b) >= i%3
			for j := 0; kept && j < i%3; j++ {
				kept = b[j] == uint32(0xa5a50000+j)
			}
			if !kept {
				return result{"panic": "what was in the destination is not kept"}
			}
			b = b[i%3:]
			if b == nil {
				b = []uint32{}
			}
			out = append(out, b)
		}
		return result{"blots": out}
	case "split":
		x := s.index(o.H)
		out := [][]uint32{}
		for _, b := range o.Blots {
			sh, sl := x.SplitBlot(b)
			out = append(out, []uint32{sh, uint32(sl), x.JoinBlot(sh, sl)})
		}
		return result{"split": out}
	case "findblot":
		// every blot x every doc
		x := s.index(o.H)
		type fr struct {
			B     uint32 `json:"b"`
			I     int    `json:"i"`
			S     uint32 `json:"s"`
			E     uint32 `json:"e"`
			Err   string `json:"err"`
			Panic string `json:"panic"`
		}
		out := []fr{}
		for i := range o.Docs {
			for _, b := range o.Blots {
				d := &o.Docs[i]
				doc := &dupi.Doc{Path: d.path(), Start: d.S, End: d.E}
				if o.Mode == "dat" {
					doc.Dat = []byte(d.T)
				}
				r := fr{B: b, I: i}
				func() {
					defer func() {
						if e := recover(); e != nil {
							r.Panic = fmt.Sprint(e)
						}
					}()
					s, e, err := x.FindBlot(b, doc)
					r.S, r.E, r.Err = s, e, errs(err)
				}()
				out = append(out, r)
			}
		}
		return result{"found": out}
	case "findblots":
		x := s.index(o.H)
		m := map[uint32][]byte{}
		for k, v := range o.Pass {
			u, err := strconv.ParseUint(k, 10, 32)
			if err != nil {
				panic(err)
			}
			m[uint32(u)] = []byte(v)
		}
		type fr struct {
			I     int         `json:"i"`
			Err   string      `json:"err"`
			Panic string      `json:"panic"`
			M     [][2]string `json:"m"`
		}
		out := []fr{}
		for i := range o.Docs {
			d := &o.Docs[i]
			doc := &dupi.Doc{Path: d.path(), Start: d.S, End: d.E}
			if o.Mode == "dat" {
				doc.Dat = []byte(d.T)
			}
			r := fr{I: i, M: [][2]string{}}
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Panic = fmt.Sprint(e)
					}
				}()
				res, err := x.FindBlots(m, doc)
				r.Err = errs(err)
				for b, t := range res {
					r.M = append(r.M, [2]string{strconv.FormatUint(uint64(b), 10), string(t)})
				}
				sort.Slice(r.M, func(i, j int) bool { return r.M[i][0] < r.M[j][0] })
			}()
			out = append(out, r)
		}
		return result{"found": out}
	case "load":
		out := []result{}
		for i := range o.Docs {
			d := &o.Docs[i]
			doc := &dupi.Doc{Path: d.path(), Start: d.S, End: d.E}
			err := doc.Load()
			out = append(out, result{"err": errs(err), "t": string(doc.Dat), "s": doc.Start, "e": doc.End})
		}
		return result{"load": out}
	case "hash":
		out := []uint32{}
		for _, w := range o.Words {
			out = append(out, blotter.NewCirc(1).Blot([]byte(w)))
		}
		return result{"hash": out}
	case "bnew":
		b, err := blotter.FromConfig(&blotter.Config{SeqLen: o.K, Interleave: o.M})
		if err == nil {
			s.bl[o.H] = b
		}
		return okErr(err)
	case "bblot":
		out := []uint32{}
		for _, w := range o.Words {
			out = append(out, s.blotter(o.H).Blot([]byte(w)))
		}
		return result{"blots": out}
	case "tokens":
		out := []result{}
		for _, w := range o.Words {
			out = append(out, tokenize(w, uint32(o.N)))
		}
		return result{"tokens": out}
	case "trigrams":
		return trigrams(o)
	case "trinames":
		return trinames(o)
	// document table
	case "dnew":
		a, err := dmd.NewAdder(o.Root, o.Fl)
		if err == nil {
			s.ad[o.H] = a
		}
		return okErr(err)
	case "dadd":
		out := []uint32{}
		for _, d := range o.Docs {
			id, err := s.adder(o.H).Add(uint32(len(d.P)), d.S, d.E)
			if err != nil {
				return result{"ok": false, "err": errs(err), "ids": out}
			}
			out = append(out, id)
		}
		return result{"ok": true, "err": "", "ids": out, "last": s.adder(o.H).Last()}
	case "dclose":
		return okErr(s.adder(o.H).Close())
	case "dopen":
		d, err := dmd.New(o.Root)
		if err == nil {
			s.dm[o.H] = d
		}
		return okErr(err)
	case "dlook":
		out := [][]string{}
		for _, id := range o.Ids {
			f, st, en, err := s.docs(o.H).Lookup(id)
			out = append(out, []string{fmt.Sprint(f), fmt.Sprint(st), fmt.Sprint(en), errs(err)})
		}
		return result{"recs": out}
	case "dnum":
		n, err := s.docs(o.H).NumDocs()
		return result{"n": n, "err": errs(err)}
	case "dcloser":
		return okErr(s.docs(o.H).Close())
	// locks
	case "lnew":
		l, err := lock.New(o.Root)
		if err == nil {
			s.mu.Lock()
			s.lk[o.H] = l
			s.mu.Unlock()
		}
		return okErr(err)
	case "lock", "lockshared", "unlock", "lclose":
		s.mu.Lock()
		l := s.lockfile(o.H)
		s.mu.Unlock()
		switch o.Op {
		case "lock":
			return okErr(l.Lock())
		case "lockshared":
			return okErr(l.LockShared())
		case "unlock":
			return okErr(l.Unlock())
		}
		return okErr(l.Close())
	// file system
	case "symlink":
		return okErr(os.Symlink(o.To, o.Root))
	case "mkdir":
		return okErr(os.MkdirAll(o.Root, 0755))
	case "write":
		return okErr(os.WriteFile(o.Root, []byte(o.Text), 0644))
	case "read":
		d, err := os.ReadFile(o.Root)
		return result{"ok": err == nil, "err": errs(err), "t": string(d)}
	case "ls":
		out := []string{}
		filepath.Walk(o.Root, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				r, _ := filepath.Rel(o.Root, p)
				out = append(out, r)
			}
			return nil
		})
		sort.Strings(out)
		return result{"ls": out}
	case "reformat":
		d, err := os.ReadFile(o.Root)
		if err != nil {
			return okErr(err)
		}
		var v map[string]interface{}
		if err = json.Unmarshal(d, &v); err != nil {
			return okErr(err)
		}
		switch o.Mode {
		case "compact", "sorted":
			d, err = json.Marshal(v)
		case "huge":
			// the same value, spread over more than 100000 bytes
			d, err = json.MarshalIndent(v, "", strings.Repeat(" ", 6000))
			d = append(append([]byte(strings.Repeat("\n", 5000)), d...), strings.Repeat(" \n", 5000)...)
		default:
			d, err = json.MarshalIndent(v, "  ", "      ")
			d = append(append([]byte(" \n\t"), d...), "\n\n  \n"...)
		}
		if err != nil {
			return okErr(err)
		}
		return okErr(os.WriteFile(o.Root, d, 0644))
	case "gone":
		_, err := os.Lstat(o.Root)
		return result{"ok": true, "there": err == nil}
	case "exist":
		out := []bool{}
		for _, w := range o.Words {
			_, err := os.Lstat(w)
			out = append(out, err == nil)
		}
		return result{"there": out}
	case "cp":
		return okErr(copyTree(o.Root, o.To))
	case "mv":
		return okErr(os.Rename(o.Root, o.To))
	case "rm":
		return okErr(os.Remove(o.Root))
	case "trunc":
		return okErr(os.Truncate(o.Root, int64(o.N)))
	case "grow": // the files of postings to the size Far, the table of documents by N records
		ps, err := filepath.Glob(filepath.Join(strings.NewReplacer("[", "\\[", "*", "\\*", "?", "\\?").Replace(o.Root), "*.pos"))
		for _, p := range ps {
			if fi, e := os.Stat(p); e == nil && fi.Size() < o.Far && err == nil {
				err = os.Truncate(p, o.Far)
			}
		}
		if fi, e := os.Stat(filepath.Join(o.Root, "dmd")); e == nil && o.N > 0 && err == nil {
			err = os.Truncate(filepath.Join(o.Root, "dmd"), fi.Size()+12*int64(o.N))
		}
		return okErr(err)
	case "chdir":
		return okErr(os.Chdir(o.Root))
	case "gc":
		runtime.GC()
		return result{"ok": true}
	case "readcfg":
		var c *dupi.Config
		var err error
		if o.Mode == "root" {
			c, err = dupi.ReadConfigFromRoot(o.Root)
		} else {
			c, err = dupi.ReadConfig(o.Root)
		}
		if err != nil {
			return okErr(err)
		}
		return result{"ok": true, "err": "", "root": c.IndexRoot, "nsh": c.NumShards, "nw": c.NumShatters, "fl": c.DocFlushRate,
			"seqlen": c.SeqLen, "bk": c.BlotConfig.SeqLen, "bm": c.BlotConfig.Interleave, "tok": c.TokenConfig.Name}
	case "newcfg":
		c, err := dupi.NewConfig(o.Root, o.Nsh, o.K)
		if err != nil {
			return okErr(err)
		}
		return result{"ok": true, "err": "", "root": c.IndexRoot, "nsh": c.NumShards, "seqlen": c.SeqLen,
			"bk": c.BlotConfig.SeqLen, "bm": c.BlotConfig.Interleave}
	case "par":
		// each element of Ops runs Reps times in its own goroutine
		reps := o.Reps
		if reps == 0 {
			reps = 1
		}
		out := make([][]result, len(o.Ops))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range o.Ops {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for r := 0; r < reps; r++ {
					out[i] = append(out[i], s.safe(&o.Ops[i]))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		// identical repetitions are reported once
		for i := range out {
			seen := map[string]bool{}
			var u []result
			for _, r := range out[i] {
				b, _ := json.Marshal(r)
				if !seen[string(b)] {
					seen[string(b)] = true
					u = append(u, r)
				}
			}
			out[i] = u
		}
		return result{"par": out}
	default:
		if r, ok := s.doMore(o); ok {
			return r
		}
		panic("driver: unknown op " + o.Op)
	}
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		t := filepath.Join(to, r)
		if fi.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		d, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, d, 0644)
	})
}

func tokenize(w string, off uint32) result {
	toks := token.Tokenize(nil, []byte(w), off)
	out := [][]interface{}{}
	for _, t := range toks {
		tag := "other"
		if t.Tag == token.Word {
			tag = "word"
		} else if t.Tag != token.Other {
			tag = fmt.Sprint(int(t.Tag))
		}
		out = append(out, []interface{}{tag, int64(t.Pos) - int64(off), len(t.Lit), string(t.Lit)})
	}
	return result{"t": out}
}

// safe runs an op, turning a panic on this goroutine into a result.
func (s *session) safe(o *op) (r result) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(missing); ok {
				r = result{"missing": string(m)}
				return
			}
			st := string(debug.Stack())
			if m := fmt.Sprint(e); strings.HasPrefix(m, "driver:") {
				fmt.Fprintf(os.Stderr, "%s\n", m)
				os.Exit(3)
			}
			r = result{"panic": fmt.Sprint(e), "stack": st}
		}
	}()
	return s.do(o)
}

// timed runs an op under its deadline.
func (s *session) timed(o *op, dflt int) (r result, hung bool) {
	t := o.Timeout
	if t == 0 {
		t = dflt
	}
	ch := make(chan result, 1)
	go func() { ch <- s.safe(o) }()
	tm := time.NewTimer(time.Duration(t) * time.Second)
	defer tm.Stop()
	mem := time.NewTicker(200 * time.Millisecond)
	defer mem.Stop()
	for {
		select {
		case r = <-ch:
			return r, false
		case <-tm.C:
		case <-mem.C:
			// what goes on for ever may run out of memory before
			if maxrss == 0 || rss() < maxrss {
				continue
			}
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		return result{"hang": t, "rss": rss(), "stack": string(buf)}, true
	}
}

var maxrss int64

// rss gives the memory in use, in bytes.
func rss() int64 {
	d, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, b int64
	fmt.Sscan(string(d), &a, &b)
	return b * int64(os.Getpagesize())
}

func main() {
	log.SetOutput(io.Discard)
	if os.Getenv("VERIF_LOG") != "" {
		log.SetOutput(os.Stderr)
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage")
		os.Exit(3)
	}
	dflt := 60
	if v, err := strconv.Atoi(os.Getenv("VERIF_OP_TIMEOUT")); err == nil {
		dflt = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_MAXRSS")); err == nil {
		maxrss = int64(v) << 30
	}
	switch os.Args[1] {
	case "run":
		data, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var scripts [][]op
		if err := json.Unmarshal(data, &scripts); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		of, err := os.Create(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w := bufio.NewWriter(of)
		enc := json.NewEncoder(w)
		for si := range scripts {
			ss := newSession()
			for oi := range scripts[si] {
				r, hung := ss.timed(&scripts[si][oi], dflt)
				r["s"], r["o"] = si, oi
				if err := enc.Encode(r); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
				w.Flush()
				if hung {
					os.Exit(0)
				}
				if _, ok := r["panic"]; ok {
					break
				}
			}
		}
		enc.Encode(result{"done": true})
		w.Flush()
		of.Close()
	case "actor":
		ss := newSession()
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		enc := json.NewEncoder(os.Stdout)
		var om sync.Mutex
		for sc.Scan() {
			var o op
			if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			go func(o op) {
				r := ss.safe(&o)
				r["i"] = o.I
				om.Lock()
				defer om.Unlock()
				if err := enc.Encode(r); err != nil {
					os.Exit(3)
				}
			}(o)
		}
	default:
		os.Exit(extra(os.Args[1:]))
	}
}
