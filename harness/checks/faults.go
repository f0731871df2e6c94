package checks

import (
	"fmt"

	. "mc/eng"
	. "mc/lib"

	"pol/pol"
	"pol/sparse"
	"pol/verkle"
)

func init() {
	Register(&Check{
		ID: "C18", Level: "fault_enumeration",
		Rule: "after every history, one more operation is interrupted at every database access it makes, before or after the access takes effect, and repeated (itself being interrupted at every access, or with another operation or a read in between); " +
			"when it finally succeeds every vertex must be the one of the ledger, and every id must be provable under the root. Each reading call (Get, Root, proving, exporting) is interrupted likewise and must leave everything as it was. " +
			"A state is distinct when history, operation, point of failure and recovery differ",
		Bounds: "histories of up to 2 (quick) / 3 (thorough) operations on trees of depth 1-4 and fanouts 3 and 7; all points of failure of the first attempt and all of the second; through the verkle tree and the liability set",
		Assumptions: []string{"a failing database panics or, when reading, finds nothing: the only ways its interface can report a failure", "the failing process goes on (the tree itself lives in memory)",
			"amounts read between a failed update and its repetition are not specified"},
		Gen: genC18,
	})
}

// fault is a failing access: the k-th write or read, before or after its
// effect; a read that fails "after" finds nothing instead of panicking.
type fault struct {
	put   bool
	k     int
	after bool
}

func (f fault) String() string {
	op, when := "read", "before"
	if f.put {
		op = "write"
	} else if f.after {
		return fmt.Sprintf("read %d, which finds nothing", f.k)
	}
	if f.after {
		when = "after"
	}
	return fmt.Sprintf("%s %d %s effect", op, f.k, when)
}

func (f fault) arm(db *DB) {
	db.FailPut, db.FailGet, db.PutAfter = 0, 0, f.after
	db.Missing = f.after && !f.put
	if f.put {
		db.FailPut = f.k
	} else {
		db.FailGet = f.k
	}
}

func disarm(db *DB) { db.FailPut, db.FailGet = 0, 0 }

func faultsFor(puts, gets int) []fault {
	var r []fault
	for k := 1; k <= puts; k++ {
		r = append(r, fault{true, k, false}, fault{true, k, true})
	}
	for k := 1; k <= gets; k++ {
		r = append(r, fault{false, k, false}, fault{false, k, true})
	}
	return r
}

func genC18(g *G) {
	longC18(g)
	type cfg struct {
		s     shape
		ids   []string
		depth int
		full  bool // second failures
		prove bool
	}
	d := 0
	if g.Thorough {
		d = 1
	}
	cfgs := []cfg{
		{shallow(3, 2), []string{"00", "01", "12"}, 2 + d, true, true},
		{shallow(3, 3), []string{"000", "001", "012", "220"}, 1 + d, true, true},
		{shallow(3, 4), []string{"0000", "0012", "2222"}, 1 + d, g.Thorough, true},
		{shallow(7, 2), []string{"00", "06", "65"}, 1 + d, true, true},
		{shallow(3, 1), []string{"0", "1", "2"}, 2, true, false},
		{shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}, []string{"000000000", "000000001", "999999999"}, 1, false, false},
	}
	for _, c := range cfgs {
		c := c
		histories := [][]setOp{nil}
		sequences(alphabet(c.ids, []int64{5}), c.depth, func(ops []setOp) { histories = append(histories, ops) })
		for _, h := range histories {
			for _, o := range []setOp{{c.ids[0], 8}, {c.ids[1], 0}, {c.ids[len(c.ids)-1], 5}} {
				h, o := h, o
				hs := make([]setOp, len(h))
				for i := range h {
					hs[i] = setOp{h[i].id, h[i].v + int64(i)}
				}
				for _, level := range []string{"tree", "set"} {
					level := level
					if level == "set" && !c.prove {
						continue
					}
					run := func(t *T) { runC18(t, level, c.s, c.ids, hs, o, c.full) }
					id := fmt.Sprintf("%s/%s/%v/%v", level, c.s.name, hs, o)
					if level == "tree" && c.s.name == "f3d2" && len(h) == 1 {
						g.Real(id, run)
					} else {
						g.Case(id, run)
					}
				}
			}
			if c.prove && len(h) > 0 {
				h := h
				g.Case(fmt.Sprintf("reads/%s/%v", c.s.name, h), func(t *T) { readsC18(t, c.s, h) })
			}
		}
	}
}

// victim is what is updated: a tree or a liability set over a failing database.
type victim struct {
	db   *DB
	tree *verkle.Tree
	set  *pol.LiabilitySet
	put  func(o setOp)
}

func newVictim(level string, s shape) *victim {
	v := &victim{db: NewDB()}
	if level == "tree" {
		v.tree = verkle.NewVerkleTree(uint16(s.fanout), s.id2path, v.db)
		if s.full == "" {
			v.tree.PP = s.pp().PPPP
		}
		v.put = func(o setOp) { v.tree.Put(o.id, o.v) }
		return v
	}
	v.set = pol.NewLiabilitySet(s.pp(), v.db, s.id2path)
	v.put = func(o setOp) { v.set.Set(o.id, o.v) }
	return v
}

// try runs an update under a fault, and says whether it was interrupted.
func (v *victim) try(t *T, f fault, o setOp) bool {
	f.arm(v.db)
	p, _ := Try(func() { v.put(o) })
	disarm(v.db)
	t.Step()
	return p != nil
}

// judgeTree is the cheaper judgement: of a set, the vertices of its tree, the
// total and one proof.
func (v *victim) judgeTree(t *T, s shape, what string, l Ledger, id string) {
	var inner *verkle.Tree
	if v.set != nil {
		inner, _ = FieldOfType(v.set, inner).(*verkle.Tree)
	}
	if inner == nil {
		v.judge(t, s, what, l)
		return
	}
	t.Eval()
	p, stack := Try(func() {
		mirror(t, inner, config{name: s.name, fanout: s.fanout, id2path: s.id2path}, l)
		V, W := v.set.Root()
		tot := v.set.ProveTot()
		if l.Sum().Int64() != int64(tot.Sum) || tot.Verify(s.pp(), V) != nil {
			t.Fatalf("%s: the total is %d instead of %s", what, tot.Sum, l.Sum())
		}
		n, proof, _, ok := v.set.ProveLiability(id)
		if !ok || n != l[id] {
			t.Fatalf("%s: ProveLiability(%s)=%d,%v instead of %d", what, id, n, ok, l[id])
		}
		if _, err := proof.Verify(s.pp(), id, V, W, s.id2path); err != nil {
			t.Fatalf("%s: the proof of %s is rejected: %v", what, id, err)
		}
	})
	if p != nil {
		t.Fatalf("%s: %v\n%s", what, p, stack)
	}
}

func (v *victim) judge(t *T, s shape, what string, l Ledger) {
	t.Eval()
	c := config{name: s.name, fanout: s.fanout, id2path: s.id2path}
	p, stack := Try(func() {
		if v.tree != nil {
			mirror(t, v.tree, c, l)
			return
		}
		proveAll(t, s, v.set, l, nil)
		for id, want := range l {
			if n, ok := v.set.Get(id); !ok || n != want {
				t.Fatalf("%s: Get(%s)=%d,%v instead of %d", what, id, n, ok, want)
			}
		}
	})
	if p != nil {
		t.Fatalf("%s: %v\n%s", what, p, stack)
	}
}

func runC18(t *T, level string, s shape, ids []string, h []setOp, o setOp, full bool) {
	fresh := func() (*victim, Ledger) {
		v := newVictim(level, s)
		l := Ledger{}
		for _, x := range h {
			v.put(x)
			l[x.id] = x.v
		}
		return v, l
	}
	// how many accesses an undisturbed attempt makes
	v, _ := fresh()
	p0, g0 := v.db.Puts, v.db.Gets
	v.put(o)
	fs := faultsFor(v.db.Puts-p0, v.db.Gets-g0)
	for _, f := range fs {
		// repeat at once
		v, l := fresh()
		if !v.try(t, f, o) {
			t.Outcome("the point of failure was not reached")
		}
		p1, g1 := v.db.Puts, v.db.Gets
		v.put(o)
		l[o.id] = o.v
		what := fmt.Sprintf("%v, then %v failing at %v, then repeated", h, o, f)
		v.judge(t, s, what, l)
		t.State(level, s.name, h, o, f)
		// and the tree works on
		x := setOp{ids[1], 31}
		v.put(x)
		l[x.id] = x.v
		v.judgeTree(t, s, what+", then "+x.String(), l, o.id)
		if !full && level == "set" {
			continue
		}
		// a second failure while repeating
		for _, f2 := range faultsFor(v.db.Puts-p1, v.db.Gets-g1) {
			if !full {
				break
			}
			if !f2.put && f2.after || !f.put && f.after && f2.put && f2.after {
				continue // a read that finds nothing is as good as one that panics
			}
			v, l := fresh()
			v.try(t, f, o)
			v.try(t, f2, o)
			v.put(o)
			l[o.id] = o.v
			if level == "set" && f2.k > 1 {
				V, _ := v.set.Root()
				tot := v.set.ProveTot()
				if l.Sum().Int64() != int64(tot.Sum) || tot.Verify(s.pp(), V) != nil {
					t.Fatalf("%s, failing again at %v: the total is %d instead of %s", what, f2, tot.Sum, l.Sum())
				}
				t.Eval()
			} else {
				v.judgeTree(t, s, fmt.Sprintf("%s, failing again at %v", what, f2), l, o.id)
			}
			t.State(level, s.name, h, o, f, f2)
		}
		// other operations and reads before it is repeated
		for _, x := range ids {
			if x == o.id {
				continue
			}
			v, l := fresh()
			v.try(t, f, o)
			between := setOp{x, 77}
			v.put(between)
			l[x] = 77
			v.put(o)
			l[o.id] = o.v
			v.judgeTree(t, s, fmt.Sprintf("%v, then %v failing at %v, then %v, then repeated", h, o, f, between), l, o.id)
			t.State(level, s.name, h, o, f, between)
		}
		if len(h) > 0 {
			v, l := fresh()
			v.try(t, f, o)
			if v.set != nil {
				Try(func() { v.set.Root() })
				Try(func() { v.set.ProveTot() })
				Try(func() { v.set.Get(o.id) })
				Try(func() { v.set.ProveLiability(h[0].id) })
			} else {
				Try(func() { v.tree.Get(o.id) })
				Try(func() { v.tree.Get(h[0].id) })
			}
			v.put(o)
			l[o.id] = o.v
			v.judgeTree(t, s, fmt.Sprintf("%v, then %v failing at %v, then reads, then repeated", h, o, f), l, o.id)
			// another amount instead
			v, l = fresh()
			v.try(t, f, o)
			y := setOp{o.id, o.v + 3}
			v.put(y)
			l[y.id] = y.v
			v.judgeTree(t, s, fmt.Sprintf("%v, then %v failing at %v, then %v instead", h, o, f, y), l, o.id)
		}
	}
	t.Outcome(fmt.Sprintf("%d points of failure", len(fs)))
}

// readsC18 interrupts every call that only reads.
func readsC18(t *T, s shape, h []setOp) {
	type world struct{ DB map[string][]byte }
	for _, call := range []struct {
		name string
		f    func(ls *pol.LiabilitySet)
	}{
		{"Root", func(ls *pol.LiabilitySet) { ls.Root() }},
		{"ProveTot", func(ls *pol.LiabilitySet) { ls.ProveTot() }},
		{"Get", func(ls *pol.LiabilitySet) { ls.Get(h[0].id) }},
		{"ProveLiability", func(ls *pol.LiabilitySet) { ls.ProveLiability(h[0].id) }},
	} {
		for k2 := 2; k2 < 100; k2++ {
			k, missing := k2/2, k2%2 == 1
			ls, l, db := build(s, h)
			before := db.Snapshot()
			V0, _ := ls.Root()
			gets := db.Gets
			fault{false, k, missing}.arm(db)
			p, _ := Try(func() { call.f(ls) })
			disarm(db)
			t.Step()
			t.Eval()
			if p == nil && db.Gets-gets < k {
				break // there are no further reads
			}
			if db.Snapshot() != before {
				t.Fatalf("%v: %s failing at read %d changed the database", h, call.name, k)
			}
			V1, _ := ls.Root()
			if !V0.Equals(V1) {
				t.Fatalf("%v: %s failing at read %d changed the root", h, call.name, k)
			}
			proveAll(t, s, ls, l, nil)
			t.State("reads", s.name, h, call.name, k)
		}
	}
}
