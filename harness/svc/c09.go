package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

// dict is the reference: which id each key has.
type dict struct {
	mu  sync.Mutex
	ids map[string]uint64
	key map[uint64]string
}

// learn records an answer of the dictionary and judges it.
func (d *dict) learn(t *zv.T, k string, id uint64, what string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	t.Eval(1)
	if old, ok := d.ids[k]; ok && old != id {
		t.Fail("id-changed", "%s: key %s had id %d and now has %d", what, short(k), old, id)
		return
	}
	if old, ok := d.key[id]; ok && old != k {
		t.Fail("id-shared", "%s: keys %s and %s share id %d", what, short(old), short(k), id)
		return
	}
	d.ids[k], d.key[id] = id, k
}

func short(k string) string {
	if len(k) > 60 {
		return fmt.Sprintf("%q…(%d bytes)", k[:60], len(k))
	}
	return fmt.Sprintf("%q", k)
}

func dictKey(r *rand.Rand, vocab int, long bool) string {
	switch r.Intn(9) {
	case 0:
		return fmt.Sprintf("%d:%d:k%d=v%d", r.Intn(4), r.Intn(14), r.Intn(vocab), r.Intn(4))
	case 1:
		b := make([]byte, r.Intn(6)) // short binary keys, the empty one too
		r.Read(b)
		return string(b)
	case 2: // looks like internal keys
		return []string{"seq", "keys", "ids", "0seq", "ids\x00\x00\x00\x00\x00\x00\x00\x01", "keyskeys"}[r.Intn(6)]
	case 3:
		if long {
			n := []int{1000, 32 << 10, 32<<10 - 1, 32<<10 + 1, 32<<10 + 32, 60000, 64980, 65000, 65536, 70000}[r.Intn(10)]
			k := strings.Repeat("x", n-1) + string(rune('a'+r.Intn(3)))
			if r.Intn(2) == 0 {
				k = string(rune('a'+r.Intn(3))) + k[1:]
			}
			return k
		}
		fallthrough
	default:
		return fmt.Sprintf("key-%d", r.Intn(vocab))
	}
}

// checkDict asks everything back.
func checkDict(t *zv.T, tr *translate.Translate, d *dict, what string) {
	var ids []uint64
	var want []string
	n := 0
	for k, id := range d.ids {
		if n++; n > 300 {
			break
		}
		got, err := tr.Find([]byte(k))
		t.Eval(1)
		if err != nil || got != id {
			t.Fatal("find", "%s: Find(%s) = %d, %v; its id is %d", what, short(k), got, err, id)
		}
		kk, err := tr.TranslateID(id)
		if err != nil || kk != k {
			t.Fatal("reverse", "%s: id %d is key %s, got %s, %v", what, id, short(k), short(kk), err)
		}
		ids = append(ids, id)
		want = append(want, k)
	}
	i := 0
	err := tr.TranslateBulkID(ids, func(k []byte) error {
		if i < len(want) && string(k) != want[i] {
			t.Fail("bulk", "%s: bulk translation of %d gives %s, want %s", what, ids[i], short(string(k)), short(want[i]))
		}
		i++
		return nil
	})
	if err != nil || i != len(ids) {
		t.Fatal("bulk", "%s: bulk translation of %d ids gave %d, %v", what, len(ids), i, err)
	}
	for _, k := range []string{"never-seen", "", "keysnever", strings.Repeat("y", 40000)} {
		if _, ok := d.ids[k]; ok {
			continue
		}
		t.Eval(1)
		if id, err := tr.Find([]byte(k)); !errors.Is(err, badger.ErrKeyNotFound) {
			t.Fatal("find-unknown", "%s: Find of unknown key %s = %d, %v", what, short(k), id, err)
		}
	}
}

func dictRun(t *zv.T, disk bool, workers, ops, vocab int, long bool) {
	db, err := kit.DB(t.Dir, !disk)
	t.Must(err)
	defer func() { db.Close() }()
	// a second dictionary in the same database must not interfere
	// a prefix with spare capacity, as strconv and bytes make them
	pre := append(make([]byte, 0, 64), kit.TranslatePrefix()...)
	other, err := translate.New(db, []byte("other"))
	t.Must(err)
	d := &dict{ids: map[string]uint64{}, key: map[uint64]string{}}
	od := &dict{ids: map[string]uint64{}, key: map[uint64]string{}}
	gens := 2 + t.Rand.Intn(2)
	for g := 0; g < gens; g++ {
		tr, err := translate.New(db, pre)
		t.Must(err)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			r := rand.New(rand.NewSource(t.Rand.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < ops; i++ {
					k := []byte(dictKey(r, vocab, long))
					x, dd := tr, d
					if r.Intn(8) == 0 {
						x, dd = other, od
					}
					id, err := x.TranslateKey(k)
					if err != nil {
						t.Fail("translate-error", "translating %s failed: %v", short(string(k)), err)
						return
					}
					dd.learn(t, string(k), id, fmt.Sprint("generation ", g))
					if r.Intn(4) == 0 {
						kk, err := x.TranslateID(id)
						if err != nil || kk != string(k) {
							t.Fail("reverse", "id %d was just given for %s, it translates back to %s, %v", id, short(string(k)), short(kk), err)
						}
					}
					if r.Intn(8) == 0 {
						// reuse of the caller's memory must not matter
						copy(k, bytes.Repeat([]byte("#"), len(k)))
					}
				}
			}()
		}
		wg.Wait()
		checkDict(t, tr, d, fmt.Sprint("generation ", g))
		checkDict(t, other, od, fmt.Sprint("other dictionary, generation ", g))
		if t.Rand.Intn(3) > 0 {
			tr.Close() // else: as after a crash
			t.Count("clean_closes", 1)
		}
		if disk {
			other.Close()
			t.Must(db.Close())
			db, err = kit.DB(t.Dir, false)
			t.Must(err)
			other, err = translate.New(db, []byte("other"))
			t.Must(err)
			t.Count("database_reopened", 1)
		}
	}
	hi := uint64(0)
	for id := range d.key {
		hi = max(hi, id)
	}
	t.Count("keys", len(d.ids))
	t.Max("id", int(hi))
	t.Distinct(len(d.ids), hi, t.Case.Seed)
	t.Sample(map[string]any{"keys": len(d.ids), "highest_id": hi, "goroutines": workers})
}

func propC09() *zv.Prop {
	return &zv.Prop{
		ID:   "C09",
		Rule: "an execution drives the label dictionary through 2-3 generations (clean or abandoned) with 1-8 goroutines translating overlapping keys: ordinary, binary, empty, internal-looking and up to 70 kB long; a second dictionary shares the database. Oracle: a key has one id for ever, an id one key, lookups in both directions agree, unknown keys are not found. Executions count as distinct by keys seen and highest id",
		Families: []zv.Family{
			{Name: "sequential", Quick: 160, Thorough: 800, Run: func(t *zv.T) { dictRun(t, t.Rand.Intn(2) == 0, 1, 400, 150, true) }},
			{Name: "concurrent", Quick: 160, Thorough: 800, Run: func(t *zv.T) {
				dictRun(t, t.Rand.Intn(3) == 0, 2+t.Rand.Intn(7), 150, []int{20, 400}[t.Rand.Intn(2)], false)
			}},
			{Name: "past-the-lease", Quick: 16, Thorough: 40, Run: func(t *zv.T) { dictRun(t, t.Rand.Intn(2) == 0, 4, 4000, 20000, false) }},
		},
	}
}
