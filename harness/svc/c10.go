package main

import (
	"bufio"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

func init() {
	// ids DIR N: hands out ids until killed
	zv.Children["ids"] = func(a []string) {
		n, _ := strconv.Atoi(a[1])
		db, err := kit.DB(a[0], false)
		if err != nil {
			fmt.Println("noopen", err)
			return
		}
		tr, err := translate.New(db, kit.TranslatePrefix())
		if err != nil {
			fmt.Println("fail", err)
			return
		}
		s, err := seq.New(db)
		if err != nil {
			fmt.Println("fail", err)
			return
		}
		for i := 0; i < n; i++ {
			syscall.Write(1, []byte(fmt.Sprintln(s.SampleID())))
			if i%16 == 0 {
				tr.TranslateKey([]byte(fmt.Sprint(i)))
			}
		}
		if a[2] == "close" {
			s.Release()
			tr.Close()
			db.Close()
		}
		time.Sleep(time.Minute)
	}
}

func propC10() *zv.Prop {
	inproc := func(t *zv.T, workers, n int) {
		disk := t.Rand.Intn(2) == 0
		db, err := kit.DB(t.Dir, !disk)
		t.Must(err)
		defer func() { db.Close() }()
		floor, first := uint64(0), true
		gens := 2 + t.Rand.Intn(3)
		for g := 0; g < gens; g++ {
			s, err := seq.New(db)
			t.Must(err)
			got := make([][]uint64, workers)
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < n; i++ {
						got[w] = append(got[w], s.SampleID())
					}
				}()
			}
			wg.Wait()
			all := map[uint64]bool{}
			hi := floor
			for w := range got {
				last := uint64(0)
				for i, id := range got[w] {
					if all[id] {
						t.Fatal("duplicate", "id %d was handed out twice in generation %d", id, g)
					}
					all[id] = true
					if i > 0 && id <= last {
						t.Fatal("order", "one caller got id %d after %d", id, last)
					}
					last = id
					if !first && id <= floor {
						t.Fatal("reuse", "id %d was handed out after a restart, earlier generations reached %d", id, floor)
					}
					hi = max(hi, id)
				}
			}
			t.Eval(workers * n)
			floor, first = hi, false
			if t.Rand.Intn(2) == 0 {
				s.Release()
				t.Count("released", 1)
			} else {
				t.Count("abandoned", 1)
			}
			if disk && t.Rand.Intn(2) == 0 {
				t.Must(db.Close())
				db, err = kit.DB(t.Dir, false)
				t.Must(err)
			}
		}
		t.Max("id", int(floor))
		t.Distinct(workers, n, gens, floor)
		t.Sample(map[string]any{"generations": gens, "callers": workers, "per_caller": n, "highest": floor})
	}
	crash := func(t *zv.T) {
		floor, first := uint64(0), true
		for round := 0; round < 3; round++ {
			mode := []string{"close", "keep"}[t.Rand.Intn(2)]
			cmd := t.Child("ids", t.Dir, fmt.Sprint(50+t.Rand.Intn(3000)), mode)
			out, err := cmd.StdoutPipe()
			t.Must(err)
			t.Must(cmd.Start())
			kill := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
			stopAt := 1 + t.Rand.Intn(3000)
			sc := bufio.NewScanner(out)
			n, last := 0, uint64(0)
			killed := false
			for sc.Scan() {
				if strings.HasPrefix(sc.Text(), "noopen") && round > 0 {
					// the key-value store does not survive every kill, which
					// is told as findings of C06 and hands out no id
					t.Count("unopenable_after_kill", 1)
					cmd.Process.Kill()
					cmd.Wait()
					return
				}
				id, err := strconv.ParseUint(sc.Text(), 10, 64)
				if err != nil {
					t.Fatal("recovery", "id server: %s", sc.Text())
				}
				t.Eval(1)
				if !first && id <= floor {
					t.Fatal("reuse", "id %d was handed out after a crash, earlier incarnations reached %d", id, floor)
				}
				if n > 0 && id <= last {
					t.Fatal("order", "id %d after %d", id, last)
				}
				last = id
				n++
				if n >= stopAt && !killed {
					killed = true
					cmd.Process.Kill()
				}
				if n == 49 && stopAt > 2000 {
					time.AfterFunc(time.Duration(t.Rand.Intn(50))*time.Millisecond, func() { cmd.Process.Kill() })
				}
				if n%50 == 0 && !killed {
					kill.Reset(3 * time.Second)
				}
			}
			cmd.Wait()
			kill.Stop()
			if n > 0 {
				floor, first = last, false
			}
			t.Count("crashes", 1)
			t.Count("ids", n)
		}
		t.Distinct("crash", floor, t.Case.Seed)
		t.Max("id", int(floor))
	}
	return &zv.Prop{
		ID:   "C10",
		Rule: "an execution takes sample ids from 1-8 callers at once through 2-4 generations of the id sequence (released, abandoned or killed with SIGKILL, database reopened or not), crossing the end of a lease in some; oracle: no id is handed out twice, ever, each caller sees increasing ids, and a later generation's ids are above all earlier ones. Distinct by shape and highest id",
		Families: []zv.Family{
			{Name: "callers", Quick: 80, Thorough: 800, Run: func(t *zv.T) { inproc(t, 1+t.Rand.Intn(8), 1+t.Rand.Intn(4000)) }},
			{Name: "past-the-lease", Quick: 8, Thorough: 30, Run: func(t *zv.T) { inproc(t, 4, 1<<18+t.Rand.Intn(200000)) }},
			{Name: "killed", Quick: 32, Thorough: 300, Run: crash},
		},
	}
}
