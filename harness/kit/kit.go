// Package kit runs the parts of a property: generated cases against an oracle, with
// counting, crash and hang capture, and replay of a stored case.
package kit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Info classifies a case.
type Info struct {
	Nontrivial bool
	Labels     []string
}

// Label adds a label when cond holds.
func (i *Info) Label(cond bool, l string) {
	if cond {
		i.Labels = append(i.Labels, l)
	}
}

// Part is one generated check of a property.
type Part interface {
	name() string
	run(t *testing.T, e *env)
	replay(raw json.RawMessage) error
}

// P is a Part over cases of type C (which must survive JSON).
type P[C any] struct {
	Name     string
	Rule     string // how cases are made and what makes one non-trivial
	Gen      func(t *rapid.T) C
	Check    func(c C) error
	Class    func(c C) Info
	Quick    int // cases over all shards
	Thorough int
	Timeout  time.Duration // a case taking longer is taken for a hang (confirmed alone)
}

type partStats struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Seconds     float64        `json:"seconds"`
}

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type env struct {
	id      string
	out     string
	tier    string
	seed    uint64
	shard   int
	shards  int
	cur     *os.File
	started atomic.Int64 // unix nanos of the running case, 0 if none
	limit   atomic.Int64
	hashes  map[string]map[uint64]struct{}
	stats   []*partStats
	mu      sync.Mutex
}

func (p P[C]) name() string { return p.Name }

// guarded runs the check, turning a panic into an error.
func guarded[C any](check func(C) error, c C) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return check(c)
}

func trimStack(b []byte) []byte {
	if i := bytes.Index(b, []byte("panic(")); i >= 0 {
		b = b[i:]
	}
	if len(b) > 2000 {
		b = b[:2000]
	}
	return b
}

func (p P[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("replay file: %w", err)
	}
	return guarded(p.Check, c)
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (p P[C]) run(t *testing.T, e *env) {
	n := p.Quick
	if e.tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 10
		}
	}
	if v := os.Getenv("VERIF_SCALE"); v != "" {
		f, _ := strconv.ParseFloat(v, 64)
		n = int(float64(n) * f)
	}
	n = (n + e.shards - 1) / e.shards
	if n < 1 {
		n = 1
	}
	lim := p.Timeout
	if lim == 0 {
		lim = 60 * time.Second
	}
	e.limit.Store(int64(lim))
	seed := hash([]byte(fmt.Sprintf("%s/%s/%d/%d", e.id, p.Name, e.seed, e.shard)))
	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	shrink := os.Getenv("VERIF_SHRINK")
	if shrink == "" {
		shrink = "40s"
	}
	must(flag.Set("rapid.shrinktime", shrink))

	st := &partStats{Name: p.Name, Rule: p.Rule, Labels: map[string]int{}}
	seen := map[uint64]struct{}{}
	e.mu.Lock()
	e.stats = append(e.stats, st)
	e.hashes[p.Name] = seen
	e.mu.Unlock()
	begin := time.Now()
	var last *failure
	defer func() {
		st.Seconds = time.Since(begin).Seconds()
		e.started.Store(0)
		if last != nil {
			b, _ := json.MarshalIndent(last, "", " ")
			must(os.WriteFile(filepath.Join(e.out, "fail-"+p.Name+".json"), b, 0o644))
		}
	}()
	next := 1
	rapid.Check(t, func(rt *rapid.T) {
		c := p.Gen(rt)
		raw, err := json.Marshal(c)
		if err != nil {
			panic("case does not marshal: " + err.Error())
		}
		// What is stored must be what is checked.
		var c2 C
		if err := json.Unmarshal(raw, &c2); err != nil {
			panic("case does not unmarshal: " + err.Error() + " " + string(raw))
		}
		if last == nil {
			st.Evaluations++
			info := Info{Nontrivial: true}
			if p.Class != nil {
				info = p.Class(c2)
			}
			for _, l := range info.Labels {
				st.Labels[l]++
			}
			if info.Nontrivial {
				st.Nontrivial++
				seen[hash(raw)] = struct{}{}
				if st.Nontrivial == next && len(st.Samples) < 3 {
					s := string(raw)
					if len(s) > 1500 {
						s = s[:1500] + "..."
					}
					st.Samples = append(st.Samples, s)
					next *= 7
				}
			}
		}
		e.begin(p.Name, raw)
		err = guarded(p.Check, c2)
		e.started.Store(0)
		if err != nil {
			last = &failure{Property: e.id, Part: p.Name, Error: err.Error(), Case: raw}
			rt.Fatalf("%s", firstLine(err.Error()))
		}
	})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (e *env) begin(part string, raw []byte) {
	hdr := []byte(fmt.Sprintf("%s %d\n", part, len(raw)))
	e.cur.WriteAt(append(hdr, raw...), 0)
	e.started.Store(time.Now().UnixNano())
}

func (e *env) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := e.started.Load()
		if s != 0 && time.Now().UnixNano()-s > e.limit.Load() {
			os.WriteFile(filepath.Join(e.out, "hang"), []byte("hang"), 0o644)
			os.Exit(3)
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			f := strings.Fields(string(b))
			if len(f) > 1 {
				if pages, _ := strconv.Atoi(f[1]); pages*4096 > 2500<<20 {
					os.WriteFile(filepath.Join(e.out, "hang"), []byte("memory"), 0o644)
					os.Exit(3)
				}
			}
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Run is the body of the one test of a property's package.
func Run(t *testing.T, id string, parts ...Part) {
	debug.SetMaxStack(64 << 20)
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		must(err)
		var fl failure
		must(json.Unmarshal(b, &fl))
		for _, p := range parts {
			if p.name() == fl.Part {
				if err := p.replay(fl.Case); err != nil {
					t.Fatalf("REPLAY-FAILS %s/%s: %v", id, fl.Part, err)
				}
				fmt.Println("REPLAY-PASSES")
				return
			}
		}
		t.Skipf("no part %q", fl.Part)
		return
	}
	e := &env{id: id, tier: os.Getenv("VERIF_TIER"), out: os.Getenv("VERIF_OUT"), hashes: map[string]map[uint64]struct{}{}, shards: 1}
	if e.out == "" {
		e.out = t.TempDir()
	}
	if v := os.Getenv("VERIF_SHARD"); v != "" {
		fmt.Sscanf(v, "%d/%d", &e.shard, &e.shards)
	}
	e.seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	var err error
	e.cur, err = os.Create(filepath.Join(e.out, "current"))
	must(err)
	go e.watchdog()
	only := os.Getenv("VERIF_PART")
	for _, p := range parts {
		if only != "" && p.name() != only {
			continue
		}
		t.Run(p.name(), func(t *testing.T) { p.run(t, e) })
	}
	e.save()
}

func (e *env) save() {
	b, err := json.Marshal(e.stats)
	must(err)
	must(os.WriteFile(filepath.Join(e.out, "stats.json"), b, 0o644))
	names := []string{}
	for n := range e.hashes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		buf := make([]byte, 0, 8*len(e.hashes[n]))
		for h := range e.hashes[n] {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		must(os.WriteFile(filepath.Join(e.out, "hashes-"+n), buf, 0o644))
	}
}
