package c17

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// The output is a deterministic function of the inputs.

var formats = []string{"json", "json:pretty", "yaml", "yml", "go"}

type history struct {
	A, B model.Case
}

func opt(t *rapid.T) model.Opt {
	return model.Opt{Pkgs: 4, Decls: 4, Fields: 5, Named: 55, Twins: 50, Embed: 15, Tags: 40, Paths: 25, Docs: 3, Decoys: true, Wide: true, Overrides: 4, Root: true, Defaults: true, Disagree: true,
		Exports: rapid.SampledFrom([]int{0, 30, 60}).Draw(t, "exports")}
}

func gen(t *rapid.T) (h history) {
	h.A = weird(t, model.All(t, opt(t)))
	h.B = model.All(t, model.Opt{Pkgs: 2, Decls: 3, Fields: 3, Twins: 30, Exports: 30, Overrides: 2})
	return
}

// weird adds keys that sort alike in odd orders to a document.
func weird(t *rapid.T, c model.Case) model.Case {
	for i := range c.Pkgs {
		for k := range c.Pkgs[i].Docs {
			d, ok := c.Pkgs[i].Docs[k].Doc.(model.Obj)
			if !ok {
				continue
			}
			for n := rapid.IntRange(0, 3).Draw(t, "weird"); n > 0; n-- {
				key := kit.Key(t, "key")
				switch key {
				case "$ref", "openapi", "info", "components", "paths", "servers", "security", "tags", "externalDocs", "<<":
					continue
				}
				d[fmt.Sprintf("%s%d", key, i)] = kit.Value(t, kit.DocOpt{Depth: 2, Width: 3, Key: plainKey}, 2)
			}
		}
	}
	return c
}

func plainKey(t *rapid.T, label string) string {
	if k := kit.Key(t, label); k != "$ref" && k != "<<" {
		return k
	}
	return "ref"
}

type result struct {
	err error
	out [][]byte
}

func scan(c model.Case, dir string) (r result) {
	o, err := c.ScanAt(dir)
	if err != nil {
		return result{err: err}
	}
	for _, f := range formats {
		b, err := oapi.Format(f, o)
		if err != nil {
			return result{err: err}
		}
		b2, err := oapi.Format(f, o)
		if err != nil || !bytes.Equal(b, b2) {
			return result{err: fmt.Errorf("NOT DETERMINISTIC: formatting the same result twice as %s gives\n%s\nand (%v)\n%s", f, b, err, b2)}
		}
		r.out = append(r.out, b)
	}
	return
}

func same(a, b result) error {
	if (a.err == nil) != (b.err == nil) {
		return fmt.Errorf("one scan fails and another one does not: %v, %v", a.err, b.err)
	}
	for i := range a.out {
		if !bytes.Equal(a.out[i], b.out[i]) {
			return fmt.Errorf("format %s: outputs differ:\n%s\nand\n%s", formats[i], a.out[i], b.out[i])
		}
	}
	for _, r := range []result{a, b} {
		if r.err != nil && bytes.HasPrefix([]byte(r.err.Error()), []byte("NOT")) {
			return r.err
		}
	}
	return nil
}

func check(h history) error {
	dir, err := h.A.Write()
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	dir2, err := h.A.Write()
	defer os.RemoveAll(dir2)
	if err != nil {
		panic(err)
	}
	other, err := h.B.Write()
	defer os.RemoveAll(other)
	if err != nil {
		panic(err)
	}
	first := scan(h.A, dir)
	for i, x := range []func() result{
		func() result { return scan(h.A, dir) },
		func() result { scan(h.B, other); return scan(h.A, dir) },
		func() result { return scan(h.A, dir2) },
		func() result { return scan(h.A, dir) },
	} {
		if err := same(first, x()); err != nil {
			return fmt.Errorf("scan %d: %v\n%s", i+2, err, h.A.Source())
		}
	}
	return nil
}

// ---- histories ----

type steps struct {
	Cases []model.Case
	Order []int
	Same  bool // all in one directory
	Ways  int  // scans at a time afterwards
}

func genSteps(t *rapid.T) (s steps) {
	o := model.Opt{Pkgs: 3, Decls: 3, Fields: 3, Named: 55, Twins: 20, Paths: 20, Tags: 20, Overrides: 2, Root: true, Defaults: true, Exports: rapid.SampledFrom([]int{0, 30, 60}).Draw(t, "exports")}
	first := model.All(t, o)
	s.Cases = append(s.Cases, first)
	for n := rapid.IntRange(1, 3).Draw(t, "more"); n > 0; n-- {
		c := model.All(t, o)
		switch rapid.IntRange(0, 3).Draw(t, "related") {
		case 0: // the program stays, the configuration changes
			c = model.Case{Pkgs: first.Pkgs, Scan: first.Scan, Mod: first.Mod}
			if rapid.Bool().Draw(t, "with overrides") && len(first.Conf) > 0 {
				conf := kit.Copy(first.Conf).(model.Obj)
				for _, k := range []string{"overrides", "operations", "components", "info"} {
					if rapid.Bool().Draw(t, "without "+k) {
						delete(conf, k)
					}
				}
				c.Conf = conf
			}
		case 1: // comments go
			c = again(first)
			for i := range c.Pkgs {
				c.Pkgs[i].Exports = nil
			}
		}
		s.Cases = append(s.Cases, c)
	}
	s.Order = rapid.SliceOfN(rapid.IntRange(0, len(s.Cases)-1), 2, 5).Draw(t, "order")
	s.Same = rapid.Bool().Draw(t, "same")
	s.Ways = rapid.SampledFrom([]int{0, 2, 4}).Draw(t, "ways")
	return
}

func again(c model.Case) (d model.Case) {
	b, err := json.Marshal(c)
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		panic(err)
	}
	return
}

func checkSteps(s steps) error {
	tell := func(i int, what string, err error) error {
		return fmt.Errorf("scans %v in one process, %s of program %d: %v", s.Order, what, i, err)
	}
	dirs := make([]string, len(s.Cases))
	for i, c := range s.Cases {
		d, err := c.Write()
		defer os.RemoveAll(d)
		if err != nil {
			panic(err)
		}
		dirs[i] = d
	}
	one, err := os.MkdirTemp("", "one")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(one)
	run := func(i int, dir string) ([]byte, error) {
		o, err := s.Cases[i].ScanAt(dir)
		if err != nil {
			return nil, err
		}
		return oapi.Format("json", o)
	}
	judge := func(i int, what string, b []byte, err error) error {
		var v interface{}
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err := s.Cases[i].Judge(v, err); err != nil {
			return tell(i, what, err)
		}
		return nil
	}
	for _, i := range s.Order {
		dir := dirs[i]
		if s.Same {
			dir = filepath.Join(one, "m")
			if err := os.Rename(dirs[i], dir); err != nil {
				panic(err)
			}
		}
		b, err := run(i, dir)
		if s.Same {
			if err := os.Rename(dir, dirs[i]); err != nil {
				panic(err)
			}
		}
		if err := judge(i, "a scan", b, err); err != nil {
			return err
		}
	}
	if s.Ways == 0 {
		return nil
	}
	type res struct {
		b   []byte
		err error
	}
	rs := make([]res, s.Ways)
	done := make(chan bool)
	for k := range rs {
		go func() {
			defer func() {
				if p := recover(); p != nil {
					rs[k].err = fmt.Errorf("panic: %v", p)
				}
				done <- true
			}()
			i := s.Order[k%len(s.Order)]
			rs[k].b, rs[k].err = run(i, dirs[i])
		}()
	}
	for range rs {
		<-done
	}
	for k, r := range rs {
		if err := judge(s.Order[k%len(s.Order)], fmt.Sprintf("one of %d scans at the same time", s.Ways), r.b, r.err); err != nil {
			return err
		}
	}
	return nil
}

func class(c model.Case) (i kit.Info) {
	i = model.Class(c)
	n := len(c.Pkgs)
	i.Label(n > 2, "3 and more packages")
	d, _ := c.Conf["operations"].(model.Obj)
	i.Label(len(d) > 1, "several defaults")
	o, _ := c.Conf["overrides"].(model.Obj)
	i.Label(len(o) > 1, "several overrides")
	i.Nontrivial = true
	return
}

// ---- fresh processes ----

type fresh struct {
	C      model.Case
	Format string
}

func genFresh(t *rapid.T) (f fresh) {
	o := opt(t)
	o.NoArrays = true
	f.C = weird(t, model.All(t, o))
	f.Format = rapid.SampledFrom(formats).Draw(t, "format")
	return
}

func checkFresh(f fresh) error {
	dir, err := f.C.Write()
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	args := []string{"--dir", f.C.ScanDir(dir), "--format", f.Format}
	if len(f.C.Conf) > 0 {
		b, _ := json.Marshal(f.C.RealConf())
		conf := filepath.Join(dir, "config.json")
		if err := os.WriteFile(conf, b, 0o644); err != nil {
			panic(err)
		}
		args = append(args, "--config", conf)
	}
	run := func() (string, bool) {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), args...)
		var out, msg bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &msg
		if err := cmd.Run(); err != nil {
			if _, ok := err.(*exec.ExitError); !ok {
				panic(err)
			}
			return msg.String(), false
		}
		return out.String(), true
	}
	a, ok := run()
	for i := 0; i < 2; i++ {
		b, ok2 := run()
		if ok != ok2 {
			return fmt.Errorf("one run fails and another one does not:\n%s\nand\n%s\n%s", a, b, f.C.Source())
		}
		if ok && a != b {
			return fmt.Errorf("outputs differ:\n%s\nand\n%s\n%s", a, b, f.C.Source())
		}
	}
	// the library gives the same
	o, err := f.C.ScanAt(dir)
	if (err == nil) != ok {
		return fmt.Errorf("the command gives\n%s\nthe library: %v\n%s", a, err, f.C.Source())
	}
	if err == nil {
		b, err := oapi.Format(f.Format, o)
		if err != nil || string(b) != a {
			return fmt.Errorf("the command gives\n%s\nthe library (%v)\n%s\n%s", a, err, b, f.C.Source())
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	kit.Run(t, "C17",
		kit.P[history]{
			Name:  "in process",
			Rule:  "modules with identical structures, exports, overrides, disagreeing defaults, root sections and odd keys, scanned five times, also after another module and from another directory, formatted twice in all formats; outputs have to be the same bytes; every case is non-trivial",
			Gen:   gen,
			Check: check,
			Class: func(h history) kit.Info { return class(h.A) },
			Quick: 500, Thorough: 10000,
		},
		kit.P[steps]{
			Name:  "histories",
			Rule:  "2-4 programs which share names, or the same one with other settings or without export comments, scanned in a random order in one process, in directories of their own or one after another in the same one, then several at the same time; every document has to be the one of the reference model; every case is non-trivial",
			Gen:   genSteps,
			Check: checkSteps,
			Class: func(s steps) (i kit.Info) {
				i.Nontrivial = true
				i.Label(s.Same, "in one directory")
				i.Label(s.Ways > 0, "at the same time")
				return
			},
			Quick: 320, Thorough: 6000,
		},
		kit.P[fresh]{
			Name:  "fresh processes",
			Rule:  "such modules given to three runs of the command and to the library; outputs have to be the same bytes; every case is non-trivial",
			Gen:   genFresh,
			Check: checkFresh,
			Class: func(f fresh) kit.Info { return class(f.C) },
			Quick: 60, Thorough: 1500, Timeout: 400 * time.Second,
		})
}
