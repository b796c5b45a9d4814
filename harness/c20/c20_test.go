package c20

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// The command exits non-zero on failure and writes only complete output.

type obj = map[string]interface{}

type tc struct {
	C      model.Case
	Wd     string // working directory in the scratch directory: "work", "mod" (the scanned package), "out"
	Config string // how the configuration is given: "" (not), "rel", "abs"
	Yaml   bool
	// settings: in the configuration and as flags; "" is absent
	CDir, FDir       string // "right", "wrong", "rel", "abs"
	CFormat, FFormat string
	COut, FOut       string // kind of destination
	Level            string
	Name             string // part of file names and directories
	Perm             int    // permissions of it, 0: the usual ones
	Old              int    // size of an existing output file, -1: there is none
	Fault            string // something else that is wrong
	Signal           int    // 0: none
	After            int    // milliseconds to the signal
	Limit            bool   // files cannot grow beyond a block
	Full             bool   // standard output is a full device
}

var formats = []string{"json", "json:pretty", "yaml", "yml", "go"}
var outs = []string{"stdout", "stderr", "file", "file", "file", "absfile", "deep", "link", "dangling"}
var badOuts = []string{"nodir", "isdir", "underfile", "full"}
var faults = []string{"flag", "level", "format flag", "format setting", "no config", "bad config", "bad setting", "dir", "code", "reference", "argument", "out", "empty flag"}

func gen(t *rapid.T) (c tc) {
	p := func(percent int) bool { return rapid.IntRange(0, 99).Draw(t, "p") >= 100-percent }
	pick := func(l []string) string { return rapid.SampledFrom(l).Draw(t, "pick") }
	c.C = model.All(t, model.Opt{Pkgs: 2, Decls: 2, Fields: 3, NoArrays: true, Root: true, Defaults: true, Overrides: 1, Exports: 20})
	c.Wd = pick([]string{"work", "mod", "mod", "out"})
	c.Config = pick([]string{"", "rel", "abs", "abs"})
	c.Level = pick([]string{"", "", "nolog", "panic", "fatal", "error", "warn", "info", "debug", "trace"})
	if p(40) {
		c.Name = pick([]string{"$HOME", "${x}", "~", "a b", "%s", "*", "[a]", "é", "a,b", "-x", "x=y", "#", "file:", "?q", "..x", "\\", "'", "stdout", "nul", "x.yaml.json"})
	}
	c.Old = rapid.SampledFrom([]int{-1, 0, 10, 100000, 100000}).Draw(t, "old")
	c.Perm = rapid.SampledFrom([]int{0, 0600, 0640, 0644, 0664, 0755, 0700, 0666}).Draw(t, "perm")
	if c.Config != "" {
		c.Yaml = rapid.Bool().Draw(t, "yaml")
		c.CDir = pick([]string{"", "rel", "rel", "abs", "wrong"})
		if p(60) {
			c.CFormat = pick(formats)
		}
		if p(60) {
			c.COut = pick(outs)
		}
	}
	if c.CDir == "wrong" || p(40) || c.CDir == "" && c.Wd != "mod" {
		c.FDir = pick([]string{"rel", "abs"})
	}
	if p(50) {
		c.FFormat = pick(formats)
	}
	if p(50) || c.COut == "" && p(80) {
		c.FOut = pick(outs)
	}
	if c.FDir != "" && (c.COut == "file" || c.COut == "deep") { // relative to which dir is not specified
		c.COut = "absfile"
	}
	if rapid.IntRange(0, 1).Draw(t, "fails") == 1 {
		c.Fault = pick(faults)
	}
	switch c.Fault {
	case "no config", "bad config", "bad setting", "format setting":
		if c.Config == "" {
			c.Config = "abs"
		}
		if c.Fault == "format setting" {
			c.FFormat = ""
			c.CFormat = pick([]string{"xml", "JSON", "pretty", "json:Pretty"})
		}
	case "dir":
		c.FDir = "wrong"
	case "out":
		bad := pick(badOuts)
		if c.FOut != "" || c.Config == "" {
			c.FOut = bad
		} else {
			c.COut = bad
		}
	case "code":
		k := rapid.IntRange(0, len(c.C.Pkgs)-1).Draw(t, "broken")
		if !c.C.Reachable()[k] {
			k = c.C.Scan
		}
		c.C.Pkgs[k].Extra = pick([]string{"\nfunc x() int { return \"\" }\n", "\nvar y = undefined\n", "\nfunc {\n", "\nvar z int = \"s\"\n"})
	case "reference":
		c.C.Pkgs[c.C.Scan].Docs = append(c.C.Pkgs[c.C.Scan].Docs[:0:0], model.DocFile{Name: "oapi.yaml", Doc: obj{"openapi": "3.0.0", "x-a": obj{"$ref": pick([]string{"go://#/Missing", "ftp://a/b#/C", "go://x.y/z#/A"})}}})
	}
	return
}

func genSignal(t *rapid.T) (c tc) {
	c = gen(t)
	for c.Fault != "" {
		c.Fault = ""
		c = gen(t)
	}
	switch rapid.IntRange(0, 5).Draw(t, "what") {
	case 0:
		c.Limit = true
		c.FOut = "file"
	case 1:
		c.Full = true
		c.FOut, c.COut = "", ""
	default:
		c.FOut = "file"
		c.Signal = rapid.SampledFrom([]int{int(syscall.SIGINT), int(syscall.SIGTERM), int(syscall.SIGKILL)}).Draw(t, "signal")
		c.After = rapid.IntRange(0, 600).Draw(t, "after")
	}
	return
}

type place struct {
	std  string // or the stream
	path string
	link string // a symbolic link to path, which stays one
}

func check(c tc) error {
	root, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	scratch := root
	defer os.RemoveAll(scratch)
	mod, err := c.C.Write()
	defer os.RemoveAll(mod)
	if err != nil {
		panic(err)
	}
	j := filepath.Join
	if c.Name != "" {
		root = filepath.Join(root, c.Name)
		to := filepath.Join(scratch, "m "+c.Name)
		if err := os.Rename(mod, to); err != nil {
			panic(err)
		}
		mod = to
	}
	for _, d := range []string{"work", "out/deep", "conf/sub", "elsewhere"} {
		if err := os.MkdirAll(j(root, d), 0o755); err != nil {
			panic(err)
		}
	}
	put := func(path, s string) {
		if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	target := c.C.ScanDir(mod)
	wd := map[string]string{"work": j(root, "work"), "out": j(root, "out"), "mod": target}[c.Wd]
	rel := func(from, to string) string {
		r, err := filepath.Rel(from, to)
		if err != nil {
			panic(err)
		}
		return r
	}
	confdir := j(root, "conf/sub")

	// directory
	dirValue := func(kind, base string) string {
		switch kind {
		case "rel":
			return rel(base, target)
		case "abs":
			return target
		case "wrong":
			return j(root, "none")
		}
		return ""
	}
	dir, okDir := wd, wd == target
	if c.CDir != "" {
		dir, okDir = target, c.CDir != "wrong"
	}
	if c.FDir != "" {
		dir, okDir = target, c.FDir != "wrong"
	}

	// destination
	outdir := j(root, "out")
	dest := func(kind, base, side string) (value string, p place, bad bool) {
		name := side + c.Name + ".txt"
		switch kind {
		case "stdout", "stderr":
			return kind, place{std: kind}, false
		case "file":
			p.path = j(outdir, name)
			return rel(base, p.path), p, false
		case "deep":
			p.path = j(outdir, "deep", name)
			return rel(base, p.path), p, false
		case "absfile":
			p.path = j(outdir, name)
			return p.path, p, false
		case "link", "dangling":
			p.path = j(root, "elsewhere", name)
			p.link = j(outdir, side+"-link")
			if err := os.Symlink(p.path, p.link); err != nil {
				panic(err)
			}
			return p.link, p, false
		case "nodir":
			return j(outdir, "none", name), p, true
		case "isdir":
			return j(outdir, "deep"), p, true
		case "underfile":
			put(j(outdir, "plain"), "x")
			return j(outdir, "plain", name), p, true
		case "full":
			return "/dev/full", p, true
		}
		return "", place{std: "stdout"}, false
	}
	cOut, cPlace, cBad := dest(c.COut, dir, "conf")
	fOut, fPlace, fBad := dest(c.FOut, wd, "flag")
	final, badOut := cPlace, cBad
	if c.FOut != "" {
		final, badOut = fPlace, fBad
	}

	// format
	format := "json:pretty"
	if c.CFormat != "" {
		format = c.CFormat
	}
	if c.FFormat != "" {
		format = c.FFormat
	}

	args := []string{}
	prog := c.C
	if c.Config != "" {
		conf := kit.Copy(obj(c.C.RealConf())).(obj)
		if conf == nil {
			conf = obj{}
		}
		for k, v := range map[string]string{"dir": dirValue(c.CDir, confdir), "format": c.CFormat, "output": cOut} {
			if v != "" {
				conf[k] = v
			}
		}
		if c.Fault == "bad setting" {
			conf["servers"] = "x"
		}
		file := j(confdir, "c"+c.Name+".json")
		text := kit.JSONText(conf)
		if c.Yaml {
			file = j(confdir, "c"+c.Name+".yaml")
			text = string(kit.YAML(conf, uint64(len(text))))
		}
		if c.Fault == "bad config" {
			text += "\n}{ : ["
		}
		if c.Fault != "no config" {
			put(file, text)
		}
		if c.Config == "rel" {
			file = rel(wd, file)
		}
		args = append(args, "--config", file)
	} else {
		prog.Conf = nil
	}
	flag := func(name, value string) {
		if value != "" {
			args = append(args, "--"+name+"="+value)
		}
	}
	flag("dir", dirValue(c.FDir, wd))
	flag("format", c.FFormat)
	flag("output", fOut)
	flag("loglevel", c.Level)
	switch c.Fault {
	case "flag":
		args = append(args, "--nothing")
	case "level":
		args = append(args, "--loglevel=loud")
		if c.Level != "" {
			args = append(args[:len(args)-2], args[len(args)-1])
		}
	case "format flag":
		args = append(args, "--format=xml")
	case "argument":
		args = append(args, "more")
	case "empty flag":
		args = append(args, "--config")
	}

	// what is to come
	var want []byte
	o, serr := prog.ScanAt(mod)
	if serr == nil {
		want, serr = oapi.Format(format, o)
	}
	ok := serr == nil && okDir && !badOut
	switch c.Fault {
	case "flag", "level", "format flag", "no config", "bad config", "bad setting", "argument", "empty flag":
		ok = false
	}
	if !okDir && c.Fault == "" && c.FDir == "" && c.CDir == "" {
		return nil // another directory is scanned
	}

	old := map[string]string{}
	kinds := map[string]string{"c": c.COut, "f": c.FOut}
	for side, p := range map[string]place{"c": cPlace, "f": fPlace} {
		if p.path != "" && c.Old >= 0 && kinds[side] != "dangling" {
			old[p.path] = strings.Repeat(side, c.Old)
			put(p.path, old[p.path])
			if c.Perm != 0 {
				os.Chmod(p.path, os.FileMode(c.Perm))
			}
		}
	}
	before := tree(root, mod)
	modes := perms(before)

	name, cargs := os.Getenv("VERIF_CLI"), args
	if c.Limit {
		name, cargs = "/bin/sh", append([]string{"-c", "ulimit -f 1; exec \"$0\" \"$@\"", name}, args...)
	}
	cmd := exec.Command(name, cargs...)
	cmd.Dir = wd
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.WaitDelay = 20 * time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.Full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	kill := time.AfterFunc(120*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	if c.Signal != 0 {
		time.Sleep(time.Duration(c.After) * time.Millisecond)
		if c.Signal == int(syscall.SIGKILL) {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // with what it has started
		} else {
			cmd.Process.Signal(syscall.Signal(c.Signal))
		}
	}
	werr := cmd.Wait()
	kill.Stop()
	if _, isExit := werr.(*exec.ExitError); werr != nil && !isExit && !(werr == exec.ErrWaitDelay && c.Signal != 0) {
		panic(werr)
	}
	zero := cmd.ProcessState.Success()
	say := func(format string, args2 ...interface{}) error {
		return fmt.Errorf("%s\nargs %q in %s\nexit %v, stdout %q\nstderr %q\n%s", fmt.Sprintf(format, args2...), args, c.Wd, cmd.ProcessState, cut(stdout.String()), cut(stderr.String()), c.C.Source())
	}
	after := tree(root, mod)
	// the complete document or nothing
	keptModes := func() string {
		for path, m := range perms(after) {
			if old, ok := modes[path]; ok && m != old {
				return fmt.Sprintf("permissions of file %s changed from %v to %v", path, old, m)
			}
		}
		return ""
	}
	complete := func() string {
		if s := keptModes(); s != "" {
			return s
		}
		for path, s := range after {
			if path != final.path && before[path] != s || path != final.path && !has(before, path) {
				return fmt.Sprintf("file %s was written: %q", path, cut(s))
			}
		}
		for path := range before {
			if !has(after, path) {
				return fmt.Sprintf("file %s is gone", path)
			}
		}
		if final.path != "" && after[final.path] != string(want) {
			return fmt.Sprintf("output file holds %q, want %q", cut(after[final.path]), cut(string(want)))
		}
		if final.std == "stdout" && stdout.String() != string(want) || final.std != "stdout" && stdout.Len() > 0 {
			return fmt.Sprintf("standard output is wrong, want %q", cut(string(want)))
		}
		if final.std == "stderr" && (c.Level == "" || c.Level == "nolog") && stderr.String() != string(want) || final.std == "stderr" && !strings.Contains(stderr.String(), string(want)) {
			return fmt.Sprintf("standard error is wrong, want %q", cut(string(want)))
		}
		return ""
	}
	untouched := func() string {
		if s := keptModes(); s != "" {
			return s
		}
		if d := kit.Diff(generic(before), generic(after)); d != "" {
			return "files changed: " + cut(d)
		}
		if stdout.Len() > 0 {
			return "standard output is not empty"
		}
		return ""
	}
	switch {
	case c.Signal == int(syscall.SIGKILL):
		if final.path != "" && after[final.path] != before[final.path] && after[final.path] != string(want) {
			return say("killed, the output file holds neither what it did nor the document: %q", cut(after[final.path]))
		}
		if final.path != "" && has(before, final.path) && !has(after, final.path) {
			return say("killed, the output file is gone")
		}
	case c.Signal != 0:
		if zero {
			if s := complete(); s != "" || !ok {
				return say("signal %d, exits zero: %s", c.Signal, s)
			}
		} else if s := untouched(); s != "" {
			return say("signal %d, exits non-zero: %s", c.Signal, s)
		}
	case c.Full:
		if zero {
			return say("exits zero although nothing could be written")
		}
		if stderr.Len() == 0 {
			return say("says nothing")
		}
	case c.Limit: // blocks are of 512 bytes or more
		if zero && len(want) > 1024 {
			return say("exits zero although the file cannot hold the document")
		}
		if zero {
			if s := complete(); s != "" || !ok {
				return say("exits zero: %s", s)
			}
		} else if s := untouched(); s != "" {
			return say("exits non-zero: %s", s)
		}
	case ok:
		if !zero {
			return say("has to succeed")
		}
		if s := complete(); s != "" {
			return say("%s", s)
		}
	default:
		if zero {
			return say("has to fail (%s%v)", c.Fault, serr)
		}
		if strings.TrimSpace(stderr.String()) == "" {
			return say("says nothing")
		}
		if s := untouched(); s != "" {
			return say("%s", s)
		}
	}
	return nil
}

func generic(m map[string]string) interface{} {
	o := obj{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

func cut(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-200:]
	}
	return s
}

// perms are the permissions of files.
func perms(files map[string]string) map[string]os.FileMode {
	out := map[string]os.FileMode{}
	for p := range files {
		if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
			out[p] = fi.Mode().Perm()
		}
	}
	return out
}

// tree reads all files.
func tree(roots ...string) map[string]string {
	out := map[string]string{}
	for _, r := range roots {
		filepath.Walk(r, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				out[p] = string(b)
			}
			if err == nil && fi.Mode()&os.ModeSymlink != 0 {
				l, _ := os.Readlink(p)
				out[p] = "link to " + l
			}
			return nil
		})
	}
	return out
}

func class(c tc) (i kit.Info) {
	i.Nontrivial = c.Fault != "" || c.FOut != "" || c.COut != "" || c.Config != "" || c.Signal != 0
	l := []string{}
	if c.Fault != "" {
		l = append(l, "fault: "+c.Fault)
	} else {
		l = append(l, "to succeed")
	}
	if c.Config != "" && (c.CDir != "" && c.FDir != "" || c.CFormat != "" && c.FFormat != "" || c.COut != "" && c.FOut != "") {
		l = append(l, "flag and setting")
	}
	sort.Strings(l)
	i.Labels = l
	i.Label(c.Old >= 0, "existing output")
	i.Label(c.Limit, "file size limit")
	i.Label(c.Full, "full standard output")
	i.Label(c.Signal != 0, fmt.Sprintf("signal %d", c.Signal))
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C20",
		kit.P[tc]{
			Name:  "runs",
			Rule:  "the command run on small modules with generated flags, configuration, working directory, destinations, existing output files and faults; exit status, streams and every file are compared with what is expected; non-trivial: a fault, a configuration or a destination",
			Gen:   gen,
			Check: check,
			Class: class,
			Quick: 320, Thorough: 6000, Timeout: 300 * time.Second,
		},
		kit.P[tc]{
			Name:  "interrupted",
			Rule:  "such runs without other faults, interrupted by a signal at a random moment, or with files that cannot grow or a full standard output; the output file has to be the old one or complete; every case is non-trivial",
			Gen:   genSignal,
			Check: check,
			Class: class,
			Quick: 160, Thorough: 4000, Timeout: 300 * time.Second,
		})
}
