package model

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/verifharness/kit"
)

// Write puts the module into a new directory.
func (c Case) Write() (dir string, err error) {
	dir, err = os.MkdirTemp("", "mod")
	if err != nil {
		return
	}
	for name, s := range c.Files() {
		p := filepath.Join(dir, filepath.FromSlash(name))
		if err = os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return
		}
		if err = os.WriteFile(p, []byte(s), 0o644); err != nil {
			return
		}
	}
	return
}

// ScanDir is the directory to scan in a written module.
func (c Case) ScanDir(dir string) string {
	return filepath.Join(dir, filepath.FromSlash(c.Real(c.Pkgs[c.Scan].Path)))
}

// Options of a scan as the command derives them from the configuration.
func (c Case) Options(dir string) ([]oapi.Option, error) {
	opts := []oapi.Option{oapi.WithDir(c.ScanDir(dir))}
	if len(c.Conf) == 0 {
		return opts, nil
	}
	b, err := json.Marshal(c.RealConf())
	if err != nil {
		return nil, err
	}
	cfg, err := config.ReadJSON(b)
	if err != nil {
		return nil, fmt.Errorf("configuration: %w", err)
	}
	if len(cfg.Overrides) > 0 {
		opts = append(opts, oapi.WithOverride(cfg.Overrides))
	}
	if len(cfg.Operations) > 0 {
		opts = append(opts, oapi.WithDefOps(cfg.Operations))
	}
	return append(opts, oapi.WithRootSchema(spec.OpenAPI{
		Info: cfg.Info, Servers: cfg.Servers, Components: cfg.Components, Security: cfg.Security, Tags: cfg.Tags, ExternalDocs: cfg.ExternalDocs,
	})), nil
}

// ScanAt scans a written module.
func (c Case) ScanAt(dir string) (oapi.OAPI, error) {
	opts, err := c.Options(dir)
	if err != nil {
		return oapi.OAPI{}, err
	}
	return oapi.Scan(context.Background(), opts...)
}

// Decode gives the document of a scan.
func Decode(o oapi.OAPI) (interface{}, error) {
	b, err := oapi.Format("json", o)
	if err != nil {
		return nil, err
	}
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, fmt.Errorf("json output: %v", err)
	}
	return v, nil
}

// Run writes and scans the module and gives the document.
func (c Case) Run() (doc interface{}, err error) {
	dir, err := c.Write()
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	o, err := c.ScanAt(dir)
	if err != nil {
		return nil, err
	}
	return Decode(o)
}

// Same compares documents: references by what they denote, required lists as sets.
func Same(want, got interface{}) string {
	return kit.Diff(normal(want), normal(got))
}

// Titled: an info without title or version may have it empty, both are required.
func Titled(want, got interface{}) interface{} {
	w, ok := want.(Obj)
	g, ok2 := got.(Obj)
	if !ok || !ok2 {
		return want
	}
	wi, ok := w["info"].(Obj)
	gi, ok2 := g["info"].(Obj)
	if !ok || !ok2 {
		return want
	}
	var out Obj
	for _, k := range []string{"title", "version"} {
		if _, ok := wi[k]; !ok && gi[k] == "" {
			if out == nil {
				out = kit.Copy(w).(Obj)
			}
			out["info"].(Obj)[k] = ""
		}
	}
	if out == nil {
		return want
	}
	return out
}

// Check scans the module and compares with the model.
func Check(c Case) error {
	want, err := c.Expect()
	if err == ErrUnspecified {
		return nil
	}
	if err == nil && c.Fail != "" {
		return nil // the fault got lost while the case was made smaller
	}
	got, gerr := c.Run()
	return c.judge(want, err, got, gerr)
}

// Judge compares the result of a scan with the model.
func (c Case) Judge(got interface{}, gerr error) error {
	want, err := c.Expect()
	if err == ErrUnspecified {
		return nil
	}
	return c.judge(want, err, got, gerr)
}

func (c Case) judge(want interface{}, err error, got interface{}, gerr error) error {
	switch {
	case err != nil && gerr == nil:
		return fmt.Errorf("the scan has to fail (%v) but gives %s\n%s", err, kit.JS(got), c.Source())
	case err != nil:
		return nil
	case gerr != nil:
		return fmt.Errorf("the scan fails: %v\nwant %s\n%s", gerr, kit.JS(want), c.Source())
	}
	if d := Same(Titled(want, got), got); d != "" {
		return fmt.Errorf("%s\ngot %s\n%s", d, kit.JS(got), c.Source())
	}
	return nil
}

// Source is the module as text, for messages.
func (c Case) Source() string {
	fs := c.Files()
	names := []string{}
	for n := range fs {
		names = append(names, n)
	}
	s := ""
	for _, n := range sorted(names) {
		if n != "go.mod" {
			s += "--- " + n + "\n" + fs[n] + "\n"
		}
	}
	if len(c.Conf) > 0 {
		s += "--- configuration\n" + kit.JS(c.RealConf()) + "\n"
	}
	return s
}
