package kit

import (
	"os"
	"strings"
)

var knownSet = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(os.Getenv("VERIF_KNOWN")) {
		m[n] = true
	}
	return m
}()

// Known reports whether known_findings.txt lists the finding for this property. What it describes is then not searched
// for again; its own case is replayed by check.py without the list.
func Known(name string) bool { return knownSet[name] }
