package model

import "os"

// The go command a scan starts runs once per case and is short-lived.
func init() {
	os.Setenv("GOGC", "off")
	os.Setenv("GOMAXPROCS", "2")
	os.Setenv("GOTELEMETRY", "off")
}
