module github.com/buypal/oapi-go/verifharness

go 1.26.0

require (
	github.com/buypal/oapi-go v0.0.0
	golang.org/x/tools v0.52.0
	gopkg.in/yaml.v2 v2.4.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/Jeffail/gabs/v2 v2.6.0 // indirect
	github.com/fatih/structtag v1.2.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/vmihailenco/tagparser v0.1.2 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

replace github.com/buypal/oapi-go => /repo

godebug gotypesalias=0
