module verif

go 1.21

require (
	github.com/andrewkroh/go-sawmill v0.0.0
	github.com/golang/protobuf v1.5.2
	github.com/prometheus/client_golang v1.14.0
	github.com/prometheus/client_model v0.3.0
	gopkg.in/yaml.v3 v3.0.1
)

require (
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/cespare/xxhash/v2 v2.1.2 // indirect
	github.com/elastic/go-ucfg v0.8.6 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/prometheus/common v0.37.0
	github.com/prometheus/procfs v0.8.0 // indirect
	golang.org/x/sys v0.0.0-20220520151302-bc2c85ada10a // indirect
	google.golang.org/protobuf v1.28.1 // indirect
)

replace github.com/andrewkroh/go-sawmill => /repo
