module verif/harness

go 1.23

require (
	github.com/Knetic/govaluate v3.0.0+incompatible
	github.com/ldsec/unlynx v0.0.0
	go.dedis.ch/kyber/v3 v3.0.12
	go.dedis.ch/onet/v3 v3.2.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/BurntSushi/toml v0.3.1 // indirect
	github.com/daviddengcn/go-colortext v0.0.0-20180409174941-186a3d44e920 // indirect
	github.com/fanliao/go-concurrentMap v0.0.0-20141114143905-7d2d7a5ea67b // indirect
	github.com/gorilla/websocket v1.4.1 // indirect
	github.com/montanaflynn/stats v0.6.3 // indirect
	github.com/r0fls/gostats v0.0.0-20180711082619-e793b1fda35c // indirect
	github.com/satori/go.uuid v1.2.0 // indirect
	go.dedis.ch/fixbuf v1.0.3 // indirect
	go.dedis.ch/protobuf v1.0.11 // indirect
	go.etcd.io/bbolt v1.3.3 // indirect
	golang.org/x/crypto v0.0.0-20200317142112-1b76d66859c6 // indirect
	golang.org/x/sys v0.0.0-20200317113312-5766fd39f98d // indirect
	golang.org/x/xerrors v0.0.0-20191204190536-9bdfabe68543 // indirect
	gopkg.in/satori/go.uuid.v1 v1.2.0 // indirect
	gopkg.in/tylerb/graceful.v1 v1.2.15 // indirect
	rsc.io/goversion v1.2.0 // indirect
)

replace github.com/ldsec/unlynx => /repo
