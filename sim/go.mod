module arpcsim

go 1.24

require (
	github.com/lesismal/arpc v0.0.0
	github.com/gorilla/websocket v1.5.1
	golang.org/x/net v0.28.0
	github.com/vmihailenco/msgpack v4.0.4+incompatible
	github.com/anishathalye/porcupine v1.3.1
	github.com/gogo/protobuf v1.3.2
	github.com/opentracing/basictracer-go v1.1.0
	github.com/opentracing/opentracing-go v1.2.0
	github.com/go-redis/redis/v8 v8.11.5
	go.etcd.io/etcd/client/v3 v3.5.11
	go.etcd.io/etcd/api/v3 v3.5.11
	go.etcd.io/etcd/client/pkg/v3 v3.5.11 // indirect
	google.golang.org/grpc v1.59.0
	github.com/quic-go/quic-go v0.48.2
	golang.org/x/crypto v0.31.0 // indirect
	golang.org/x/exp v0.0.0-20240506185415-9bf2ced13842 // indirect
	go.uber.org/atomic v1.7.0 // indirect
	go.uber.org/multierr v1.6.0 // indirect
	go.uber.org/zap v1.17.0 // indirect
	github.com/coreos/go-semver v0.3.0 // indirect
	github.com/coreos/go-systemd/v22 v22.3.2 // indirect
	github.com/golang/protobuf v1.5.3 // indirect
	golang.org/x/sys v0.28.0 // indirect
	golang.org/x/text v0.21.0 // indirect
	google.golang.org/genproto/googleapis/api v0.0.0-20230822172742-b8732ec3820d // indirect
	google.golang.org/genproto/googleapis/rpc v0.0.0-20230822172742-b8732ec3820d // indirect
	google.golang.org/protobuf v1.33.0 // indirect
	github.com/cespare/xxhash/v2 v2.2.0 // indirect
	github.com/dgryski/go-rendezvous v0.0.0-20200823014737-9f7001d12a5f // indirect
)

replace github.com/lesismal/arpc => /repo

replace github.com/quic-go/quic-go => ../build/quic-go
