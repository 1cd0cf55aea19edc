module qverif

go 1.22

require (
	github.com/zhiqiangxu/qrpc v0.0.0
	go.uber.org/zap v1.21.0
)

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/go-kit/kit v0.9.0
	github.com/gogo/protobuf v1.3.2 // indirect
	github.com/gorilla/websocket v1.4.1
	github.com/oklog/run v1.0.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/zhiqiangxu/go-reuseport v0.2.1 // indirect
	github.com/zhiqiangxu/util v0.0.0-20220701050115-28679d0e8a73 // indirect
	go.uber.org/atomic v1.9.0 // indirect
	go.uber.org/multierr v1.8.0 // indirect
	go.uber.org/ratelimit v0.1.0 // indirect
	golang.org/x/sys v0.0.0-20220627191245-f75cf1eec38b // indirect
)

replace github.com/zhiqiangxu/qrpc => /repo
