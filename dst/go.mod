module verif.local/dst

go 1.27

require (
	github.com/sirupsen/logrus v1.9.3
	google.golang.org/genproto/googleapis/rpc v0.0.0-20240123012728-ef4313101c80
	google.golang.org/grpc v1.62.1
	google.golang.org/protobuf v1.33.0
)
