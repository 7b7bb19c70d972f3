module verif/mc

go 1.23

require (
	github.com/google/go-cmp v0.5.3
	github.com/google/xtoproto v0.0.0
	github.com/jhump/protoreflect v1.8.0
)

require (
	github.com/golang/glog v0.0.0-20160126235308-23def4e6c14b // indirect
	github.com/golang/protobuf v1.4.2 // indirect
	github.com/mitchellh/go-wordwrap v1.0.0 // indirect
	github.com/stoewer/go-strcase v1.2.0 // indirect
	golang.org/x/net v0.0.0-20201021035429-f5854403a974 // indirect
	golang.org/x/sys v0.0.0-20210119212857-b64e53b001e4 // indirect
	golang.org/x/text v0.3.3 // indirect
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 // indirect
	google.golang.org/genproto v0.0.0-20200526211855-cb27e3aa2013 // indirect
	google.golang.org/grpc v1.30.0 // indirect
	google.golang.org/protobuf v1.25.1-0.20200805231151-a709e31e5d12 // indirect
)

replace github.com/google/xtoproto => /repo
