module verif

go 1.26

require (
	github.com/cloudwego/prutal v0.0.0
	google.golang.org/protobuf v1.36.11
)

replace github.com/cloudwego/prutal => /repo
