package sch

import "google.golang.org/protobuf/reflect/protoregistry"

// NoExts makes the official decoder keep extensions as unknown fields.
var NoExts = new(protoregistry.Types)
