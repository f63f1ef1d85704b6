package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"time"
	"unsafe"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
	"verif/sch"
)

// ---- C07: decoding while the garbage collector marks ----
//
// The collector follows pointers from the roots; a value at the end of a long
// linked list is reached late. A goroutine that gets hold of such a value after
// its own stack was scanned (here: from a number) changes it before the
// collector has seen it. What is lost then is a pointer written, or copied,
// without telling the collector.

type lateNode struct {
	next *lateNode
	kept []*lateValue
}

type lateValue struct {
	s    schema
	v    reflect.Value
	want *dynamicpb.Message
	more []byte // decoded on top
	fail error
}

var late struct {
	once       sync.Once
	head, tail *lateNode
}

const lateNodes = 100000

func lateList() *lateNode {
	late.once.Do(func() {
		nodes := make([]*lateNode, lateNodes)
		for i := range nodes {
			nodes[i] = &lateNode{}
		}
		// not in the order of their addresses: that takes longer
		r := rt.NewSeeded(7)
		for i := len(nodes) - 1; i > 0; i-- {
			j := r.Int(i + 1)
			nodes[i], nodes[j] = nodes[j], nodes[i]
		}
		for i := 1; i < len(nodes); i++ {
			nodes[i-1].next = nodes[i]
		}
		late.head, late.tail = nodes[0], nodes[len(nodes)-1]
	})
	return late.tail
}

// lateSetup draws values and returns where they are, as a number.
//
//go:noinline
func lateSetup(t *rt.T) (at uintptr, total int) {
	tail := lateList()
	tail.kept = nil
	loadFixtures()
	n := 10 + t.Int(60)
	for i := 0; i < n; i++ {
		var s schema
		switch t.Int(8) {
		case 0, 1, 2:
			s = kindSchema(t)
		case 3:
			s = schema{offMs[t.Int(len(offMs))], offTT, "official", nil}
		default:
			s = schema{plainMs[t.Int(len(plainMs))], plainTT, "plain", nil}
		}
		d := drawDecoded(t, s)
		x := &lateValue{s: s, v: d.v, want: d.want}
		x.more, _ = sch.GenWire(t, s.m.Desc, sch.WOpt{Unknown: true, Mismatch: true})
		x.want.SetUnknown(nil)
		if err := refMergeInto(x.want, x.more); err != nil {
			panic("harness: " + err.Error())
		}
		sch.Normalize(s.m, x.want)
		total += len(x.more)
		tail.kept = append(tail.kept, x)
	}
	return ^uintptr(unsafe.Pointer(tail)), total
}

//go:noinline
func lateDecode(at uintptr) {
	at = ^at
	tail := *(**lateNode)(unsafe.Pointer(&at))
	for _, x := range tail.kept {
		x.fail = prutal.Unmarshal(x.more, x.v.Interface())
	}
}

// C07: nothing is lost when a message is decoded while the collector runs
// (with GODEBUG=clobberfree=1, which overwrites memory as it is freed)
func lateMark(t *rt.T) {
	var at uintptr
	total := 0
	done := make(chan struct{})
	var pan any
	go func() { // leaves nothing on this stack
		defer close(done)
		defer func() { pan = recover() }()
		at, total = lateSetup(t)
	}()
	<-done
	if pan != nil {
		panic(pan)
	}
	runtime.GC()
	wait := time.Duration(100+t.Int(1500)) * time.Microsecond
	end := make(chan struct{})
	go func() {
		defer close(end)
		runtime.GC()
	}()
	time.Sleep(wait)
	lateDecode(at)
	during := false
	select {
	case <-end:
	default:
		during = true
	}
	<-end
	var junk [][]byte
	for _, sz := range []int{8, 16, 24, 32, 48, 64, 96, 128, 256, 512, 1024} {
		for j := 0; j < 20; j++ {
			b := make([]byte, sz)
			for k := range b {
				b[k] = 0xaa
			}
			junk = append(junk, b)
		}
	}
	n := 0
	for i, x := range late.tail.kept {
		if x.fail != nil {
			t.Fatalf("value %d: Unmarshal: %v", i, x.fail)
		}
		x.s.sameAs(t, fmt.Sprintf("value %d of type %v, changed during garbage collection", i, x.v.Type()), x.want, x.v)
		if len(x.more) > 0 {
			n++
		}
	}
	runtime.KeepAlive(junk)
	t.LabelIf(during, "while marking")
	t.Key(fmt.Sprint(total), fmt.Sprint(t.Choices[:min(len(t.Choices), 60)]))
	t.NonTrivial(during && n > 0)
	t.Sample(func() string {
		return fmt.Sprintf("%d messages, %d changed by %d bytes", len(late.tail.kept), n, total)
	})
}
