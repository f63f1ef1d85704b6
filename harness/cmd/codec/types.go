package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
	"verif/sch"
)

// ---- C12: which Go types are messages ----

type typeSpec struct {
	t   reflect.Type
	ok  bool
	why string
	d   int
}

type namedInt int32

var goodScalars = []struct {
	t     reflect.Type
	words []string
}{
	{reflect.TypeFor[int32](), []string{"varint", "zigzag32", "fixed32"}},
	{reflect.TypeFor[int64](), []string{"varint", "zigzag64", "fixed64"}},
	{reflect.TypeFor[uint32](), []string{"varint", "fixed32"}},
	{reflect.TypeFor[uint64](), []string{"varint", "fixed64"}},
	{reflect.TypeFor[bool](), []string{"varint"}},
	{reflect.TypeFor[namedInt](), []string{"varint"}},
	{reflect.TypeFor[float32](), []string{"fixed32"}},
	{reflect.TypeFor[float64](), []string{"fixed64"}},
	{reflect.TypeFor[string](), []string{"bytes"}},
	{reflect.TypeFor[[]byte](), []string{"bytes"}},
}

var allWords = []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes"}

// wordFits is the table of the protobuf scalar types in Go.
func wordFits(t reflect.Type, word string) bool {
	k := t.Kind()
	switch word {
	case "varint":
		return k == reflect.Int32 || k == reflect.Int64 || k == reflect.Uint32 || k == reflect.Uint64 || k == reflect.Bool
	case "zigzag32":
		return k == reflect.Int32
	case "zigzag64":
		return k == reflect.Int64
	case "fixed32":
		return k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Float32
	case "fixed64":
		return k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Float64
	case "bytes":
		return k == reflect.String || t == reflect.TypeFor[[]byte]()
	}
	return false
}

var badTypes = []reflect.Type{
	reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[uint](), reflect.TypeFor[uint8](),
	reflect.TypeFor[uint16](), reflect.TypeFor[uintptr](), reflect.TypeFor[complex128](), reflect.TypeFor[[4]byte](), reflect.TypeFor[chan int](),
	reflect.TypeFor[func()](), reflect.TypeFor[any](), reflect.TypeFor[[2]int32](), reflect.TypeFor[complex64](),
	reflect.TypeFor[[]uint16](), reflect.TypeFor[[]int](), reflect.TypeFor[map[string]int](),
}

// fieldSpec draws a field type with a tag and says whether it is a protobuf field.
func fieldSpec(t *rt.T, pool []typeSpec, num int) (ft reflect.Type, tag string, ok bool, why string) {
	ok = true
	bad := func(f string, a ...any) {
		if ok {
			ok, why = false, fmt.Sprintf(f, a...)
		}
	}
	hot := t.Int(9) == 8 // one thing of this field may be wrong
	// element
	var elem reflect.Type
	var word string
	isMsg := false
	switch {
	case len(pool) > 0 && t.Int(3) == 0:
		s := pool[t.Int(len(pool))]
		elem, word, isMsg = s.t, "bytes", true
		if !s.ok {
			bad("field of a rejected type: %s", s.why)
		}
	default:
		g := goodScalars[t.Int(len(goodScalars))]
		elem, word = g.t, g.words[t.Int(len(g.words))]
	}
	if hot && t.Int(4) == 0 {
		elem = badTypes[t.Int(len(badTypes))]
		isMsg = false
		word = allWords[t.Int(len(allWords))]
		bad("element type %v", elem)
	}
	if hot && t.Int(4) == 0 {
		word = allWords[t.Int(len(allWords))]
	}
	if isMsg {
		if word != "bytes" {
			bad("%s for a message", word)
		}
	} else if !wordFits(elem, word) {
		bad("%s for %v", word, elem)
	}
	label := "opt"
	kv := ""
	packed := false
	shape := t.Int(6)
	if hot && t.Int(3) == 0 {
		shape = 6 + t.Int(10)
	}
	if elem.Kind() == reflect.Uint8 && shape != 0 && shape != 1 {
		elem = reflect.TypeFor[uint16]() // a list of uint8 is bytes
	}
	mapOf := func(v reflect.Type) reflect.Type {
		g := goodScalars[rt.Pick(t, 0, 1, 2, 3, 4, 8)]
		kw := g.words[t.Int(len(g.words))]
		if hot && t.Int(3) == 0 {
			kw = allWords[t.Int(len(allWords))]
			if !wordFits(g.t, kw) {
				bad("key %s for %v", kw, g.t)
			}
		}
		vw := word
		kv = fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, kw, vw)
		if hot && t.Int(6) == 0 {
			kv = ""
			bad("no key and value tags")
		}
		word = "bytes"
		label = "rep"
		return reflect.MapOf(g.t, v)
	}
	switch shape {
	case 0:
		ft = elem
	case 1, 15:
		ft = reflect.PointerTo(elem)
	case 2, 14:
		ft, label = reflect.SliceOf(elem), "rep"
	case 3:
		ft, label = reflect.SliceOf(elem), "rep"
		if word != "bytes" {
			packed = true
		}
	case 4:
		ft = mapOf(elem)
	case 5:
		if isMsg {
			if t.Int(2) == 0 {
				ft, label = reflect.SliceOf(reflect.PointerTo(elem)), "rep"
			} else {
				ft = mapOf(reflect.PointerTo(elem))
			}
		} else {
			ft = reflect.PointerTo(elem)
		}
	case 6:
		ft, label = reflect.SliceOf(reflect.SliceOf(elem)), "rep"
		bad("list of lists")
	case 7:
		ft = reflect.PointerTo(reflect.PointerTo(elem))
		bad("pointer to pointer")
	case 8:
		ft, label = reflect.PointerTo(reflect.SliceOf(elem)), rt.Pick(t, "rep", "opt")
		bad("pointer to list")
	case 9:
		ft = mapOf(reflect.SliceOf(elem))
		bad("map of lists")
	case 10:
		if isMsg {
			ft, label = reflect.SliceOf(reflect.PointerTo(reflect.PointerTo(elem))), "rep"
		} else {
			ft, label = reflect.SliceOf(reflect.PointerTo(elem)), "rep"
		}
		bad("list of pointers")
	case 11:
		if isMsg {
			ft = mapOf(mapOf(elem))
		} else {
			ft = mapOf(reflect.PointerTo(elem))
		}
		bad("map of pointers or maps")
	case 12:
		ft = reflect.PointerTo(mapOf(elem))
		bad("pointer to map")
	case 13:
		ft = reflect.ArrayOf(2, elem)
		bad("array")
	}
	if hot && t.Int(4) == 0 { // label
		was := label
		label = rt.Pick(t, "opt", "rep", "req", "")
		if (was == "rep") != (label == "rep") {
			bad("label %q instead of %q", label, was)
		}
	} else if label == "opt" && t.Int(6) == 0 {
		label = "req"
	}
	if hot && t.Int(5) == 0 {
		if !packed && !(label == "rep" && (shape == 2 || shape == 3 || shape == 14) && word != "bytes") {
			bad("packed for something else than a list of numbers")
		}
		packed = true
	}
	n := fmt.Sprint(num)
	if hot && t.Int(5) == 0 {
		n = rt.Pick(t, "0", "536870912", "4294967296", "", "2147483648", "4294967297", "99999999999999999999", "4294967295", "x1")
		bad("field number %q", n)
	}
	if hot && t.Int(12) == 0 {
		word = rt.Pick(t, "group", "string", "")
		bad("wire type %q", word)
	}
	tag = word
	for _, p := range []string{n, label} {
		if p != "" {
			tag += "," + p
		}
	}
	if packed {
		tag += ",packed"
	}
	switch t.Int(4) {
	case 1:
		tag += ",name=n" + fmt.Sprint(num) + ",proto3"
	case 2:
		tag += ",name=packed,json=rep"
	}
	tag = `protobuf:"` + tag + `"` + kv
	if word == "" && n == "" && label == "" && !packed {
		// an empty tag is no tag; make it one that names something
		tag = `protobuf:"name=x"`
	}
	return ft, tag, ok, why
}

func drawType(t *rt.T, pool []typeSpec) typeSpec {
	s := typeSpec{ok: true}
	nf := t.Int(5)
	var sf []reflect.StructField
	used := map[int]bool{}
	// most types are meant to be fine
	base, last := rt.Pick(t, 1, 1, 1, 985, 1000, 1001, 2040, 32760, 1<<18-9, 1<<28, 1<<29-20), 0
	for i := 0; i < nf; i++ {
		num := base + t.Int(30)
		if num > 1<<29-1 {
			num = 1<<29 - 1 - t.Int(30)
		}
		if i > 0 && t.Int(20) == 0 {
			num = last
		}
		if used[num] && t.Int(8) > 0 {
			for used[num] {
				num--
			}
			for num < 1 || used[num] {
				num++
			}
		}
		ft, tag, ok, why := fieldSpec(t, pool, num)
		if used[num] && s.ok {
			s.ok, s.why = false, fmt.Sprintf("number %d twice", num)
		}
		used[num] = true
		last = num
		if t.Int(6) == 0 {
			base = rt.Pick(t, 1, 990, 70000)
		}
		if !ok && s.ok {
			s.ok, s.why = false, fmt.Sprintf("%v %s: %s", ft, tag, why)
		}
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(tag)})
		if t.Int(8) == 0 { // not a protobuf field
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: badTypes[t.Int(len(badTypes))]})
		}
	}
	switch t.Int(6) {
	case 1:
		sf = append(sf, reflect.StructField{Name: "unknownFields", PkgPath: "verif", Type: reflect.TypeFor[[]byte]()})
	case 2: // not usable for unknown fields: ignored
		sf = append(sf, reflect.StructField{Name: "unknownFields", PkgPath: "verif", Type: rt.Pick(t, reflect.TypeFor[string](), reflect.TypeFor[[]uint16](), reflect.TypeFor[uint64](), reflect.TypeFor[*string]())})
	}
	s.t = reflect.StructOf(sf)
	return s
}

// fill sets all protobuf fields of a supported type to non-zero values.
func fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int32, reflect.Int64:
		v.SetInt(-5 - int64(depth))
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(300 + uint64(depth))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.String:
		v.SetString("str")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte{1, 2})
			return
		}
		s := reflect.MakeSlice(v.Type(), 2, 2)
		fill(s.Index(0), depth+1)
		fill(s.Index(1), depth+1)
		v.Set(s)
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), depth+1)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		fill(k, depth+1)
		fill(e, depth+1)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Tag.Get("protobuf") != "" {
				fill(v.Field(i), depth+1)
			}
		}
	}
}

// verdict calls one of the four functions with a new value of the type.
func verdict(t *rt.T, op int, ty reflect.Type) error {
	v := reflect.New(ty)
	var err error
	switch op {
	case 0:
		_, err = prutal.Marshal(v.Interface())
	case 1:
		_, err = prutal.Size(v.Interface())
	case 2:
		err = prutal.Unmarshal(nil, v.Interface())
	case 3:
		err = prutal.Unmarshal([]byte{0x0a, 0}, v.Interface())
		if err == nil {
			break
		}
		// the record may be wrong for a supported type
		if prutal.Unmarshal(nil, v.Interface()) == nil {
			err = nil
		}
	}
	return err
}

// compiled types of which some cannot be messages
type (
	cGood struct {
		F1 *cGood `protobuf:"bytes,1,opt,name=f1"`
		F2 []byte `protobuf:"bytes,2,opt,name=f2"`
	}
	cBadA struct {
		F1 *cBadB `protobuf:"bytes,1,opt"`
		F2 *cGood `protobuf:"bytes,2,opt"`
	}
	cBadB struct {
		F1 []*cBadA `protobuf:"bytes,1,rep"`
		F2 int8     `protobuf:"varint,2,opt"`
	}
	cOuter struct {
		F1 *cGood            `protobuf:"bytes,1,opt"`
		F2 map[string]*cBadA `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	}
	cPtr struct {
		F1 **cGood `protobuf:"bytes,1,opt"`
		F2 *cGood2 `protobuf:"bytes,2,opt"`
	}
	cGood2 struct {
		F1 *cGood2 `protobuf:"bytes,1,opt"`
		F2 *cGood  `protobuf:"bytes,2,opt"`
		F3 []int32 `protobuf:"zigzag32,3,rep,packed"`
	}
	cRefsBad struct {
		F1 *cGood2 `protobuf:"bytes,1,opt"`
		F2 []cPtr  `protobuf:"bytes,2,rep"`
	}
	cOneofBad struct { // a wrapper with two fields
		O isC `protobuf_oneof:"o"`
	}
	isC  interface{ isC() }
	cTwo struct{ A, B int32 }
	cOne struct {
		A int8 `protobuf:"varint,1,opt,oneof"`
	}
	cOfOK struct {
		O isD `protobuf_oneof:"o"`
	}
	isD interface{ isD() }
	cD1 struct {
		A int32 `protobuf:"varint,1,opt,oneof"`
	}
	cD2 struct {
		B *cGood2 `protobuf:"bytes,2,opt,oneof"`
	}
	cDup struct {
		O isE   `protobuf_oneof:"o"`
		F int32 `protobuf:"varint,1,opt"`
	}
	isE interface{ isE() }
	cE1 struct {
		A int32 `protobuf:"varint,1,opt,oneof"`
	}
	cOneofBad2 struct {
		O isF    `protobuf_oneof:"o"`
		F *cGood `protobuf:"bytes,7,opt"`
	}
	isF interface{ isF() }
	cF1 struct {
		A []int32 `protobuf:"varint,1,opt,oneof"`
	}
)

func (*cTwo) isC()                           {}
func (*cOne) isC()                           {}
func (*cD1) isD()                            {}
func (*cD2) isD()                            {}
func (*cE1) isE()                            {}
func (*cF1) isF()                            {}
func (*cOneofBad) XXX_OneofWrappers() []any  { return []any{(*cTwo)(nil)} }
func (*cOfOK) XXX_OneofWrappers() []any      { return []any{(*cD1)(nil), (*cD2)(nil)} }
func (*cDup) XXX_OneofWrappers() []any       { return []any{(*cE1)(nil)} }
func (*cOneofBad2) XXX_OneofWrappers() []any { return []any{(*cF1)(nil)} }

var compiledSpecs = []typeSpec{
	{t: reflect.TypeFor[cGood](), ok: true}, {t: reflect.TypeFor[cBadA]()}, {t: reflect.TypeFor[cBadB]()}, {t: reflect.TypeFor[cOuter]()},
	{t: reflect.TypeFor[cPtr]()}, {t: reflect.TypeFor[cGood2](), ok: true}, {t: reflect.TypeFor[cRefsBad]()}, {t: reflect.TypeFor[cOneofBad]()},
	{t: reflect.TypeFor[cOfOK](), ok: true}, {t: reflect.TypeFor[cDup]()}, {t: reflect.TypeFor[cOneofBad2]()},
}

// C12: a history of uses of supported and unsupported types
func typeVerdicts(t *rt.T) {
	var pool []typeSpec
	for i := 2 + t.Int(5); i > 0; i-- {
		pool = append(pool, drawType(t, pool))
	}
	pool = append(pool, compiledSpecs...)
	n := 3 + t.Int(12)
	bad, good := 0, 0
	desc := ""
	for i := 0; i < n; i++ {
		s := pool[t.Int(len(pool))]
		op := t.Int(4)
		t.LogLazy(func() string {
			return fmt.Sprintf("%s of %v: supported %v (%s)", []string{"Marshal", "Size", "Unmarshal", "Unmarshal"}[op], s.t, s.ok, s.why)
		})
		err := verdict(t, op, s.t)
		if s.ok && err != nil {
			t.Fatalf("%v is supported but rejected: %v", s.t, err)
		}
		if !s.ok && err == nil {
			t.Fatalf("%v is accepted, although: %s", s.t, s.why)
		}
		if !s.ok {
			bad++
			continue
		}
		good++
		desc += s.t.String() + ";"
		v := reflect.New(s.t)
		if s.t == reflect.TypeFor[cGood]() || s.t == reflect.TypeFor[cGood2]() || s.t == reflect.TypeFor[cOfOK]() {
			continue // recursive: values of them are for the other properties
		}
		fill(v.Elem(), 0)
		b, err := prutal.Marshal(v.Interface())
		if err != nil {
			t.Fatalf("Marshal %v: %v", s.t, err)
		}
		if k, err := prutal.Size(v.Interface()); err != nil || k != len(b) {
			t.Fatalf("Size %v = %d, %v; want %d", s.t, k, err, len(b))
		}
		w := reflect.New(s.t)
		if err := prutal.Unmarshal(b, w.Interface()); err != nil {
			t.Fatalf("Unmarshal %v: %v", s.t, err)
		}
		if err := sameFilled(v.Elem(), w.Elem(), "value"); err != nil {
			t.Fatalf("%v: round trip of %x: %v", s.t, b, err)
		}
	}
	t.LabelIf(bad > 0, "rejected types")
	t.LabelIf(good > 0, "accepted types")
	t.Key(desc, fmt.Sprint(bad, good), fmt.Sprint(t.Choices[:min(40, len(t.Choices))]))
	t.NonTrivial(bad > 0)
	t.Sample(func() string { return fmt.Sprintf("%d accepted, %d rejected uses: %s", good, bad, desc) })
}

// sameFilled compares protobuf fields (reflect.DeepEqual cannot handle funcs and chans).
func sameFilled(a, b reflect.Value, path string) error {
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.Tag.Get("protobuf") != "" {
				if err := sameFilled(a.Field(i), b.Field(i), path+"."+f.Name); err != nil {
					return err
				}
			} else if !b.Field(i).IsZero() {
				return fmt.Errorf("%s.%s was written", path, f.Name)
			}
		}
		return nil
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Errorf("%s: nil %v != %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return nil
		}
		return sameFilled(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: length %d != %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameFilled(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: map size %d != %d", path, a.Len(), b.Len())
		}
		for it := a.MapRange(); it.Next(); {
			x := b.MapIndex(it.Key())
			if !x.IsValid() {
				return fmt.Errorf("%s: key %v missing", path, it.Key())
			}
			if err := sameFilled(it.Value(), x, path+"[]"); err != nil {
				return err
			}
		}
		return nil
	}
	if a.Interface() != b.Interface() {
		return fmt.Errorf("%s: %v != %v", path, a, b)
	}
	return nil
}

// badArgument draws something that is no pointer to a struct.
func badArgument(t *rt.T) (x any) {
	switch t.Int(9) {
	case 0:
		x = nil
	case 1:
		x = 1
	case 2:
		x = struct{}{}
	case 3:
		x = new(int)
	case 4:
		x = new(*cGood)
	case 5:
		x = []byte("x")
	case 6:
		x = map[string]string{}
	case 7:
		x = &[]cGood{{}}
	case 8:
		x = reflect.New(badTypes[t.Int(len(badTypes))]).Interface()
	}
	return x
}

// C12: arguments that are not pointers to structs
func badArguments(t *rt.T) {
	x := badArgument(t)
	t.Logf("argument %T", x)
	in := rt.Bytes(t, t.Int(4))
	if _, err := prutal.Marshal(x); err == nil {
		t.Fatalf("Marshal accepts %T", x)
	}
	prefix := rt.Bytes(t, t.Int(4))
	if _, err := prutal.MarshalAppend(prefix, x); err == nil {
		t.Fatalf("MarshalAppend accepts %T", x)
	}
	if _, err := prutal.Size(x); err == nil && x != nil {
		t.Fatalf("Size accepts %T", x)
	}
	if err := prutal.Unmarshal(in, x); err == nil {
		t.Fatalf("Unmarshal accepts %T", x)
	}
	// nil pointers: nothing to decode into; they encode as nothing
	if err := prutal.Unmarshal(in, (*cGood)(nil)); err == nil {
		t.Fatalf("Unmarshal accepts a nil pointer")
	}
	if n, err := prutal.Size((*cGood)(nil)); err != nil || n != 0 {
		t.Fatalf("Size of a nil pointer = %d, %v", n, err)
	}
	if b, err := prutal.Marshal((*cGood)(nil)); err != nil || len(b) != 0 {
		t.Fatalf("Marshal of a nil pointer = %x, %v", b, err)
	}
	t.Key(fmt.Sprintf("%T", x), in)
	t.NonTrivial(true)
	t.Sample(func() string { return fmt.Sprintf("%T", x) })
}

// ---- C11: concurrency ----

type job struct {
	s    schema
	v    reflect.Value
	ref  *dynamicpb.Message
	wire []byte // official encoding
	can  []byte // canonical form of the encoding
}

func concurrent(t *rt.T) {
	// messages of new and of known types, roots and their parts
	var jobs []job
	addJob := func(s schema) {
		ref, v := s.value(t, sch.VOpt{Unknown: true, Budget: 25})
		w := refEncode(ref)
		c, err := canonical(s.m, w)
		if err != nil {
			panic("harness: " + err.Error())
		}
		jobs = append(jobs, job{s, v, ref, w, c})
	}
	for i := 1 + t.Int(3); i > 0; i-- {
		s := randSchema(t, sch.Opt{Depth: 2, ByValue: true, Unknown: true, MaxFields: 6})
		addJob(s)
		for _, m := range s.m.All()[1:] {
			if len(jobs) < 8 {
				addJob(schema{m, s.tt, "random", nil})
			}
		}
	}
	loadFixtures()
	for i := t.Int(3); i > 0; i-- {
		if t.Int(2) == 0 {
			addJob(schema{plainMs[t.Int(len(plainMs))], plainTT, "plain", nil})
		} else {
			addJob(schema{offMs[t.Int(len(offMs))], offTT, "official", nil})
		}
	}
	bad := t.Int(3) == 0 // a rejected type is used at the same time
	type op struct{ job, kind int }
	g := 2 + t.Int(7)
	prog := make([][]op, g)
	for i := range prog {
		for k := 2 + t.Int(5); k > 0; k-- {
			prog[i] = append(prog[i], op{t.Int(len(jobs)), t.Int(5)})
		}
		if bad && t.Int(2) == 0 {
			prog[i] = append(prog[i], op{-1, t.Int(4)})
		}
	}
	errs := make([]string, g)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range prog {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Sprintf("panic: %v", e)
				}
			}()
			<-start
			for _, o := range prog[i] {
				if o.job < 0 {
					if err := verdict(nil, o.kind, compiledSpecs[1].t); err == nil {
						errs[i] = "an unsupported type was accepted"
						return
					}
					continue
				}
				if e := runJob(jobs[o.job], o.kind); e != "" {
					errs[i] = e
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, e := range errs {
		if e != "" {
			t.Fatalf("goroutine %d: %s", i, e)
		}
	}
	t.Key(fmt.Sprint(prog), jobs[0].wire, jobs[0].s.m.String())
	t.NonTrivial(g > 1)
	t.Sample(func() string { return fmt.Sprintf("%d goroutines on %d messages: %v", g, len(jobs), prog) })
}

func runJob(j job, kind int) string {
	check := func(b []byte) string {
		c, err := canonical(j.s.m, b)
		if err != nil {
			return "output: " + err.Error()
		}
		if !bytes.Equal(c, j.can) {
			return fmt.Sprintf("encoded as %s, want %s", hexs(c), hexs(j.can))
		}
		return ""
	}
	switch kind {
	case 0:
		b, err := prutal.Marshal(j.v.Interface())
		if err != nil {
			return "Marshal: " + err.Error()
		}
		return check(b)
	case 1:
		n, err := prutal.Size(j.v.Interface())
		if err != nil {
			return "Size: " + err.Error()
		}
		if c := len(j.can); n != c {
			b, _ := prutal.Marshal(j.v.Interface())
			if n != len(b) {
				return fmt.Sprintf("Size %d, want %d", n, len(b))
			}
		}
	case 2:
		b, err := prutal.MarshalAppend([]byte("prefix"), j.v.Interface())
		if err != nil {
			return "MarshalAppend: " + err.Error()
		}
		if len(b) < 6 || string(b[:6]) != "prefix" {
			return "prefix lost"
		}
		return check(b[6:])
	default:
		x := j.s.new()
		if err := prutal.Unmarshal(j.wire, x.Interface()); err != nil {
			return "Unmarshal: " + err.Error()
		}
		got := j.s.tt.ToPB(j.s.m, x.Elem())
		sch.Normalize(j.s.m, got)
		if !sch.Equal(j.ref, got) {
			return fmt.Sprintf("decoded %s, want %s", text(got), text(j.ref))
		}
	}
	return ""
}
