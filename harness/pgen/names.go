package pgen

// Camel is the camel-casing of Go names, as documented for the official
// generator: "_x" becomes "X" (a leading "_" becomes "X"), ".x" becomes "X",
// other dots become "_", and a word begins at each lower-case letter.
func Camel(s string) string {
	lower := func(c byte) bool { return c >= 'a' && c <= 'z' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// setting finds the first of "d" and "no_"+d in the lists.
func setting(d string, lists ...[]string) (v, ok bool) {
	for _, l := range lists {
		for _, s := range l {
			switch s {
			case d:
				return true, true
			case "no_" + d:
				return false, true
			}
		}
	}
	return false, false
}

// KeepsUnknown reports whether the struct of m has room for unknown fields.
func (m *Message) KeepsUnknown() bool {
	if v, ok := setting("unknown_fields", m.Dirs, m.DirsIn); ok {
		return v
	}
	if v, ok := setting("unknown_fields", m.F.Dirs); ok {
		return v
	}
	if m.GogoUnk != "" {
		return m.GogoUnk == "true"
	}
	return m.F.GogoUnk == "true"
}

// NoPrefix reports whether the constant has no prefix.
func (v *EnumVal) NoPrefix() bool {
	e := v.E
	switch {
	case has(v.Dirs, "no_enum_prefix"), has(e.Dirs, "no_enum_prefix"), has(e.DirsIn, "no_enum_prefix"), has(e.F.Dirs, "no_enum_prefix"):
		return true
	case e.GogoPfx != "":
		return e.GogoPfx == "false"
	}
	return e.F.GogoEnum == "false"
}

// NoMapping reports whether the enum has no name maps.
func (e *Enum) NoMapping() bool {
	return has(e.Dirs, "no_enum_mapping") || has(e.DirsIn, "no_enum_mapping") || has(e.F.Dirs, "no_enum_mapping")
}

// ByValueCycle reports whether a message would contain itself.
func (p *Project) ByValueCycle() bool {
	state := map[*Message]int{}
	var visit func(m *Message) bool
	visit = func(m *Message) bool {
		switch state[m] {
		case 1:
			return true
		case 2:
			return false
		}
		state[m] = 1
		for _, f := range m.Fields() {
			if f.Msg != nil && f.Up == nil && !f.Repeated() && !f.IsMap() && f.NoPtr() && visit(f.Msg) {
				return true
			}
		}
		state[m] = 2
		return false
	}
	for _, f := range p.Files {
		for _, m := range f.AllMessages() {
			if visit(m) {
				return true
			}
		}
	}
	return false
}
