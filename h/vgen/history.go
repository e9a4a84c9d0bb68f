package vgen

// Edit replaces text[A:B] by With, or the whole text if All is set.
type Edit struct {
	A, B int
	With string
	All  bool `json:",omitempty"`
}

// Apply is the text after the edit.
func (e Edit) Apply(text string) string {
	if e.All {
		return e.With
	}
	return text[:e.A] + e.With + text[e.B:]
}

// History is a text and the edits to it.
type History struct {
	Text  string
	Edits []Edit
}

// History draws a history of edits. The start is mostly well-formed, and edits
// are mostly small, and are near each other.
func (t T) History(n int) History {
	h := History{}
	switch t.W(5, 2, 2) {
	case 0:
		h.Text = t.Document(3).Text()
	case 1:
		h.Text = t.Text()
	default:
		h.Text = t.Document(2).Text() + "\n\n" + t.Document(2).Text()
	}
	text := h.Text
	at := -1
	n = 1 + t.N(n)
	if t.Chance(1, 500) {
		// Many edits at one place leave few numbers for its nodes.
		h.Text = t.Pick("", "a ", "#[", "- a ", "#{ a; ") + t.Pick("", "", "\n\nb", " b]", "*c*")
		text = h.Text
		at = t.N(len(text) + 1)
		step := t.N(3)
		units := []string{t.Pick("#x ", "*a* ", "#[] "), t.Pick("*a* b ", "#y ", "a\n\n"), t.Pick("#[x y] ", "#[x *y* z] ", "#[[x] #[y] z] ", "#{[x y]} ", "[x #[y z]]")}[t.N(3):]
		for i := range 18 + t.N(60) {
			e := Edit{A: at, B: at, With: units[i%len(units)]}
			h.Edits = append(h.Edits, e)
			text = e.Apply(text)
			if step == 1 || step == 2 && i%2 == 0 {
				at += len(e.With)
			}
		}
		n += 6
	}
	for i := 0; i < n; i++ {
		e := t.edit(text, at)
		h.Edits = append(h.Edits, e)
		text = e.Apply(text)
		at = e.A + len(e.With)
		if e.All {
			at = -1
		}
	}
	return h
}

func (t T) edit(text string, at int) Edit {
	if t.Chance(1, 9) {
		switch t.N(3) {
		case 0:
			return Edit{All: true, With: t.Mutate(text, 1+t.N(2))}
		case 1:
			return Edit{All: true, With: text}
		default:
			return Edit{All: true, With: t.Text()}
		}
	}
	bs := Boundaries(text)
	a := t.N(len(bs))
	if at >= 0 && t.Chance(1, 2) {
		// Near the last edit.
		for a = 0; a < len(bs)-1 && bs[a] < at; a++ {
		}
		a += t.N(3) - 1
		a = min(max(a, 0), len(bs)-1)
	}
	b := a
	switch t.W(6, 5, 2, 1) {
	case 1:
		b = a + 1 + t.N(3)
	case 2:
		b = a + t.N(20)
	case 3:
		b = a + t.N(len(bs)-a)
	}
	b = min(b, len(bs)-1)
	with := ""
	switch t.W(5, 5, 2, 2, 1) {
	case 0:
		with = t.Pick("a", "x", " ", "\n", "*", "_", "[", "]", "{", "}", "(", ")", "#", "`", "\"", "=", "-", ";", ":", ",", ".", "/", "\\", "<", ">", "@", "é", "\r", "1", "\n\n", "+", "h", "$", "$", "^", "'")
	case 1:
		with = Fragments[t.N(len(Fragments))]
	case 2:
		if b == a {
			with = "word"
		}
	case 3:
		with = t.Expr(NLNone, 1).N.Text()
	case 4:
		with = t.Document(1).Text()
	}
	return Edit{A: bs[a], B: bs[b], With: with}
}
