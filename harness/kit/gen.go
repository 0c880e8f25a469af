package kit

import (
	"os"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Deep doubles the length of generated histories (thorough tier).
var Deep = os.Getenv("VERIF_DEEP") != ""

// Int is uniform. The integer generators of rapid favour small numbers, which
// here would mean always working on the first remark.
func Int(lo, hi int) *rapid.Generator[int] {
	n := uint64(hi - lo + 1)
	bits := 2
	for n>>bits != 0 {
		bits++
	}
	bits += 2
	return rapid.Custom(func(t *rapid.T) int {
		x := uint64(0)
		for i := 0; i < bits; i++ {
			x <<= 1
			if rapid.Bool().Draw(t, "bit") {
				x |= 1
			}
		}
		return lo + int(x*n>>bits)
	})
}

// One picks an element, all alike.
func One[T any](from []T) *rapid.Generator[T] {
	return rapid.Map(Int(0, len(from)-1), func(i int) T { return from[i] })
}

// pick draws an element by weight.
type Choice struct {
	Name   string
	Weight int
}

func pick(t *rapid.T, label string, cs []Choice) string {
	total := 0
	for _, c := range cs {
		total += c.Weight
	}
	n := Int(0, total-1).Draw(t, label)
	for _, c := range cs {
		if n < c.Weight {
			return c.Name
		}
		n -= c.Weight
	}
	panic("unreachable")
}

// boundary code points: bit lengths, encodings, special meanings.
var boundary = []rune{0, 1, 2, 3, 4, 7, 8, '\t', '\n', '\r', 0x1f, 0x21, '"', '%', '\'', '-', '0', '1', '\\', 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x100,
	0x300, 0x3ff, 0x400, 0x7ff, 0x800, 0xfff, 0x1000, 0x2003, 0x2028, 0x200b, 0x200d, 0x3000, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfe0f, 0xfeff, 0xfffd, 0xfffe, 0xffff,
	0x10000, 0x1f600, 0x1ffff, 0x20000, 0x80000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}

// WordRune is any Unicode code point a word may contain, all bit lengths alike.
func WordRune(t *rapid.T) rune {
	switch Int(0, 3).Draw(t, "runeKind") {
	case 0:
		return One([]rune("abc01bZ`")).Draw(t, "plain")
	case 1:
		return One(boundary).Draw(t, "boundary")
	default:
		n := Int(0, 20).Draw(t, "bits")
		v := rune(1<<n) + rune(Int(0, 1<<n-1).Draw(t, "value"))
		if v > 0x10ffff {
			v = 0x10ffff - (v & 0xffff)
		}
		if v >= 0xd800 && v <= 0xdfff {
			v -= 0x800
		}
		if v == ' ' {
			v = '!'
		}
		return v
	}
}

// families of code points whose binary forms are prefixes of one another
var families = []string{
	"ab",
	"1b\u00c4c",       // 110001, 1100010, 11000100, 1100011
	"\x18" + "1b\x06", // 11000, 110001, 1100010, 110
	"0`a\u00c0",       // 110000, 1100000, 1100001, 11000000
	"\x00\x01\x02a",
	"xyzXYZ",
	"\u0416\u0436\u0437",
	"\u4e2d\u6587a",
	"\U0001f600\U0001f601e",
	// different code points that are alike by case, normal form or looks
	"aAbB",
	"\u03c3\u03c2\u03a3",
	"\u00e9e\u0301",
	"\u00c5\u212bA\u030a",
	"\u0130\u0131iI",
	"\u017fsS\u00df\u1e9e",
	"k\u212aK",
	"aa\u0430\uff41",
	// no separators, no matter what they look like
	"\t\na",
	"\u00a0\u2003\u3000a",
	"\u0085\u2028\v\fa",
	"\u200b\u200d\ufeff\u00ada",
	"\"'\\%",
	"-_.,",
	"\x00\uffff\U00010000\U0010ffff",
	// code points that agree in the lower eight, ten, twelve or sixteen bits
	"a\u0161\u0261\U00010061",
	"b\u4e62\U00010062\U00100062",
	"\u0141\u0541\u1141\U00011141",
	// code points that are one another's complement, mirror or swapped bytes
	"\u0141\u4101\u8280\u00be",
}

// sequences of code points that are one thing to somebody
var sequences = []string{
	"\u1100\u1161\u11a8\uac00",
	"\r\na",
	"\U0001f468\u200d\U0001f469\ufe0f",
	"\U0001f1e6\U0001f1e7\U0001f1e8",
	"\U0001f44d\U0001f3fb\U0001f3ff",
	"ae\u0308\u00e4\u00e6",
	"\u0301\u0323\u1e63s",
	"fil\ufb01",
	"\u0915\u094d\u0937\u200d",
	"\u0e01\u0e33\u0e4d\u0e32",
	"\u05d0\u05b0\u200f\u202e",
	"\u0644\u0627\u0640\ufefb",
	"\\nu0",
	"%20+",
	"&amp;",
	"<>/b",
	".\u2026",
	"1\u0661\uff11\u00b9",
	"\u304b\u3099\u304c\uff76",
	"\x1b[0m",
	"a\bb\x7f",
}

// Vocabulary is a small pool of texts that overlap in characters, words and
// phrases. One is drawn per case.
type Vocabulary struct {
	Words   []string
	Phrases []string

	count, style, next int // with a count, texts are numbered up to it
}

func word(t *rapid.T, alphabet []rune, max int) string {
	return string(rapid.SliceOfN(One(alphabet), 1, max).Draw(t, "word"))
}

// DrawVocabulary builds words from few characters and phrases from few words,
// many of them prefixes or extensions of earlier ones.
func DrawVocabulary(t *rapid.T) Vocabulary {
	var alphabet []rune
	if Int(0, 3).Draw(t, "alphabetKind") == 0 {
		for i, n := 0, Int(1, 4).Draw(t, "alphabetSize"); i < n; i++ {
			alphabet = append(alphabet, WordRune(t))
		}
	} else if Int(0, 4).Draw(t, "sequences") == 4 {
		alphabet = []rune(One(sequences).Draw(t, "sequence"))
	} else {
		alphabet = []rune(One(families).Draw(t, "family"))
	}
	var v Vocabulary
	switch Int(0, 15).Draw(t, "shape") {
	case 13, 14:
		return twinVocabulary(t, alphabet)
	case 15:
		return wideVocabulary(t, alphabet)
	}
	for i, n := 0, Int(2, 6).Draw(t, "words"); i < n; i++ {
		how := Int(0, 3).Draw(t, "wordHow")
		switch {
		case how == 1 && i > 0:
			v.Words = append(v.Words, One(v.Words).Draw(t, "base")+word(t, alphabet, 2))
		case how == 2 && i > 0:
			r := []rune(One(v.Words).Draw(t, "base"))
			v.Words = append(v.Words, string(r[:1+Int(0, len(r)-1).Draw(t, "cut")]))
		case how == 3 && i > 0:
			v.Words = append(v.Words, word(t, alphabet, 1)+One(v.Words).Draw(t, "base"))
		default:
			v.Words = append(v.Words, word(t, alphabet, 4))
		}
	}
	for i, n := 0, Int(2, 7).Draw(t, "phrases"); i < n; i++ {
		how := Int(0, 3).Draw(t, "phraseHow")
		switch {
		case how == 1 && i > 0:
			v.Phrases = append(v.Phrases, One(v.Phrases).Draw(t, "base")+" "+One(v.Words).Draw(t, "w"))
		case how == 2 && i > 0:
			ws := strings.Split(One(v.Phrases).Draw(t, "base"), " ")
			v.Phrases = append(v.Phrases, strings.Join(ws[:1+Int(0, len(ws)-1).Draw(t, "cut")], " "))
		default:
			v.Phrases = append(v.Phrases, strings.Join(rapid.SliceOfN(One(v.Words), 1, 3).Draw(t, "phrase"), " "))
		}
	}
	return v
}

// wideVocabulary has many words and phrases that go on differently after the
// same beginning.
func wideVocabulary(t *rapid.T, alphabet []rune) Vocabulary {
	var v Vocabulary
	base := word(t, alphabet, 2)
	n := Int(8, 24).Draw(t, "branches")
	from := One([]rune{'a', 0x21, 0x3b1, 0x4e00, 0x1f600, '0'}).Draw(t, "from")
	for i := 0; i < n; i++ {
		v.Words = append(v.Words, base+string(from+rune(i)))
	}
	for i := 0; i < n; i++ {
		switch Int(0, 3).Draw(t, "phraseHow") {
		case 0:
			v.Phrases = append(v.Phrases, v.Words[i])
		case 1:
			v.Phrases = append(v.Phrases, base+" "+v.Words[i]+" "+base)
		default:
			v.Phrases = append(v.Phrases, base+" "+v.Words[i])
		}
	}
	return v
}

// twin is like s except for one small change.
func twin[T any](t *rapid.T, s []T, other func() T) []T {
	out := append([]T(nil), s...)
	at := Int(0, len(out)-1).Draw(t, "at")
	switch Int(0, 5).Draw(t, "change") {
	case 0:
		if len(out) > 1 {
			return append(out[:at], out[at+1:]...)
		}
	case 1:
		return append(out[:at], append([]T{other()}, s[at:]...)...)
	case 2:
		if at > 0 {
			out[at-1], out[at] = out[at], out[at-1]
			return out
		}
	case 3:
		return append(out, other())
	}
	out[at] = other()
	return out
}

// twinVocabulary has long words and long phrases that differ in one place.
func twinVocabulary(t *rapid.T, alphabet []rune) Vocabulary {
	var v Vocabulary
	letter := func() rune {
		if rapid.Bool().Draw(t, "letter") {
			return WordRune(t)
		}
		return One(alphabet).Draw(t, "letter")
	}
	base := []rune{}
	for i, n := 0, Int(4, One([]int{8, 12, 30}).Draw(t, "length")).Draw(t, "n"); i < n; i++ {
		base = append(base, letter())
	}
	v.Words = []string{string(base)}
	for i, n := 0, Int(2, 6).Draw(t, "twins"); i < n; i++ {
		v.Words = append(v.Words, string(twin(t, []rune(One(v.Words).Draw(t, "base")), letter)))
	}
	some := func() string { return One(v.Words).Draw(t, "some") }
	var long []string
	for i, n := 0, Int(1, 7).Draw(t, "phraseLength"); i < n; i++ {
		long = append(long, some())
	}
	v.Phrases = []string{strings.Join(long, " ")}
	for i, n := 0, Int(3, 8).Draw(t, "phrases"); i < n; i++ {
		switch Int(0, 3).Draw(t, "phraseHow") {
		case 0:
			v.Phrases = append(v.Phrases, some())
		case 1:
			v.Phrases = append(v.Phrases, v.Words[0]+" "+some())
		default:
			v.Phrases = append(v.Phrases, strings.Join(twin(t, strings.Split(One(v.Phrases).Draw(t, "base"), " "), some), " "))
		}
	}
	return v
}

// Draw gives one well-formed text, mostly of the vocabulary.
func (v *Vocabulary) Draw(t *rapid.T, label string) Text {
	if v.count > 0 {
		i := v.next % v.count
		v.next++
		switch v.style {
		case 0:
			return Text(string(rune(0x4e00 + i)))
		case 1:
			return Text(strconv.Itoa(i))
		case 3:
			return Text(v.Words[0] + string(rune(0x4e00+i)))
		}
		return Text(v.Phrases[0] + " " + strconv.Itoa(i))
	}
	if Int(0, 9).Draw(t, label+"Kind") == 9 {
		return Text(FreeText(t, 3, 4))
	}
	return Text(One(v.Phrases).Draw(t, label))
}

// FreeText is a well-formed text over all code points.
func FreeText(t *rapid.T, maxWords, maxRunes int) string {
	var words []string
	for i, n := 0, Int(1, maxWords).Draw(t, "n"); i < n; i++ {
		var rs []rune
		for j, m := 0, Int(1, maxRunes).Draw(t, "m"); j < m; j++ {
			rs = append(rs, WordRune(t))
		}
		words = append(words, string(rs))
	}
	return strings.Join(words, " ")
}

// BrokenText has an empty word.
func (v *Vocabulary) BrokenText(t *rapid.T) Text {
	ws := strings.Split(One(v.Phrases).Draw(t, "whole"), " ")
	switch Int(0, 7).Draw(t, "brokenKind") {
	case 5:
		return Text(strings.Repeat(" ", Int(0, 4).Draw(t, "spaces")))
	case 6:
		ws = strings.Split(FreeText(t, 12, 2), " ") // not known yet
	case 7:
		ws = append(ws, strings.Split(FreeText(t, 2, 2), " ")...)
	}
	n := Int(1, 3).Draw(t, "holes")
	for i := 0; i < n; i++ {
		at := Int(0, len(ws)).Draw(t, "hole")
		ws = append(ws[:at], append([]string{""}, ws[at:]...)...)
	}
	return Text(strings.Join(ws, " "))
}

// History configures generated histories.
type History struct {
	Min, Max int
	Ops      []Choice
	Graphs   int  // operations choose among that many graphs, opened by "open" steps
	ByID     bool // operations may fetch the remark by identifier
	Long     bool // one in 24 histories has 30-70 steps, mostly of one kind, some of them 100-300
	NoMass   bool // none of 100-300 steps
	Bulk     bool // a third of those have 700-1400
}

// Due tells whether to check after step i of n: always in short histories, now
// and then in long ones, at the end in the longest.
func Due(i, n int) bool { return n < 30 || i == n-1 || n < 100 && i%16 == 15 }

// Ops with all additions.
var AllOps = []Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 2}}

// Draw generates the steps, the first one a story.
func (h History) Draw(t *rapid.T, v Vocabulary) []Step {
	if Deep {
		h.Max *= 2
	}
	n, at, hub := 0, "any", ""
	var center Text
	if h.Long && Int(0, 23).Draw(t, "long") == 23 {
		n = Int(30, 70).Draw(t, "steps")
		h.Max = n
		ops := append([]Choice(nil), h.Ops...)
		ops[Int(0, len(ops)-1).Draw(t, "mostly")].Weight *= 20
		h.Ops = ops
		at = One([]string{"any", "last", "first", "mostly last"}).Draw(t, "at")
		hub = One([]string{"", "object", "property"}).Draw(t, "hub")
		center = Text(One(v.Phrases).Draw(t, "center"))
		if !h.NoMass && Int(0, 11).Draw(t, "mass") == 11 {
			n = Int(100, 300).Draw(t, "steps")
			v.count = Int(60, 300).Draw(t, "count")
			v.style = Int(0, 3).Draw(t, "style")
			if h.Bulk && Int(0, 2).Draw(t, "bulk") == 2 {
				n = Int(700, 1400).Draw(t, "steps")
				v.count = Int(n/3, n).Draw(t, "count")
				h.Max = n
			}
		}
	} else {
		n = Int(h.Min, h.Max).Draw(t, "steps")
	}
	steps := make([]Step, 0, n)
	for i := 0; i < n; i++ {
		s := Step{Op: "story"}
		if i > 0 {
			s.Op = pick(t, "op", h.Ops)
		}
		h.Fill(t, &v, &s)
		if s.Op != "story" && s.Op != "open" {
			switch {
			case at == "last", at == "mostly last" && i%7 != 0:
				s.On = -1
			case at == "first":
				s.On = 0
			}
		}
		switch {
		case s.Op == "open" || s.Op == "link":
		case hub == "object" && s.Op != "remark":
			s.O = center
		case hub == "property":
			s.P = center
		}
		steps = append(steps, s)
	}
	return steps
}

// Fill draws the arguments of a step.
func (h History) Fill(t *rapid.T, v *Vocabulary, s *Step) {
	if s.Op == "open" {
		return
	}
	if s.Op != "story" {
		s.On = Int(0, 2*h.Max).Draw(t, "on")
		if h.ByID {
			s.Via = Int(0, 1).Draw(t, "via")
		}
	}
	if h.Graphs > 1 {
		s.G = Int(0, h.Graphs-1).Draw(t, "g")
	}
	switch s.Op {
	case "story", "fact", "child":
		s.O = v.Draw(t, "object")
		s.P = v.Draw(t, "property")
	case "remark":
		s.P = v.Draw(t, "property")
	}
}

// DrawStore chooses a storage with any numbering. Links are listed in the order
// made unless any is set.
func DrawStore(t *rapid.T, clew bool, any bool) StoreSpec {
	if clew && Int(0, 1).Draw(t, "storage") == 0 {
		return StoreSpec{Kind: "clew"}
	}
	s := StoreSpec{Kind: "mem"}
	s.Number = One([]string{"", "", "gaps", "down", "scatter", "huge", "halves", "strides"}).Draw(t, "number")
	if any {
		s.Order = One([]string{"", "reverse", "shuffle"}).Draw(t, "order")
	}
	s.Seed = uint32(Int(0, 1<<20).Draw(t, "storeSeed"))
	return s
}
