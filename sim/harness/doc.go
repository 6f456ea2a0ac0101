//go:build go1.21

package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
)

// Hex is a byte string that is written in hexadecimal in replay files.
type Hex []byte

// MarshalJSON writes h in hexadecimal.
func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

// UnmarshalJSON reads h.
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// Struct is a sequence of fields: the body of a packet or subpacket. Cut >= 0
// keeps only its first Cut bytes (a writer that stopped there and framed what
// it had).
type Struct struct {
	F   []*Field `json:"f,omitempty"`
	Cut *int     `json:"cut,omitempty"`
}

// Field is one field of a Struct. Exactly one of the contents is set.
type Field struct {
	N    string  `json:"n,omitempty"`   // what it is (for readers of a replay file)
	B    Hex     `json:"b,omitempty"`   // plain bytes
	Rep  int     `json:"rep,omitempty"` // this many filler bytes
	RepB byte    `json:"repb,omitempty"`
	Rnd  uint64  `json:"rnd,omitempty"`  // seed of filler bytes (0: all RepB)
	Area []*Sub  `json:"area,omitempty"` // subpackets
	Pk   []*Pkt  `json:"pk,omitempty"`   // packets
	PCut *int    `json:"pcut,omitempty"` // only the first PCut octets of Pk
	Comp *Comp   `json:"comp,omitempty"` // compressed packets
	S    *Struct `json:"s,omitempty"`    // nested structure
	LenB int     `json:"lenb,omitempty"` // octets of the big-endian length in front of Area/Pk/S
	Req  bool    `json:"req,omitempty"`  // the structure must not end inside this field ...
	OK0  bool    `json:"ok0,omitempty"`  // ... but may end just before it
	Soft bool    `json:"soft,omitempty"` // no claim about a structure that ends inside this field
}

// Sub is a signature or user attribute subpacket.
type Sub struct {
	Type int    `json:"type"`
	Len  int    `json:"len,omitempty"` // octets of the length: 0 shortest, 1, 2 or 5
	S    Struct `json:"s"`
}

// Comp is the content of a compressed packet after the algorithm octet.
type Comp struct {
	Alg  int    `json:"alg"`
	Pk   []*Pkt `json:"pk,omitempty"`
	PCut *int   `json:"pcut,omitempty"` // only the first PCut octets of Pk are compressed
	Raw  Hex    `json:"raw,omitempty"`  // plain octets instead of Pk
	Bomb int64  `json:"bomb,omitempty"` // expand to this many zero octets instead of Pk
	Mut  []Mut  `json:"mut,omitempty"`  // damage done to the compressed octets
}

// Pkt is a packet with its framing.
type Pkt struct {
	Tag  int    `json:"tag"`
	Hdr  string `json:"hdr,omitempty"`  // new, new2, new5, old1, old2, old4, indet, partial
	Part []int  `json:"part,omitempty"` // exponents of the partial chunks
	S    Struct `json:"s"`
}

// Mut is one act of damage to a byte string.
type Mut struct {
	Op  string `json:"op"` // flip, set, del, ins, dup, cut, swap
	Off int    `json:"off"`
	N   int    `json:"n,omitempty"`
	B   Hex    `json:"b,omitempty"`
}

// Armor describes how packets are wrapped in text.
type Armor struct {
	Type  string   `json:"type"`
	Hdrs  []string `json:"hdrs,omitempty"`
	Line  int      `json:"line"`
	CRLF  bool     `json:"crlf,omitempty"`
	NoCRC bool     `json:"nocrc,omitempty"`
	Pre   string   `json:"pre,omitempty"`
	Post  string   `json:"post,omitempty"`
	Clear string   `json:"clear,omitempty"` // cleartext-signed message in front
	Mut   []Mut    `json:"mut,omitempty"`   // damage to body and checksum lines (line-wise)
}

// Doc is an input document.
type Doc struct {
	Pk    []*Pkt `json:"pk,omitempty"`
	Raw   Hex    `json:"raw,omitempty"` // instead of Pk: these octets
	Armor *Armor `json:"armor,omitempty"`
	Mut   []Mut  `json:"mut,omitempty"`  // damage to the octets before armoring
	TMut  []Mut  `json:"tmut,omitempty"` // damage to the finished document
	Cut   *int   `json:"cut,omitempty"`  // the finished document ends here
}

func cp(i int) *int { return &i }

// Bytes returns the structure's octets.
func (s *Struct) Bytes() []byte {
	var b []byte
	for _, f := range s.F {
		b = append(b, f.Bytes()...)
	}
	if s.Cut != nil && *s.Cut < len(b) {
		b = b[:*s.Cut]
	}
	return b
}

// Bytes returns the field's octets.
func (f *Field) Bytes() []byte {
	var b []byte
	switch {
	case f.Area != nil || (f.N == "area"):
		for _, s := range f.Area {
			b = append(b, s.Bytes()...)
		}
		b = cutTo(b, f.PCut)
	case f.Pk != nil:
		b = cutTo(pktBytes(f.Pk), f.PCut)
	case f.Comp != nil:
		b = f.Comp.Bytes()
	case f.S != nil:
		b = f.S.Bytes()
	case f.Rep > 0:
		if f.Rnd != 0 {
			b = NewRng(f.Rnd).Bytes(f.Rep)
		} else {
			b = bytes.Repeat([]byte{f.RepB}, f.Rep)
		}
	default:
		b = f.B
	}
	if f.LenB > 0 {
		l := make([]byte, f.LenB)
		n := len(b)
		for i := f.LenB - 1; i >= 0; i-- {
			l[i] = byte(n)
			n >>= 8
		}
		b = append(l, b...)
	}
	return b
}

// Bytes returns the subpacket with its length.
func (s *Sub) Bytes() []byte {
	body := append([]byte{byte(s.Type)}, s.S.Bytes()...)
	n := len(body)
	k := s.Len
	switch {
	case k == 1 && n >= 192, k == 2 && (n < 192 || n >= 16320):
		k = 0
	}
	if k == 0 {
		switch {
		case n < 192:
			k = 1
		case n < 16320:
			k = 2
		default:
			k = 5
		}
	}
	var l []byte
	switch k {
	case 1:
		l = []byte{byte(n)}
	case 2:
		l = []byte{byte((n-192)>>8) + 192, byte(n - 192)}
	default:
		l = []byte{255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return append(l, body...)
}

var (
	compCache = map[uint64][]byte{}
	compSize  int
)

// noCache is set while tasks run.
var noCache bool

// Bytes returns the compressed octets.
func (c *Comp) Bytes() []byte {
	var plain []byte
	var key uint64
	if noCache { // tasks share nothing of the simulator
		if c.Bomb == 0 {
			plain = c.plain()
		}
	} else if c.Bomb > 0 {
		key = hash64([]byte(fmt.Sprintf("bomb %d %d", c.Alg, c.Bomb)))
		if b, ok := compCache[key]; ok {
			return applyMuts(b, c.Mut)
		}
	} else {
		plain = c.plain()
		if c.Alg > 0 && len(plain) < 1<<22 {
			key = hash64(plain) ^ uint64(c.Alg)*0x9e3779b97f4a7c15
			if b, ok := compCache[key]; ok {
				return applyMuts(b, c.Mut)
			}
		}
	}
	var b []byte
	switch c.Alg {
	case 0:
		b = plain
	case 1, 2:
		var buf bytes.Buffer
		var w interface {
			Write([]byte) (int, error)
			Close() error
		}
		if c.Alg == 1 {
			w, _ = flate.NewWriter(&buf, 6)
		} else {
			w = zlib.NewWriter(&buf)
		}
		if c.Bomb > 0 {
			// every megabyte of zeros after the first compresses to the
			// same octets, so write two and repeat the second
			z := make([]byte, 1<<20)
			fl := w.(interface{ Flush() error })
			_, _ = w.Write(z)
			_ = fl.Flush()
			l1 := buf.Len()
			_, _ = w.Write(z)
			_ = fl.Flush()
			blk := append([]byte(nil), buf.Bytes()[l1:]...)
			for n := c.Bomb>>20 - 2; n > 0; n-- {
				buf.Write(blk)
			}
		} else {
			_, _ = w.Write(plain)
		}
		_ = w.Close()
		b = buf.Bytes()
	case 3:
		b = bzip2Encode(plain)
	default:
		b = plain
	}
	if key != 0 {
		if compSize += len(b); compSize > 64<<20 || len(compCache) > 2000 {
			compCache, compSize = map[uint64][]byte{}, len(b)
		}
		compCache[key] = b
	}
	return applyMuts(b, c.Mut)
}

func (c *Comp) plain() []byte {
	if c.Raw != nil {
		return c.Raw
	}
	return cutTo(pktBytes(c.Pk), c.PCut)
}

func cutTo(b []byte, k *int) []byte {
	if k != nil && *k < len(b) {
		return b[:*k]
	}
	return b
}

func pktBytes(pk []*Pkt) []byte {
	var b []byte
	for _, p := range pk {
		b = append(b, p.Bytes()...)
	}
	return b
}

func be(n, k int) []byte {
	b := make([]byte, k)
	for i := k - 1; i >= 0; i-- {
		b[i] = byte(n)
		n >>= 8
	}
	return b
}

// Bytes returns the packet with its header. A header format that cannot
// express tag and length falls back to the shortest that can.
func (p *Pkt) Bytes() []byte {
	b, _ := p.frame()
	return b
}

// frame returns the packet and the offset of the first body octet.
func (p *Pkt) frame() ([]byte, int) {
	body := p.S.Bytes()
	n := len(body)
	h := p.Hdr
	if p.Tag > 15 && (strings.HasPrefix(h, "old") || h == "indet") {
		h = "new"
	}
	switch {
	case h == "old1" && n > 0xff, h == "old2" && n > 0xffff:
		h = "old4"
	case h == "new2" && (n < 192 || n >= 8384):
		h = "new"
	}
	var l []byte
	switch h {
	case "old1":
		l = append([]byte{0x80 | byte(p.Tag)<<2}, be(n, 1)...)
	case "old2":
		l = append([]byte{0x81 | byte(p.Tag)<<2}, be(n, 2)...)
	case "old4":
		l = append([]byte{0x82 | byte(p.Tag)<<2}, be(n, 4)...)
	case "indet":
		l = []byte{0x83 | byte(p.Tag)<<2}
	case "new5":
		l = append([]byte{0xc0 | byte(p.Tag), 255}, be(n, 4)...)
	case "partial":
		out := []byte{0xc0 | byte(p.Tag)}
		rest := body
		for _, e := range p.Part {
			if 1<<uint(e) > len(rest) {
				break
			}
			out = append(out, 224+byte(e))
			out = append(out, rest[:1<<uint(e)]...)
			rest = rest[1<<uint(e):]
		}
		out = append(out, newLen(len(rest))...)
		return append(out, rest...), 2
	default:
		l = append([]byte{0xc0 | byte(p.Tag)}, newLen(n)...)
	}
	return append(l, body...), len(l)
}

func newLen(n int) []byte {
	switch {
	case n < 192:
		return []byte{byte(n)}
	case n < 8384:
		return []byte{byte((n-192)>>8) + 192, byte(n - 192)}
	}
	return append([]byte{255}, be(n, 4)...)
}

func applyMuts(b []byte, ms []Mut) []byte {
	for _, m := range ms {
		b = m.apply(b)
	}
	return b
}

func (m Mut) apply(b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 && m.Op != "ins" {
		return b
	}
	off := m.Off
	if off < 0 {
		off = 0
	}
	if off >= len(b) && m.Op != "ins" && m.Op != "cut" {
		off = off % len(b)
	}
	if off > len(b) {
		off = len(b)
	}
	n := m.N
	if n > len(b)-off {
		n = len(b) - off
	}
	switch m.Op {
	case "flip":
		b[off] ^= 1 << uint(m.N&7)
	case "set":
		for i, c := range m.B {
			if off+i < len(b) {
				b[off+i] = c
			}
		}
	case "del":
		b = append(b[:off], b[off+n:]...)
	case "ins":
		b = append(b[:off], append(append([]byte(nil), m.B...), b[off:]...)...)
	case "dup":
		b = append(b[:off+n], append(append([]byte(nil), b[off:off+n]...), b[off+n:]...)...)
	case "swap":
		if off+2*n <= len(b) {
			t := append([]byte(nil), b[off:off+n]...)
			copy(b[off:], b[off+n:off+2*n])
			copy(b[off+n:], t)
		}
	case "cut":
		b = b[:off]
	}
	return b
}

func crc24(d []byte) uint32 {
	c := uint32(0xb704ce)
	for _, b := range d {
		c ^= uint32(b) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return c & 0xffffff
}

// Data returns the document's packet octets.
func (d *Doc) Data() []byte {
	var b []byte
	if d.Raw != nil {
		b = append([]byte(nil), d.Raw...)
	} else {
		b = pktBytes(d.Pk)
	}
	return applyMuts(b, d.Mut)
}

// Bytes returns the document as it is stored or sent.
func (d *Doc) Bytes() []byte {
	b := d.Data()
	if d.Armor != nil {
		b = d.Armor.Encode(b)
	}
	b = applyMuts(b, d.TMut)
	if d.Cut != nil && *d.Cut < len(b) {
		b = b[:*d.Cut]
	}
	return b
}

// Lines returns the lines between the blank line and the end line.
func (a *Armor) Lines(data []byte) []string {
	e := base64.StdEncoding.EncodeToString(data)
	w := a.Line
	if w < 4 || w > 76 {
		w = 64
	}
	var ls []string
	for len(e) > w {
		ls = append(ls, e[:w])
		e = e[w:]
	}
	if len(e) > 0 {
		ls = append(ls, e)
	}
	if !a.NoCRC {
		c := crc24(data)
		ls = append(ls, "="+base64.StdEncoding.EncodeToString([]byte{byte(c >> 16), byte(c >> 8), byte(c)}))
	}
	return ls
}

// End returns where the end line of the block begins and ends in Encode.
func (a *Armor) End(data []byte) (int, int) {
	c := *a
	c.Post = ""
	n := len(c.Encode(data)) - 1
	if a.CRLF {
		n--
	}
	return n - len("-----END PGP "+a.Type+"-----"), n
}

// Encode wraps data.
func (a *Armor) Encode(data []byte) []byte {
	ls := a.Lines(data)
	for _, m := range a.Mut {
		ls = m.applyLines(ls)
	}
	var t []string
	if a.Clear != "" {
		t = append(t, "-----BEGIN PGP SIGNED MESSAGE-----", "Hash: SHA256", "")
		for _, l := range strings.Split(a.Clear, "\n") {
			if strings.HasPrefix(l, "-") {
				l = "- " + l
			}
			t = append(t, l)
		}
	}
	t = append(t, "-----BEGIN PGP "+a.Type+"-----")
	t = append(t, a.Hdrs...)
	t = append(t, "")
	t = append(t, ls...)
	t = append(t, "-----END PGP "+a.Type+"-----")
	nl := "\n"
	if a.CRLF {
		nl = "\r\n"
	}
	s := strings.Join(t, nl) + nl
	if a.Pre != "" {
		s = strings.ReplaceAll(a.Pre, "\n", nl) + nl + s
	}
	return []byte(s + strings.ReplaceAll(a.Post, "\n", nl))
}

// Pad allows padding characters in the checksum line.
func (m Mut) Pad() bool { return len(m.B) > 1 }

// applyLines damages the armored lines; Off chooses a line or a character.
func (m Mut) applyLines(ls []string) []string {
	ls = append([]string(nil), ls...)
	if len(ls) == 0 {
		return ls
	}
	i := m.Off % len(ls)
	switch m.Op {
	case "char": // replace one base64 character by another
		l := []byte(ls[i])
		j := 0
		if len(l) > 0 {
			j = m.N % len(l)
			// a checksum line keeps its form (see KNOWN_FINDINGS.md)
			if l[j] != '=' && len(m.B) > 0 && !(l[0] == '=' && len(l) == 5 && m.B[0] == '=' && !m.Pad()) {
				l[j] = m.B[0]
			}
		}
		ls[i] = string(l)
	case "delchar":
		l := ls[i]
		if len(l) > 0 && l[0] != '=' {
			j := m.N % len(l)
			ls[i] = l[:j] + l[j+1:]
		}
	case "delline":
		if !strings.HasPrefix(ls[i], "=") || len(ls[i]) != 5 {
			ls = append(ls[:i], ls[i+1:]...)
		}
	case "dupline":
		if !strings.HasPrefix(ls[i], "=") || len(ls[i]) != 5 {
			ls = append(ls[:i+1], append([]string{ls[i]}, ls[i+1:]...)...)
		}
	case "swapline":
		if i+1 < len(ls) && !(strings.HasPrefix(ls[i+1], "=") && len(ls[i+1]) == 5) {
			ls[i], ls[i+1] = ls[i+1], ls[i]
		}
	}
	return ls
}

// ---- expectations ----

// Shape is what a dump has to show of a packet.
type Shape struct {
	Tag, Len int
	Kids     []Shape
}

func shapesOf(pk []*Pkt) []Shape {
	var l []Shape
	for _, p := range pk {
		l = append(l, Shape{p.Tag, len(p.S.Bytes()), p.S.kids(p.Tag)})
	}
	return l
}

// kids lists the packets nested in a structure, in order.
func (s *Struct) kids(tag int) []Shape {
	var l []Shape
	for _, f := range s.F {
		switch {
		case f.Area != nil:
			for _, sub := range f.Area {
				if tag == 2 && sub.Type&0x7f == 32 {
					l = append(l, Shape{2, len(sub.S.Bytes()), sub.S.kids(2)})
				} else if tag == 2 && sub.Type&0x7f == 38 {
					l = append(l, sub.S.kids(2)...)
				}
			}
		case f.Pk != nil:
			l = append(l, shapesOf(f.Pk)...)
		case f.Comp != nil && f.Comp.Alg <= 3:
			l = append(l, shapesOf(f.Comp.Pk)...)
		case f.S != nil:
			l = append(l, f.S.kids(tag)...)
		}
	}
	return l
}

// partsOf lists the subpackets (s type:octets) and the multi-precision integers
// (m bits) of packets, in order.
func partsOf(pk []*Pkt) []string {
	var l []string
	for _, p := range pk {
		p.S.parts(&l)
	}
	return l
}

func (s *Struct) parts(l *[]string) {
	for _, f := range s.F {
		switch {
		case f.Area != nil:
			for _, sub := range f.Area {
				*l = append(*l, fmt.Sprintf("s%d:%d", sub.Type&0x7f, len(sub.S.Bytes())))
				sub.S.parts(l)
			}
		case f.Pk != nil:
			*l = append(*l, partsOf(f.Pk)...)
		case f.Comp != nil && f.Comp.Alg <= 3:
			*l = append(*l, partsOf(f.Comp.Pk)...)
		case f.S != nil:
			f.S.parts(l)
		case f.N == "mpi":
			*l = append(*l, fmt.Sprintf("m%d", int(f.B[0])<<8|int(f.B[1])))
		}
	}
}

func shapeString(l []Shape) string {
	var b strings.Builder
	for i, s := range l {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d:%d", s.Tag, s.Len)
		if len(s.Kids) > 0 {
			b.WriteString("(" + shapeString(s.Kids) + ")")
		}
	}
	return b.String()
}

// cutVerdict tells what a structure that ends at offset k must lead to:
// 1 an error, 0 no claim, -1 success.
func (s *Struct) cutVerdict(k int) int {
	off := 0
	v := -1
	for _, f := range s.F {
		n := len(f.Bytes())
		end := off + n
		switch {
		case end <= k:
		case f.Soft:
			return 0
		case f.S != nil && f.LenB == 0 && f.Req:
			if v := f.S.cutVerdict(k - off); v >= 0 {
				return v
			}
		case f.Req && f.OK0 && off >= k:
			// may be missing altogether
		case f.Req:
			return 1
		case f.S != nil || f.Area != nil || f.Pk != nil || f.Comp != nil:
			if off < k {
				return 0
			}
		}
		off = end
	}
	return v
}

// reqLen returns the number of octets up to the end of the last required field.
func (s *Struct) reqLen() int {
	off, r := 0, 0
	for _, f := range s.F {
		off += len(f.Bytes())
		if f.Req {
			r = off
		}
	}
	return r
}

func clone[T any](x T) T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var y T
	if err := json.Unmarshal(b, &y); err != nil {
		panic(err)
	}
	return y
}

func decode64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }
