//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// Item mirrors the JSON dump.
type Item struct {
	Name  string  `json:"name"`
	Value string  `json:"value"`
	Dump  string  `json:"dump"`
	Note  string  `json:"note"`
	Items []*Item `json:"Item"`
}

// DumpDoc mirrors the JSON dump.
type DumpDoc struct {
	Packets []*Item `json:"Packet"`
}

var reTag = regexp.MustCompile(`\(tag (\d+)\)$`)
var reLen = regexp.MustCompile(`^(\d+) bytes`)

func parseDump(b []byte) (*DumpDoc, error) {
	if len(strings.TrimSpace(string(b))) == 0 {
		return &DumpDoc{}, nil
	}
	d := &DumpDoc{}
	err := json.Unmarshal(b, d)
	return d, err
}

func shapeOfItem(it *Item) (Shape, bool) {
	m := reTag.FindStringSubmatch(it.Name)
	l := reLen.FindStringSubmatch(it.Note)
	if m == nil || l == nil {
		return Shape{}, false
	}
	t, _ := strconv.Atoi(m[1])
	n, _ := strconv.Atoi(l[1])
	return Shape{Tag: t, Len: n, Kids: nestedShapes(it)}, true
}

func nestedShapes(it *Item) []Shape {
	var l []Shape
	for _, k := range it.Items {
		if s, ok := shapeOfItem(k); ok {
			l = append(l, s)
		} else {
			l = append(l, nestedShapes(k)...)
		}
	}
	return l
}

var reText = regexp.MustCompile(`(?m)^[ \t]*[^\s:][^:\n]* \(tag (\d+)\) \((\d+) bytes\)$`)

// shapeOfText extracts the packets of a text dump, in order.
func shapeOfText(b []byte) string {
	var l []Shape
	for _, m := range reText.FindAllSubmatch(b, -1) {
		t, _ := strconv.Atoi(string(m[1]))
		n, _ := strconv.Atoi(string(m[2]))
		l = append(l, Shape{Tag: t, Len: n})
	}
	return shapeString(l)
}

func flatShapes(l []Shape) []Shape {
	var r []Shape
	for _, s := range l {
		r = append(append(r, Shape{Tag: s.Tag, Len: s.Len}), flatShapes(s.Kids)...)
	}
	return r
}

var (
	reSub  = regexp.MustCompile(`\(sub (\d+)\)$`)
	reBits = regexp.MustCompile(`^(\d+) bits$`)
)

// partsOfDump lists the subpackets and multi-precision integers of a dump.
func partsOfDump(b []byte) []string {
	d, err := parseDump(b)
	if err != nil {
		return []string{err.Error()}
	}
	var l []string
	var walk func(it []*Item)
	walk = func(it []*Item) {
		for _, i := range it {
			if m := reSub.FindStringSubmatch(i.Name); m != nil {
				n := reLen.FindStringSubmatch(i.Note)
				if n == nil {
					n = []string{"", "?"}
				}
				l = append(l, "s"+m[1]+":"+n[1])
			} else if m := reBits.FindStringSubmatch(i.Note); m != nil {
				l = append(l, "m"+m[1])
			}
			walk(i.Items)
		}
	}
	walk(d.Packets)
	return l
}

// sameParts compares a dump's parts with those of the input; some kinds of
// subpackets are shown without their length.
func sameParts(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i, g := range got {
		if g == want[i] {
			continue
		}
		if !strings.HasSuffix(g, ":?") || !strings.HasPrefix(want[i], g[:len(g)-1]) {
			return false
		}
	}
	return true
}

// shapeOfDump extracts the packet structure from a JSON dump.
func shapeOfDump(b []byte) string {
	d, err := parseDump(b)
	if err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}
	var l []Shape
	for i, p := range d.Packets {
		s, ok := shapeOfItem(p)
		if !ok {
			return fmt.Sprintf("item %d %q (%q) is not a packet", i, p.Name, p.Note)
		}
		l = append(l, s)
	}
	return shapeString(l)
}
