//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"strings"
	"time"
)

// class is what must stay the same while a failing scenario is made smaller.
func class(v string) string {
	if i := strings.IndexByte(v, ':'); i >= 0 {
		return v[:i]
	}
	return v
}

// Lists whose elements may go (minimum length), members that may go, and
// numbers that may get smaller. Fields of a packet are never touched: the
// reference model knows a document only by its structure.
var (
	shrinkLists = map[string]int{"pk": 1, "area": 0, "mut": 1, "ops": 1, "sched": 0, "resps": 1, "gh": 0, "hdrs": 0, "chunks": 0}
	shrinkKeys  = map[string]bool{"plan": true, "pre": true, "post": true, "clear": true, "hdrs": true, "crlf": true, "tz2": true, "tz": true, "clock": true, "jump": true, "mapseed": true, "delay": true, "eofwith": true,
		"latency": true, "wild": true, "part": true, "with": true, "once": true, "mut": true, "sched": true, "text": false}
	shrinkNums = map[string]bool{"at": true, "rep": true, "To": true, "off": true, "k": true, "jumpat": true, "tzat": true, "stall": true, "trunc": true}
	shrinkHex  = map[string]bool{"raw": true}
)

type jmap = map[string]interface{}

// shrink looks for a smaller scenario with a violation of the same class.
func shrink(s *Scn, v string, eval func(*Scn) string, maxEval int, maxTime time.Duration) (*Scn, string, int) {
	want := class(v)
	best, bestV := s, v
	n := 0
	end := time.Now().Add(maxTime)
	b, err := json.Marshal(s)
	if err != nil || len(b) > 4<<20 {
		return s, v, 0
	}
	decode := func(b []byte) interface{} {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var t interface{}
		_ = d.Decode(&t)
		return t
	}
	cur := b
	// try evaluates the tree as changed by the caller
	try := func(t interface{}) bool {
		if n >= maxEval || time.Now().After(end) {
			return false
		}
		nb, err := json.Marshal(t)
		if err != nil || len(nb) > len(cur) || bytes.Equal(nb, cur) {
			return false
		}
		c := &Scn{}
		if json.Unmarshal(nb, c) != nil {
			return false
		}
		n++
		w := evalSafe(c, eval)
		if w == "" || class(w) != want {
			return false
		}
		best, bestV, cur = c, w, nb
		return true
	}
	over := func() bool { return n >= maxEval || time.Now().After(end) }
	for again := true; again && !over(); {
		again = false
		tree := decode(cur)
		var walk func(x interface{}, key string, set func(interface{}))
		walk = func(x interface{}, key string, set func(interface{})) {
			if over() {
				return
			}
			switch y := x.(type) {
			case jmap:
				if key == "violation" || key == "trace" {
					return
				}
				for k := range shrinkKeys {
					old, ok := y[k]
					if !ok || !shrinkKeys[k] {
						continue
					}
					if k == "plan" {
						if m, isMap := old.(jmap); !isMap || len(m) == 0 {
							continue
						}
						y[k] = jmap{}
					} else {
						delete(y, k)
					}
					if try(tree) {
						again = true
					} else {
						y[k] = old
					}
				}
				for _, k := range sortedKeys(y) {
					k := k
					walk(y[k], k, func(z interface{}) { y[k] = z })
				}
			case []interface{}:
				if min, ok := shrinkLists[key]; ok {
					for size := len(y); size >= 1; size /= 2 {
						for i := 0; i+size <= len(y) && len(y)-size >= min; {
							z := append(append([]interface{}{}, y[:i]...), y[i+size:]...)
							set(z)
							if try(tree) {
								y = z
								again = true
							} else {
								set(y)
								i += size
							}
							if over() {
								return
							}
						}
					}
				}
				for i := range y {
					i := i
					walk(y[i], "", func(z interface{}) { y[i] = z })
				}
			case json.Number:
				if !shrinkNums[key] {
					return
				}
				v, err := y.Int64()
				if err != nil || v <= 0 {
					return
				}
				for _, w := range []int64{0, v / 2, v * 7 / 8, v - 1} {
					if w >= v {
						continue
					}
					b, _ := json.Marshal(w)
					set(json.Number(b))
					if try(tree) {
						again = true
						return
					}
				}
				set(y)
			case string:
				if !shrinkHex[key] {
					return
				}
				for size := len(y) / 4 * 2; size >= 2; size = size / 4 * 2 {
					for i := 0; i+size <= len(y); {
						z := y[:i] + y[i+size:]
						set(z)
						if try(tree) {
							y = z
							again = true
						} else {
							i += size
						}
						if over() {
							set(y)
							return
						}
					}
				}
				set(y)
			}
		}
		walk(tree, "", func(interface{}) {})
	}
	return best, bestV, n
}

func sortedKeys(m jmap) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// evalSafe keeps a scenario that makes no sense any more from ending the search.
func evalSafe(s *Scn, eval func(*Scn) string) (v string) {
	defer func() {
		if x := recover(); x != nil {
			v = ""
		}
	}()
	return eval(s)
}
