//go:build go1.21

package main

import "slices"

// bzip2Encode is a minimal BZip2 compressor (one block, flat Huffman codes).
func bzip2Encode(data []byte) []byte {
	w := &bitw{}
	w.bits(0x425a, 16)
	w.bits('h', 8)
	w.bits('9', 8)
	total := uint32(0)
	for len(data) > 0 {
		n := len(data)
		if n > 300000 {
			n = 300000
		}
		crc := bz2crc(data[:n])
		total = (total<<1 | total>>31) ^ crc
		bz2block(w, data[:n], crc)
		data = data[n:]
	}
	w.bits(0x177245385090, 48)
	w.bits(uint64(total), 32)
	for w.n%8 != 0 {
		w.bits(0, 1)
	}
	return w.out
}

type bitw struct {
	out []byte
	n   int
}

func (w *bitw) bits(v uint64, k int) {
	for i := k - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.out = append(w.out, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.out[w.n/8] |= 1 << uint(7-w.n%8)
		}
		w.n++
	}
}

func bz2crc(d []byte) uint32 {
	c := ^uint32(0)
	for _, b := range d {
		c ^= uint32(b) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return ^c
}

func bz2block(w *bitw, data []byte, crc uint32) {
	// first run-length pass
	var r []byte
	for i := 0; i < len(data); {
		j := i
		for j < len(data) && data[j] == data[i] && j-i < 255 {
			j++
		}
		n := j - i
		if n >= 4 {
			r = append(r, data[i], data[i], data[i], data[i], byte(n-4))
		} else {
			for k := 0; k < n; k++ {
				r = append(r, data[i])
			}
		}
		i = j
	}
	n := len(r)
	// Burrows-Wheeler transform by prefix doubling
	sa := make([]int, n)
	rank := make([]int, n)
	tmp := make([]int, n)
	for i := range sa {
		sa[i] = i
		rank[i] = int(r[i])
	}
	keys := make([]uint64, n) // rank, rank k further on, position: 21 bits each
	for k := 1; ; k *= 2 {
		if k >= n && k > 1 {
			k = n
		}
		for i := range keys {
			keys[i] = uint64(rank[i])<<42 | uint64(rank[(i+k)%n])<<21 | uint64(i)
		}
		slices.Sort(keys)
		rk := -1
		prev := ^uint64(0)
		for i, x := range keys {
			if x>>21 != prev {
				rk++
				prev = x >> 21
			}
			p := int(x & (1<<21 - 1))
			sa[i] = p
			tmp[p] = rk
		}
		copy(rank, tmp)
		if rk == n-1 || k >= n {
			break
		}
	}
	orig := 0
	last := make([]byte, n)
	for i, p := range sa {
		if p == 0 {
			orig = i
		}
		last[i] = r[(p+n-1)%n]
	}
	// move to front, second run-length pass
	var used [256]bool
	for _, b := range r {
		used[b] = true
	}
	var mtf []byte
	for i := 0; i < 256; i++ {
		if used[i] {
			mtf = append(mtf, byte(i))
		}
	}
	eob := len(mtf) + 1
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) / 2
			} else {
				syms = append(syms, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, b := range last {
		j := 0
		for mtf[j] != b {
			j++
		}
		if j == 0 {
			run++
			continue
		}
		flush()
		copy(mtf[1:j+1], mtf[:j])
		mtf[0] = b
		syms = append(syms, j+1)
	}
	flush()
	syms = append(syms, eob)
	alpha := eob + 1
	L := 0
	for 1<<uint(L) < alpha {
		L++
	}
	short := 1<<uint(L) - alpha // this many symbols get L-1 bits
	lens := make([]int, alpha)
	codes := make([]int, alpha)
	c := 0
	for i := range lens {
		if i < short {
			lens[i] = L - 1
			codes[i] = c
			c++
		} else {
			if i == short {
				c <<= 1
			}
			lens[i] = L
			codes[i] = c
			c++
		}
	}
	w.bits(0x314159265359, 48)
	w.bits(uint64(crc), 32)
	w.bits(0, 1)
	w.bits(uint64(orig), 24)
	var top uint64
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			if used[i*16+j] {
				top |= 1 << uint(15-i)
			}
		}
	}
	w.bits(top, 16)
	for i := 0; i < 16; i++ {
		if top>>uint(15-i)&1 == 0 {
			continue
		}
		var m uint64
		for j := 0; j < 16; j++ {
			if used[i*16+j] {
				m |= 1 << uint(15-j)
			}
		}
		w.bits(m, 16)
	}
	nsel := (len(syms) + 49) / 50
	w.bits(2, 3)
	w.bits(uint64(nsel), 15)
	for i := 0; i < nsel; i++ {
		w.bits(0, 1)
	}
	for t := 0; t < 2; t++ {
		cur := lens[0]
		w.bits(uint64(cur), 5)
		for _, l := range lens {
			for cur < l {
				w.bits(2, 2)
				cur++
			}
			for cur > l {
				w.bits(3, 2)
				cur--
			}
			w.bits(0, 1)
		}
	}
	for _, s := range syms {
		w.bits(uint64(codes[s]), lens[s])
	}
}
