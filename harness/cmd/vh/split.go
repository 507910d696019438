package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
)

func splitJSON(b []byte) (parts [][]byte, ok bool) {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return nil, false
	}
	for _, x := range raw {
		parts = append(parts, x)
	}
	return parts, true
}

// splitMsgpack is an independent reader of msgpack: it finds the elements'
// boundaries of one array that fills b exactly.
func splitMsgpack(b []byte) (parts [][]byte, ok bool) {
	defer func() {
		if recover() != nil {
			parts, ok = nil, false
		}
	}()
	n, rest := 0, b
	switch {
	case b[0]&0xf0 == 0x90:
		n, rest = int(b[0]&0x0f), b[1:]
	case b[0] == 0xdc:
		n, rest = int(binary.BigEndian.Uint16(b[1:])), b[3:]
	case b[0] == 0xdd:
		n, rest = int(binary.BigEndian.Uint32(b[1:])), b[5:]
	default:
		return nil, false
	}
	for i := 0; i < n; i++ {
		l := mpLen(rest)
		parts = append(parts, rest[:l])
		rest = rest[l:]
	}
	return parts, len(rest) == 0
}

func mpLen(b []byte) int {
	u16 := func() int { return int(binary.BigEndian.Uint16(b[1:])) }
	u32 := func() int { return int(binary.BigEndian.Uint32(b[1:])) }
	check := func(n int) int { _ = b[:n]; return n }
	many := func(h, n int) int {
		l := h
		for i := 0; i < n; i++ {
			l += mpLen(b[l:])
		}
		return l
	}
	c := b[0]
	switch {
	case c <= 0x7f, c >= 0xe0, c == 0xc0, c == 0xc2, c == 0xc3:
		return 1
	case c&0xf0 == 0x80:
		return many(1, 2*int(c&0x0f))
	case c&0xf0 == 0x90:
		return many(1, int(c&0x0f))
	case c&0xe0 == 0xa0:
		return check(1 + int(c&0x1f))
	}
	switch c {
	case 0xc4, 0xd9:
		return check(2 + int(b[1]))
	case 0xc5, 0xda:
		return check(3 + u16())
	case 0xc6, 0xdb:
		return check(5 + u32())
	case 0xc7:
		return check(3 + int(b[1]))
	case 0xc8:
		return check(4 + u16())
	case 0xc9:
		return check(6 + u32())
	case 0xca, 0xce, 0xd2:
		return check(5)
	case 0xcb, 0xcf, 0xd3:
		return check(9)
	case 0xcc, 0xd0:
		return check(2)
	case 0xcd, 0xd1:
		return check(3)
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return check(2 + 1<<(c-0xd4))
	case 0xdc:
		return many(3, u16())
	case 0xdd:
		return many(5, u32())
	case 0xde:
		return many(3, 2*u16())
	case 0xdf:
		return many(5, 2*u32())
	}
	panic("no msgpack")
}

// decodeJSON decodes exactly one JSON value, numbers kept as written.
func decodeJSON(b []byte) (x interface{}, ok bool) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		return nil, false
	}
	return x, len(bytes.TrimSpace(b[d.InputOffset():])) == 0
}
