//go:build go1.21

// A PostgreSQL server, as much of it as lib/pq talks to.
package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"strings"

	"github.com/chanjarster/gears/zzsim/snet"
)

func pgMsg(out []byte, t byte, body []byte) []byte {
	out = append(out, t)
	out = binary.BigEndian.AppendUint32(out, uint32(len(body)+4))
	return append(out, body...)
}

func cstr(s ...string) []byte {
	var b []byte
	for _, x := range s {
		b = append(append(b, x...), 0)
	}
	return b
}

func pgErr(out []byte, code, msg string) []byte {
	return pgMsg(out, 'E', append(cstr("SERROR", "C"+code, "M"+msg), 0))
}

func (s *server) pg(c *snet.Conn) {
	read := func(hdr int) (byte, []byte, bool) {
		h := make([]byte, hdr)
		if _, err := io.ReadFull(c, h); err != nil {
			return 0, nil, false
		}
		n := int(binary.BigEndian.Uint32(h[hdr-4:])) - 4
		if n < 0 || n > 1<<20 {
			return 0, nil, false
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil {
			return 0, nil, false
		}
		return h[0], b, true
	}
	_, b, ok := read(4)
	if ok && len(b) == 4 && binary.BigEndian.Uint32(b) == 80877103 {
		c.Write([]byte{'N'})
		_, b, ok = read(4)
	}
	if !ok || len(b) < 4 || binary.BigEndian.Uint32(b) != 196608 {
		return
	}
	l := login{params: map[string]string{}}
	f := strings.Split(strings.TrimRight(string(b[4:]), "\x00")+"\x00", "\x00")
	for i := 0; i+1 < len(f); i += 2 {
		switch f[i] {
		case "user":
			l.user = f[i+1]
		case "database":
			l.db = f[i+1]
		default:
			l.params[f[i]] = f[i+1]
		}
	}
	c.Write(pgMsg(nil, 'R', []byte{0, 0, 0, 3}))
	t, b, ok := read(5)
	if !ok || t != 'p' {
		return
	}
	l.pass = string(bytes.TrimRight(b, "\x00"))
	if msg := s.login(c, l); msg != "" {
		c.Write(pgErr(nil, "28P01", msg))
		return
	}
	out := pgMsg(nil, 'R', []byte{0, 0, 0, 0})
	out = pgMsg(out, 'S', cstr("server_version", "15.1"))
	out = pgMsg(out, 'K', make([]byte, 8))
	ready := func(out []byte) { c.Write(pgMsg(out, 'Z', []byte{'I'})) }
	ready(out)
	for {
		t, b, ok := read(5)
		if !ok || t == 'X' {
			return
		}
		if t != 'Q' {
			ready(pgErr(nil, "0A000", "unsupported message "+string(rune(t))))
			continue
		}
		q := string(bytes.TrimRight(b, "\x00"))
		if strings.Trim(q, "; ") == "" {
			s.ping(c)
			ready(pgMsg(nil, 'I', nil))
			continue
		}
		k, v, err := s.query(c, q)
		switch {
		case err != "":
			ready(pgErr(nil, "42601", err))
		case k == "row" || k == "none":
			d := append([]byte{0, 1}, cstr("v")...)
			d = append(d, 0, 0, 0, 0, 0, 0)
			d = binary.BigEndian.AppendUint32(d, 25) // text
			d = append(d, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
			out := pgMsg(nil, 'T', d)
			if k == "row" {
				r := binary.BigEndian.AppendUint32([]byte{0, 1}, uint32(len(v)))
				out = pgMsg(out, 'D', append(r, v...))
			}
			ready(pgMsg(out, 'C', cstr("SELECT 1")))
		default:
			ready(pgMsg(nil, 'C', cstr("UPDATE 1")))
		}
	}
}
