//go:build go1.21

// A MySQL server, as much of it as go-sql-driver/mysql talks to.
package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"io"
	"strconv"

	"github.com/chanjarster/gears/zzsim/snet"
)

const scramble = "abcdefghijklmnopqrst"

type mysqlConn struct {
	c   *snet.Conn
	seq byte
}

func (m *mysqlConn) read() ([]byte, bool) {
	var out []byte
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(m.c, h); err != nil {
			return nil, false
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		b := make([]byte, n)
		if _, err := io.ReadFull(m.c, b); err != nil {
			return nil, false
		}
		m.seq = h[3] + 1
		out = append(out, b...)
		if n < 1<<24-1 {
			return out, true
		}
	}
}

func (m *mysqlConn) pack(out, b []byte) []byte {
	out = append(out, byte(len(b)), byte(len(b)>>8), byte(len(b)>>16), m.seq)
	m.seq++
	return append(out, b...)
}

func (m *mysqlConn) ok() { m.c.Write(m.pack(nil, []byte{0, 1, 0, 2, 0, 0, 0})) }

func (m *mysqlConn) err(code uint16, state, msg string) {
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	m.c.Write(m.pack(nil, append(append(b, state...), msg...)))
}

func lenc(b []byte, s string) []byte { return append(append(b, byte(len(s))), s...) }

func (m *mysqlConn) rows(typ byte, vals ...string) {
	out := m.pack(nil, []byte{1})
	col := lenc(nil, "def")
	for i := 0; i < 3; i++ {
		col = lenc(col, "")
	}
	col = lenc(lenc(col, "v"), "v")
	out = m.pack(out, append(col, 0x0c, 33, 0, 64, 0, 0, 0, typ, 0, 0, 0, 0, 0))
	out = m.pack(out, []byte{0xfe, 0, 0, 2, 0})
	for _, v := range vals {
		out = m.pack(out, lenc(nil, v))
	}
	m.c.Write(m.pack(out, []byte{0xfe, 0, 0, 2, 0}))
}

func native(pass string) []byte {
	if pass == "" {
		return nil
	}
	h := func(parts ...[]byte) []byte {
		x := sha1.New()
		for _, p := range parts {
			x.Write(p)
		}
		return x.Sum(nil)
	}
	a := h([]byte(pass))
	b := h([]byte(scramble), h(a))
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}

func (s *server) mysql(c *snet.Conn) {
	m := &mysqlConn{c: c}
	const caps = 0x00000001 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000
	b := append([]byte{10}, "8.0.99-sim\x00"...)
	b = binary.LittleEndian.AppendUint32(b, uint32(c.ID))
	b = append(b, scramble[:8]...)
	b = append(b, 0, byte(caps&0xff), byte(caps>>8&0xff), 45, 2, 0, byte(caps>>16&0xff), byte(caps>>24), 21)
	b = append(b, make([]byte, 10)...)
	b = append(append(b, scramble[8:]...), 0)
	b = append(b, "mysql_native_password\x00"...)
	c.Write(m.pack(nil, b))
	b, ok := m.read()
	if !ok || len(b) < 33 {
		return
	}
	cl := binary.LittleEndian.Uint32(b)
	b = b[32:]
	str := func() string {
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			i = len(b)
			b = append(b, 0)
		}
		r := string(b[:i])
		b = b[i+1:]
		return r
	}
	user := str()
	n := int(b[0])
	auth := b[1 : 1+n]
	b = b[1+n:]
	db := ""
	if cl&8 != 0 {
		db = str()
	}
	l := login{user: user, pass: "?", db: db}
	if bytes.Equal(auth, native(s.pass)) {
		l.pass = s.pass
	}
	if msg := s.login(c, l); msg != "" {
		m.err(1045, "28000", msg)
		return
	}
	m.ok()
	for {
		b, ok := m.read()
		if !ok || len(b) == 0 {
			return
		}
		switch b[0] {
		case 1:
			return
		case 0x0e:
			s.ping(c)
			m.ok()
		case 3:
			k, v, err := s.query(c, string(b[1:]))
			switch {
			case err != "":
				m.err(1064, "42000", err)
			case k == "row":
				m.rows(253, v)
			case k == "none":
				m.rows(253)
			case k == "time":
				m.rows(12, v)
			default:
				m.ok()
			}
		default:
			m.err(1047, "08S01", "unknown command "+strconv.Itoa(int(b[0])))
		}
	}
}
