package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/FAU-CDI/hangover/internal/zverif/sqlref"
)

// mysql is a stand-in for a MySQL server: it speaks enough of the protocol for
// the driver and interprets the three kinds of statements an export consists of.
type mysql struct {
	l  net.Listener
	mu sync.Mutex
	// tables: name -> columns and rows
	cols   map[string][]string
	rows   map[string][][]any
	err    error // the first statement that is not understood
	failAt int   // fail the n-th execution
	n      int
}

func startMySQL() (*mysql, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	m := &mysql{l: l, cols: map[string][]string{}, rows: map[string][][]any{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go m.serve(c)
		}
	}()
	return m, nil
}

func (m *mysql) DSN() string { return "user:pw@tcp(" + m.l.Addr().String() + ")/db" }
func (m *mysql) Close()      { m.l.Close() }

var okPacket = []byte{0, 0, 0, 2, 0, 0, 0}
var eofPacket = []byte{0xfe, 0, 0, 2, 0}

func errPacket(msg string) []byte {
	return append([]byte{0xff, 0x28, 0x04, '#', '4', '2', '0', '0', '0'}, msg...)
}

func (m *mysql) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	var seq byte
	send := func(p []byte) error {
		h := []byte{byte(len(p)), byte(len(p) >> 8), byte(len(p) >> 16), seq}
		seq++
		_, err := c.Write(append(h, p...))
		return err
	}
	recv := func() ([]byte, error) {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return nil, err
		}
		p := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
		seq = h[3] + 1
		_, err := io.ReadFull(r, p)
		return p, err
	}
	// greeting: protocol 10, version, thread, salt, capabilities (4.1, secure, plugin auth)
	caps := uint32(1 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x80000)
	g := append([]byte{10}, "8.0.0\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, "abcdefgh\x00"...)
	g = append(g, byte(caps), byte(caps>>8), 45, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, "ijklmnopqrst\x00mysql_native_password\x00"...)
	if send(g) != nil {
		return
	}
	if _, err := recv(); err != nil {
		return
	}
	if send(okPacket) != nil {
		return
	}
	stmts := map[uint32]string{}
	var next uint32
	for {
		p, err := recv()
		if err != nil || len(p) == 0 {
			return
		}
		switch p[0] {
		case 0x01: // quit
			return
		case 0x03: // query
			m.reply(send, m.exec(string(p[1:]), nil))
		case 0x0e, 0x02, 0x1f:
			send(okPacket)
		case 0x16: // prepare
			next++
			q := string(p[1:])
			stmts[next] = q
			n := strings.Count(q, "?")
			resp := []byte{0, byte(next), byte(next >> 8), byte(next >> 16), byte(next >> 24), 0, 0, byte(n), byte(n >> 8), 0, 0, 0}
			send(resp)
			for i := 0; i < n; i++ {
				send([]byte("\x03def\x00\x00\x00\x01?\x00\x0c\x3f\x00\x00\x00\x00\x00\xfd\x80\x00\x00\x00\x00"))
			}
			if n > 0 {
				send(eofPacket)
			}
		case 0x17: // execute
			q := stmts[binary.LittleEndian.Uint32(p[1:])]
			args, err := params(p, strings.Count(q, "?"))
			if err == nil {
				err = m.exec(q, args)
			}
			m.reply(send, err)
		case 0x19: // close statement: no answer
		default:
			m.mu.Lock()
			m.err = fmt.Errorf("unknown command %x", p[0])
			m.mu.Unlock()
			send(errPacket("unknown command"))
		}
	}
}

func (m *mysql) reply(send func([]byte) error, err error) {
	if err != nil {
		send(errPacket(err.Error()))
		return
	}
	send(okPacket)
}

func params(p []byte, n int) (out []any, err error) {
	if n == 0 {
		return nil, nil
	}
	defer func() {
		if recover() != nil {
			err = fmt.Errorf("malformed execute packet")
		}
	}()
	pos := 10
	nulls := p[pos : pos+(n+7)/8]
	pos += (n + 7) / 8
	if p[pos] != 1 {
		return nil, fmt.Errorf("no types")
	}
	pos++
	pos += 2 * n
	for i := 0; i < n; i++ {
		if nulls[i/8]&(1<<(i%8)) != 0 {
			out = append(out, nil)
			continue
		}
		l := int(p[pos])
		pos++
		switch l {
		case 0xfc:
			l = int(binary.LittleEndian.Uint16(p[pos:]))
			pos += 2
		case 0xfd:
			l = int(p[pos]) | int(p[pos+1])<<8 | int(p[pos+2])<<16
			pos += 3
		}
		out = append(out, string(p[pos:pos+l]))
		pos += l
	}
	return
}

var (
	dropRe   = regexp.MustCompile(`^DROP TABLE IF EXISTS (\w+);$`)
	createRe = regexp.MustCompile(`^CREATE TABLE IF NOT EXISTS (\w+) \((.*)\)$`)
	columnRe = regexp.MustCompile(`^(\w+) [A-Z]+( NOT NULL)?$`)
	insertRe = regexp.MustCompile(`^INSERT INTO (\w+) \(([\w, ]*)\) VALUES ((\((\?(, )?)*\)(, )?)*)$`)
)

func (m *mysql) exec(q string, args []any) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n++
	if m.n == m.failAt {
		return fmt.Errorf("planned failure")
	}
	fail := func(what string) error {
		err := fmt.Errorf("%s: %s", what, q)
		if m.err == nil {
			m.err = err
		}
		return err
	}
	if g := dropRe.FindStringSubmatch(q); g != nil {
		delete(m.cols, g[1])
		delete(m.rows, g[1])
		return nil
	}
	if g := createRe.FindStringSubmatch(q); g != nil {
		if m.cols[g[1]] != nil {
			return nil
		}
		m.cols[g[1]] = []string{}
		for _, c := range strings.Split(g[2], ", ") {
			k := columnRe.FindStringSubmatch(c)
			if k == nil {
				return fail("column without a type")
			}
			m.cols[g[1]] = append(m.cols[g[1]], k[1])
		}
		return nil
	}
	if g := insertRe.FindStringSubmatch(q); g != nil {
		cols := strings.Split(g[2], ", ")
		if m.cols[g[1]] == nil || len(args)%len(cols) != 0 {
			return fail("unknown table, or wrong number of values")
		}
		for i := 0; i < len(args); i += len(cols) {
			row := make([]any, len(m.cols[g[1]]))
			for k, c := range cols {
				found := false
				for j, have := range m.cols[g[1]] {
					if have == c {
						row[j], found = args[i+k], true
					}
				}
				if !found {
					return fail("unknown column")
				}
			}
			m.rows[g[1]] = append(m.rows[g[1]], row)
		}
		return nil
	}
	return fail("not understood")
}

// content returns the tables, or the first statement that would be an error.
func (m *mysql) content() (sqlref.DB, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := sqlref.DB{}
	for t, rows := range m.rows {
		for _, row := range rows {
			s := ""
			for i, c := range m.cols[t] {
				s += sqlref.Cell(c, row[i])
			}
			out[t] = append(out[t], s)
		}
		sort.Strings(out[t])
	}
	return out, m.err
}
