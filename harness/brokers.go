package main

// Stand-ins for the six message brokers: each speaks enough of its wire
// protocol for the client libraries, records what it is given and can be told
// to misbehave.

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Delivered is one message as a broker received it.
type Delivered struct {
	Dest    string            // channel, topic, table, exchange, tube
	Attr    map[string]string // user, password, db, key ...
	Payload []byte
	lost    bool
}

type broker struct {
	kind     string
	l        net.Listener
	host     string
	port     string
	mod      string // "", authfail, reject, drop, chanrefuse
	wantPass string

	mu     sync.Mutex
	cond   *sync.Cond
	msgs   []Delivered
	delay  time.Duration // between receiving a message and answering
	open   int
	begun  int // transactions
	limit  int // connections open at the same time, 0: any number
	conns  []net.Conn
	closed bool
	odd    []string // protocol surprises
}

func newBroker(kind, mode string) (*broker, error) {
	for i := 0; i < 20; i++ {
		a, err := freeAddr()
		if err != nil {
			continue
		}
		if b, err := newBrokerAt(a, kind, mode); err == nil {
			return b, nil
		}
	}
	return nil, errors.New("no address for a broker")
}

func newBrokerAt(a, kind, mode string) (*broker, error) {
	l, err := net.Listen("tcp", a)
	if err != nil {
		return nil, err
	}
	b := &broker{kind: kind, l: l, mod: mode}
	b.cond = sync.NewCond(&b.mu)
	b.host, b.port, _ = net.SplitHostPort(a)
	go b.accept()
	return b, nil
}

func (b *broker) accept() {
	for {
		c, err := b.l.Accept()
		if err != nil {
			return
		}
		b.mu.Lock()
		if b.closed {
			b.mu.Unlock()
			c.Close()
			continue
		}
		b.open++
		b.conns = append(b.conns, c)
		b.mu.Unlock()
		go func() {
			defer func() {
				c.Close()
				b.mu.Lock()
				b.open--
				b.cond.Broadcast()
				b.mu.Unlock()
			}()
			// a server has a limit of connections; those being closed are waited for
			if b.limit > 0 && !b.await(func() bool { return b.open <= b.limit }, 3*time.Second) {
				b.mu.Lock()
				b.odd = append(b.odd, fmt.Sprintf("more than %d connections of one storage", b.limit))
				b.mu.Unlock()
				return
			}
			r := bufio.NewReader(c)
			var err error
			switch b.kind {
			case "redis":
				err = b.redis(r, c)
			case "nats":
				err = b.nats(r, c)
			case "nsq":
				err = b.nsq(r, c)
			case "postgresql":
				err = b.postgres(r, c)
			case "rabbitmq":
				err = b.amqp(r, c)
			case "tarantool_queue":
				err = b.tarantool(r, c)
			}
			if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !isNetErr(err) {
				b.mu.Lock()
				b.odd = append(b.odd, err.Error())
				b.mu.Unlock()
			}
		}()
	}
}

func isNetErr(err error) bool {
	var oe *net.OpError
	return errors.As(err, &oe) || errors.Is(err, net.ErrClosed)
}

var errDrop = fmt.Errorf("drop: %w", io.EOF)

func (b *broker) close() {
	b.l.Close()
	b.mu.Lock()
	b.closed = true
	for _, c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
}

func (b *broker) m() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return strings.SplitN(b.mod, ":", 2)[0]
}

// refusal picks the wording of a refusal, of which real brokers have many.
func (b *broker) refusal(list []string) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	if f := strings.SplitN(b.mod, ":", 2); len(f) == 2 {
		i, _ := strconv.Atoi(f[1])
		return list[i%len(list)]
	}
	return list[0]
}

var (
	redisRefusals = []string{"ERR rejected", "NOPERM this user has no permissions to access one of the channels used as arguments", "OOM command not allowed when used memory > 'maxmemory'.",
		"NOAUTH Authentication required.", "MISCONF Redis is configured to save RDB snapshots", "LOADING Redis is loading the dataset in memory", "READONLY You can't write against a read only replica.",
		"MOVED 3999 127.0.0.1:6381", "BUSY Redis is busy running a script.", "EXECABORT Transaction discarded because of previous errors.", "ERR unknown command 'PUBLISH'", "nil"}
	nsqRefusals = []string{"E_BAD_TOPIC PUB topic refused", "E_BAD_MESSAGE PUB message too big 10 > 5", "E_PUB_FAILED PUB failed exiting", "E_MPUB_FAILED MPUB failed", "E_UNAUTHORIZED AUTH failed",
		"E_AUTH_FAILED AUTH failed", "E_FIN_FAILED FIN failed", "E_REQ_FAILED", "E_TOUCH_FAILED", "E_SUB_FAILED"}
	pgRefusals = []string{"ERROR 42P01", "ERROR 23505", "ERROR 23502", "ERROR 23514", "ERROR 22P02", "ERROR 22021", "ERROR 42501", "ERROR 42703", "ERROR 53100", "ERROR 53200", "ERROR 54000",
		"ERROR 25006", "ERROR 40001", "ERROR 40P01", "ERROR 55P03", "ERROR 57014", "ERROR P0001", "ERROR XX000", "ERROR 00000", "ERROR 02000", "ERROR 01000", "FATAL 57P01", "FATAL 53300", "PANIC XX001"}
	tarantoolRefusals = []string{"33", "3", "7", "20", "32", "36", "42", "47", "55", "78", "1"}
)

func (b *broker) setMode(m string) {
	b.mu.Lock()
	b.mod = m
	b.mu.Unlock()
}

func (b *broker) deliver(d Delivered) {
	d.Payload = append([]byte{}, d.Payload...)
	b.mu.Lock()
	b.msgs = append(b.msgs, d)
	b.cond.Broadcast()
	w := b.delay
	b.mu.Unlock()
	time.Sleep(w)
}

func (b *broker) setDelay(d time.Duration) {
	b.mu.Lock()
	b.delay = d
	b.mu.Unlock()
}

func (b *broker) await(cond func() bool, limit time.Duration) bool {
	t := time.AfterFunc(limit, func() { b.mu.Lock(); b.cond.Broadcast(); b.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(limit)
	b.mu.Lock()
	defer b.mu.Unlock()
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		b.cond.Wait()
	}
	return true
}

// settle waits for n messages, then for the clients to be gone.
func (b *broker) settle(n int, limit time.Duration) []Delivered {
	b.await(func() bool { return len(b.msgs) >= n }, limit)
	b.await(func() bool { return b.open == 0 }, limit)
	return b.got()
}

func (b *broker) got() []Delivered {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]Delivered{}, b.msgs...)
}

func (b *broker) oddities() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return strings.Join(b.odd, "; ")
}

// ---- redis ----------------------------------------------------------------------

func (b *broker) redis(r *bufio.Reader, w net.Conn) error {
	pass, db := "", "0"
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		h, err := line()
		if err != nil {
			return err
		}
		if !strings.HasPrefix(h, "*") {
			return fmt.Errorf("redis: %q", h)
		}
		n, _ := strconv.Atoi(h[1:])
		var args []string
		for i := 0; i < n; i++ {
			l, err := line()
			if err != nil {
				return err
			}
			k, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
			if err != nil {
				return fmt.Errorf("redis: %q", l)
			}
			x := make([]byte, k+2)
			if _, err := io.ReadFull(r, x); err != nil {
				return err
			}
			args = append(args, string(x[:k]))
		}
		if len(args) == 0 {
			continue
		}
		out := "+OK\r\n"
		switch strings.ToUpper(args[0]) {
		case "AUTH":
			pass = strings.Join(args[1:], " ")
			if b.m() == "authfail" {
				out = "-WRONGPASS invalid username-password pair\r\n"
			}
		case "SELECT":
			db = strings.Join(args[1:], " ")
		case "PING":
			out = "+PONG\r\n"
		case "PUBLISH":
			if len(args) != 3 {
				return fmt.Errorf("redis: %q", args)
			}
			switch b.m() {
			case "authfail":
				out = "-NOAUTH Authentication required.\r\n"
			case "reject":
				out = "-" + b.refusal(redisRefusals) + "\r\n"
			case "drop":
				return errDrop
			default:
				b.deliver(Delivered{Dest: args[1], Attr: map[string]string{"password": pass, "db": db}, Payload: []byte(args[2])})
				out = ":1\r\n"
			}
		default:
			b.deliver(Delivered{Dest: "command " + args[0], Payload: []byte(strings.Join(args[1:], " "))})
		}
		if _, err := io.WriteString(w, out); err != nil {
			return err
		}
	}
}

// ---- NATS -------------------------------------------------------------------------

func (b *broker) nats(r *bufio.Reader, w net.Conn) error {
	auth := ""
	if b.m() == "authfail" || b.wantPass != "" {
		auth = `"auth_required":true,`
	}
	max := 8388608
	if b.m() == "toolarge" {
		max = 100
	}
	fmt.Fprintf(w, `INFO {"server_id":"S","version":"2.7.0","go":"go1.17","host":"%s","port":%s,"headers":true,%s"max_payload":%d,"proto":1,"client_id":1}`+"\r\n", b.host, b.port, auth, max)
	attr := map[string]string{}
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		l = strings.TrimRight(l, "\r\n")
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct {
				User, Pass, Auth_Token, Name string
			}
			if err := json.Unmarshal([]byte(l[len("CONNECT"):]), &o); err != nil {
				return err
			}
			attr = map[string]string{"user": o.User, "password": o.Pass}
			if b.m() == "authfail" {
				io.WriteString(w, "-ERR 'Authorization Violation'\r\n")
				return nil
			}
		case "PING":
			io.WriteString(w, "PONG\r\n")
		case "PONG", "SUB", "UNSUB":
		case "PUB", "HPUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil {
				return fmt.Errorf("nats: %q", l)
			}
			x := make([]byte, n+2)
			if _, err := io.ReadFull(r, x); err != nil {
				return err
			}
			if f[0] != "PUB" || len(f) != 3 {
				return fmt.Errorf("nats: %q", l)
			}
			b.deliver(Delivered{Dest: f[1], Attr: attr, Payload: x[:n]})
		default:
			return fmt.Errorf("nats: %q", l)
		}
	}
}

// ---- NSQ ---------------------------------------------------------------------------

func (b *broker) nsq(r *bufio.Reader, w net.Conn) error {
	magic := make([]byte, 4)
	if _, err := io.ReadFull(r, magic); err != nil {
		return err
	}
	if string(magic) != "  V2" {
		return fmt.Errorf("nsq: magic %q", magic)
	}
	frame := func(typ uint32, data string) error {
		x := binary.BigEndian.AppendUint32(nil, uint32(len(data)+4))
		x = binary.BigEndian.AppendUint32(x, typ)
		_, err := w.Write(append(x, data...))
		return err
	}
	body := func() ([]byte, error) {
		var n uint32
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return nil, err
		}
		x := make([]byte, n)
		_, err := io.ReadFull(r, x)
		return x, err
	}
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			return fmt.Errorf("nsq: %q", l)
		}
		switch f[0] {
		case "IDENTIFY":
			if _, err := body(); err != nil {
				return err
			}
			if b.m() == "authfail" {
				_ = frame(1, "E_BAD_BODY IDENTIFY refused")
				return nil
			}
			err = frame(0, "OK")
		case "NOP":
		case "CLS":
			err = frame(0, "CLOSE_WAIT")
		case "PUB", "MPUB":
			x, e := body()
			if e != nil {
				return e
			}
			xs := [][]byte{x}
			if f[0] == "MPUB" { // a count, then a length and the bytes of each
				if len(x) < 4 {
					return fmt.Errorf("nsq: MPUB %x", x)
				}
				k := binary.BigEndian.Uint32(x)
				xs, x = nil, x[4:]
				for ; k > 0; k-- {
					if len(x) < 4 || uint64(len(x)-4) < uint64(binary.BigEndian.Uint32(x)) {
						return fmt.Errorf("nsq: MPUB ends early")
					}
					n := binary.BigEndian.Uint32(x)
					xs, x = append(xs, x[4:4+n]), x[4+n:]
				}
			}
			switch b.m() {
			case "reject":
				err = frame(1, b.refusal(nsqRefusals))
			case "drop":
				return errDrop
			default:
				for _, x := range xs {
					b.deliver(Delivered{Dest: strings.Join(f[1:], " "), Attr: map[string]string{}, Payload: x})
				}
				err = frame(0, "OK")
			}
		default:
			return fmt.Errorf("nsq: %q", l)
		}
		if err != nil {
			return err
		}
	}
}

// ---- PostgreSQL ----------------------------------------------------------------------

func (b *broker) postgres(r *bufio.Reader, w net.Conn) error {
	attr := map[string]string{}
	for {
		var n uint32
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return err
		}
		if n < 8 || n > 1<<16 {
			return fmt.Errorf("postgres: startup length %d", n)
		}
		x := make([]byte, n-4)
		if _, err := io.ReadFull(r, x); err != nil {
			return err
		}
		code := binary.BigEndian.Uint32(x)
		if code == 80877103 { // SSLRequest
			if _, err := w.Write([]byte("N")); err != nil {
				return err
			}
			continue
		}
		fs := strings.Split(string(x[4:]), "\x00")
		for i := 0; i+1 < len(fs); i += 2 {
			attr[fs[i]] = fs[i+1]
		}
		break
	}
	var out []byte
	msg := func(t byte, data []byte) {
		out = append(out, t)
		out = binary.BigEndian.AppendUint32(out, uint32(len(data)+4))
		out = append(out, data...)
	}
	flush := func() error {
		_, err := w.Write(out)
		out = nil
		return err
	}
	fail := func(text string) (over bool) {
		f := strings.Fields(b.refusal(pgRefusals))
		msg('E', []byte("S"+f[0]+"\x00V"+f[0]+"\x00C"+f[1]+"\x00M"+text+"\x00\x00"))
		return f[0] != "ERROR"
	}
	read := func() (byte, []byte, error) {
		t, err := r.ReadByte()
		if err != nil {
			return 0, nil, err
		}
		var n uint32
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return 0, nil, err
		}
		x := make([]byte, n-4)
		_, err = io.ReadFull(r, x)
		return t, x, err
	}
	msg('R', []byte{0, 0, 0, 3}) // cleartext password
	if err := flush(); err != nil {
		return err
	}
	t, x, err := read()
	if err != nil {
		return err
	}
	if t != 'p' {
		return fmt.Errorf("postgres: %q instead of the password", t)
	}
	attr["password"] = string(bytes.TrimRight(x, "\x00"))
	if b.m() == "authfail" {
		msg('E', []byte("SFATAL\x00C28P01\x00Mpassword authentication failed\x00\x00"))
		_ = flush()
		return nil
	}
	msg('R', []byte{0, 0, 0, 0})
	msg('S', []byte("server_version\x0010.4\x00"))
	msg('S', []byte("client_encoding\x00UTF8\x00"))
	msg('K', make([]byte, 8))
	msg('Z', []byte{'I'})
	if err := flush(); err != nil {
		return err
	}
	query, skip := "", false
	var params [][]byte
	state := byte('I')      // T: in a transaction, E: in one that has failed
	var pending []Delivered // inserted, not committed
	store := func(d Delivered) {
		if state == 'I' {
			b.deliver(d)
		} else {
			pending = append(pending, d)
		}
	}
	// in every second transaction the commit is refused instead of the record
	late := func() bool {
		b.mu.Lock()
		defer b.mu.Unlock()
		return state == 'T' && b.begun%2 == 0
	}
	fails := func() {
		if state == 'T' {
			state = 'E'
		}
	}
	for {
		t, x, err := read()
		if err != nil {
			return err
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return nil
		case 'Q':
			q := strings.TrimRight(string(x), "\x00")
			if s := strings.TrimSpace(q); s == ";" || s == "" {
				msg('I', nil)
			} else if w := strings.ToUpper(strings.Trim(strings.Fields(s)[0], ";")); w == "SELECT" {
				msg('C', []byte("SELECT 0\x00"))
			} else if w == "BEGIN" || w == "START" {
				state = 'T'
				b.mu.Lock()
				b.begun++
				b.mu.Unlock()
				msg('C', []byte("BEGIN\x00"))
			} else if w == "ROLLBACK" || (w == "COMMIT" || w == "END") && state == 'E' {
				state, pending = 'I', nil
				msg('C', []byte("ROLLBACK\x00"))
			} else if m := b.m(); m == "reject" || m == "drop" {
				if m == "drop" {
					return errDrop
				}
				if fail("relation does not exist") {
					_ = flush()
					return nil
				}
				fails()
				if w == "COMMIT" || w == "END" {
					state, pending = 'I', nil
				}
			} else if w == "COMMIT" || w == "END" {
				for _, d := range pending {
					b.deliver(d)
				}
				state, pending = 'I', nil
				msg('C', []byte("COMMIT\x00"))
			} else { // a statement with its data written into it
				store(Delivered{Dest: q, Attr: attr})
				msg('C', []byte("INSERT 0 1\x00"))
			}
			msg('Z', []byte{state})
			if err := flush(); err != nil {
				return err
			}
		case 'P':
			fs := bytes.SplitN(x, []byte{0}, 3)
			if len(fs) < 3 {
				return fmt.Errorf("postgres: Parse %q", x)
			}
			query = string(fs[1])
			msg('1', nil)
		case 'D':
			n := strings.Count(query, "$")
			pd := []byte{byte(n >> 8), byte(n)}
			for i := 0; i < n; i++ {
				pd = binary.BigEndian.AppendUint32(pd, 3802) // jsonb
			}
			msg('t', pd)
			msg('n', nil)
		case 'B':
			i := bytes.IndexByte(x, 0)
			y := x[i+1:]
			i = bytes.IndexByte(y, 0)
			y = y[i+1:]
			u16 := func() int {
				v := int(binary.BigEndian.Uint16(y))
				y = y[2:]
				return v
			}
			for k := u16(); k > 0; k-- {
				u16()
			}
			params = nil
			for k := u16(); k > 0; k-- {
				n := int32(binary.BigEndian.Uint32(y))
				y = y[4:]
				if n < 0 {
					params = append(params, nil)
					continue
				}
				params = append(params, append([]byte{}, y[:n]...))
				y = y[n:]
			}
			msg('2', nil)
		case 'E':
			switch m := b.m(); {
			case m == "reject" && !late():
				if fail("the record is refused") {
					_ = flush()
					return nil
				}
				skip = true
				fails()
			case m == "drop" && !late():
				return errDrop
			default:
				a := map[string]string{"params": strconv.Itoa(len(params))}
				for k, v := range attr {
					a[k] = v
				}
				var p []byte
				if len(params) > 0 {
					p = params[0]
				}
				store(Delivered{Dest: query, Attr: a, Payload: p})
				msg('C', []byte("INSERT 0 1\x00"))
			}
		case 'C':
			msg('3', nil)
		case 'H':
			if err := flush(); err != nil {
				return err
			}
		case 'S':
			skip = false
			msg('Z', []byte{state})
			if err := flush(); err != nil {
				return err
			}
		default:
			return fmt.Errorf("postgres: message %q", t)
		}
	}
}

// ---- AMQP 0-9-1 ------------------------------------------------------------------------

// amqpExpiration reads the expiration among the properties of a message.
func amqpExpiration(flags uint16, p []byte) string {
	short := func() string {
		if len(p) == 0 || len(p) < 1+int(p[0]) {
			p = nil
			return "?"
		}
		s := string(p[1 : 1+int(p[0])])
		p = p[1+len(s):]
		return s
	}
	skip := func(n int) {
		if n > len(p) {
			n = len(p)
		}
		p = p[n:]
	}
	for _, f := range []struct {
		bit  uint16
		kind byte
	}{{0x8000, 's'}, {0x4000, 's'}, {0x2000, 't'}, {0x1000, 'o'}, {0x0800, 'o'}, {0x0400, 's'}, {0x0200, 's'}, {0x0100, 'x'}} {
		if flags&f.bit == 0 {
			continue
		}
		switch f.kind {
		case 's':
			short()
		case 'o':
			skip(1)
		case 't':
			if len(p) < 4 {
				return "?"
			}
			skip(4 + int(binary.BigEndian.Uint32(p)))
		case 'x':
			return short()
		}
	}
	return ""
}

func (b *broker) amqp(r *bufio.Reader, w net.Conn) error {
	head := make([]byte, 8)
	if _, err := io.ReadFull(r, head); err != nil {
		return err
	}
	if string(head) != "AMQP\x00\x00\x09\x01" {
		return fmt.Errorf("amqp: protocol header %q", head)
	}
	send := func(ch uint16, class, method uint16, args []byte) error {
		p := binary.BigEndian.AppendUint16(nil, class)
		p = binary.BigEndian.AppendUint16(p, method)
		p = append(p, args...)
		f := []byte{1}
		f = binary.BigEndian.AppendUint16(f, ch)
		f = binary.BigEndian.AppendUint32(f, uint32(len(p)))
		f = append(append(f, p...), 0xCE)
		_, err := w.Write(f)
		return err
	}
	long := func(s string) []byte { return append(binary.BigEndian.AppendUint32(nil, uint32(len(s))), s...) }
	short := func(s string) []byte { return append([]byte{byte(len(s))}, s...) }
	args := []byte{0, 9, 0, 0, 0, 0}
	args = append(args, long("PLAIN AMQPLAIN")...)
	args = append(args, long("en_US")...)
	if err := send(0, 10, 10, args); err != nil {
		return err
	}
	attr := map[string]string{}
	type channel struct {
		cur     *Delivered
		want    uint64
		confirm bool
		tag     uint64
	}
	chans := map[uint16]*channel{}
	done := func(n uint16, c *channel) (err error) {
		if !c.cur.lost {
			b.deliver(*c.cur)
			if c.tag++; c.confirm {
				err = send(n, 60, 80, append(binary.BigEndian.AppendUint64(nil, c.tag), 0))
			}
		}
		c.cur = nil
		return err
	}
	for {
		fh := make([]byte, 7)
		if _, err := io.ReadFull(r, fh); err != nil {
			return err
		}
		ch := binary.BigEndian.Uint16(fh[1:])
		p := make([]byte, binary.BigEndian.Uint32(fh[3:]))
		if _, err := io.ReadFull(r, p); err != nil {
			return err
		}
		if e, err := r.ReadByte(); err != nil || e != 0xCE {
			return fmt.Errorf("amqp: frame end %x %v", e, err)
		}
		c := chans[ch]
		if c == nil {
			c = &channel{}
			chans[ch] = c
		}
		switch fh[0] {
		case 8:
			continue
		case 2:
			if c.cur == nil || len(p) < 12 {
				return errors.New("amqp: unexpected content header")
			}
			c.want = binary.BigEndian.Uint64(p[4:])
			if len(p) > 14 {
				c.cur.Attr["expiration"] = amqpExpiration(binary.BigEndian.Uint16(p[12:]), p[14:])
			}
			if c.want == 0 {
				if err := done(ch, c); err != nil {
					return err
				}
			}
			continue
		case 3:
			if c.cur == nil {
				return errors.New("amqp: unexpected body")
			}
			c.cur.Payload = append(c.cur.Payload, p...)
			if uint64(len(c.cur.Payload)) >= c.want {
				if err := done(ch, c); err != nil {
					return err
				}
			}
			continue
		}
		if len(p) < 4 {
			return errors.New("amqp: short method frame")
		}
		class, method := binary.BigEndian.Uint16(p), binary.BigEndian.Uint16(p[2:])
		q := p[4:]
		shortstr := func() string {
			n := int(q[0])
			s := string(q[1 : 1+n])
			q = q[1+n:]
			return s
		}
		longstr := func() string {
			n := binary.BigEndian.Uint32(q)
			s := string(q[4 : 4+n])
			q = q[4+n:]
			return s
		}
		var err error
		switch [2]uint16{class, method} {
		case [2]uint16{10, 11}: // start-ok
			longstr() // client properties
			mech := shortstr()
			resp := longstr()
			fs := strings.Split(resp, "\x00")
			if mech != "PLAIN" || len(fs) != 3 {
				return fmt.Errorf("amqp: %s %q", mech, resp)
			}
			attr["user"], attr["password"] = fs[1], fs[2]
			if b.m() == "authfail" {
				a := []byte{0x01, 0x93}
				a = append(a, short("ACCESS_REFUSED")...)
				_ = send(0, 10, 50, append(a, 0, 0, 0, 0))
				return nil
			}
			err = send(0, 10, 30, []byte{7, 255, 0, 2, 0, 0, 0, 0}) // channel-max 2047, frame-max 131072, heartbeat 0
		case [2]uint16{10, 31}: // tune-ok
		case [2]uint16{10, 40}:
			attr["vhost"] = shortstr()
			err = send(0, 10, 41, []byte{0})
		case [2]uint16{10, 50}:
			_ = send(0, 10, 51, nil)
			return nil
		case [2]uint16{10, 51}:
			return nil
		case [2]uint16{20, 10}:
			if b.m() == "chanrefuse" {
				a := []byte{0x01, 0xF8}
				a = append(a, short("CHANNEL_ERROR")...)
				_ = send(0, 10, 50, append(a, 0, 20, 0, 10))
				continue
			}
			chans[ch] = &channel{}
			err = send(ch, 20, 11, []byte{0, 0, 0, 0})
		case [2]uint16{85, 10}: // confirm.select
			c.confirm = true
			err = send(ch, 85, 11, nil)
		case [2]uint16{20, 40}:
			err = send(ch, 20, 41, nil)
		case [2]uint16{20, 41}:
		case [2]uint16{60, 40}:
			q = q[2:]
			ex := shortstr()
			key := shortstr()
			a := map[string]string{"key": key, "expiration": ""}
			if len(q) > 0 && q[0]&2 != 0 {
				return errors.New("amqp: immediate delivery demanded, which brokers refuse")
			}
			if b.m() == "chanclose" { // as for an exchange that does not exist
				x := []byte{0x01, 0x94}
				x = append(x, short("NOT_FOUND - no exchange")...)
				err = send(ch, 20, 40, append(x, 0, 60, 0, 40))
			}
			for k, v := range attr {
				a[k] = v
			}
			c.cur = &Delivered{Dest: ex, Attr: a}
			c.cur.lost = b.m() == "chanclose"
		default:
			return fmt.Errorf("amqp: method %d.%d", class, method)
		}
		if err != nil {
			return err
		}
	}
}

// ---- Tarantool -----------------------------------------------------------------------------

type mp struct {
	b []byte
	e error
}

func (m *mp) n(k int) []byte {
	if m.e != nil || k < 0 || len(m.b) < k {
		if m.e == nil {
			m.e = errors.New("msgpack: short")
		}
		if k < 0 || k > 16 {
			k = 0
		}
		return make([]byte, k)
	}
	x := m.b[:k]
	m.b = m.b[k:]
	return x
}
func (m *mp) u(k int) uint64 {
	v := uint64(0)
	for _, c := range m.n(k) {
		v = v<<8 | uint64(c)
	}
	return v
}

func (m *mp) val() any {
	if m.e != nil {
		return nil
	}
	c := m.n(1)[0]
	arr := func(n uint64) any {
		out := []any{}
		for ; n > 0 && m.e == nil; n-- {
			out = append(out, m.val())
		}
		return out
	}
	dict := func(n uint64) any {
		out := map[any]any{}
		for ; n > 0 && m.e == nil; n-- {
			k := m.val()
			out[fmt.Sprint(k)] = m.val()
		}
		return out
	}
	switch {
	case c < 0x80:
		return uint64(c)
	case c < 0x90:
		return dict(uint64(c & 15))
	case c < 0xa0:
		return arr(uint64(c & 15))
	case c < 0xc0:
		return string(m.n(int(c & 31)))
	case c >= 0xe0:
		return int64(int8(c))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2, 0xc3:
		return c == 0xc3
	case 0xc4, 0xc5, 0xc6:
		return append([]byte{}, m.n(int(m.u(1<<(c-0xc4))))...)
	case 0xca:
		return m.u(4)
	case 0xcb:
		return m.u(8)
	case 0xcc, 0xcd, 0xce, 0xcf:
		return m.u(1 << (c - 0xcc))
	case 0xd0, 0xd1, 0xd2, 0xd3:
		return m.u(1 << (c - 0xd0))
	case 0xd9, 0xda, 0xdb:
		return string(m.n(int(m.u(1 << (c - 0xd9)))))
	case 0xdc:
		return arr(m.u(2))
	case 0xdd:
		return arr(m.u(4))
	case 0xde:
		return dict(m.u(2))
	case 0xdf:
		return dict(m.u(4))
	}
	m.e = fmt.Errorf("msgpack: %x", c)
	return nil
}

func (b *broker) tarantool(r *bufio.Reader, w net.Conn) error {
	salt := []byte("0123456789abcdefghijklmnopqrstuv")
	pad := func(s string) []byte {
		return append([]byte(s+strings.Repeat(" ", 63-len(s))), '\n')
	}
	if _, err := w.Write(append(pad("Tarantool 1.7.6 (Binary) 00000000-0000-0000-0000-000000000000"), pad(base64.StdEncoding.EncodeToString(salt))...)); err != nil {
		return err
	}
	reply := func(sync uint64, code uint32, body []byte) error {
		h := []byte{0x82, 0x00, 0xce}
		h = binary.BigEndian.AppendUint32(h, code)
		h = append(h, 0x01, 0xcf)
		h = binary.BigEndian.AppendUint64(h, sync)
		h = append(h, body...)
		x := append([]byte{0xce}, binary.BigEndian.AppendUint32(nil, uint32(len(h)))...)
		_, err := w.Write(append(x, h...))
		return err
	}
	fail := func(sync uint64, code uint32, text string) error {
		body := append([]byte{0x81, 0x31, 0xd9, byte(len(text))}, text...)
		return reply(sync, 0x8000|code, body)
	}
	attr := map[string]string{}
	for {
		lm := &mp{}
		c, err := r.ReadByte()
		if err != nil {
			return err
		}
		k := 0
		switch {
		case c < 0x80:
			lm.b = []byte{c}
		case c >= 0xcc && c <= 0xcf:
			k = 1 << (c - 0xcc)
			x := make([]byte, k)
			if _, err := io.ReadFull(r, x); err != nil {
				return err
			}
			lm.b = append([]byte{c}, x...)
		default:
			return fmt.Errorf("tarantool: length %x", c)
		}
		n, _ := lm.val().(uint64)
		if n > 1<<26 {
			return fmt.Errorf("tarantool: length %d", n)
		}
		x := make([]byte, n)
		if _, err := io.ReadFull(r, x); err != nil {
			return err
		}
		m := &mp{b: x}
		h, _ := m.val().(map[any]any)
		body, _ := m.val().(map[any]any)
		if m.e != nil {
			return m.e
		}
		code, _ := h["0"].(uint64)
		sync, _ := h["1"].(uint64)
		switch code {
		case 64:
			err = reply(sync, 0, []byte{0x80})
		case 7:
			user, _ := body["35"].(string)
			tup, _ := body["33"].([]any)
			scr := ""
			if len(tup) == 2 {
				scr, _ = tup[1].(string)
			}
			h1 := sha1.Sum([]byte(b.wantPass))
			h2 := sha1.Sum(h1[:])
			h3 := sha1.Sum(append(append([]byte{}, salt[:20]...), h2[:]...))
			for i := range h3 {
				h3[i] ^= h1[i]
			}
			attr["user"] = user
			attr["passwordOK"] = strconv.FormatBool(scr == string(h3[:]))
			if b.m() == "authfail" {
				_ = fail(sync, 47, "Incorrect password supplied for user")
				return nil
			}
			err = reply(sync, 0, []byte{0x80})
		case 1:
			err = reply(sync, 0, []byte{0x81, 0x30, 0x90})
		case 6, 10:
			switch b.m() {
			case "reject":
				n, _ := strconv.Atoi(b.refusal(tarantoolRefusals))
				err = fail(sync, uint32(n), "the record is refused")
			case "drop":
				return errDrop
			default:
				fn, _ := body["34"].(string)
				args, _ := body["33"].([]any)
				d := Delivered{Dest: fn, Attr: map[string]string{"args": strconv.Itoa(len(args))}}
				for k, v := range attr {
					d.Attr[k] = v
				}
				if len(args) > 1 {
					// options: those that let a message expire or hold it back
					o, _ := args[1].(map[any]any)
					for _, k := range []string{"ttl", "delay"} {
						if v, ok := o[k]; ok && fmt.Sprint(v) != "0" {
							d.Attr[k] = fmt.Sprint(v)
						}
					}
				}
				if len(args) > 0 {
					switch v := args[0].(type) {
					case []byte:
						d.Payload = v
					case string:
						d.Payload = []byte(v)
					default:
						d.Attr["arg"] = fmt.Sprintf("%T", v)
					}
				}
				b.deliver(d)
				err = reply(sync, 0, []byte{0x81, 0x30, 0x91, 0x93, 0x00, 0xa1, 'r', 0xc0})
			}
		default:
			return fmt.Errorf("tarantool: request %d", code)
		}
		if err != nil {
			return err
		}
	}
}
