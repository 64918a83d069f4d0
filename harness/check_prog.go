package main

// The configuration file and the two programs, run as a user runs them.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

const repoDir = "/repo"

// ---- F01: configuration ------------------------------------------------------------

// YVal is a scalar and how it is written.
type YVal struct {
	V     string
	Style string // plain, single, double
}

var plainRe = regexp.MustCompile(`^[A-Za-z0-9/][A-Za-z0-9_./-]*$`)

func (y YVal) String() string {
	switch y.Style {
	case "single":
		return "'" + strings.ReplaceAll(y.V, "'", "''") + "'"
	case "double":
		var b strings.Builder
		b.WriteByte('"')
		for i, r := range y.V {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r > 0x7e && i%2 == 0:
				fmt.Fprintf(&b, `\u%04x`, r)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return y.V
}

func plainOK(s string) bool {
	return plainRe.MatchString(s) && !strings.EqualFold(s, "null")
}

func genY(t *rapid.T, v string, n string) YVal {
	st := pick(t, []string{"double", "single", "plain"}, n+" style")
	if st == "plain" && !plainOK(v) {
		st = "double"
	}
	return YVal{v, st}
}

type YParam struct{ K, V YVal }
type YStore struct {
	Name   YVal
	Params []YParam
	Flow   bool
}

type ConfCase struct {
	Host, Port YVal
	TTL        int
	Level      *YVal `json:",omitempty"`
	Stores     []YStore
	Bare       bool  // "storage:" without content when there is none
	Order      []int // of the top-level keys
	Comments   bool
	CRLF       bool
	Indent     int
	Miss       [3]bool  `json:",omitempty"` // host, port, conn_ttl left out
	More       []string `json:",omitempty"` // lines with settings nobody knows, before one of the others
	MoreAt     int      `json:",omitempty"`
	Start      string   `json:",omitempty"` // what the file begins with
	Pad        int      `json:",omitempty"` // lines of comment in front
}

// genConfAny adds what a file may have besides the settings.
func genConfAny(t *rapid.T) ConfCase {
	c := genConf(t)
	if chance(t, 3, "miss") {
		for i := range c.Miss {
			c.Miss[i] = gBool(t, "miss")
		}
	}
	if chance(t, 8, "negative") {
		c.TTL = -c.TTL
	}
	for i := gInt(t, -2, 3, "unknown"); i > 0; i-- {
		c.More = append(c.More, pick(t, []string{"metrics_%d: 9100", "HOST%d: other", "Port%d: \"1\"", "hosts%d:\n  - a\n  - b", "server%d:\n  host: other\n  port: 1\n  storage:\n    redis:\n      server: x",
			"\"conn ttl%d\": 7", "log%d: {level: DEBUG, file: \"/var/log/x\"}", "store%d: redis", "x%d:", "ttl%d: [1, 2]", "timeout%d: 1.5"}, "unknown"))
		c.More[len(c.More)-1] = fmt.Sprintf(c.More[len(c.More)-1], len(c.More))
	}
	c.MoreAt = gInt(t, 0, 4, "unknown at")
	c.Start = pick(t, []string{"", "", "---\n", "\ufeff", "\n\n", "# x\n---\n", "%YAML 1.1\n---\n"}, "start")
	if chance(t, 12, "pad") {
		c.Pad = gInt(t, 1, 3000, "pad lines")
	}
	return c
}

func genHost(t *rapid.T) string {
	switch gInt(t, 0, 6, "host") {
	case 0:
		return ""
	case 6:
		return pick(t, []string{"[::1]", "[::]", "[fe80::1%lo]", "[2001:db8::5]", "[::ffff:127.0.0.1]"}, "v6")
	case 1:
		return fmt.Sprintf("%d.%d.%d.%d", g8(t, "a"), g8(t, "b"), g8(t, "c"), g8(t, "d"))
	case 2:
		return "localhost"
	default:
		return rapid.StringMatching(`[a-z0-9][a-z0-9-]{0,10}(\.[a-z][a-z0-9-]{0,10}){0,2}`).Draw(t, "name")
	}
}

func genParamValue(t *rapid.T, n string) string {
	switch gInt(t, 0, 3, n+" kind") {
	case 0:
		return strconv.Itoa(int(gU(t, math.MaxInt32, n)))
	case 1:
		return pick(t, []string{"", "true", "no", "1.50", "007", "0x1F", "1e3", "2021-12-16", "a:b", "#x", "- a", "nats://a:1, nats://b:2", "127.0.0.1:4150", "{x}", "*", "&a", "!t", "%", "@", "`", " lead", "trail ", "~", "null", "=", "?", "[", "|", ">"}, n)
	default:
		return gSecret(t, n, 0)
	}
}

func genConf(t *rapid.T) ConfCase {
	c := ConfCase{Comments: gBool(t, "comments"), CRLF: chance(t, 4, "CRLF"), Indent: gInt(t, 1, 4, "indent"), Bare: gBool(t, "bare")}
	c.Host = genY(t, genHost(t), "host")
	c.Port = genY(t, strconv.Itoa(int(gU(t, 65535, "port"))), "port")
	c.TTL = int(gU(t, 1<<31-1, "ttl"))
	if !chance(t, 6, "no level") {
		l := pick(t, []string{"DEBUG", "INFO", "WARN", "ERROR", "DEBUG", "INFO", "WARN", "ERROR", "debug", "Warn", "TRACE", "FATAL", "PANIC", "warning", "", "0", "OFF", "ERR", "INFO "}, "level")
		y := genY(t, l, "level")
		c.Level = &y
	}
	names := rapid.Permutation(append(append([]string{}, kinds...), "kafka", "x")).Draw(t, "names")
	for _, n := range names[:pick(t, []int{0, 1, 1, 2, 3, 6, 8}, "stores")] {
		s := YStore{Name: genY(t, n, "store"), Flow: chance(t, 5, "flow")}
		keys := rapid.Permutation([]string{"host", "port", "user", "password", "server", "servers", "queue", "topic", "db", "database", "table", "sslmode", "exchange", "key", "max_recons", "timeout", "reconnect"}).Draw(t, "keys")
		for _, k := range keys[:gInt(t, 1, 8, "params")] {
			s.Params = append(s.Params, YParam{genY(t, k, "key"), genY(t, genParamValue(t, "value"), "value")})
		}
		c.Stores = append(c.Stores, s)
	}
	c.Order = rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "order")
	return c
}

func (c *ConfCase) Text() string {
	var b strings.Builder
	in := strings.Repeat(" ", c.Indent)
	remark := func(s string) {
		if c.Comments {
			b.WriteString(s)
		}
	}
	eol := func() {
		remark(" # host: \"other\"")
		b.WriteString("\n")
	}
	b.WriteString(c.Start)
	b.WriteString(strings.Repeat("# host: \"other\" port: \"1\" conn_ttl: 1\n", c.Pad))
	remark("# configuration\n\n")
	for at, o := range c.Order {
		if at == c.MoreAt {
			for _, l := range c.More {
				b.WriteString(l)
				b.WriteString("\n")
			}
		}
		if o < 3 && c.Miss[o] {
			continue
		}
		switch o {
		case 0:
			b.WriteString("host: " + c.Host.String())
			eol()
		case 1:
			b.WriteString("port: " + c.Port.String())
			eol()
		case 2:
			b.WriteString("conn_ttl: " + strconv.Itoa(c.TTL))
			eol()
		case 3:
			if c.Level != nil {
				b.WriteString("log_level: " + c.Level.String())
				eol()
			}
		case 4:
			if len(c.Stores) == 0 {
				if c.Bare {
					b.WriteString("storage:")
					eol()
					remark("#  redis:\n#    server: \"x\"\n")
				}
				continue
			}
			b.WriteString("storage:")
			eol()
			for _, s := range c.Stores {
				b.WriteString(in + s.Name.String() + ":")
				if s.Flow {
					b.WriteString(" {")
					for i, p := range s.Params {
						if i > 0 {
							b.WriteString(", ")
						}
						v := p.V
						if v.Style == "plain" {
							v.Style = "double"
						}
						b.WriteString(p.K.String() + ": " + v.String())
					}
					b.WriteString("}")
					eol()
					continue
				}
				eol()
				remark(in + "#  password: 'none'\n\n")
				for _, p := range s.Params {
					b.WriteString(in + in + p.K.String() + ": " + p.V.String())
					eol()
				}
			}
		}
	}
	s := b.String()
	if c.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func (c *ConfCase) storeMap() map[string]map[string]string {
	m := map[string]map[string]string{}
	for _, s := range c.Stores {
		m[s.Name.V] = map[string]string{}
		for _, p := range s.Params {
			m[s.Name.V][p.K.V] = p.V.V
		}
	}
	return m
}

func withFile(text string, f func(path string) *Failure) *Failure {
	d, err := os.MkdirTemp("", "verif-conf-")
	if err != nil {
		panic(harnessPanic{err, ""})
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "config.yaml")
	if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
		panic(harnessPanic{err, ""})
	}
	return f(p)
}

func levelOf(s string) logrus.Level {
	switch s {
	case "DEBUG":
		return logrus.DebugLevel
	case "WARN":
		return logrus.WarnLevel
	case "ERROR":
		return logrus.ErrorLevel
	}
	return logrus.InfoLevel
}

func confRead(r *Rec, c *ConfCase) *Failure {
	text := c.Text()
	if len(c.Stores) > 0 {
		r.NonTrivial()
	}
	r.Label(fmt.Sprintf("%d storages", len(c.Stores)))
	return withFile(text, func(path string) *Failure {
		s, err := config.New(path)
		if err != nil {
			return failf("the file\n%s\nis refused: %v", text, err)
		}
		host, port, ttl := c.Host.V, c.Port.V, c.TTL
		if c.Miss[0] {
			host = ""
		}
		if c.Miss[1] {
			port = ""
		}
		if c.Miss[2] {
			ttl = 0
		}
		r.LabelIf(c.Miss != [3]bool{}, "settings left out")
		r.LabelIf(len(c.More) > 0, "unknown settings")
		r.LabelIf(c.Pad > 100, "long file")
		if s.Host != host || s.Port != port || s.ConnTTl != ttl {
			return failf("the file\n%s\ngives host %q, port %q, conn_ttl %d", text, s.Host, s.Port, s.ConnTTl)
		}
		if got, want := s.GetListenAddress(), host+":"+port; got != want {
			return failf("listen address %q instead of %q", got, want)
		}
		if got := s.GetEmptyConnTTL(); got.Seconds() != float64(ttl) {
			return failf("conn_ttl %d gives %v", ttl, got)
		}
		lv := ""
		if c.Level != nil {
			lv = c.Level.V
		}
		if got := s.GetLogLevel(); got != levelOf(lv) {
			return failf("log_level %q gives %v", lv, got)
		}
		want := c.storeMap()
		if len(s.Store) != len(want) || len(want) > 0 && !reflect.DeepEqual(s.Store, want) {
			return failf("the file\n%s\ngives the storages %s instead of %s", text, js(s.Store), js(want))
		}
		return nil
	})
}

type BadConf struct {
	Conf ConfCase
	How  string
	At   int
}

var badHows = []string{"missing", "directory", "ttl", "toplist", "storelist", "storescalar", "paramlist", "hostmap", "quote", "tab", "bracket", "colon", "topscalar"}

func genBadConf(t *rapid.T) BadConf {
	return BadConf{Conf: genConf(t), How: pick(t, badHows, "how"), At: gInt(t, 0, 1000, "at")}
}

func (c *BadConf) Text() string {
	t := c.Conf.Text()
	nl := "\n"
	if c.Conf.CRLF {
		nl = "\r\n"
	}
	switch c.How {
	case "ttl":
		t = strings.Replace(t, "conn_ttl: "+strconv.Itoa(c.Conf.TTL), "conn_ttl: "+[]string{"ten", "10s", "[1]", "\"1 min\"", "1.5.2"}[c.At%5], 1)
	case "toplist":
		t = "- host: a" + nl + "- port: 1" + nl
	case "topscalar":
		t = "just some text" + nl
	case "storelist":
		t = "storage:" + nl + "  - redis" + nl + "  - nats" + nl
	case "storescalar":
		t = "host: a" + nl + "storage: redis" + nl
	case "paramlist":
		t = "storage:" + nl + "  redis:" + nl + "    - server" + nl
	case "hostmap":
		t = "host:" + nl + "  a: b" + nl + "port: 1" + nl
	case "quote":
		t = t + "zz: \"never closed" + nl
	case "tab":
		t = "storage:" + nl + "\tredis:" + nl + "\t\tserver: a" + nl
	case "bracket":
		t = t + "zz: [1, 2" + nl
	case "colon":
		t = t + "zz: a: b: c" + nl
	}
	return t
}

func confBad(r *Rec, c *BadConf) *Failure {
	r.NonTrivial()
	r.Label(c.How)
	text := c.Text()
	return withFile(text, func(path string) *Failure {
		switch c.How {
		case "missing":
			path += ".missing"
		case "directory":
			path = filepath.Dir(path)
		}
		if _, err := config.New(path); err == nil {
			return failf("no error for the unusable file (%s)\n%s", c.How, text)
		}
		return nil
	})
}

// SampleCase uncomments some storage sections of the sample configuration.
type SampleCase struct{ On []bool }

func confSample(r *Rec, c *SampleCase) *Failure {
	b, err := os.ReadFile(filepath.Join(repoDir, "configs", "receiver.yaml"))
	if err != nil {
		return failf("the sample configuration: %v", err)
	}
	head := regexp.MustCompile(`^#  ([a-z_]+):\s*$`)
	param := regexp.MustCompile(`^#    ([a-z_]+): "?([^"]*?)"?\s*$`)
	want := map[string]map[string]string{}
	var out []string
	k, cur := -1, ""
	for _, l := range strings.Split(string(b), "\n") {
		if m := head.FindStringSubmatch(l); m != nil {
			k++
			cur = m[1]
			if k < len(c.On) && c.On[k] {
				want[cur] = map[string]string{}
				l = l[1:]
			}
		} else if m := param.FindStringSubmatch(l); m != nil && k >= 0 && k < len(c.On) && c.On[k] {
			want[cur][m[1]] = m[2]
			l = l[1:]
		}
		out = append(out, l)
	}
	if len(want) > 1 {
		r.NonTrivial()
	}
	return withFile(strings.Join(out, "\n"), func(path string) *Failure {
		s, err := config.New(path)
		if err != nil {
			return failf("the sample configuration is refused: %v", err)
		}
		if s.GetListenAddress() != "127.0.0.1:6000" || s.GetEmptyConnTTL() != 10*time.Second || s.GetLogLevel() != logrus.DebugLevel {
			return failf("the sample configuration gives %s, %v, %v", s.GetListenAddress(), s.GetEmptyConnTTL(), s.GetLogLevel())
		}
		if len(s.Store) != len(want) || len(want) > 0 && !reflect.DeepEqual(s.Store, want) {
			return failf("the sample configuration gives the storages %s instead of %s", js(s.Store), js(want))
		}
		return nil
	})
}

// ---- programs -----------------------------------------------------------------------

var progDir string

func prepPrograms(work string) error {
	if err := quietAll(work); err != nil {
		return err
	}
	return buildPrograms(work)
}

// buildPrograms builds both programs once per work directory.
func buildPrograms(work string) error {
	progDir = filepath.Join(work, "bin")
	if err := os.MkdirAll(progDir, 0o755); err != nil {
		return err
	}
	lock, err := os.Create(filepath.Join(work, "build.lock"))
	if err != nil {
		return err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return err
	}
	if _, err := os.Stat(filepath.Join(progDir, "done")); err == nil {
		return nil
	}
	cmd := exec.Command("go", "build", "-o", progDir+"/", "./cli/receiver", "./cli/packet-gen")
	cmd.Dir = repoDir
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the programs: %v\n%s", err, out)
	}
	return os.WriteFile(filepath.Join(progDir, "done"), nil, 0o644)
}

type proc struct {
	cmd  *exec.Cmd
	out  *lockedBuf
	done chan struct{}
	code int
}

func startProc(env []string, name string, args ...string) (*proc, error) {
	return startProcIn("", env, name, args...)
}

// startProcIn starts a program in the working directory dir.
func startProcIn(dir string, env []string, name string, args ...string) (*proc, error) {
	p := &proc{cmd: exec.Command(filepath.Join(progDir, name), args...), out: &lockedBuf{}, done: make(chan struct{})}
	if n := os.Getenv("VERIF_PROC_NOFILE"); n != "" && name == "receiver" {
		p.cmd = exec.Command("/bin/bash", append([]string{"-c", "ulimit -n " + n + `; exec "$0" "$@"`, filepath.Join(progDir, name)}, args...)...)
		p.out.max = 1 << 20
	}
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		err := p.cmd.Wait()
		if ee := (*exec.ExitError)(nil); errors.As(err, &ee) {
			p.code = ee.ExitCode()
		} else if err != nil {
			p.code = -2
		}
		close(p.done)
	}()
	return p, nil
}

func (p *proc) wait(limit time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(limit):
		return false
	}
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

// ---- G01: packet-gen ------------------------------------------------------------------

type GenCase struct {
	PID, OID, Liquid *string `json:",omitempty"`
	Time             *string `json:",omitempty"`
	Lat, Lon         *string `json:",omitempty"`
	Timeout          int     `json:",omitempty"` // 0: not given
	Extra            []string
	Dashes           int // 1 or 2
	Equals           bool
	Valid            bool   // the arguments are acceptable
	Reply            string // what the server does
	Cuts             []int  `json:",omitempty"`
	PauseMs          int    `json:",omitempty"`
	DelayMs          int    `json:",omitempty"`
	Val              int    // parameter of the reply
	Swap             bool
	Stray            string `json:",omitempty"` // an argument that is not an option
	Default          bool   `json:",omitempty"` // no server given
}

func genTime(t *rapid.T) (string, int64) {
	sec := int64(g32(t, "time"))
	off := 0
	if gBool(t, "zone") {
		off = gInt(t, -14*60, 14*60, "offset") * 60
	}
	at := egtsEpoch.Add(time.Duration(sec) * time.Second).In(time.FixedZone("", off))
	f := "2006-01-02T15:04:05Z07:00"
	if chance(t, 4, "fraction") {
		at = at.Add(time.Duration(gInt(t, 0, 999, "ms")) * time.Millisecond)
		f = "2006-01-02T15:04:05.000Z07:00"
	}
	return at.Format(f), sec
}

func genDeg(t *rapid.T, lim float64, n string) string {
	v := rapid.Float64Range(-lim, lim).Draw(t, n)
	switch gInt(t, 0, 3, n+"?") {
	case 0:
		v = math.Trunc(v)
	case 1:
		v = math.Trunc(v*1e5) / 1e5
	case 2:
		v = pick(t, []float64{0, lim, -lim, lim / 2, -lim / 2, 1e-7, -1e-7}, n)
	}
	return strconv.FormatFloat(v, 'f', -1, 64)
}

// replies that confirm the packet, and replies that do not
var goodReplies = []string{"ok", "ok", "ok", "ok-extra"}
var badReplies = []string{"pid", "result", "status", "nosdr", "norecords", "nosubs", "othercrn", "close", "reset", "app", "garbage", "damaged", "short", "half", "status2", "status2-first", "other-status"}

func genGenBase(t *rapid.T) GenCase {
	c := GenCase{Dashes: gInt(t, 1, 2, "dashes"), Equals: gBool(t, "equals"), Valid: true, Reply: "ok", Timeout: 6, Swap: gBool(t, "swap")}
	c.PID = ptr(strconv.Itoa(1 + int(gU(t, 65534, "pid"))))
	c.OID = ptr(strconv.Itoa(1 + int(gU(t, math.MaxUint32-1, "oid"))))
	ts, _ := genTime(t)
	c.Time = &ts
	if !chance(t, 8, "no lat") {
		c.Lat = ptr(genDeg(t, 90, "lat"))
	}
	if !chance(t, 8, "no lon") {
		c.Lon = ptr(genDeg(t, 180, "lon"))
	}
	if !chance(t, 4, "no liquid") {
		c.Liquid = ptr(strconv.Itoa(int(g32(t, "liquid"))))
	}
	if chance(t, 3, "no timeout") {
		c.Timeout = 0
	}
	return c
}

func genGenReply(t *rapid.T) GenCase {
	c := genGenBase(t)
	if gBool(t, "good") {
		c.Reply = pick(t, goodReplies, "reply")
	} else {
		c.Reply = pick(t, badReplies, "reply")
	}
	c.Val = gInt(t, 0, 254, "val")
	for i, n := 0, pick(t, []int{0, 0, 1, 2, 4}, "cuts"); i < n; i++ {
		c.Cuts = append(c.Cuts, gInt(t, 1, 40, "cut"))
	}
	sortInts(c.Cuts)
	if len(c.Cuts) > 0 {
		c.PauseMs = pick(t, []int{0, 1, 5, 20}, "pause")
	}
	return c
}

func genGenArgs(t *rapid.T) GenCase {
	c := genGenBase(t)
	c.Valid = false
	switch gInt(t, 0, 12, "bad") {
	case 0:
		c.PID = nil
	case 1:
		c.OID = nil
	case 2:
		c.Time = nil
	case 3:
		c.PID = ptr("0")
	case 4:
		c.OID = ptr("0")
	case 5:
		c.PID = ptr(strconv.Itoa(65536 + int(gU(t, 1<<32, "pid"))))
	case 6:
		c.OID = ptr(strconv.Itoa(1<<32 + int(gU(t, 1<<31, "oid"))))
	case 7:
		c.PID = ptr("-" + *c.PID)
	case 8:
		c.OID = ptr("-" + *c.OID)
	case 9:
		c.Time = ptr(pick(t, []string{"", "now", "2021-12-16", "2021-12-16 09:12:00", "2021-13-16T09:12:00Z", "2021-02-30T09:12:00Z", "1639645920", "2021-12-16T25:12:00Z", "2021-12-16T09:12:00", "1999-12-31T23:59:59Z", "2009-12-31T23:59:59Z", "2147-01-01T00:00:00Z"}, "time"))
	case 10:
		if gBool(t, "lat") {
			c.Lat = ptr(pick(t, []string{"90.001", "-90.5", "1000", "-181", "x", "NaN", "+Inf"}, "lat"))
		} else {
			c.Lon = ptr(pick(t, []string{"180.001", "-180.5", "1000", "-361", "x", "NaN", "-Inf"}, "lon"))
		}
	case 11:
		c.Liquid = ptr(pick(t, []string{"-1", "4294967296", "x", "1.5", "99999999999"}, "liquid"))
	case 12:
		c.Extra = []string{pick(t, []string{"-unknown", "--speed=3", "-timeout=x", "-pid=abc"}, "extra")}
	}
	return c
}

func genGenTimed(t *rapid.T) GenCase {
	c := genGenBase(t)
	c.Timeout = pick(t, []int{0, 1, 2, 8}, "timeout")
	lim := c.Timeout * 1000
	if lim == 0 {
		lim = 5000
	}
	if gBool(t, "in time") {
		c.DelayMs = lim * gInt(t, 30, 60, "percent") / 100
		if c.Timeout == 8 {
			c.DelayMs = gInt(t, 5500, 6500, "delay") // longer than the default
		}
	} else {
		c.Reply = pick(t, []string{"ok", "silent", "half-silent"}, "reply")
		c.DelayMs = lim + 2500
	}
	return c
}

func (c *GenCase) args(addr string) []string {
	var as []string
	add := func(n string, v *string) {
		if v == nil {
			return
		}
		n = strings.Repeat("-", c.Dashes) + n
		if c.Equals {
			as = append(as, n+"="+*v)
		} else {
			as = append(as, n, *v)
		}
	}
	if c.Swap && !c.Default {
		add("server", &addr)
	}
	add("lon", c.Lon)
	add("pid", c.PID)
	add("time", c.Time)
	add("oid", c.OID)
	add("liquid", c.Liquid)
	add("lat", c.Lat)
	if c.Timeout > 0 {
		add("timeout", ptr(strconv.Itoa(c.Timeout)))
	}
	if !c.Swap && !c.Default {
		add("server", &addr)
	}
	as = append(as, c.Extra...)
	if c.Stray != "" {
		as = append(as, c.Stray)
	}
	return as
}

// genGenDefault draws calls that name no server, and calls with an argument that is not an option.
func genGenDefault(t *rapid.T) GenCase {
	c := genGenReply(t)
	if gBool(t, "default server") {
		c.Default = true
	} else {
		c.Stray = pick(t, []string{"x", "send", "--", "-", "127.0.0.1:1", "1", "-- --pid"}, "stray")
	}
	return c
}

// defaultServer is where packet-gen sends when it is not told where to.
const defaultServer = "localhost:5555"

// reply builds the server's answer to packet pid.
func (c *GenCase) reply(pid uint16) []byte {
	ok := func() *MPkg {
		return &MPkg{PRV: 1, PID: pid + 1, PT: 0, Resp: &MResp{RPID: pid, SDR: []MRec{{RN: 1, SST: 2, RST: 2,
			Subs: []MSub{{T: 0, Resp: &MSResp{CRN: 1}}}}}}}
	}
	p := ok()
	sub := p.Resp.SDR[0].Subs[0].Resp
	switch c.Reply {
	case "ok-extra": // header variations that mean the same
		p.PR = byte(c.Val & 3)
		p.RTE = c.Val&4 != 0
		p.PID = uint16(c.Val * 257)
		p.Resp.SDR[0].RN = uint16(c.Val)
		if c.Val&8 != 0 {
			p.Resp.SDR[0].OID = ptr(uint32(c.Val))
		}
	case "pid":
		switch {
		case c.Val < 160: // one digit is wrong
			p.Resp.RPID = pid ^ 1<<uint(c.Val%16)
		case c.Val < 180: // the bytes are exchanged
			p.Resp.RPID = pid<<8 | pid>>8
		case c.Val < 200: // the number of the answer itself
			p.Resp.RPID = pid + 1
		default:
			p.Resp.RPID = pid ^ uint16(1+c.Val)<<uint(c.Val%8)
		}
		if p.Resp.RPID == pid {
			p.Resp.RPID++
		}
	case "result":
		p.Resp.PR = byte(1 + c.Val)
	case "status":
		sub.RST = byte(1 + c.Val)
	case "status2": // confirmed once, refused once
		p.Resp.SDR[0].Subs = append(p.Resp.SDR[0].Subs, MSub{T: 0, Resp: &MSResp{CRN: 1, RST: byte(1 + c.Val)}})
	case "status2-first": // refused once, confirmed once
		sub.RST = byte(1 + c.Val)
		p.Resp.SDR[0].Subs = append(p.Resp.SDR[0].Subs, MSub{T: 0, Resp: &MSResp{CRN: 1}})
	case "other-status": // the record is confirmed and another one is refused
		other := MSub{T: 0, Resp: &MSResp{CRN: uint16(2 + c.Val*200), RST: byte(1 + c.Val)}}
		switch c.Val % 3 {
		case 0:
			p.Resp.SDR[0].Subs = append(p.Resp.SDR[0].Subs, other)
		case 1:
			p.Resp.SDR[0].Subs = append([]MSub{other}, p.Resp.SDR[0].Subs...)
		case 2:
			p.Resp.SDR = append(p.Resp.SDR, MRec{RN: 2, SST: 2, RST: 2, Subs: []MSub{other}})
		}
	case "nosdr":
		p.Resp.SDR = nil
	case "norecords", "nosubs":
		p.Resp.SDR[0].Subs = nil
	case "othercrn":
		switch {
		case c.Val < 60:
			sub.CRN = 0
		case c.Val < 180: // one digit is wrong
			sub.CRN = 1 ^ 1<<uint(c.Val%16)
		default:
			sub.CRN = uint16(2 + c.Val*200)
		}
	case "app":
		p = &MPkg{PRV: 1, PID: pid, PT: 1, App: []MRec{{RN: 1, SST: 2, RST: 2, Subs: []MSub{{T: 0, Resp: &MSResp{CRN: 1}}}}}}
	case "garbage":
		b := make([]byte, 60)
		for i := range b {
			b[i] = byte(c.Val*31 + i*i*7 + 2)
		}
		return b
	case "damaged":
		b := p.Bytes()
		b[11+c.Val%(len(b)-11)] ^= 1 << uint(c.Val%8)
		return b
	case "short", "half", "half-silent":
		b := p.Bytes()
		return b[:1+c.Val%(len(b)-1)]
	case "close", "reset", "silent":
		return nil
	}
	return p.Bytes()
}

func packetGen(r *Rec, c *GenCase) *Failure {
	addr, err := freeAddr()
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	if c.Default {
		// one at a time: all shards want the same port
		r.Label("default server")
		lock, err := os.Create(filepath.Join(progDir, "port.lock"))
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		defer lock.Close()
		if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		a, err := net.ResolveTCPAddr("tcp", defaultServer)
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		addr = a.String()
	}
	l, err := net.Listen("tcp", addr)
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	defer l.Close()
	var mu sync.Mutex
	var got []byte
	conns := 0
	served := make(chan struct{}, 16)
	quit := make(chan struct{})
	defer close(quit)
	go func() {
		for {
			cn, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns++
			mu.Unlock()
			go func() {
				defer func() { cn.Close(); served <- struct{}{} }()
				br := bufio.NewReader(cn)
				hd, err := br.Peek(10)
				if err != nil {
					b, _ := io.ReadAll(br)
					mu.Lock()
					got = append(got, b...)
					mu.Unlock()
					return
				}
				n := int(hd[3]) + (int(hd[5]) | int(hd[6])<<8) + 2
				b := make([]byte, n)
				k, err := io.ReadFull(br, b)
				mu.Lock()
				got = append(got, b[:k]...)
				mu.Unlock()
				if err != nil {
					return
				}
				if c.DelayMs > 0 {
					select {
					case <-time.After(time.Duration(c.DelayMs) * time.Millisecond):
					case <-quit:
					}
				}
				ans := c.reply(uint16(b[7]) | uint16(b[8])<<8)
				if c.Reply == "reset" {
					_ = cn.(*net.TCPConn).SetLinger(0)
					return
				}
				at := 0
				for _, x := range append(append([]int{}, c.Cuts...), len(ans)) {
					if x > len(ans) {
						x = len(ans)
					}
					if x > at {
						if _, err := cn.Write(ans[at:x]); err != nil {
							break
						}
						at = x
						if c.PauseMs > 0 {
							time.Sleep(time.Duration(c.PauseMs) * time.Millisecond)
						}
					}
				}
				switch c.Reply {
				case "silent", "half-silent", "app", "ok", "ok-extra":
					// leave the connection open until the tool has gone
				default:
					_ = cn.(*net.TCPConn).CloseWrite()
				}
				rest, _ := io.ReadAll(br)
				mu.Lock()
				got = append(got, rest...)
				mu.Unlock()
			}()
		}
	}()

	args := c.args(addr)
	p, err := startProc(nil, "packet-gen", args...)
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	if !p.wait(20 * time.Second) {
		p.kill()
		return softf("packet-gen %s does not end (reply: %s)", strings.Join(args, " "), c.Reply)
	}
	show := func() string {
		return fmt.Sprintf("packet-gen %s (reply: %s, delay %d ms) exits with %d: %s", strings.Join(args, " "), c.Reply, c.DelayMs, p.code, clipS(p.out.String()))
	}
	r.Label(c.Reply)
	if !c.Valid {
		r.NonTrivial()
		r.Label("unacceptable arguments")
		if p.code == 0 {
			return failf("unacceptable arguments: %s", show())
		}
		mu.Lock()
		defer mu.Unlock()
		if len(got) > 0 {
			return failf("unacceptable arguments, but a packet was sent: %s", show())
		}
		return nil
	}
	r.NonTrivial()
	late := c.DelayMs > 0 && (c.Timeout == 0 && c.DelayMs > 5000 || c.Timeout > 0 && c.DelayMs > c.Timeout*1000)
	good := strings.HasPrefix(c.Reply, "ok") && !late
	mk := failf
	if c.DelayMs > 0 || c.PauseMs > 0 {
		mk = softf
	}
	if c.Stray != "" {
		// a call with an argument that means nothing may be refused
		r.Label("stray argument")
		if p.code != 0 {
			return nil
		}
	}
	if good != (p.code == 0) {
		return mk("%s", show())
	}
	select {
	case <-served:
	case <-time.After(5 * time.Second):
	}
	mu.Lock()
	defer mu.Unlock()
	if conns != 1 {
		return failf("%d connections: %s", conns, show())
	}
	return c.checkSent(got, show)
}

func (c *GenCase) checkSent(got []byte, show func() string) *Failure {
	q, tail, err := refDecode(got)
	if err != nil || len(tail) > 0 {
		return failf("what was sent is not one packet (%v): % x: %s", err, got, show())
	}
	pid, _ := strconv.Atoi(*c.PID)
	oid, _ := strconv.Atoi(*c.OID)
	if int(q.PID) != pid || q.PT != 1 || len(q.App) != 1 {
		return failf("the packet sent is %s: %s", js(q), show())
	}
	rec := q.App[0]
	if rec.OID == nil || uint64(*rec.OID) != uint64(oid) {
		return failf("the record sent is %s: %s", js(rec), show())
	}
	var pos *MPos
	var liq *MLiq
	np, nl := 0, 0
	for _, s := range rec.Subs {
		if s.Pos != nil {
			pos = s.Pos
			np++
		}
		if s.Liq != nil {
			liq = s.Liq
			nl++
		}
	}
	if np != 1 || nl != 1 {
		return failf("the record sent is %s: %s", js(rec), show())
	}
	at, _ := time.Parse(time.RFC3339, *c.Time)
	if posTime(pos).Unix() != at.Unix() {
		return failf("time %s sent as %s: %s", *c.Time, posTime(pos), show())
	}
	deg := func(s *string) float64 {
		if s == nil {
			return 0
		}
		v, _ := strconv.ParseFloat(*s, 64)
		return v
	}
	lat, lon := float64(pos.LAT)*unitLat, float64(pos.LONG)*unitLon
	if pos.LAHS == 1 {
		lat = -lat
	}
	if pos.LOHS == 1 {
		lon = -lon
	}
	if math.Abs(lat-deg(c.Lat)) > unitLat*1.01 || math.Abs(lon-deg(c.Lon)) > unitLon*1.01 {
		return failf("position %v, %v sent as %v, %v: %s", deg(c.Lat), deg(c.Lon), lat, lon, show())
	}
	lv := uint64(0)
	if c.Liquid != nil {
		lv, _ = strconv.ParseUint(*c.Liquid, 10, 64)
	}
	if liq.RDF == 0 && uint64(liq.DATA) != lv {
		return failf("liquid level %d sent as %d: %s", lv, liq.DATA, show())
	}
	if liq.N != 1 {
		return failf("liquid level sent for sensor %d: %s", liq.N, show())
	}
	return nil
}

func packetGenNoServer(r *Rec, c *GenCase) *Failure {
	r.NonTrivial()
	addr, err := freeAddr()
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	if c.Val%5 == 0 {
		addr = []string{"nonsense", "127.0.0.1", "127.0.0.1:99999", ":x"}[c.Val/5%4]
	}
	p, err := startProc(nil, "packet-gen", c.args(addr)...)
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	if !p.wait(20 * time.Second) {
		p.kill()
		return softf("packet-gen does not end without a server")
	}
	if p.code == 0 {
		return failf("packet-gen %s exits with 0 without a server: %s", strings.Join(c.args(addr), " "), clipS(p.out.String()))
	}
	return nil
}

// ---- M01: the receiver program ------------------------------------------------------------

type MainCase struct {
	Conf   ConfCase
	Kinds  []Target   // working storages
	Spoil  string     // "", unknown, unreachable: makes the storages unusable
	Conns  [][]SItem  // one connection after the other
	TZ     string     // time zone of the process
	Path   string     // how the configuration file is named, see confPath
	Faulty *FaultPlan `json:",omitempty"`
}

type FaultPlan struct{ After int } // the storage fails from that connection on

var zones = []string{"UTC", "America/St_Johns", "Asia/Kathmandu", "Pacific/Kiritimati", "Europe/Moscow"}

func genMain(t *rapid.T) MainCase {
	c := MainCase{TZ: pick(t, zones, "zone"), Path: pick(t, pathStyles, "path")}
	c.Conf = genConf(t)
	c.Conf.Stores = nil
	c.Conf.TTL = gInt(t, 20, 600, "ttl")
	c.Conf.Level = nil
	if !chance(t, 4, "no level") {
		y := genY(t, pick(t, []string{"DEBUG", "INFO", "WARN", "ERROR", "other"}, "level"), "level")
		c.Conf.Level = &y
	}
	switch gInt(t, 0, 9, "storage") {
	case 0, 1, 2:
	case 3:
		c.Spoil = "unknown"
	case 4:
		c.Spoil = "unreachable"
	default:
		ks := rapid.Permutation(kinds).Draw(t, "kinds")
		for _, k := range ks[:pick(t, []int{1, 1, 1, 2, 3, 6}, "n")] {
			c.Kinds = append(c.Kinds, genTarget(t, k))
		}
	}
	if len(c.Kinds) == 0 && c.Conf.Level != nil && (c.Conf.Level.V == "WARN" || c.Conf.Level.V == "ERROR") {
		c.Conf.Level.V = "INFO" // records are logged as information
	}
	for i, n := 0, gInt(t, 1, 3, "connections"); i < n; i++ {
		c.Conns = append(c.Conns, genItems(t, 1, 4, "data", "data", "plain", "auth", "mixed", "confirm", "response", "bodydamage"))
	}
	if len(c.Kinds) == 1 && c.Kinds[0].Kind != "nats" && c.Kinds[0].Kind != "rabbitmq" && len(c.Conns) > 1 && gBool(t, "fault") {
		c.Faulty = &FaultPlan{After: gInt(t, 1, len(c.Conns)-1, "after")}
	}
	return c
}

// loggedRecords finds the records a program printed.
func loggedRecords(out string) []storage.NavRecord {
	var recs []storage.NavRecord
	try := func(s string) bool {
		var m map[string]json.RawMessage
		if json.Unmarshal([]byte(s), &m) != nil || m["loc_states"] == nil || m["client_id"] == nil {
			return false
		}
		var n storage.NavRecord
		if json.Unmarshal([]byte(s), &n) != nil {
			return false
		}
		recs = append(recs, n)
		return true
	}
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if try(l) {
			continue
		}
		var m map[string]any
		if json.Unmarshal([]byte(l), &m) == nil {
			for _, k := range sortedKeys(m) {
				if s, ok := m[k].(string); ok {
					try(s)
				}
			}
			continue
		}
		for i := strings.IndexByte(l, '"'); i >= 0 && i < len(l); {
			q, err := strconv.QuotedPrefix(l[i:])
			if err != nil {
				i++
			} else {
				if s, err := strconv.Unquote(q); err == nil {
					try(s)
				}
				i += len(q)
			}
			j := strings.IndexByte(l[min(i, len(l)):], '"')
			if j < 0 {
				break
			}
			i += j
		}
	}
	return recs
}

var pathStyles = []string{"", "name", "dot", "up", "below", "odd", "noext", "link", "equals", "dashes"}

// confPath places the file in d and names it in one of the ways a user would:
// the working directory and the arguments of the program.
func confPath(d, style string, text []byte) (cwd string, args []string) {
	name := map[string]string{"odd": "my config; $1 %s 'x'.yaml", "noext": "receiver", "name": "conf.d"}[style]
	if name == "" {
		name = "config.yaml"
	}
	file := filepath.Join(d, name)
	sub := filepath.Join(d, "sub dir")
	if err := os.Mkdir(sub, 0o755); err != nil {
		panic(harnessPanic{err, ""})
	}
	arg := file
	switch style {
	case "name":
		cwd, arg = d, name
	case "dot":
		cwd, arg = d, "./"+name
	case "up":
		cwd, arg = sub, "../"+name
	case "below":
		cwd, file, arg = d, filepath.Join(sub, name), "sub dir/"+name
	case "link":
		target := filepath.Join(sub, "target")
		if err := os.Symlink(target, file); err != nil {
			panic(harnessPanic{err, ""})
		}
	}
	if err := os.WriteFile(file, text, 0o600); err != nil {
		panic(harnessPanic{err, ""})
	}
	switch style {
	case "equals":
		return cwd, []string{"-c=" + arg}
	case "dashes":
		return cwd, []string{"--c", arg}
	}
	return cwd, []string{"-c", arg}
}

// startReceiver runs the program until it accepts connections.
func startReceiver(r *Rec, conf *ConfCase, tz, path string) (p *proc, addr string, done func(), f *Failure) {
	for try := 0; try < 4; try++ {
		a, err := freeAddr()
		if err != nil {
			continue
		}
		host, port, _ := net.SplitHostPort(a)
		conf.Host.V, conf.Port.V = host, port
		d, err := os.MkdirTemp("", "verif-recv-")
		if err != nil {
			panic(harnessPanic{err, ""})
		}
		cwd, args := confPath(d, path, []byte(conf.Text()))
		p, err = startProcIn(cwd, []string{"TZ=" + tz}, "receiver", args...)
		if err != nil {
			os.RemoveAll(d)
			r.Inconclusive(err.Error())
			return nil, "", nil, nil
		}
		end := time.Now().Add(15 * time.Second)
		for time.Now().Before(end) && !p.exited() {
			c, err := net.DialTimeout("tcp", a, 2*time.Second)
			if err == nil {
				c.Close()
				return p, a, func() { p.kill(); os.RemoveAll(d) }, nil
			}
			time.Sleep(2 * time.Millisecond)
		}
		code := "still running"
		if p.exited() {
			code = fmt.Sprintf("exit %d", p.code)
		}
		p.kill()
		os.RemoveAll(d)
		f = failf("the receiver, started in %q with %q, does not accept connections on %s (%s): %s\nconfiguration:\n%s", cwd, args, a, code, clipS(p.out.String()), conf.Text())
	}
	return nil, "", nil, f
}

func runMain(r *Rec, c *MainCase) *Failure {
	conf := c.Conf
	conf.Stores = nil
	var brokers []*broker
	section := func(g *Target, params map[string]string) {
		s := YStore{Name: YVal{g.Kind, "plain"}}
		for _, k := range sortedKeys(params) {
			s.Params = append(s.Params, YParam{YVal{k, "plain"}, YVal{params[k], "double"}})
		}
		conf.Stores = append(conf.Stores, s)
	}
	for i := range c.Kinds {
		g := &c.Kinds[i]
		b, err := newBroker(g.Kind, "")
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		defer b.close()
		b.wantPass = g.Pass
		section(g, g.params(b.host, b.port))
		brokers = append(brokers, b)
	}
	switch c.Spoil {
	case "unknown":
		conf.Stores = []YStore{{Name: YVal{"kafka", "plain"}, Params: []YParam{{YVal{"server", "plain"}, YVal{"x", "plain"}}}}}
	case "unreachable":
		a, err := freeAddr()
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		host, port, _ := net.SplitHostPort(a)
		g := &Target{Kind: "postgresql", Dest: "points", User: "u", Pass: "p", Extra: "d"}
		section(g, g.params(host, port))
	}
	p, addr, done, f := startReceiver(r, &conf, c.TZ, c.Path)
	if f != nil || p == nil {
		return f
	}
	defer done()
	var want []flatPos
	groups := 0
	for i, items := range c.Conns {
		labelItems(r, items)
		broken := c.Faulty != nil && i >= c.Faulty.After
		if broken {
			brokers[0].setMode("reject")
		}
		stream, owed, _ := streamOf(items)
		got, f := exchange(addr, stream, nil, 0)
		if f != nil {
			return f
		}
		rep := owed.Replies
		if broken {
			rep = nil
			for _, it := range items {
				w, _ := owes(it.Bytes())
				if len(w.Groups) > 0 {
					for k := range w.Replies {
						if w.Replies[k].Kind == "ack" {
							w.Replies[k].Kind = "nack"
						}
					}
				}
				rep = append(rep, w.Replies...)
			}
		} else {
			want = append(want, flatten(owed.Groups)...)
			groups += len(owed.Groups)
		}
		if d := diffReplies(got, rep); d != "" {
			return failf("connection %d: %s\nlog: %s", i, d, clipS(p.out.String()))
		}
	}
	if len(want) > 0 {
		r.NonTrivial()
	}
	if len(brokers) == 0 {
		r.Label("records in the log")
		var recs []storage.NavRecord
		for end := time.Now().Add(3 * time.Second); ; time.Sleep(5 * time.Millisecond) {
			recs = loggedRecords(p.out.String())
			n := 0
			for i := range recs {
				n += len(recs[i].LocStates)
			}
			if n >= len(want) || time.Now().After(end) {
				break
			}
		}
		if d := diffSaves(recs, nil, want); d != "" {
			return failf("records in the log: %s", d)
		}
	}
	for i, b := range brokers {
		r.Label("storage " + b.kind)
		b.await(func() bool { return len(b.msgs) >= groups }, 3*time.Second)
		var recs []storage.NavRecord
		for _, d := range b.got() {
			var n storage.NavRecord
			if err := json.Unmarshal(d.Payload, &n); err != nil {
				return failf("%s got %q: %v", b.kind, clip(d.Payload), err)
			}
			recs = append(recs, n)
			if m := c.Kinds[i].diffDelivered(&d, d.Payload); m != "" {
				return failf("%s: %s", b.kind, m)
			}
		}
		if d := diffSaves(recs, nil, want); d != "" {
			return failf("%s: %s (%s)", b.kind, d, b.oddities())
		}
	}
	if p.exited() {
		return failf("the receiver ended with status %d: %s", p.code, clipS(p.out.String()))
	}
	if c.Faulty == nil {
		return probe(addr, nil, 7)
	}
	r.Label("storage failing later")
	return nil
}

// CrowdCase: more simultaneous connections than the process has descriptors.
type CrowdCase struct {
	Files int // descriptor limit of the receiver
	Conns int
	Hold  int // milliseconds they stay
	Kinds []Attack
}

func genCrowd(t *rapid.T) CrowdCase {
	c := CrowdCase{Files: gInt(t, 24, 64, "files"), Hold: gInt(t, 0, 150, "hold")}
	c.Conns = c.Files + gInt(t, 5, 60, "more")
	for i, n := 0, gInt(t, 1, 4, "kinds"); i < n; i++ {
		a := genAttack(t).Attacks[0]
		if len(a.Bytes) > 20000 {
			a.Bytes = a.Bytes[:20000]
		}
		c.Kinds = append(c.Kinds, a)
	}
	return c
}

// crowd runs the receiver program with few descriptors and lets a crowd connect.
func crowd(r *Rec, c *CrowdCase) *Failure {
	os.Setenv("VERIF_PROC_NOFILE", itoa(c.Files))
	defer os.Unsetenv("VERIF_PROC_NOFILE")
	conf := ConfCase{Host: YVal{"127.0.0.1", "plain"}, Port: YVal{"6000", "plain"}, TTL: 60, Order: []int{0, 1, 2, 3, 4}, Indent: 2}
	p, addr, done, f := startReceiver(r, &conf, "UTC", "")
	if f != nil || p == nil {
		return f
	}
	defer done()
	old, err := dial(addr)
	if err != nil {
		return softf("dial: %v", err)
	}
	defer old.c.Close()
	sent := 0
	serveOld := func(when string) *Failure {
		k := MPkg{PRV: 1, PID: uint16(sent), PT: 1, App: []MRec{{RN: uint16(sent), SST: 2, RST: 2, OID: ptr(uint32(7)), Subs: []MSub{{T: 16, Pos: &MPos{NTM: 5}}}}}}
		if err := old.send(k.Bytes()); err != nil {
			return failf("%s an existing connection is broken: %v\n%s", when, err, clipS(p.out.String()))
		}
		sent++
		if !old.waitPackets(sent, ioLimit) {
			if p.exited() {
				return failf("%s the receiver has ended with status %d: %s", when, p.code, clipS(p.out.tail(700)))
			}
			if old.hasEnded() {
				return failf("%s an existing connection was closed", when)
			}
			return softf("%s an existing connection is no longer served", when)
		}
		return nil
	}
	if f := serveOld("before the crowd"); f != nil {
		return f
	}
	r.NonTrivial()
	r.Sub(c.Conns)
	var crowd []*client
	closeAll := func() {
		for i, cl := range crowd {
			if i%3 == 1 {
				cl.abort()
			}
			cl.c.Close()
		}
	}
	for i := 0; i < c.Conns; i++ {
		cl, err := dial(addr)
		if err != nil {
			closeAll()
			return softf("connection %d: %v (%s)", i, err, clipS(p.out.tail(500)))
		}
		crowd = append(crowd, cl)
		_ = cl.send(c.Kinds[i%len(c.Kinds)].Bytes)
	}
	time.Sleep(time.Duration(c.Hold) * time.Millisecond)
	f = serveOld(fmt.Sprintf("with %d further connections open (%d descriptors)", c.Conns, c.Files))
	closeAll()
	if f != nil {
		return f
	}
	for k := 0; ; k++ {
		f := probe(addr, nil, 321)
		if f == nil {
			break
		}
		if p.exited() {
			return failf("after %d connections (%d descriptors) the receiver has ended with status %d: %s", c.Conns, c.Files, p.code, clipS(p.out.tail(700)))
		}
		if k == 3 {
			f.Msg = fmt.Sprintf("after %d connections (%d descriptors) have gone: %s", c.Conns, c.Files, f.Msg)
			return f
		}
		time.Sleep(200 * time.Millisecond)
	}
	return serveOld("afterwards")
}

// progAttacks: hostile byte streams against the receiver program with its log storage.
func progAttacks(r *Rec, c *AttackCase) *Failure {
	p, addr := sharedReceiver(r)
	if p == nil {
		return nil
	}
	for i, a := range c.Attacks {
		cl, err := dial(addr)
		if err != nil {
			return failf("attack %d: a new connection is not accepted: %v (%s)", i, err, clipS(p.out.tail(700)))
		}
		_ = cl.sendCut(a.Bytes, a.Cuts, 100*time.Microsecond)
		r.Label(a.End)
		if len(a.Bytes) > 10 {
			r.NonTrivial()
		}
		r.Sub(1)
		switch a.End {
		case "fin":
			_ = cl.c.CloseWrite()
			if !cl.waitEnd(ioLimit) {
				cl.c.Close()
				return softf("attack %d: the receiver does not finish the connection after the client's end of data", i)
			}
			cl.c.Close()
		case "close":
			cl.c.Close()
		case "reset":
			cl.abort()
		default:
			defer cl.c.Close()
		}
		if f := probe(addr, nil, uint16(i)); f != nil {
			if p.wait(100 * time.Millisecond) {
				return failf("attack %d ended the receiver with status %d: %s", i, p.code, clipS(p.out.tail(1500)))
			}
			return f
		}
	}
	return nil
}

var recvShared struct {
	p    *proc
	addr string
}

// sharedReceiver is one receiver program for many cases; a new one when it has died.
func sharedReceiver(r *Rec) (*proc, string) {
	if recvShared.p != nil && !recvShared.p.exited() {
		return recvShared.p, recvShared.addr
	}
	conf := ConfCase{Host: YVal{"127.0.0.1", "plain"}, Port: YVal{"6000", "plain"}, TTL: 600, Order: []int{0, 1, 2, 3, 4}, Indent: 2}
	p, addr, _, f := startReceiver(r, &conf, "Asia/Kathmandu", "")
	if f != nil || p == nil {
		r.Inconclusive("the receiver does not start")
		return nil, ""
	}
	p.out.mu.Lock()
	p.out.max = 1 << 16
	p.out.mu.Unlock()
	recvShared.p, recvShared.addr = p, addr
	return p, addr
}

type MainBad struct {
	Bad  BadConf
	Args string // "", none, empty, unknown
}

func runMainBad(r *Rec, c *MainBad) *Failure {
	r.NonTrivial()
	r.Label(c.Bad.How + c.Args)
	a, err := freeAddr()
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	host, port, _ := net.SplitHostPort(a)
	c.Bad.Conf.Host.V, c.Bad.Conf.Port.V = host, port
	return withFile(c.Bad.Text(), func(path string) *Failure {
		switch c.Bad.How {
		case "missing":
			path += ".missing"
		case "directory":
			path = filepath.Dir(path)
		}
		args := []string{"-c", path}
		switch c.Args {
		case "none":
			args = nil
		case "empty":
			args = []string{"-c", ""}
		case "unknown":
			args = []string{"-config", path}
		}
		p, err := startProc(nil, "receiver", args...)
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		defer p.kill()
		if !p.wait(10 * time.Second) {
			return softf("receiver %s keeps running although its configuration is unusable (%s)", strings.Join(args, " "), c.Bad.How)
		}
		if p.code == 0 {
			return failf("receiver %s exits with 0 although its configuration is unusable (%s)", strings.Join(args, " "), c.Bad.How)
		}
		return nil
	})
}

// MainTTL: the program closes silent connections after conn_ttl.
type MainTTL struct {
	Conf ConfCase
	Send int // bytes sent before the silence
}

func runMainTTL(r *Rec, c *MainTTL) *Failure {
	r.NonTrivial()
	conf := c.Conf
	p, addr, done, f := startReceiver(r, &conf, "UTC", "")
	if f != nil || p == nil {
		return f
	}
	defer done()
	cl, err := dial(addr)
	if err != nil {
		return softf("dial: %v", err)
	}
	defer cl.c.Close()
	pk := (&MPkg{PRV: 1, PID: 5, PT: 1, App: []MRec{{RN: 3, SST: 2, RST: 2}}}).Bytes()
	b := append(append([]byte{}, pk...), pk...)
	start := time.Now()
	if c.Send > 0 {
		_ = cl.send(b[:c.Send%len(b)])
	}
	ttl := time.Duration(conf.TTL) * time.Second
	if !cl.waitEnd(ttl + 2500*time.Millisecond) {
		return softf("a connection silent for conn_ttl (%v) + 2.5 s is still open", ttl)
	}
	if d := cl.endAt.Sub(start); d < ttl-100*time.Millisecond {
		return softf("a connection silent for %v is closed although conn_ttl is %v", d, ttl)
	}
	return nil
}

func init() {
	register(&Check{ID: "F01", Setup: quietAll, Parts: []*Part{
		part("file", "at least one storage section", 6000, 60000, genConfAny, confRead),
		part("unusable", "every case: one way of being unusable", 2000, 20000, genBadConf, confBad),
		part("sample", "several sections of the sample configuration uncommented", 40, 100, func(t *rapid.T) SampleCase {
			return SampleCase{On: rapid.SliceOfN(rapid.Bool(), 6, 6).Draw(t, "on")}
		}, confSample),
	}})
	prep := prepPrograms
	timed := part("timing", "every case: an answer before or after the timeout", 8, 24, genGenTimed, packetGen)
	timed.Shrink = time.Millisecond
	g := &Check{ID: "G01", Setup: prep, Parts: []*Part{
		part("reply", "every case: one packet and one answer", 250, 4000, genGenReply, packetGen),
		part("default", "every case: no server named, or an argument that is not an option", 40, 400, genGenDefault, packetGen),
		part("arguments", "every case: arguments that must be refused", 120, 1500, genGenArgs, packetGen),
		part("noserver", "every case: no server to talk to", 30, 200, func(t *rapid.T) GenCase {
			c := genGenBase(t)
			c.Val = gInt(t, 0, 99, "val")
			return c
		}, packetGenNoServer),
		timed,
	}}
	register(g)
	ttl := part("ttl", "every case: a connection that falls silent", 2, 8, func(t *rapid.T) MainTTL {
		c := MainTTL{Conf: genConf(t), Send: pick(t, []int{0, 1, 5, 11, 20, 30}, "send")}
		c.Conf.Stores = nil
		c.Conf.TTL = gInt(t, 1, 3, "ttl")
		return c
	}, runMainTTL)
	ttl.Shrink = time.Millisecond
	slow(ttl)
	register(&Check{ID: "M01", Setup: prep, Parts: []*Part{
		slow(part("serve", "positions were sent", 60, 1000, genMain, runMain)),
		part("unusable", "every case: one unusable configuration", 30, 300, func(t *rapid.T) MainBad {
			c := MainBad{Bad: genBadConf(t)}
			if chance(t, 5, "args") {
				c.Args = pick(t, []string{"none", "empty", "unknown"}, "args")
			}
			return c
		}, runMainBad),
		ttl,
	}})
}

// ---- S06: memory ----------------------------------------------------------------------

// LeakCase: much traffic, after which the receiver must not have grown.
type LeakCase struct {
	Many  bool // many short connections; otherwise one long one
	Kinds []Attack
	Items []SItem
	Fill  int // bytes of a further, damaged packet
}

func genLeak(t *rapid.T) LeakCase {
	c := LeakCase{Many: gBool(t, "many")}
	if c.Many {
		for i, n := 0, gInt(t, 1, 5, "kinds"); i < n; i++ {
			a := genAttack(t).Attacks[0]
			if len(a.Bytes) > 3000 {
				a.Bytes = a.Bytes[:3000]
			}
			a.Cuts = nil
			if a.End == "stay" {
				a.End = "close"
			}
			c.Kinds = append(c.Kinds, a)
		}
		return c
	}
	c.Items = genItems(t, 1, 4, append(append([]string{}, goodKinds...), badKinds...)...)
	c.Fill = pick(t, []int{0, 0, 1000, 20000, 65000}, "fill")
	return c
}

// rss is the resident memory of a process in bytes.
func (p *proc) rss() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.cmd.Process.Pid))
	f := strings.Fields(string(b))
	if err != nil || len(f) < 2 {
		return -1
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize()
}

// What a process grows by that keeps nothing: close to 0 after many connections, up to 18 MB on one.
const leakLimit, leakLimitMany = 48 << 20, 16 << 20

func leaks(r *Rec, c *LeakCase) *Failure {
	os.Setenv("GOGC", "20")
	defer os.Unsetenv("GOGC")
	conf := ConfCase{Host: YVal{"127.0.0.1", "plain"}, Port: YVal{"6000", "plain"}, TTL: 60, Level: &YVal{"ERROR", "plain"}, Order: []int{0, 1, 2, 3, 4}, Indent: 2}
	p, addr, done, f := startReceiver(r, &conf, "UTC", "")
	if f != nil || p == nil {
		return f
	}
	defer done()
	p.out.mu.Lock()
	p.out.max = 1 << 16
	p.out.mu.Unlock()
	r.NonTrivial()
	died := func() *Failure {
		if p.wait(50 * time.Millisecond) {
			return failf("the receiver has ended with status %d: %s", p.code, clipS(p.out.tail(1500)))
		}
		return nil
	}
	early, late := 0, 0
	what := ""
	if c.Many {
		r.Label("many connections")
		n := 20000
		what = fmt.Sprintf("%d ended connections", n)
		var next int64
		var wg sync.WaitGroup
		run := func(upto int) {
			for w := 0; w < 8; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						i := int(atomic.AddInt64(&next, 1)) - 1
						if i >= upto {
							return
						}
						cn, err := net.Dial("tcp", addr)
						if err != nil {
							continue
						}
						a := c.Kinds[i%len(c.Kinds)]
						_, _ = cn.Write(a.Bytes)
						if a.End == "fin" {
							_ = cn.(*net.TCPConn).CloseWrite()
							_ = cn.SetReadDeadline(time.Now().Add(5 * time.Second))
							_, _ = io.Copy(io.Discard, cn)
						}
						if a.End == "reset" || i%2 == 0 {
							_ = cn.(*net.TCPConn).SetLinger(0)
						}
						cn.Close()
					}
				}()
			}
			wg.Wait()
			next = int64(upto)
			time.Sleep(100 * time.Millisecond)
		}
		run(n / 4)
		early = p.rss()
		run(n)
		late = p.rss()
		r.Sub(n)
	} else {
		r.Label("one connection")
		cn, err := net.Dial("tcp", addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		defer cn.Close()
		go io.Copy(io.Discard, cn)
		one, _, _ := streamOf(c.Items)
		if c.Fill > 0 {
			k := MPkg{PRV: 1, PID: 5, PT: 1, App: []MRec{{RN: 1, SST: 2, RST: 2}}}
			b := k.Bytes()[:11]
			b[5], b[6] = byte(c.Fill), byte(c.Fill>>8)
			b[10] = refCRC8(b[:10])
			one = append(append(one, b...), make([]byte, c.Fill+2)...)
			one[len(one)-1] = 1
		}
		for len(one) < 30000 {
			one = append(one, one...)
		}
		total := 120 << 20
		what = fmt.Sprintf("%d MB on one connection", total>>20)
		sent := 0
		end := time.Now().Add(8 * time.Second)
		for sent < total && time.Now().Before(end) {
			k, err := cn.Write(one)
			sent += k
			if err != nil {
				if f := died(); f != nil {
					return f
				}
				return softf("after %d bytes the connection is broken: %v", sent, err)
			}
			if early == 0 && sent > total/5 {
				early = p.rss()
			}
		}
		late = p.rss()
		what = fmt.Sprintf("%d MB on one connection", sent>>20)
		r.Sub(sent / 1000)
	}
	if f := died(); f != nil {
		return f
	}
	r.LabelIf(late-early > 4<<20, "grown by more than 4 MB")
	limit := leakLimit
	if c.Many {
		limit = leakLimitMany
	}
	if early > 0 && late-early > limit {
		return softf("the receiver's memory grows with the traffic, by %d MB from %d MB during %s", (late-early)>>20, early>>20, what)
	}
	if f := probe(addr, nil, 321); f != nil {
		f.Msg = "after " + what + ": " + f.Msg
		return f
	}
	return nil
}
