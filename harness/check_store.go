package main

// Checks T01-T05: the storage repository, the connectors and the exported record.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	mbits "math/bits"
	"net"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nats"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nsq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/postgresql"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/rabbitmq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/redis"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/tarantool_queue"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

var kinds = []string{"redis", "nats", "nsq", "postgresql", "rabbitmq", "tarantool_queue"}

func newConnector(kind string) storage.Store {
	switch kind {
	case "redis":
		return &redis.Connector{}
	case "nats":
		return &nats.Connector{}
	case "nsq":
		return &nsq.Connector{}
	case "postgresql":
		return &postgresql.Connector{}
	case "rabbitmq":
		return &rabbitmq.Connector{}
	}
	return &tarantool_queue.Connector{}
}

func quietAll(string) error {
	stdlog.SetOutput(io.Discard)
	return quietLogs("")
}

// rawMsg is a record that serializes to given bytes.
type rawMsg struct {
	b   []byte
	err error
}

func (m *rawMsg) ToBytes() ([]byte, error) { return m.b, m.err }

// Target is a destination of one kind, without the address.
type Target struct {
	Kind       string
	User, Pass string
	Dest       string // queue, topic, table, exchange, tube
	Extra      string // redis db, postgres database, amqp routing key
	HasExtra   bool
	HasAuth    bool
}

func gName(t *rapid.T, n string, lo, hi int) string {
	return rapid.StringMatching(fmt.Sprintf(`[a-z][a-zA-Z0-9_]{%d,%d}`, lo, hi)).Draw(t, n)
}

// gSecret draws credentials, special characters included.
func gSecret(t *rapid.T, n string, lo int) string {
	switch gInt(t, 0, 3, n+"?") {
	case 0:
		return rapid.StringMatching(fmt.Sprintf(`[a-zA-Z0-9]{%d,12}`, lo)).Draw(t, n)
	case 1:
		return rapid.StringOfN(rapid.SampledFrom([]rune(`ab1 '"\@:/?#%&=+;,<>[]{}|^~!$*()-_.`)), lo, 12, -1).Draw(t, n)
	case 2:
		return rapid.StringOfN(rapid.SampledFrom([]rune(`пароль €aZ0`)), lo, 8, -1).Draw(t, n)
	default:
		return rapid.StringOfN(rapid.RuneFrom(nil, printable), lo, 12, -1).Draw(t, n)
	}
}

func genTarget(t *rapid.T, kind string) Target {
	g := Target{Kind: kind, HasAuth: gBool(t, "auth"), HasExtra: gBool(t, "extra")}
	switch kind {
	case "redis":
		g.Dest = gSecret(t, "queue", 1)
		g.Pass = gSecret(t, "pass", 1)
		g.Extra = strconv.Itoa(gInt(t, 0, 15, "db"))
		if chance(t, 4, "leading zeros") {
			g.Extra = strings.Repeat("0", gInt(t, 1, 3, "zeros")) + g.Extra
		}
	case "nats":
		g.Dest = gName(t, "topic", 0, 10)
		if gBool(t, "dot") {
			g.Dest += "." + gName(t, "topic2", 0, 10)
		}
		g.User, g.Pass = gSecret(t, "user", 1), gSecret(t, "pass", 1)
	case "nsq":
		g.Dest = gName(t, "topic", 0, 20)
		if gBool(t, "dot") {
			g.Dest += pick(t, []string{".", "-"}, "sep") + gName(t, "topic2", 0, 10)
		}
		g.HasAuth = false
	case "postgresql":
		g.Dest = gName(t, "table", 0, 12)
		if gBool(t, "schema") {
			g.Dest = gName(t, "schema", 0, 8) + "." + g.Dest
		}
		g.User, g.Pass, g.Extra = gSecret(t, "user", 1), gSecret(t, "pass", 0), gSecret(t, "database", 1)
		g.HasAuth, g.HasExtra = true, true
	case "rabbitmq":
		g.Dest = gSecret(t, "exchange", 0)
		g.User, g.Pass, g.Extra = gSecret(t, "user", 1), gSecret(t, "pass", 0), gSecret(t, "key", 0)
		g.HasAuth = true
	case "tarantool_queue":
		g.Dest = gName(t, "queue", 0, 12)
		g.User, g.Pass = gSecret(t, "user", 1), gSecret(t, "pass", 0)
		g.HasAuth = true
	}
	return g
}

// params is the configuration section of the target.
func (g *Target) params(host, port string) map[string]string {
	p := map[string]string{}
	switch g.Kind {
	case "redis":
		p["server"], p["queue"] = host+":"+port, g.Dest
		if g.HasAuth {
			p["password"] = g.Pass
		}
		if g.HasExtra {
			p["db"] = g.Extra
		}
	case "nats":
		p["servers"], p["topic"] = "nats://"+host+":"+port, g.Dest
		if g.HasAuth {
			p["user"], p["password"] = g.User, g.Pass
		}
	case "nsq":
		p["server"], p["topic"] = host+":"+port, g.Dest
	case "postgresql":
		p["host"], p["port"], p["user"], p["password"], p["database"], p["table"], p["sslmode"] = host, port, g.User, g.Pass, g.Extra, g.Dest, "disable"
	case "rabbitmq":
		p["host"], p["port"], p["user"], p["password"], p["exchange"] = host, port, g.User, g.Pass, g.Dest
		if g.HasExtra {
			p["key"] = g.Extra
		}
	case "tarantool_queue":
		p["host"], p["port"], p["user"], p["password"], p["queue"] = host, port, g.User, g.Pass, g.Dest
		p["max_recons"], p["timeout"], p["reconnect"] = "1", "5", "1"
	}
	return p
}

var insertRe = regexp.MustCompile(`(?is)^\s*insert\s+into\s+(\S+?)\s*\(\s*"?point"?\s*\)\s*values\s*\(\s*\$1(::jsonb?)?\s*\)\s*;?\s*$`)

// diffDelivered compares one received message with what was configured and saved.
func (g *Target) diffDelivered(d *Delivered, payload []byte) string {
	dest := d.Dest
	want := g.Dest
	eq := func(what, got, want string) string {
		if got != want {
			return fmt.Sprintf("%s %q instead of %q", what, got, want)
		}
		return ""
	}
	var ms []string
	add := func(s string) {
		if s != "" {
			ms = append(ms, s)
		}
	}
	switch g.Kind {
	case "redis":
		pass, db := "", "0"
		if g.HasAuth {
			pass = g.Pass
		}
		if g.HasExtra {
			n, _ := strconv.Atoi(g.Extra)
			db = strconv.Itoa(n)
		}
		add(eq("password", d.Attr["password"], pass))
		add(eq("database", d.Attr["db"], db))
	case "nats":
		u, p := "", ""
		if g.HasAuth {
			u, p = g.User, g.Pass
		}
		add(eq("user", d.Attr["user"], u))
		add(eq("password", d.Attr["password"], p))
	case "postgresql":
		m := insertRe.FindStringSubmatch(dest)
		if m == nil {
			return fmt.Sprintf("statement %q", dest)
		}
		dest = strings.ReplaceAll(m[1], `"`, "")
		add(eq("user", d.Attr["user"], g.User))
		add(eq("password", d.Attr["password"], g.Pass))
		add(eq("database", d.Attr["database"], g.Extra))
		add(eq("number of parameters", d.Attr["params"], "1"))
	case "rabbitmq":
		k := ""
		if g.HasExtra {
			k = g.Extra
		}
		add(eq("user", d.Attr["user"], g.User))
		add(eq("password", d.Attr["password"], g.Pass))
		add(eq("routing key", d.Attr["key"], k))
		add(eq("expiration", d.Attr["expiration"], ""))
		add(eq("virtual host", d.Attr["vhost"], "/"))
	case "tarantool_queue":
		want = "queue.tube." + want + ":put"
		add(eq("user", d.Attr["user"], g.User))
		add(eq("password right", d.Attr["passwordOK"], "true"))
		add(eq("time to live", d.Attr["ttl"], ""))
		add(eq("delay", d.Attr["delay"], ""))
	}
	add(eq("destination", dest, want))
	if !bytes.Equal(d.Payload, payload) {
		add(fmt.Sprintf("payload of %d bytes %.60q instead of %d bytes %.60q", len(d.Payload), d.Payload, len(payload), payload))
	}
	return strings.Join(ms, "; ")
}

// ---- T02 --------------------------------------------------------------------------

type DeliverCase struct {
	Target Target
	Msgs   [][]byte            `json:",omitempty"`
	Big    []int               `json:",omitempty"` // additional messages of that size
	Recs   []storage.NavRecord `json:",omitempty"`
	Dead   bool                // nats: an unreachable server in front of the list
	// Workers > 0: that many goroutines save Each messages at the same time
	Workers, Each int `json:",omitempty"`
	Sizes         []int
	Many, Same    int   `json:",omitempty"` // that many further messages, numbered up to Same
	Idle          []int `json:",omitempty"` // milliseconds of silence before a further message
}

func genDeliver(kind string) func(*rapid.T) DeliverCase {
	return func(t *rapid.T) DeliverCase {
		c := DeliverCase{Target: genTarget(t, kind)}
		for i, n := 0, gInt(t, 0, 3, "msgs"); i < n; i++ {
			c.Msgs = append(c.Msgs, gBytes(t, 1, 80, "msg", false))
		}
		if n := len(c.Msgs); n > 0 && chance(t, 4, "again") {
			for k := gInt(t, 1, 4, "times"); k > 0; k-- {
				c.Msgs = append(c.Msgs, append([]byte(nil), c.Msgs[gInt(t, 0, n-1, "which")]...))
			}
		}
		if chance(t, 20, "many") {
			c.Many, c.Same = gInt(t, 100, 2300, "count"), pick(t, []int{1, 7, 5000, 5000}, "same")
		}
		for i, n := 0, gInt(t, 0, 2, "recs"); i < n; i++ {
			c.Recs = append(c.Recs, genNav(t))
		}
		if chance(t, 6, "big") {
			c.Big = append(c.Big, gInt(t, 1, 500000, "size"))
		}
		c.Dead = kind == "nats" && chance(t, 3, "dead")
		if chance(t, 4, "concurrent") {
			c.Workers, c.Each = gInt(t, 2, 12, "workers"), gInt(t, 1, 20, "each")
			c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 20, 100, 100, 500, 3000, 9000}), 1, 8).Draw(t, "sizes")
		}
		return c
	}
}

// workerMsg is the k-th message of a worker, recognizable by its first bytes.
func workerMsg(c *DeliverCase, w, k int) []byte {
	b := []byte(fmt.Sprintf("%d/%d:", w, k))
	n := c.Sizes[(w*7+k)%len(c.Sizes)]
	for i := 0; i < n; i++ {
		b = append(b, byte('a'+(w+k+i)%26))
	}
	return b
}

func delivers(r *Rec, c *DeliverCase) *Failure {
	g := &c.Target
	r.Label(g.Kind)
	b, err := newBroker(g.Kind, "")
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	defer b.close()
	b.wantPass, b.limit = g.Pass, 97
	cfg := g.params(b.host, b.port)
	if c.Dead {
		if a, err := freeAddr(); err == nil {
			cfg["servers"] = "nats://" + a + ", " + cfg["servers"]
			r.Label("one server of the list is down")
		}
	}
	given := map[string]string{}
	for k, v := range cfg {
		given[k] = v
	}
	con := newConnector(g.Kind)
	if err := con.Init(cfg); err != nil {
		return failf("%s: Init with a running broker and %s: %v (%s)", g.Kind, js(cfg), err, b.oddities())
	}
	var want [][]byte
	save := func(m interface{ ToBytes() ([]byte, error) }) *Failure {
		p, err := m.ToBytes()
		if err != nil {
			panic(err)
		}
		keep := append([]byte{}, p...)
		want = append(want, keep)
		if err := con.Save(m); err != nil {
			return failf("%s: Save of %d bytes: %v (%s)", g.Kind, len(p), err, b.oddities())
		}
		if !bytes.Equal(p, keep) {
			return failf("%s: Save changed the serialized record", g.Kind)
		}
		return nil
	}
	f := func() *Failure {
		for _, m := range c.Msgs {
			if f := save(&rawMsg{b: m}); f != nil {
				return f
			}
		}
		for i := range c.Recs {
			if f := save(&c.Recs[i]); f != nil {
				return f
			}
		}
		r.LabelIf(c.Many > 0, "hundreds of messages")
		for i := 0; i < c.Many; i++ {
			if f := save(&rawMsg{b: []byte(fmt.Sprintf(`{"n":%d}`, i%c.Same))}); f != nil {
				return f
			}
		}
		for i, ms := range c.Idle {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			if f := save(&rawMsg{b: []byte(fmt.Sprintf("after %d", i))}); f != nil {
				return f
			}
		}
		for _, n := range c.Big {
			if f := save(&rawMsg{b: bytes.Repeat([]byte("0123456789abcde\n"), n/16+1)[:n]}); f != nil {
				return f
			}
		}
		return nil
	}()
	if f != nil {
		_ = con.Close()
		return f
	}
	sent := c.Workers * c.Each
	together := map[string]int{}
	if sent > 0 {
		r.Label("saved concurrently")
		var wg sync.WaitGroup
		errs := make([]error, c.Workers)
		for w := 0; w < c.Workers; w++ {
			for k := 0; k < c.Each; k++ {
				together[string(workerMsg(c, w, k))] = w
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < c.Each && errs[w] == nil; k++ {
					errs[w] = con.Save(&rawMsg{b: workerMsg(c, w, k)})
				}
			}()
		}
		wg.Wait()
		for w, err := range errs {
			if err != nil {
				_ = con.Close()
				return failf("%s: Save among %d concurrent ones (worker %d): %v (%s)", g.Kind, c.Workers, w, err, b.oddities())
			}
		}
	}
	r.Sub(len(want) + sent)
	if len(want)+sent > 0 {
		r.NonTrivial()
	}
	b.await(func() bool { return len(b.msgs) >= len(want)+sent }, ioLimit)
	_ = con.Close()
	got := b.settle(len(want)+sent, time.Second)
	if s := b.oddities(); s != "" {
		return failf("%s: the broker could not follow: %s", g.Kind, s)
	}
	if len(got) != len(want)+sent {
		return failf("%s: %d messages delivered, %d saved", g.Kind, len(got), len(want)+sent)
	}
	for i := range got {
		if i >= len(want) {
			p := string(got[i].Payload)
			if _, ok := together[p]; !ok {
				return failf("%s: of messages saved by %d goroutines one was delivered twice or altered: %d bytes %.80q", g.Kind, c.Workers, len(p), p)
			}
			delete(together, p)
			want = append(want, got[i].Payload)
			sent--
		}
		if d := g.diffDelivered(&got[i], want[i]); d != "" {
			return failf("%s: message %d: %s (configuration %s)", g.Kind, i, d, js(given))
		}
	}
	return nil
}

// RestartCase is a broker that goes away and comes back.
// TardyCase: brokers that take their time for each message (tarantool_queue with a
// configured limit).  Every kind of connector goes through it at the same time.
type TardyCase struct {
	Targets []Target
	Delays  []int // milliseconds, per message
	Over    bool  // tarantool_queue: at the end a message that takes longer than the configured limit
}

func genTardy(t *rapid.T) TardyCase {
	c := TardyCase{Over: chance(t, 2, "over")}
	for _, k := range kinds {
		c.Targets = append(c.Targets, genTarget(t, k))
	}
	for i := gInt(t, 1, 3, "messages"); i > 0; i-- {
		c.Delays = append(c.Delays, pick(t, []int{0, 200, 700, 1200, 1700, 2200}, "ms"))
	}
	return c
}

func slowBroker(r *Rec, c *TardyCase) *Failure {
	r.NonTrivial()
	fails := make([]*Failure, len(c.Targets))
	var wg sync.WaitGroup
	for i := range c.Targets {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fails[i] = slowOne(&c.Targets[i], c)
		}()
	}
	wg.Wait()
	r.Sub(len(c.Targets) * len(c.Delays))
	for _, f := range fails {
		if f != nil {
			return f
		}
	}
	return nil
}

func slowOne(g *Target, c *TardyCase) *Failure {
	b, err := newBroker(g.Kind, "")
	if err != nil {
		return nil
	}
	defer b.close()
	b.wantPass = g.Pass
	cfg := g.params(b.host, b.port)
	if g.Kind == "tarantool_queue" {
		cfg["timeout"] = "4"
	}
	con := newConnector(g.Kind)
	if err := con.Init(cfg); err != nil {
		return failf("%s: Init with a running broker: %v (%s)", g.Kind, err, b.oddities())
	}
	defer con.Close()
	acks := g.Kind != "nats" && g.Kind != "rabbitmq"
	for i, ms := range c.Delays {
		d := time.Duration(ms) * time.Millisecond
		b.setDelay(d)
		start := time.Now()
		err := con.Save(&rawMsg{b: []byte(fmt.Sprint("message ", i))})
		took := time.Since(start)
		if err != nil {
			if took > 2500*time.Millisecond {
				return softf("%s: Save on a loaded machine: %v after %v", g.Kind, err, took)
			}
			return failf("%s: message %d: Save, answered after %v: %v", g.Kind, i, d, err)
		}
		if g.Kind == "redis" && took > 2800*time.Millisecond {
			return nil // close to the client's own limit of 3 s, after which it tries again
		}
		if acks && took < d-5*time.Millisecond {
			return failf("%s: message %d: Save succeeds after %v, the broker answered after %v", g.Kind, i, took, d)
		}
	}
	b.await(func() bool { return len(b.msgs) >= len(c.Delays) }, ioLimit)
	if g.Kind == "tarantool_queue" && c.Over {
		cfg["timeout"] = "1"
		con := newConnector(g.Kind)
		b.setDelay(0)
		if err := con.Init(cfg); err != nil {
			return failf("%s: Init: %v", g.Kind, err)
		}
		defer con.Close()
		b.setDelay(8 * time.Second)
		done := make(chan error, 1)
		start := time.Now()
		go func() { done <- con.Save(&rawMsg{b: []byte("late")}) }()
		select {
		case err := <-done:
			if err == nil {
				return softf("%s: Save with a limit of 1 s succeeds after %v, the broker has not answered", g.Kind, time.Since(start))
			}
			if d := time.Since(start); d < 900*time.Millisecond {
				return failf("%s: Save with a limit of 1 s fails after %v: %v", g.Kind, d, err)
			}
		case <-time.After(6 * time.Second):
			return softf("%s: Save with a limit of 1 s does not return for 6 s", g.Kind)
		}
		return nil
	}
	time.Sleep(300 * time.Millisecond)
	got := b.got()
	if len(got) != len(c.Delays) {
		return failf("%s: %d messages saved, the broker got %s", g.Kind, len(c.Delays), js(got))
	}
	for i := range got {
		if w := fmt.Sprint("message ", i); string(got[i].Payload) != w {
			return failf("%s: message %d arrives as %q", g.Kind, i, got[i].Payload)
		}
	}
	return nil
}

type RestartCase struct {
	Target                Target
	Before, During, After int
	DownMs                int // how long nobody listens
}

func genRestart(t *rapid.T) RestartCase {
	return RestartCase{Target: genTarget(t, pick(t, kinds, "kind")), Before: gInt(t, 0, 3, "before"), During: gInt(t, 0, 4, "during"),
		After: gInt(t, 1, 5, "after"), DownMs: pick(t, []int{100, 200, 400, 800, 1500}, "down")}
}

// restarts: a save that succeeds is delivered, also while the broker is away,
// and saving works again when it is back (rabbitmq's client does not reconnect).
func restarts(r *Rec, c *RestartCase) *Failure {
	g := &c.Target
	r.Label(g.Kind)
	r.NonTrivial()
	b, err := newBroker(g.Kind, "")
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	defer func() { b.close() }()
	b.wantPass = g.Pass
	cfg := g.params(b.host, b.port)
	if g.Kind == "tarantool_queue" {
		cfg["max_recons"] = "60"
	}
	con := newConnector(g.Kind)
	if err := con.Init(cfg); err != nil {
		return failf("%s: Init with a running broker and %s: %v (%s)", g.Kind, js(cfg), err, b.oddities())
	}
	defer con.Close()
	accepted := map[string]string{}
	n := 0
	save := func(when string) (string, error) {
		n++
		p := fmt.Sprintf(`{"n":%d,"saved":"%s"}`, n, when)
		err := con.Save(&rawMsg{b: []byte(p)})
		if err == nil {
			accepted[p] = when
		}
		return p, err
	}
	for i := 0; i < c.Before; i++ {
		if _, err := save("before"); err != nil {
			return failf("%s: Save: %v (%s)", g.Kind, err, b.oddities())
		}
	}
	if !b.await(func() bool { return len(b.msgs) >= c.Before }, ioLimit) {
		return softf("%s: %d messages delivered, %d saved", g.Kind, len(b.got()), c.Before)
	}
	old := b
	b.close()
	down := time.Duration(c.DownMs) * time.Millisecond
	start := time.Now()
	time.Sleep(down / 2) // the client notices
	for i := 0; i < c.During; i++ {
		_, err := save("while the broker was away")
		r.LabelIf(err == nil, g.Kind+" accepts while the broker is away")
		if err == nil && g.Kind != "nats" {
			return softf("%s: Save succeeds while no broker is there", g.Kind)
		}
	}
	if d := down - time.Since(start); d > 0 {
		time.Sleep(d)
	}
	addr := net.JoinHostPort(b.host, b.port)
	nb, err := newBrokerAt(addr, g.Kind, "")
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	nb.wantPass = g.Pass
	b = nb
	for i := 0; i < c.After; i++ {
		for end := time.Now().Add(15 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			_, err := save("after the broker had come back")
			if err == nil {
				break
			}
			if g.Kind == "rabbitmq" {
				break
			}
			if time.Now().After(end) {
				return softf("%s: Save fails long after the broker has come back: %v (%s)", g.Kind, err, b.oddities())
			}
		}
	}
	seen := func(bs ...*broker) map[string]int {
		m := map[string]int{}
		for _, x := range bs {
			for _, d := range x.got() {
				m[string(d.Payload)]++
			}
		}
		return m
	}
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		s := seen(old, b)
		missing, when := "", ""
		for p, w := range accepted {
			if s[p] == 0 {
				missing, when = p, w
			}
			if s[p] > 1 {
				return failf("%s: a message saved %s was delivered %d times", g.Kind, w, s[p])
			}
		}
		if missing == "" {
			break
		}
		if time.Now().After(end) {
			return softf("%s: saving %s succeeded %s, and the message has not been delivered", g.Kind, missing, when)
		}
	}
	r.Sub(len(accepted))
	for _, d := range append(old.got(), b.got()...) {
		if s := g.diffDelivered(&d, d.Payload); s != "" {
			return failf("%s: after the broker has come back: %s", g.Kind, s)
		}
	}
	if s := old.oddities() + b.oddities(); s != "" {
		return failf("%s: the broker could not follow: %s", g.Kind, s)
	}
	return nil
}

// PairCase is two connectors of a kind with different configurations.
type PairCase struct {
	A, B  Target
	Order []bool
	Close int // the first is closed before that save; -1: never
}

func genPair(t *rapid.T) PairCase {
	k := pick(t, kinds, "kind")
	return PairCase{A: genTarget(t, k), B: genTarget(t, k), Order: rapid.SliceOfN(rapid.Bool(), 1, 8).Draw(t, "order"), Close: gInt(t, -1, 8, "close")}
}

func pairs(r *Rec, c *PairCase) *Failure {
	r.Label(c.A.Kind)
	ts := []*Target{&c.A, &c.B}
	var bs []*broker
	var cons []storage.Store
	for _, g := range ts {
		b, err := newBroker(g.Kind, "")
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		defer b.close()
		b.wantPass = g.Pass
		bs = append(bs, b)
		con := newConnector(g.Kind)
		if err := con.Init(g.params(b.host, b.port)); err != nil {
			return failf("%s: Init of a connector beside another one: %v (%s)", g.Kind, err, b.oddities())
		}
		cons = append(cons, con)
	}
	closed := false
	want := [2][][]byte{}
	for i, second := range c.Order {
		if i == c.Close {
			// what was saved so far has to arrive first: nothing waits for it
			bs[0].await(func() bool { return len(bs[0].msgs) >= len(want[0]) }, ioLimit)
			_ = cons[0].Close()
			closed = true
		}
		k := 0
		if second || closed {
			k = 1
		}
		p := []byte(fmt.Sprintf(`{"n":%d}`, i))
		if err := cons[k].Save(&rawMsg{b: p}); err != nil {
			return failf("%s: Save of one of two connectors (the other one closed: %v): %v (%s)", ts[k].Kind, closed, err, bs[k].oddities())
		}
		want[k] = append(want[k], p)
	}
	r.Sub(len(c.Order))
	if len(want[0]) > 0 && len(want[1]) > 0 {
		r.NonTrivial()
	}
	for k := range ts {
		bs[k].await(func() bool { return len(bs[k].msgs) >= len(want[k]) }, ioLimit)
		if k > 0 || !closed {
			_ = cons[k].Close()
		}
	}
	for k, g := range ts {
		got := bs[k].settle(len(want[k]), time.Second)
		if s := bs[k].oddities(); s != "" {
			return failf("%s: the broker could not follow: %s", g.Kind, s)
		}
		if len(got) != len(want[k]) {
			return failf("%s: %d messages delivered by one of two connectors, %d saved", g.Kind, len(got), len(want[k]))
		}
		for i := range got {
			if d := g.diffDelivered(&got[i], want[k][i]); d != "" {
				return failf("%s: message %d of one of two connectors: %s", g.Kind, i, d)
			}
		}
	}
	return nil
}

// ---- T03 --------------------------------------------------------------------------

type FailCase struct {
	Target Target
	How    string
	Modes  []string `json:",omitempty"` // per message
	Sizes  []int    `json:",omitempty"` // of the messages, 0 for small ones
	Key    string   `json:",omitempty"`
	Val    string   `json:",omitempty"`
}

func genFail(kind string) func(*rapid.T) FailCase {
	return func(t *rapid.T) FailCase {
		c := FailCase{Target: genTarget(t, kind)}
		hows := []string{"nilcfg", "unserializable", "nilmsg", "unreachable", "authfail", "closed"}
		switch kind {
		case "redis":
			hows = append(hows, "missing", "badvalue", "modes", "modes", "modes")
			c.Target.HasAuth = true
		case "nsq", "postgresql":
			hows = append(hows, "modes", "modes", "modes")
		case "tarantool_queue":
			hows = append(hows, "badvalue", "missing", "modes", "modes", "modes")
		case "rabbitmq":
			hows = append(hows, "chanrefuse", "chanclose", "lost")
		case "nats":
			hows = append(hows, "toolarge", "notopic")
		}
		c.How = pick(t, hows, "how")
		switch c.How {
		case "modes":
			slow := 0
			n := gInt(t, 1, 5, "n")
			if chance(t, 6, "many") {
				n = gInt(t, 6, 40, "n")
			}
			big := gBool(t, "big")
			for i := 0; i < n; i++ {
				size := 0
				if big && gBool(t, "big?") {
					size = pick(t, []int{5000, 70000, 300000}, "size") + gInt(t, 0, 2000, "more")
				}
				c.Sizes = append(c.Sizes, size)
				m := pick(t, []string{"", "reject", "reject", "drop"}, "mode")
				if m == "drop" {
					if slow++; slow > 1 {
						m = "reject"
					}
				}
				if m == "reject" && gBool(t, "wording") {
					m += fmt.Sprintf(":%d", gInt(t, 0, 23, "code"))
				}
				c.Modes = append(c.Modes, m)
			}
		case "missing", "badvalue":
			if kind == "redis" {
				c.Key = pick(t, []string{"server", "queue"}, "key")
				if c.How == "badvalue" {
					c.Key = "db"
				}
			} else {
				c.Key = pick(t, []string{"max_recons", "timeout", "reconnect"}, "key")
			}
			c.Val = pick(t, []string{"", "x", "1x", "1.5", " ", "0x"}, "val")
		}
		return c
	}
}

func failures(r *Rec, c *FailCase) *Failure {
	g := &c.Target
	r.Label(g.Kind + " " + c.How)
	r.NonTrivial()
	mode := ""
	if c.How == "authfail" || c.How == "chanrefuse" || c.How == "toolarge" {
		mode = c.How
	}
	b, err := newBroker(g.Kind, mode)
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	defer b.close()
	b.wantPass = g.Pass
	cfg := g.params(b.host, b.port)
	switch c.How {
	case "nilcfg":
		cfg = nil
	case "missing":
		delete(cfg, c.Key)
	case "badvalue":
		cfg[c.Key] = c.Val
	case "notopic":
		delete(cfg, "topic")
	case "unreachable":
		b.l.Close()
		if g.Kind == "tarantool_queue" {
			cfg["reconnect"] = "0"
		}
	}
	con := newConnector(g.Kind)
	ierr := con.Init(cfg)
	switch c.How {
	case "nilcfg", "missing", "badvalue":
		if ierr == nil {
			_ = con.Close()
			return failf("%s: Init succeeds (%s %s=%q)", g.Kind, c.How, c.Key, c.Val)
		}
		return nil
	case "unreachable", "authfail", "chanrefuse", "notopic":
		if ierr != nil {
			return nil
		}
		defer con.Close()
		if err := con.Save(&rawMsg{b: []byte(`{"a":1}`)}); err == nil {
			return failf("%s: neither Init nor Save report the broker (%s)", g.Kind, c.How)
		}
		if n := len(b.got()); n > 0 {
			return failf("%s: %d messages delivered all the same", g.Kind, n)
		}
		return nil
	}
	if ierr != nil {
		return failf("%s: Init with a running broker: %v (%s)", g.Kind, ierr, b.oddities())
	}
	defer con.Close()
	switch c.How {
	case "unserializable":
		if err := con.Save(&rawMsg{b: []byte("half"), err: errors.New("cannot be serialized")}); err == nil {
			return failf("%s: Save of a record that cannot be serialized succeeds", g.Kind)
		}
		// and the connector still works
		if err := con.Save(&rawMsg{b: []byte("whole")}); err != nil {
			return failf("%s: Save after an unserializable record: %v", g.Kind, err)
		}
		b.await(func() bool { return len(b.msgs) > 0 }, ioLimit)
		if got := b.got(); len(got) != 1 || string(got[0].Payload) != "whole" {
			return failf("%s: delivered %s", g.Kind, js(got))
		}
	case "toolarge":
		// The broker announces that it takes messages of up to 100 bytes.
		for i, n := range []int{100, 101, 3, 5000, 100} {
			p := bytes.Repeat([]byte{byte('a' + i)}, n)
			before := len(b.got())
			err := con.Save(&rawMsg{b: p})
			if n > 100 {
				if err == nil {
					return failf("%s: Save of %d bytes succeeds, the broker takes 100", g.Kind, n)
				}
				continue
			}
			if err != nil {
				return failf("%s: Save of %d bytes: %v", g.Kind, n, err)
			}
			if !b.await(func() bool { return len(b.msgs) > before }, ioLimit) {
				return softf("%s: %d bytes are not delivered", g.Kind, n)
			}
			if got := b.got()[before:]; len(got) != 1 || !bytes.Equal(got[0].Payload, p) {
				return failf("%s: delivered %s", g.Kind, js(got))
			}
		}
	case "closed":
		if err := con.Save(&rawMsg{b: []byte("x")}); err != nil {
			return failf("%s: Save: %v", g.Kind, err)
		}
		_ = con.Close()
		for i := 0; i < 2; i++ {
			if err := con.Save(&rawMsg{b: []byte("y")}); err == nil {
				return failf("%s: Save succeeds after Close", g.Kind)
			}
		}
	case "nilmsg":
		if err := con.Save(nil); err == nil {
			return failf("%s: Save(nil) succeeds", g.Kind)
		}
	case "chanclose", "lost":
		// The broker closes the channel (it does so when the exchange does not
		// exist) or the connection.  A message on its way may be lost; from the
		// moment the client has noticed, saving must fail.
		if c.How == "lost" {
			b.close()
		} else {
			b.setMode("chanclose")
		}
		for end := time.Now().Add(5 * time.Second); ; time.Sleep(20 * time.Millisecond) {
			if err := con.Save(&rawMsg{b: []byte("x")}); err != nil {
				break
			}
			if time.Now().After(end) {
				return softf("%s: Save goes on succeeding after the broker has closed (%s)", g.Kind, c.How)
			}
		}
		for i := 0; i < 3; i++ {
			if err := con.Save(&rawMsg{b: []byte("x")}); err == nil {
				return failf("%s: Save number %d after a failed one succeeds though the broker has closed (%s)", g.Kind, i, c.How)
			}
		}
		if n := len(b.got()); n > 0 {
			panic(fmt.Errorf("delivered in mode %s", c.How))
		}
	case "modes":
		dropped := false
		for i, m := range c.Modes {
			b.setMode(m)
			before := len(b.got())
			p := []byte(fmt.Sprintf(`{"n":%d}`, i))
			if i < len(c.Sizes) && c.Sizes[i] > 0 {
				p = []byte(fmt.Sprintf(`{"n":%d,"pad":"%s"}`, i, strings.Repeat("x", c.Sizes[i])))
			}
			err := con.Save(&rawMsg{b: p})
			got := b.got()[before:]
			r.Sub(1)
			switch {
			case m != "" && err == nil:
				return failf("%s: message %d: Save succeeds although the broker does %q (history %v)", g.Kind, i, m, c.Modes)
			case err == nil && (len(got) != 1 || !bytes.Equal(got[0].Payload, p)):
				return failf("%s: message %d: Save succeeds, the broker got %s", g.Kind, i, js(got))
			case m == "" && err != nil && !dropped:
				return failf("%s: message %d: Save fails on a working broker: %v (history %v)", g.Kind, i, err, c.Modes)
			case m != "" && len(got) > 0:
				panic(errors.New("delivered in mode " + m))
			}
			dropped = dropped || m == "drop" || g.Kind == "postgresql" && strings.HasPrefix(m, "reject:2") && len(m) == len("reject:21")
		}
	}
	return nil
}

// ---- T01 --------------------------------------------------------------------------

type FanCase struct {
	Stores [][]bool // per store: fails on call i (cyclic); empty: never
	Recs   []storage.NavRecord
}

func genFan(t *rapid.T) FanCase {
	c := FanCase{}
	most, recs := 6, 5
	if chance(t, 10, "many stores") {
		most = 40
	}
	if chance(t, 12, "many records") {
		recs = 80
	}
	for i, n := 0, gInt(t, 0, most, "stores"); i < n; i++ {
		var f []bool
		for j, m := 0, gInt(t, 0, 3, "pattern"); j < m; j++ {
			f = append(f, gBool(t, "fails"))
		}
		c.Stores = append(c.Stores, f)
	}
	for i, n := 0, gInt(t, 1, recs, "recs"); i < n; i++ {
		if i > 0 && chance(t, 5, "again") {
			c.Recs = append(c.Recs, cloneNav(&c.Recs[gInt(t, 0, i-1, "which")]))
			continue
		}
		c.Recs = append(c.Recs, genNav(t))
	}
	return c
}

func fanout(r *Rec, c *FanCase) *Failure {
	repo := storage.NewRepository()
	type call struct {
		rec storage.NavRecord
	}
	calls := make([][]call, len(c.Stores))
	for i := range c.Stores {
		i := i
		st := &recStore{}
		st.hook = func(n int, rec *storage.NavRecord) error {
			calls[i] = append(calls[i], call{cloneNav(rec)})
			if p := c.Stores[i]; len(p) > 0 && p[n%len(p)] {
				return fmt.Errorf("storage %d refuses", i)
			}
			return nil
		}
		repo.AddStore(st)
	}
	failing, working := 0, 0
	for k := range c.Recs {
		keep := js(c.Recs[k])
		err := repo.Save(&c.Recs[k])
		bad := 0
		for _, p := range c.Stores {
			if len(p) > 0 && p[k%len(p)] {
				bad++
			}
		}
		failing += bad
		working += len(c.Stores) - bad
		if (err != nil) != (bad > 0) {
			return failf("record %d: %d of %d storages failed, Save returned %v", k, bad, len(c.Stores), err)
		}
		if js(c.Recs[k]) != keep {
			return failf("record %d was changed by Save", k)
		}
		for i := range calls {
			if len(calls[i]) != k+1 {
				return failf("after record %d storage %d has been called %d times", k, i, len(calls[i]))
			}
			if got := js(calls[i][k].rec); got != keep {
				return failf("record %d: storage %d got %s instead of %s", k, i, got, keep)
			}
		}
	}
	r.Sub(len(c.Recs) * len(c.Stores))
	if failing > 0 && working > 0 && len(c.Stores) > 1 {
		r.NonTrivial()
	}
	return nil
}

// FanRace: several goroutines save at the same time.
type FanRace struct {
	Stores  [][]bool // per store: fails on record i (cyclic); empty: never
	Heads   []storage.NavRecord
	Workers int
	Each    int
	Slow    []int // per store: yields before it answers
}

func genFanRace(t *rapid.T) FanRace {
	f := genFan(t)
	c := FanRace{Stores: f.Stores, Heads: f.Recs, Workers: gInt(t, 2, 12, "workers"), Each: gInt(t, 1, 12, "each")}
	for range c.Stores {
		c.Slow = append(c.Slow, gInt(t, 0, 3, "yields"))
	}
	return c
}

func fanRace(r *Rec, c *FanRace) *Failure {
	repo := storage.NewRepository()
	n := c.Workers * c.Each
	recs := make([]storage.NavRecord, n)
	want := make([]string, n)
	for i := range recs {
		recs[i] = cloneNav(&c.Heads[i%len(c.Heads)])
		recs[i].ClientID = uint32(i)
		want[i] = js(recs[i])
	}
	var mu sync.Mutex
	got := make([]map[string]int, len(c.Stores))
	for i := range c.Stores {
		i := i
		got[i] = map[string]int{}
		st := &recStore{}
		st.hook = func(_ int, rec *storage.NavRecord) error {
			for k := 0; k < c.Slow[i]; k++ {
				runtime.Gosched()
			}
			s := js(rec)
			mu.Lock()
			got[i][s]++
			mu.Unlock()
			if p := c.Stores[i]; len(p) > 0 && p[int(rec.ClientID)%len(p)] {
				return fmt.Errorf("storage %d refuses", i)
			}
			return nil
		}
		repo.AddStore(st)
	}
	errs := make([]error, n)
	panics := make([]any, c.Workers)
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[w] = recover() }()
			for k := 0; k < c.Each; k++ {
				i := w*c.Each + k
				errs[i] = repo.Save(&recs[i])
			}
		}()
	}
	wg.Wait()
	failing := 0
	for w, p := range panics {
		if p != nil {
			return failf("worker %d: panic: %v", w, p)
		}
	}
	for i := range recs {
		bad := 0
		for _, p := range c.Stores {
			if len(p) > 0 && p[i%len(p)] {
				bad++
			}
		}
		failing += bad
		if (errs[i] != nil) != (bad > 0) {
			return failf("record %d of %d saved by %d goroutines: %d of %d storages failed, Save returned %v", i, n, c.Workers, bad, len(c.Stores), errs[i])
		}
		for k := range got {
			if got[k][want[i]] != 1 {
				return failf("record %d of %d saved by %d goroutines: storage %d got it %d times", i, n, c.Workers, k, got[k][want[i]])
			}
		}
	}
	for k := range got {
		if len(got[k]) != n {
			return failf("storage %d got %d different records, %d were saved by %d goroutines", k, len(got[k]), n, c.Workers)
		}
	}
	r.Sub(n * len(c.Stores))
	if failing > 0 && len(c.Stores) > 1 {
		r.NonTrivial()
	}
	return nil
}

// LateStores: storages that take up to seconds, asked by several goroutines at once.
type LateStores struct {
	Saves [][]LateStore // each a repository of its own and one record
}

type LateStore struct {
	Ms    int
	Fails bool
}

func genLateStores(most int) func(*rapid.T) LateStores {
	return func(t *rapid.T) LateStores {
		var c LateStores
		for i, n := 0, gInt(t, 8, 20, "saves"); i < n; i++ {
			left := most
			var sts []LateStore
			for k, m := 0, gInt(t, 1, 3, "stores"); k < m; k++ {
				ms := min(left, pick(t, []int{0, 0, 20, 400, 1200, 3500, most, gInt(t, 0, most, "ms")}, "delay"))
				left -= ms
				sts = append(sts, LateStore{Ms: ms, Fails: chance(t, 3, "fails")})
			}
			c.Saves = append(c.Saves, sts)
		}
		return c
	}
}

func lateStores(r *Rec, c *LateStores) *Failure {
	fails := make([]*Failure, len(c.Saves))
	var wg sync.WaitGroup
	for i, sts := range c.Saves {
		wg.Add(1)
		go func() {
			defer wg.Done()
			repo := storage.NewRepository()
			bad := false
			var stores []*recStore
			var ended atomic.Int32
			for _, l := range sts {
				st := &recStore{}
				st.hook = func(int, *storage.NavRecord) error {
					time.Sleep(time.Duration(l.Ms) * time.Millisecond)
					ended.Add(1)
					if l.Fails {
						return errors.New("refused")
					}
					return nil
				}
				bad = bad || l.Fails
				stores = append(stores, st)
				repo.AddStore(st)
			}
			err := repo.Save(&storage.NavRecord{ClientID: uint32(i)})
			if n := int(ended.Load()); err == nil && n != len(sts) {
				fails[i] = failf("Save succeeds while %d of %d storages are at work: %s", len(sts)-n, len(sts), js(sts))
				return
			}
			if (err != nil) != bad {
				fails[i] = failf("Save returns %v: %s", err, js(sts))
				return
			}
			for k, st := range stores {
				st.mu.Lock()
				n := st.calls
				st.mu.Unlock()
				if n != 1 {
					fails[i] = failf("storage %d was called %d times: %s", k, n, js(sts))
				}
			}
		}()
	}
	wg.Wait()
	r.Sub(len(c.Saves))
	r.NonTrivial()
	for _, f := range fails {
		if f != nil {
			return f
		}
	}
	return nil
}

// ---- T04 --------------------------------------------------------------------------

type LoadCase struct {
	Targets []Target
	Unknown []string `json:",omitempty"`
	Broken  int      // index of the target that cannot be initialized, -1: none
	Nil     bool     // no section at all
	Recs    int
}

var wrongNames = []string{"", "Redis", "REDIS", "redis ", "rediss", "postgres", "PostgreSQL", "rabbit", "amqp", "tarantool", "tarantool-queue", "NATS", "nsqd", "kafka", "mysql", "log", "redis2"}

func genLoad(t *rapid.T) LoadCase {
	c := LoadCase{Broken: -1, Recs: gInt(t, 1, 3, "recs")}
	order := rapid.Permutation(kinds).Draw(t, "kinds")
	n := pick(t, []int{0, 1, 1, 2, 2, 3, 6}, "n")
	for _, k := range order[:n] {
		c.Targets = append(c.Targets, genTarget(t, k))
	}
	switch gInt(t, 0, 4, "special") {
	case 0:
		c.Unknown = []string{pick(t, wrongNames, "unknown")}
	case 1:
		if n > 0 {
			c.Broken = gInt(t, 0, n-1, "broken")
		}
	case 2:
		c.Nil = n == 0
	}
	return c
}

func loading(r *Rec, c *LoadCase) *Failure {
	section := map[string]map[string]string{}
	var brokers []*broker
	for i := range c.Targets {
		b, err := newBroker(c.Targets[i].Kind, "")
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		defer b.close()
		b.wantPass = c.Targets[i].Pass
		p := c.Targets[i].params(b.host, b.port)
		if i == c.Broken {
			switch c.Targets[i].Kind {
			case "redis":
				delete(p, "server")
			case "tarantool_queue":
				delete(p, "timeout")
			case "nsq":
				p = nil
			default:
				b.setMode("authfail")
			}
		}
		section[c.Targets[i].Kind] = p
		brokers = append(brokers, b)
	}
	for _, u := range c.Unknown {
		section[u] = map[string]string{"server": "127.0.0.1:1"}
	}
	if c.Nil {
		section = nil
	}
	r.Label(fmt.Sprintf("%d storages", len(c.Targets)))
	repo := storage.NewRepository()
	err := repo.LoadStorages(section)
	switch {
	case len(section) == 0:
		r.Label("empty section")
		r.NonTrivial()
		if !errors.Is(err, storage.InvalidStorage) {
			return failf("an empty section gives %v", err)
		}
		return nil
	case len(c.Unknown) > 0:
		r.Label("unsupported name")
		r.NonTrivial()
		if !errors.Is(err, storage.UnknownStorage) {
			return failf("the unsupported name %q gives %v", c.Unknown[0], err)
		}
		return nil
	case c.Broken >= 0:
		r.Label("cannot be initialized: " + c.Targets[c.Broken].Kind)
		r.NonTrivial()
		if err == nil {
			return failf("a %s storage that cannot be initialized is loaded without an error", c.Targets[c.Broken].Kind)
		}
		return nil
	}
	if err != nil {
		return failf("loading %s: %v", js(section), err)
	}
	if len(c.Targets) > 1 {
		r.NonTrivial()
	}
	var want [][]byte
	for k := 0; k < c.Recs; k++ {
		rec := storage.NavRecord{ServerID: "S", ClientID: uint32(k + 1), LocStates: []storage.LocState{{Latitude: 1.5}}, LocStatesCount: 1}
		p, _ := rec.ToBytes()
		want = append(want, p)
		if err := repo.Save(&rec); err != nil {
			return failf("saving to %s: %v", js(section), err)
		}
		r.Sub(1)
	}
	for i, b := range brokers {
		b.await(func() bool { return len(b.msgs) >= len(want) }, ioLimit)
		got := b.got()
		if len(got) != len(want) {
			return failf("%s got %d messages, %d records were saved (%s)", b.kind, len(got), len(want), b.oddities())
		}
		for k := range got {
			if d := c.Targets[i].diffDelivered(&got[k], want[k]); d != "" {
				return failf("%s: message %d: %s (section %s)", b.kind, k, d, js(section))
			}
		}
	}
	return nil
}

// ---- T05 --------------------------------------------------------------------------

func gText(t *rapid.T, n string) string {
	if gBool(t, n+"digits") {
		return rapid.StringMatching(`[0-9]{0,15}`).Draw(t, n)
	}
	return rapid.StringN(0, 12, -1).Draw(t, n)
}

func gFloat(t *rapid.T, lim float64, n string) float64 {
	switch gInt(t, 0, 3, n+"?") {
	case 0:
		return float64(g32(t, n)) * (lim / 0xFFFFFFFF)
	case 1:
		return -float64(g32(t, n)) * (lim / 0xFFFFFFFF)
	case 2:
		return rapid.Float64Range(-lim, lim).Draw(t, n)
	}
	return pick(t, []float64{0, lim, -lim, lim / 0xFFFFFFFF, 1e-9, -1e-7}, n)
}

func genNav(t *rapid.T) storage.NavRecord {
	n := storage.NavRecord{ServerID: gText(t, "server"), IMEI: gText(t, "imei"), ClientID: g32(t, "client"), ReceivedDt: gText(t, "recv"),
		PacketID: g32(t, "packet"), NavigationTimestamp: egtsEpoch.Unix() + int64(g32(t, "nav"))}
	for i := gInt(t, 0, 3, "locs"); i > 0; i-- {
		n.LocStates = append(n.LocStates, storage.LocState{Latitude: gFloat(t, 90, "lat"), Longitude: gFloat(t, 180, "lng"), Speed: g16(t, "speed"), NavigationDt: gText(t, "dt")})
	}
	n.LocStatesCount = int32(len(n.LocStates))
	for i := gInt(t, 0, 3, "an"); i > 0; i-- {
		n.AnSensors = append(n.AnSensors, storage.AnSensor{SensorNumber: g8(t, "no"), Value: g32(t, "value")})
	}
	for i := gInt(t, 0, 3, "liq"); i > 0; i-- {
		l := storage.LiquidSensor{SensorNumber: g8(t, "no"), ModuleNumber: g16(t, "mod"), ErrorFlag: pick(t, []string{"0", "1", ""}, "ef"),
			ValueUnit: pick(t, []string{"00", "01", "10", "11"}, "vu"), ValueMm: g32(t, "mm")}
		if gBool(t, "l") {
			l.ValueL = float64(g32(t, "litres")) / 10
		}
		n.LiquidSensors = append(n.LiquidSensors, l)
	}
	return n
}

// LongNav is a record with long lists, as counts and a seed for the values.
type LongNav struct {
	Head          storage.NavRecord
	Locs, An, Liq int
	Mix           uint32
}

func genLongNav(t *rapid.T) LongNav {
	n := func(name string) int {
		switch gInt(t, 0, 3, name+"?") {
		case 0:
			return gInt(t, 0, 20, name)
		case 1:
			k := gInt(t, 4, 11, name)
			return 1<<k + gInt(t, -1, 1, name)
		}
		return gInt(t, 0, 2100, name)
	}
	return LongNav{Head: genNav(t), Locs: n("locs"), An: n("an"), Liq: n("liq"), Mix: g32(t, "mix")}
}

func (c *LongNav) record() *storage.NavRecord {
	n := c.Head
	n.LocStates, n.AnSensors, n.LiquidSensors = nil, nil, nil
	x := uint64(c.Mix)
	next := func() uint32 {
		x = x*6364136223846793005 + 1442695040888963407
		return uint32(x >> 32)
	}
	for i := 0; i < c.Locs; i++ {
		n.LocStates = append(n.LocStates, storage.LocState{Latitude: float64(next()) * (90. / 0xFFFFFFFF), Longitude: -float64(next()) * (180. / 0xFFFFFFFF),
			Speed: uint16(next()), NavigationDt: egtsEpoch.Add(time.Duration(next()) * time.Second).Format(time.RFC3339)})
	}
	for i := 0; i < c.An; i++ {
		n.AnSensors = append(n.AnSensors, storage.AnSensor{SensorNumber: uint8(next()), Value: next() >> 8})
	}
	for i := 0; i < c.Liq; i++ {
		n.LiquidSensors = append(n.LiquidSensors, storage.LiquidSensor{SensorNumber: uint8(next()), ModuleNumber: uint16(next()), ErrorFlag: "0",
			ValueUnit: "10", ValueMm: next(), ValueL: float64(next()) / 10})
	}
	n.LocStatesCount = int32(len(n.LocStates))
	return &n
}

// diffJSON reads serialized bytes with a generic parser and compares every value.
func diffJSON(b []byte, n *storage.NavRecord) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return err.Error()
	}
	if d.More() {
		return "bytes after the object"
	}
	var ms []string
	bad := func(path string, got, want any) {
		ms = append(ms, fmt.Sprintf("%s is %v instead of %v", path, got, want))
	}
	str := func(m map[string]any, path, k, want string) {
		if v, ok := m[k].(string); !ok || v != want {
			bad(path+k, m[k], strconv.Quote(want))
		}
	}
	num := func(m map[string]any, path, k string, want int64) {
		v, ok := m[k].(json.Number)
		if !ok || v.String() != strconv.FormatInt(want, 10) {
			bad(path+k, m[k], want)
		}
	}
	flo := func(m map[string]any, path, k string, want float64) {
		v, ok := m[k].(json.Number)
		f, err := v.Float64()
		if !ok || err != nil || f != want {
			bad(path+k, m[k], want)
		}
	}
	list := func(k string, want int) []map[string]any {
		v, ok := m[k]
		a, isA := v.([]any)
		if !ok || !isA && v != nil || len(a) != want {
			bad(k, v, fmt.Sprintf("%d elements", want))
			return nil
		}
		var out []map[string]any
		for i, x := range a {
			o, ok := x.(map[string]any)
			if !ok {
				bad(fmt.Sprintf("%s[%d]", k, i), x, "an object")
				return nil
			}
			out = append(out, o)
		}
		return out
	}
	str(m, "", "server_id", n.ServerID)
	str(m, "", "IMEI", n.IMEI)
	num(m, "", "client_id", int64(n.ClientID))
	str(m, "", "received_dt", n.ReceivedDt)
	num(m, "", "packet_id", int64(n.PacketID))
	num(m, "", "navigation_unix_time", n.NavigationTimestamp)
	num(m, "", "loc_states_count", int64(n.LocStatesCount))
	for i, o := range list("an_sensors", len(n.AnSensors)) {
		p := fmt.Sprintf("an_sensors[%d].", i)
		num(o, p, "sensor_number", int64(n.AnSensors[i].SensorNumber))
		num(o, p, "value", int64(n.AnSensors[i].Value))
	}
	for i, o := range list("liquid_sensors", len(n.LiquidSensors)) {
		p, l := fmt.Sprintf("liquid_sensors[%d].", i), n.LiquidSensors[i]
		num(o, p, "sensor_number", int64(l.SensorNumber))
		num(o, p, "module_number", int64(l.ModuleNumber))
		str(o, p, "error_flag", l.ErrorFlag)
		str(o, p, "value_unit", l.ValueUnit)
		num(o, p, "value_mm", int64(l.ValueMm))
		flo(o, p, "value_l", l.ValueL)
	}
	for i, o := range list("loc_states", len(n.LocStates)) {
		p, l := fmt.Sprintf("loc_states[%d].", i), n.LocStates[i]
		flo(o, p, "lat", l.Latitude)
		flo(o, p, "lng", l.Longitude)
		num(o, p, "speed", int64(l.Speed))
		str(o, p, "navigation_dt", l.NavigationDt)
	}
	return strings.Join(ms, "; ")
}

func exported(r *Rec, n *storage.NavRecord) *Failure {
	if len(n.LocStates) > 0 && len(n.AnSensors)+len(n.LiquidSensors) > 0 {
		r.NonTrivial()
	}
	keep := cloneNav(n)
	b, err := n.ToBytes()
	if err != nil {
		return failf("ToBytes: %v", err)
	}
	if d := diffJSON(b, &keep); d != "" {
		return failf("%s in %s", d, clipS(string(b)))
	}
	if js(*n) != js(keep) {
		return failf("ToBytes changed the record")
	}
	b2, err := n.ToBytes()
	if err != nil || !bytes.Equal(b, b2) {
		return failf("serialized twice: %q and %q", b, b2)
	}
	return nil
}

// KeptNav is a sequence of records whose documents are all kept, and then made again by several goroutines.
type KeptNav struct {
	Recs    []storage.NavRecord
	Workers int
}

// keptDocs makes the documents one after another and at once, and compares them when all have been made.
func keptDocs(n, workers int, make1 func(i int) ([]byte, error), diff func(i int, b []byte) string) *Failure {
	docs := make([][]byte, n)
	for i := range docs {
		b, err := make1(i)
		if err != nil {
			return failf("ToBytes: %v", err)
		}
		docs[i] = b
	}
	for i, b := range docs {
		if d := diff(i, b); d != "" {
			return failf("document %d of %d, looked at after all have been made: %s", i+1, n, d)
		}
	}
	if workers < 2 {
		return nil
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad *Failure
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; k < n; k++ {
				i := (k + w) % n
				b, err := make1(i)
				if err == nil {
					runtime.Gosched()
				}
				msg := ""
				if err != nil {
					msg = err.Error()
				} else {
					msg = diff(i, b)
				}
				if msg != "" {
					mu.Lock()
					bad = failf("document %d of %d, made while others are being made: %s", i+1, n, msg)
					mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	return bad
}

func keptNavs(r *Rec, c *KeptNav) *Failure {
	if len(c.Recs) > 1 {
		r.NonTrivial()
	}
	return keptDocs(len(c.Recs), c.Workers, func(i int) ([]byte, error) { return c.Recs[i].ToBytes() },
		func(i int, b []byte) string { return diffJSON(b, &c.Recs[i]) })
}

// logged: the log storage prints the same content.
func logged(r *Rec, n *storage.NavRecord) *Failure {
	if len(n.LocStates) > 0 {
		r.NonTrivial()
	}
	out := &lockedBuf{}
	lg := logrus.StandardLogger()
	oldOut, oldF, oldL := lg.Out, lg.Formatter, lg.GetLevel()
	logrus.SetOutput(out)
	logrus.SetFormatter(&logrus.JSONFormatter{DisableHTMLEscape: true})
	logrus.SetLevel(logrus.InfoLevel)
	defer func() {
		logrus.SetOutput(oldOut)
		logrus.SetFormatter(oldF)
		logrus.SetLevel(oldL)
	}()
	lc := storage.LogConnector{}
	if err := lc.Init(nil); err != nil {
		return failf("Init: %v", err)
	}
	if err := lc.Save(n); err != nil {
		return failf("Save: %v", err)
	}
	if err := lc.Close(); err != nil {
		return failf("Close: %v", err)
	}
	found, last := 0, ""
	for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
		var e map[string]any
		if json.Unmarshal([]byte(l), &e) != nil {
			continue
		}
		for _, v := range e {
			var o map[string]any
			if s, ok := v.(string); ok && json.Unmarshal([]byte(s), &o) == nil && o["loc_states_count"] != nil {
				found++
				last = diffJSON([]byte(s), n)
			}
		}
	}
	if found != 1 {
		return failf("the record was logged %d times: %s", found, clipS(out.String()))
	}
	if last != "" {
		return failf("logged record: %s", last)
	}
	return nil
}

func init() {
	late := part("late", "every case: storages that take up to seven seconds", 1, 0, genLateStores(7000), lateStores)
	later := part("later", "every case: storages that take up to 40 seconds", 0, 4, genLateStores(40000), lateStores)
	late.Shrink, later.Shrink = time.Millisecond, time.Millisecond
	register(&Check{ID: "T01", Setup: quietAll, Parts: []*Part{
		slow(late), slow(later),
		part("fanout", "several storages, some failing and some working", 2000, 40000, genFan, fanout),
		part("concurrent", "several storages, some of them failing", 800, 15000, genFanRace, fanRace),
	}})
	t2 := &Check{ID: "T02", Setup: quietAll}
	t3 := &Check{ID: "T03", Setup: quietAll}
	for _, k := range kinds {
		t2.Parts = append(t2.Parts, part(k, "at least one record saved", 100, 1500, genDeliver(k), delivers))
		n, m := 40, 400
		if k == "rabbitmq" || k == "nats" {
			n, m = 30, 300
		}
		t3.Parts = append(t3.Parts, part(k, "every case: one way of failing", n, m, genFail(k), failures))
	}
	idle := part("idle", "every case: a connector that is not used for a while", 3, 30, func(t *rapid.T) DeliverCase {
		c := DeliverCase{Target: genTarget(t, pick(t, kinds, "kind")), Msgs: [][]byte{[]byte("first")}}
		for i := gInt(t, 1, 2, "pauses"); i > 0; i-- {
			c.Idle = append(c.Idle, pick(t, []int{300, 1200, 2200, 3300, 4500}, "ms"))
		}
		return c
	}, delivers)
	idle.Shrink = time.Second
	slowPart := part("slow", "every case: brokers that take their time", 2, 30, genTardy, slowBroker)
	slowPart.Shrink = time.Second
	restart := func(n, m int) *Part {
		p := part("restart", "every case: a broker that goes away and comes back", n, m, genRestart, restarts)
		p.Shrink = time.Second
		return p
	}
	t2.Parts = append(t2.Parts, idle, part("pair", "both connectors saved something", 60, 800, genPair, pairs), restart(7, 40), slowPart)
	t3.Parts = append(t3.Parts, restart(7, 40))
	register(t2)
	register(t3)
	register(&Check{ID: "T04", Setup: quietAll, Parts: []*Part{
		part("load", "several storages, or a section that must be refused", 150, 2000, genLoad, loading),
	}})
	register(&Check{ID: "T05", Setup: quietAll, Parts: []*Part{
		part("json", "positions and sensor readings in the record", 5000, 100000, genNav, exported),
		part("log", "positions in the record", 2000, 40000, genNav, logged),
		part("kept", "more than one record", 600, 6000, func(t *rapid.T) KeptNav {
			c := KeptNav{Workers: gInt(t, 1, 6, "workers")}
			for i := gInt(t, 1, 6, "records"); i > 0; i-- {
				c.Recs = append(c.Recs, genNav(t))
			}
			return c
		}, keptNavs),
		part("long", "positions and sensor readings in the record", 150, 3000, genLongNav, func(r *Rec, c *LongNav) *Failure {
			r.Label(fmt.Sprintf("up to %d positions", 1<<mbits.Len(uint(c.Locs))))
			if f := exported(r, c.record()); f != nil {
				return f
			}
			return logged(r, c.record())
		}),
	}})
}
