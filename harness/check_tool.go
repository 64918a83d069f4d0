package main

// Check G02: tools/send_egts.py, run as a user runs it.

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ToolCase is a file of packets, how it is written, and what the server answers.
type ToolCase struct {
	Packets [][]byte
	Upper   []bool // per packet: the case of the hexadecimal digits
	CRLF    bool   `json:",omitempty"`
	NoEnd   bool   `json:",omitempty"` // the last line has no line end
	Replies [][]byte
	DelayMs []int
	Long    bool   // --host/--port
	Last    bool   // the file name comes last
	Broken  string `json:",omitempty"` // "", "nofile", "noserver", "line": what is wrong
	Name    string
	Real    bool `json:",omitempty"` // with the pause between packets
}

func genTool(broken bool) func(t *rapid.T) ToolCase {
	return func(t *rapid.T) ToolCase {
		c := ToolCase{CRLF: chance(t, 4, "crlf"), NoEnd: chance(t, 3, "noend"), Long: gBool(t, "long"), Last: gBool(t, "last"),
			Name: pick(t, []string{"p.csv", "packets", "пакеты.txt", "a b.csv", "2.hex"}, "name")}
		n := gInt(t, 1, 6, "packets")
		if chance(t, 8, "many") {
			n = gInt(t, 7, 60, "packets")
		}
		for i := 0; i < n; i++ {
			var b []byte
			switch gInt(t, 0, 5, "kind") {
			case 0:
				b = gBytes(t, 1, 60, "raw", false)
			case 1:
				b = gBytes(t, 1000, 70000, "long", false)
			default:
				p := genPkg(t, genOpt{PT: -1, MaxRecs: 2, MaxSubs: 3})
				b = p.Bytes()
			}
			up := gBool(t, "upper")
			if i > 0 && chance(t, 4, "again") { // the same line once more
				k := gInt(t, 0, i-1, "which")
				b, up = c.Packets[k], c.Upper[k]
			}
			c.Packets = append(c.Packets, b)
			c.Upper = append(c.Upper, up)
			var rep []byte
			switch gInt(t, 0, 3, "reply") {
			case 0:
				rep = gBytes(t, 1, 40, "rep", false)
			case 1:
				rep = gBytes(t, 1000, 2048, "longrep", false)
			default:
				p := genPkg(t, genOpt{PT: 0, MaxRecs: 1, MaxSubs: 2, MaxStr: 60})
				rep = p.Bytes()
			}
			if len(rep) > 2048 {
				rep = rep[:2048]
			}
			c.Replies = append(c.Replies, rep)
			d := 0
			if chance(t, 6, "delay?") {
				d = gInt(t, 1, 150, "delay")
			}
			c.DelayMs = append(c.DelayMs, d)
		}
		if n > 6 {
			for i := range c.DelayMs {
				c.DelayMs[i] = 0
			}
		}
		if broken {
			c.Broken = pick(t, []string{"nofile", "noserver", "line"}, "broken")
		}
		return c
	}
}

func sendTool(r *Rec, c *ToolCase) *Failure {
	addr, err := freeAddr()
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	dir, err := os.MkdirTemp("", "tool")
	if err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	defer os.RemoveAll(dir)
	var text strings.Builder
	for i, p := range c.Packets {
		h := hex.EncodeToString(p)
		if c.Upper[i] {
			h = strings.ToUpper(h)
		}
		if c.Broken == "line" && i == len(c.Packets)-1 {
			h = "zz" + h
		}
		text.WriteString(h)
		if i < len(c.Packets)-1 || !c.NoEnd {
			if c.CRLF {
				text.WriteByte('\r')
			}
			text.WriteByte('\n')
		}
	}
	file := filepath.Join(dir, c.Name)
	if c.Broken != "nofile" {
		if err := os.WriteFile(file, []byte(text.String()), 0o600); err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
	}
	// the pause between packets is not what is looked at
	if err := os.WriteFile(filepath.Join(dir, "sitecustomize.py"), []byte("import time\ntime.sleep = lambda s: None\n"), 0o600); err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	var (
		mu    sync.Mutex
		bad   string
		conns int
		done  = make(chan struct{})
	)
	fail := func(f string, a ...any) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	if c.Broken != "noserver" {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			r.Inconclusive(err.Error())
			return nil
		}
		defer l.Close()
		serve := func(cn net.Conn) {
			defer cn.Close()
			br := bufio.NewReaderSize(cn, 1<<17)
			sent := c.Packets
			switch c.Broken {
			case "line":
				sent = sent[:len(sent)-1]
			case "nofile":
				sent = nil
			}
			for i, p := range sent {
				_ = cn.SetReadDeadline(time.Now().Add(15 * time.Second))
				b := make([]byte, len(p))
				k, err := io.ReadFull(br, b)
				if string(b[:k]) != string(p[:k]) {
					fail("packet %d of %d arrives as %s instead of %s", i+1, len(c.Packets), hx(b[:k]), hx(p))
					return
				}
				if err == io.EOF && c.Broken == "line" {
					return // refused before anything was sent
				}
				if err != nil {
					fail("packet %d of %d: %d of %d bytes have arrived (%v)", i+1, len(c.Packets), k, len(p), err)
					return
				}
				_ = cn.SetReadDeadline(time.Now().Add(time.Duration(2+c.DelayMs[i]) * time.Millisecond))
				if x, err := br.Peek(1); err == nil {
					fail("after packet %d of %d, byte %#x is sent before the packet has been answered", i+1, len(c.Packets), x[0])
					return
				} else if err == io.EOF {
					fail("after packet %d of %d the connection is closed before the answer", i+1, len(c.Packets))
					return
				}
				if _, err := cn.Write(c.Replies[i]); err != nil {
					fail("answer %d: %v", i+1, err)
					return
				}
			}
			_ = cn.SetReadDeadline(time.Now().Add(15 * time.Second))
			if rest, err := io.ReadAll(br); len(rest) > 0 {
				fail("after the last packet, %s follows", hx(rest))
			} else if err != nil && c.Broken == "" {
				fail("the connection is not closed: %v", err)
			}
		}
		go func() {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				conns++
				first := conns == 1
				mu.Unlock()
				if !first {
					cn.Close()
					continue
				}
				go func() { defer close(done); serve(cn) }()
			}
		}()
	}
	host, port, _ := net.SplitHostPort(addr)
	args := []string{"-s", host, "-p", port}
	if c.Long {
		args = []string{"--host", host, "--port=" + port}
	}
	if c.Last {
		args = append(args, file)
	} else {
		args = append([]string{file}, args...)
	}
	cmd := exec.Command("python3", append([]string{filepath.Join(repoDir, "tools", "send_egts.py")}, args...)...)
	cmd.Env = append(os.Environ(), "PYTHONDONTWRITEBYTECODE=1")
	if !c.Real {
		cmd.Env = append(cmd.Env, "PYTHONPATH="+dir)
	}
	cmd.Dir = dir
	out := &lockedBuf{}
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		r.Inconclusive(err.Error())
		return nil
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	select {
	case err = <-ended:
	case <-time.After(25 * time.Second):
		_ = cmd.Process.Kill()
		<-ended
		mu.Lock()
		defer mu.Unlock()
		return softf("send_egts.py %s does not end (%s): %s", strings.Join(args, " "), bad, clipS(out.String()))
	}
	r.LabelIf(c.NoEnd, "no line end at the end")
	r.LabelIf(c.CRLF, "CRLF")
	r.LabelIf(c.Broken != "", "broken: "+c.Broken)
	if c.Broken != "noserver" && c.Broken != "nofile" {
		select {
		case <-done:
		case <-time.After(map[bool]time.Duration{false: 15 * time.Second, true: time.Second}[c.Broken == "line"]):
			if c.Broken == "line" {
				break // refused before connecting
			}
			return softf("no connection from send_egts.py: %s", clipS(out.String()))
		}
	}
	mu.Lock()
	msg, n := bad, conns
	mu.Unlock()
	if msg != "" {
		return softf("%s; output: %s", msg, clipS(out.String()))
	}
	if c.Broken != "" {
		r.NonTrivial()
		if err == nil {
			return failf("%s: send_egts.py ends with status 0: %s", c.Broken, clipS(out.String()))
		}
		return nil
	}
	if err != nil {
		return softf("send_egts.py: %v: %s", err, clipS(out.String()))
	}
	if n != 1 {
		return softf("%d connections", n)
	}
	late := false
	for _, d := range c.DelayMs {
		late = late || d > 5000
	}
	if len(c.Packets) > 1 || late {
		r.NonTrivial()
	}
	r.Sub(len(c.Packets))
	// every packet and its answer are printed, in order
	rest := strings.ToLower(out.String())
	for i := range c.Packets {
		for k, b := range [][]byte{c.Packets[i], c.Replies[i]} {
			h := hex.EncodeToString(b)
			at := strings.Index(rest, h)
			if at < 0 {
				return failf("%s %d is not printed in its place: %s", []string{"packet", "answer"}[k], i+1, clipS(out.String()))
			}
			rest = rest[at+len(h):]
		}
	}
	return nil
}

func init() {
	file := slow(part("file", "more than one packet", 60, 1200, genTool(false), sendTool))
	real := slow(part("pause", "more than one packet", 1, 4, func(t *rapid.T) ToolCase {
		c := genTool(false)(t)
		n := min(len(c.Packets), 4)
		c.Packets, c.Upper, c.Replies, c.DelayMs, c.Real = c.Packets[:n], c.Upper[:n], c.Replies[:n], c.DelayMs[:n], true
		return c
	}, sendTool))
	real.Shrink = time.Millisecond
	late := slow(part("slow", "every case: an answer after several seconds", 2, 8, func(t *rapid.T) ToolCase {
		c := genTool(false)(t)
		n := min(len(c.Packets), 3)
		c.Packets, c.Upper, c.Replies, c.DelayMs = c.Packets[:n], c.Upper[:n], c.Replies[:n], c.DelayMs[:n]
		for i := range c.DelayMs {
			c.DelayMs[i] = 0
		}
		c.DelayMs[gInt(t, 0, n-1, "which")] = gInt(t, 5500, 11500, "late")
		return c
	}, sendTool))
	late.Shrink = time.Millisecond
	register(&Check{ID: "G02", Setup: quietAll, Parts: []*Part{
		file,
		late,
		slow(part("broken", "every case: something is wrong", 20, 200, genTool(true), sendTool)),
		real,
	}})
}
