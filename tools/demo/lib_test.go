package soju

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
)

type demo struct {
	t   *testing.T
	db  database.Database
	srv *Server
	cfg func(*Config)
}

type demoNoClose struct{ database.Database }

func (demoNoClose) Close() error { return nil }

func newDemo(t *testing.T) *demo {
	db, err := database.OpenTempSqliteDB()
	if err != nil {
		t.Fatal(err)
	}
	return &demo{t: t, db: demoNoClose{db}}
}

type demoLog struct{}

func (demoLog) Printf(format string, v ...interface{}) {}

func (d *demo) start() {
	d.srv = NewServer(d.db)
	d.srv.Logger = &DebugLogger{logger: demoLog{}}
	if d.cfg != nil {
		cfg := *d.srv.Config()
		d.cfg(&cfg)
		d.srv.SetConfig(&cfg)
	}
	if err := d.srv.Start(); err != nil {
		d.t.Fatal(err)
	}
}

func (d *demo) stop() { d.srv.Shutdown() }

func (d *demo) user(name string, f func(*database.User)) *database.User {
	u := database.NewUser(name)
	if err := u.SetPassword(name); err != nil {
		d.t.Fatal(err)
	}
	if f != nil {
		f(u)
	}
	if err := d.db.StoreUser(context.Background(), u); err != nil {
		d.t.Fatal(err)
	}
	return u
}

// demoPeer is one line-based connection.
type demoPeer struct {
	t     *testing.T
	c     net.Conn
	mu    sync.Mutex
	lines []string
	pos   int
	eof   bool
	cond  *sync.Cond
	on    func(line string)
}

func newDemoPeer(t *testing.T, c net.Conn, on func(p *demoPeer, line string)) *demoPeer {
	p := &demoPeer{t: t, c: c}
	p.cond = sync.NewCond(&p.mu)
	go func() {
		sc := bufio.NewScanner(c)
		for sc.Scan() {
			line := strings.TrimRight(sc.Text(), "\r")
			p.mu.Lock()
			p.lines = append(p.lines, line)
			p.cond.Broadcast()
			p.mu.Unlock()
			if on != nil {
				on(p, line)
			}
		}
		p.mu.Lock()
		p.eof = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}()
	return p
}

func (p *demoPeer) send(format string, a ...interface{}) {
	line := fmt.Sprintf(format, a...)
	p.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	p.c.Write([]byte(line + "\r\n"))
}

// expect waits for a line containing all the given strings, and consumes
// everything up to it.
func (p *demoPeer) expect(subs ...string) string {
	l, ok := p.wait(10*time.Second, subs...)
	if !ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		p.t.Fatalf("no line with %q; received: %q", subs, p.lines)
	}
	return l
}

func (p *demoPeer) wait(d time.Duration, subs ...string) (string, bool) {
	deadline := time.Now().Add(d)
	timer := time.AfterFunc(d, func() { p.mu.Lock(); p.cond.Broadcast(); p.mu.Unlock() })
	defer timer.Stop()
	p.mu.Lock()
	defer p.mu.Unlock()
	i := p.pos
	for {
		for ; i < len(p.lines); i++ {
			ok := true
			for _, s := range subs {
				if !strings.Contains(p.lines[i], s) {
					ok = false
				}
			}
			if ok {
				p.pos = i + 1
				return p.lines[i], true
			}
		}
		if p.eof || !time.Now().Before(deadline) {
			return "", false
		}
		p.cond.Wait()
	}
}

// since returns the lines received after the last expect/sync.
func (p *demoPeer) since() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := append([]string(nil), p.lines[p.pos:]...)
	p.pos = len(p.lines)
	return l
}

func (p *demoPeer) all() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.lines...)
}

func (p *demoPeer) closed(d time.Duration) bool {
	deadline := time.Now().Add(d)
	for time.Now().Before(deadline) {
		p.mu.Lock()
		e := p.eof
		p.mu.Unlock()
		if e {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

var demoSync int

// sync makes sure everything the bouncer sent before is received, and returns it.
func (p *demoPeer) sync() []string {
	p.mu.Lock()
	start := p.pos
	p.mu.Unlock()
	demoSync++
	tok := fmt.Sprintf("demosync%d", demoSync)
	p.send("PING %s", tok)
	p.expect("PONG", tok)
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.lines[start:p.pos-1]...)
}

// demoUp is a small IRC server with one connection at a time.
type demoUp struct {
	d     *demo
	ln    net.Listener
	rec   *database.Network
	caps  string
	isup  string
	conns chan *demoPeer
	hook  func(p *demoPeer, line string) bool
	Nick  string
}

func (d *demo) network(u *database.User, name string, f func(*database.Network)) *demoUp {
	ln, err := net.Listen("tcp", "localhost:0")
	if err != nil {
		d.t.Fatal(err)
	}
	n := database.NewNetwork("irc+insecure://" + ln.Addr().String())
	n.Name = name
	if f != nil {
		f(n)
	}
	if err := d.db.StoreNetwork(context.Background(), u.ID, n); err != nil {
		d.t.Fatal(err)
	}
	up := &demoUp{d: d, ln: ln, rec: n, conns: make(chan *demoPeer, 16), isup: "CASEMAPPING=ascii CHANTYPES=# PREFIX=(ov)@+"}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			up.conns <- newDemoPeer(d.t, c, up.handle)
		}
	}()
	d.t.Cleanup(func() { ln.Close() })
	return up
}

func (up *demoUp) handle(p *demoPeer, line string) {
	if up.hook != nil && up.hook(p, line) {
		return
	}
	l := line
	if strings.HasPrefix(l, "@") {
		_, l, _ = strings.Cut(l, " ")
	}
	f := strings.Fields(l)
	if len(f) == 0 {
		return
	}
	switch f[0] {
	case "CAP":
		switch f[1] {
		case "LS":
			p.send("CAP * LS :%s", up.caps)
		case "REQ":
			_, req, _ := strings.Cut(l, "REQ ")
			p.send("CAP * ACK :%s", strings.TrimPrefix(req, ":"))
		case "END":
			up.welcome(p)
		}
	case "NICK":
		up.Nick = f[1]
	case "PING":
		_, tok, _ := strings.Cut(l, " ")
		p.send(":srv PONG srv %s", tok)
	case "JOIN":
		for _, ch := range strings.Split(f[1], ",") {
			p.send(":%s!u@h JOIN %s", up.Nick, ch)
			p.send(":srv 353 %s = %s :%s", up.Nick, ch, up.Nick)
			p.send(":srv 366 %s %s :End of /NAMES list", up.Nick, ch)
		}
	case "PART":
		for _, ch := range strings.Split(f[1], ",") {
			p.send(":%s!u@h PART %s", up.Nick, ch)
		}
	case "MODE":
		if len(f) == 2 && strings.HasPrefix(f[1], "#") {
			p.send(":srv 324 %s %s +nt", up.Nick, f[1])
		}
	}
}

func (up *demoUp) welcome(p *demoPeer) {
	p.send(":srv 001 %s :Welcome", up.Nick)
	p.send(":srv 002 %s :Host", up.Nick)
	p.send(":srv 003 %s :Created", up.Nick)
	p.send(":srv 004 %s srv v1 iow bklimnopstv", up.Nick)
	p.send(":srv 005 %s %s :are supported", up.Nick, up.isup)
	p.send(":srv 422 %s :No MOTD", up.Nick)
}

// accept waits for the next connection of the bouncer and its registration.
func (up *demoUp) accept() *demoPeer {
	select {
	case p := <-up.conns:
		p.expect("CAP END")
		return p
	case <-time.After(60 * time.Second):
		up.d.t.Fatal("the bouncer does not connect")
		return nil
	}
}

// upsync makes sure the bouncer processed what the server sent before (and
// its reactions were received).
func (p *demoPeer) upsync() []string {
	p.mu.Lock()
	start := p.pos
	p.mu.Unlock()
	demoSync++
	tok := fmt.Sprintf("demosync%d", demoSync)
	p.send("PING %s", tok)
	p.expect("PONG", tok)
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.lines[start:p.pos-1]...)
}

// client connects a registered client. network may be "".
func (d *demo) client(user, network, name string, caps ...string) *demoPeer {
	p := d.dial()
	login := user
	if network != "" {
		login += "/" + network
	}
	if name != "" {
		login += "@" + name
	}
	if len(caps) > 0 {
		p.send("CAP LS 302")
		p.send("CAP REQ :%s", strings.Join(caps, " "))
	}
	p.send("PASS %s", user)
	p.send("NICK %s", user)
	p.send("USER %s 0 * :%s", login, user)
	if len(caps) > 0 {
		p.send("CAP END")
	}
	p.expect(" 001 ")
	return p
}

func (d *demo) dial() *demoPeer {
	c1, c2 := net.Pipe()
	go d.srv.Handle(newNetIRCConn(c1))
	return newDemoPeer(d.t, c2, func(p *demoPeer, line string) {
		if _, tok, ok := strings.Cut(line, "PING "); ok && !strings.Contains(line, "PRIVMSG") {
			p.send("PONG %s", tok)
		}
	})
}

// serv runs a service command and returns the replies.
func (p *demoPeer) serv(cmd string) []string {
	p.sync()
	p.send("PRIVMSG BouncerServ :%s", cmd)
	var out []string
	for _, l := range p.sync() {
		if strings.Contains(l, ":BouncerServ!") && strings.Contains(l, " PRIVMSG ") {
			_, t, _ := strings.Cut(l, " PRIVMSG ")
			_, t, _ = strings.Cut(t, " ")
			out = append(out, strings.TrimPrefix(t, ":"))
		}
	}
	return out
}

func demoCount(lines []string, subs ...string) int {
	n := 0
	for _, l := range lines {
		ok := true
		for _, s := range subs {
			if !strings.Contains(l, s) {
				ok = false
			}
		}
		if ok {
			n++
		}
	}
	return n
}
