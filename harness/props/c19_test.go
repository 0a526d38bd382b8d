package props

import (
	"encoding/base64"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C19: registration with every behaviour of the server.

// c19Conf is the configuration of the network.
type c19Conf struct {
	name, mech, user, pass, server string
}

var c19Confs = []c19Conf{
	{name: "none"},
	{name: "plain", mech: "PLAIN", user: "acct", pass: "pw:\xc3\xa9 x"},
	{name: "external", mech: "EXTERNAL", server: "hunter2"},
	{name: "full", mech: "PLAIN", user: "u", pass: strings.Repeat("x", 297), server: "s p"},
	{name: "long", mech: "PLAIN", user: "u", pass: strings.Repeat("y", 400)},
}

// what the server offers, by line
var c19LS = map[string][]string{
	"empty":     {""},
	"base":      {"server-time message-tags"},
	"unknown":   {"vendor/x=1 cap-notify tls"},
	"labeled":   {"labeled-response batch"},
	"echoalone": {"echo-message"},
	"echo":      {"labeled-response echo-message batch sasl=plain,external"},
	"sasl":      {"sasl=PLAIN,EXTERNAL server-time"},
	"bare":      {"sasl"},
	"extonly":   {"sasl=EXTERNAL batch"},
	"other":     {"sasl=SCRAM-SHA-256 batch"},
	"multi1":    {"sasl=PLAIN", "server-time"},
	"multi2":    {"server-time", "batch", "sasl=PLAIN,EXTERNAL vendor/x"},
}

var c19Known = map[string]bool{"account-notify": true, "account-tag": true, "away-notify": true, "batch": true, "chghost": true, "extended-join": true, "extended-monitor": true, "invite-notify": true, "labeled-response": true, "message-tags": true, "multi-prefix": true, "sasl": true, "server-time": true, "setname": true, "draft/account-registration": true, "draft/extended-monitor": true}

// c19Run is the reference: what the bouncer sends for the choices made so far.
type c19Run struct {
	conf    c19Conf
	lines   []string // after CAP LS, PASS, NICK and USER
	nick    string
	options []string // next choices of the server
	phase   string
	offered []string
	req     []string
	sasl    bool
	capEnd  bool
	done    string // "", "ok", "temp", "perm", "eof", "silent"
}

func c19Opts(phase string, l ...string) []string {
	var out []string
	for _, s := range l {
		out = append(out, phase+":"+s)
	}
	return out
}

func (r *c19Run) goTo(phase string) {
	r.phase = phase
	switch phase {
	case "nick":
		r.options = c19Opts("nick", "ok", "433", "433433", "432", "436", "437")
	case "ls":
		l := kit.Keys(c19LS)
		sort.Strings(l)
		r.options = c19Opts("ls", append(l, "nocap", "eof", "silent")...)
	case "req":
		r.options = c19Opts("req", "ack", "nak", "split", "eof")
	case "auth":
		r.options = c19Opts("auth", "+", "904", "908", "902", "eof", "silent")
	case "cred":
		r.options = c19Opts("cred", "ok", "904", "905", "906", "902", "again", "eof")
	case "end":
		r.options = c19Opts("end", "001", "001x", "464", "465", "fail", "error", "eof", "silent")
	default:
		r.options = nil
	}
}

func (r *c19Run) stop(how string) {
	r.done = how
	r.goTo("")
}

func (r *c19Run) end() {
	r.lines = append(r.lines, "CAP END")
	r.capEnd = true
	r.goTo("end")
}

func (c c19Conf) response() []string {
	if c.mech == "EXTERNAL" {
		return []string{"AUTHENTICATE +"}
	}
	s := base64.StdEncoding.EncodeToString([]byte("\x00" + c.user + "\x00" + c.pass))
	var l []string
	for len(s) >= 400 {
		l = append(l, "AUTHENTICATE "+s[:400])
		s = s[400:]
	}
	if s == "" {
		s = "+"
	}
	return append(l, "AUTHENTICATE "+s)
}

func (r *c19Run) choose(e string) {
	i := strings.IndexByte(e, ':')
	phase, v := e[:i], e[i+1:]
	switch v {
	case "eof":
		r.stop("eof")
		return
	case "silent":
		r.stop("silent")
		return
	}
	switch phase {
	case "nick":
		switch v {
		case "433":
			r.lines = append(r.lines, "NICK alice_")
			r.nick = "alice_"
		case "433433":
			r.lines = append(r.lines, "NICK alice_", "NICK alice__")
			r.nick = "alice__"
		case "432":
			r.stop("perm")
			return
		case "436", "437":
			r.stop("temp")
			return
		}
		r.goTo("ls")
	case "ls":
		if v == "nocap" {
			r.goTo("end")
			return
		}
		mechs := ""
		has := map[string]bool{}
		for _, l := range c19LS[v] {
			for _, c := range strings.Fields(l) {
				name := c
				if j := strings.IndexByte(c, '='); j >= 0 {
					name = c[:j]
					if name == "sasl" {
						mechs = c[j+1:]
					}
				}
				has[name] = true
				if c19Known[name] {
					r.req = append(r.req, name)
				}
			}
		}
		if has["labeled-response"] && has["echo-message"] {
			r.req = append(r.req, "echo-message")
		}
		r.sasl = has["sasl"] && r.conf.mech != "" && (mechs == "" || strings.Contains(","+strings.ToUpper(mechs)+",", ","+r.conf.mech+","))
		if len(r.req) > 0 {
			sort.Strings(r.req)
			r.lines = append(r.lines, "CAP REQ :"+strings.Join(r.req, " "))
			if !r.sasl {
				r.lines = append(r.lines, "CAP END")
				r.capEnd = true
			}
			r.goTo("req")
			return
		}
		r.end()
	case "req":
		if !r.sasl {
			r.goTo("end")
		} else if v == "nak" {
			r.end()
		} else {
			r.lines = append(r.lines, "AUTHENTICATE "+r.conf.mech)
			r.goTo("auth")
		}
	case "auth":
		if v == "+" {
			r.lines = append(r.lines, r.conf.response()...)
			r.goTo("cred")
		} else {
			r.end()
		}
	case "cred":
		if v == "again" {
			r.stop("temp")
			return
		}
		r.end()
	case "end":
		switch v {
		case "001":
			r.stop("ok")
		case "001x":
			r.nick = "guest7"
			r.stop("ok")
		case "464", "fail":
			r.stop("perm")
		case "465":
			r.stop("temp")
		case "error":
			r.stop("temp")
		}
	}
}

func c19Model(conf c19Conf, seq []string) *c19Run {
	r := &c19Run{conf: conf, nick: "alice"}
	r.goTo("nick")
	for _, e := range seq {
		r.choose(e)
	}
	return r
}

// c19Serve makes the server's choice.
func c19Serve(uc *kit.UpConn, m *c19Run, e string) {
	i := strings.IndexByte(e, ':')
	phase, v := e[:i], e[i+1:]
	p := ":n1.test "
	switch v {
	case "eof":
		uc.Hangup()
		return
	case "silent":
		return
	}
	sasl := func() {
		text := map[string]string{"902": "locked", "904": "failed", "905": "too long", "906": "aborted", "908": "PLAINX :are available"}[v]
		if v == "908" {
			uc.Send(p + "908 * " + text)
			uc.Send(p + "904 * :failed")
			return
		}
		uc.Send(p + v + " * :" + text)
	}
	switch phase {
	case "nick":
		switch v {
		case "433", "433433":
			uc.Send(p + "433 * alice :in use")
			if v == "433433" {
				uc.Send(p + "433 * alice_ :in use")
			}
		case "432", "436", "437":
			uc.Send(p + v + " * alice :no")
		}
	case "ls":
		if v == "nocap" {
			uc.Send(p + "421 * CAP :Unknown command")
			return
		}
		l := c19LS[v]
		for i, s := range l {
			more := ""
			if i < len(l)-1 {
				more = "* "
			}
			uc.Send(p + "CAP * LS " + more + ":" + s)
		}
	case "req":
		switch v {
		case "ack":
			uc.Send(p + "CAP * ACK :" + strings.Join(m.req, " ") + " ")
		case "nak":
			uc.Send(p + "CAP * NAK :" + strings.Join(m.req, " "))
		case "split":
			for _, c := range m.req {
				uc.Send(p + "CAP * ACK :" + c)
			}
		}
	case "auth":
		if v == "+" {
			uc.Send("AUTHENTICATE +")
			return
		}
		sasl()
	case "cred":
		switch v {
		case "ok":
			uc.Send(p + "900 * alice!alice@host acct :You are logged in")
			uc.Send(p + "903 * :success")
		case "again":
			uc.Send("AUTHENTICATE +")
		default:
			sasl()
		}
	case "end":
		switch v {
		case "001", "001x":
			uc.Nick = m.nick
			if v == "001x" {
				uc.Nick = "guest7"
			}
			uc.Welcome()
		case "464", "465":
			uc.Send(p + v + " * :no")
			uc.Hangup()
		case "fail":
			uc.Send(p + "FAIL * ACCOUNT_REQUIRED :no")
			uc.Hangup()
		case "error":
			uc.Send("ERROR :Closing link")
			uc.Hangup()
		}
	}
}

var c19Commands = []string{"PRIVMSG helper :in x", "MODE alice +x"}

func c19Norm(l []string) []string {
	var out []string
	for _, s := range l {
		if s == "AUTHENTICATE *" {
			continue // sent or not before the connection is closed
		}
		if strings.HasPrefix(s, "CAP REQ ") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimPrefix(s, "CAP REQ "), ":"))
			sort.Strings(f)
			s = "CAP REQ :" + strings.Join(f, " ")
		}
		out = append(out, s)
	}
	return out
}

func c19World(c *kit.Ctx, w *kit.World, conf c19Conf) *kit.UpServer {
	u := w.AddUser("alice", nil)
	rec, s := w.AddNetwork(u, "n1", func(n *database.Network) {
		n.SASL.Mechanism = conf.mech
		n.SASL.Plain.Username, n.SASL.Plain.Password = conf.user, conf.pass
		n.Pass = conf.server
		n.ConnectCommands = c19Commands
	})
	w.AddChannel(rec, "#c", nil)
	s.ISupport = []string{"CASEMAPPING=ascii", "soju.im/SAFERATE"}
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool { return !uc.Registered || m.Command == "NICK" }
	return s
}

func c19First(conf c19Conf) []string {
	l := []string{"CAP LS 302"}
	if conf.server != "" {
		p := conf.server
		if strings.Contains(p, " ") {
			p = ":" + p
		}
		l = append(l, "PASS "+p)
	}
	return append(l, "NICK alice", "USER alice 0 * alice")
}

func c19Exec(c *kit.Ctx, w *kit.World, conf c19Conf, seq []string) {
	s := c19World(c, w, conf)
	w.Start()
	uc := s.Last()
	if !c.Check(uc != nil, "no connection") {
		return
	}
	cl := w.Connect("admin", kit.ConnOpts{User: "alice"})
	cl.Take()
	connected := func() bool {
		t := strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :network status")), "\n")
		return strings.Contains(t, "[connected")
	}
	m := c19Model(conf, nil)
	check := func() bool {
		want := append(c19First(conf), m.lines...)
		got := c19Norm(uc.Raw)
		if len(got) < len(want) && !uc.Closed() {
			w.Sleep(5 * time.Second) // rate limit
			got = c19Norm(uc.Raw)
		}
		if m.done == "ok" {
			if len(got) > len(want) {
				got = got[:len(want)]
			}
		}
		c.Check(kit.Eq(got, want), "the server gets %s, want %s", kit.Q(got), kit.Q(want))
		c.Check(s.OpenConns() <= 1, "%d connections are open", s.OpenConns())
		return !c.Bad()
	}
	if !check() {
		return
	}
	for _, e := range seq {
		c.Step(e)
		if e == seq[len(seq)-1] {
			c.Check(!connected(), "the network is connected before the registration")
		}
		c19Serve(uc, m, e)
		m.choose(e)
		w.Settle()
		if !check() {
			return
		}
	}
	switch m.done {
	case "":
		return
	case "ok":
		w.Sleep(30 * time.Second) // rate limit
		rest := uc.Raw[len(c19First(conf))+len(m.lines):]
		var got []string
		for _, l := range rest {
			if strings.HasPrefix(l, "MONITOR") || strings.HasPrefix(l, "MODE #") || strings.HasPrefix(l, "NICK ") || strings.HasPrefix(l, "AWAY") {
				continue
			}
			got = append(got, l)
		}
		want := append([]string{"JOIN #c"}, c19Commands...)
		c.Check(kit.Eq(got, want), "after the registration the server gets %s, want %s", kit.Q(got), kit.Q(want))
		c.Check(connected(), "the network is not connected")
		late := w.Connect("late", kit.ConnOpts{User: "alice", Network: "n1"})
		nick := ""
		for _, l := range late.All {
			switch {
			case l.Command == "001":
				nick = l.Params[0]
			case l.Command == "NICK" && l.Prefix.Name == nick:
				nick = l.Params[0]
			}
		}
		c.Check(nick == m.nick, "the client is told it is %s, want %s", nick, m.nick)
		// nothing changes later
		n := len(w.Dials)
		w.SleepCoarse(5 * time.Minute)
		c.Check(len(w.Dials) == n && !uc.Closed(), "the connection is lost")
		return
	}
	c.Check(!connected(), "the network is connected after a failure")
	if m.done == "silent" {
		w.Sleep(59*time.Second - time.Since(w.Dials[0].At))
		c.Check(!uc.Closed(), "closed before the timeout")
		w.Sleep(2 * time.Second)
	}
	c.Check(uc.Closed(), "the connection is not closed")
	n := 1
	c.Check(len(w.Dials) == n || m.done == "silent" && len(w.Dials) == 2, "%d connection attempts", len(w.Dials))
	if m.done == "perm" {
		w.SleepCoarse(40 * time.Minute)
		c.Check(len(w.Dials) == n, "new connection attempt after a permanent error")
		return
	}
	for i := 0; i < 15 && len(w.Dials) == n; i++ {
		w.Sleep(10 * time.Second)
	}
	if !c.Check(len(w.Dials) == n+1, "no new attempt") {
		return
	}
	at := w.Dials[n].At.Sub(w.Dials[0].At)
	c.Check(at >= time.Minute && at <= 2*time.Minute, "new attempt after %v", at)
	c.Check(s.OpenConns() == 1, "%d connections", s.OpenConns())
	uc2 := s.Last()
	c.Check(kit.Eq(uc2.Raw, c19First(conf)), "second attempt: %s", kit.Q(uc2.Raw))
	uc2.Send(":n1.test CAP * LS :")
	w.Settle()
	uc2.Nick = "alice"
	uc2.Welcome()
	w.Settle()
	c.Check(connected(), "not connected by the second attempt")
}

// c19Backoff replays a sequence of outcomes of connection attempts.
func c19Backoff(c *kit.Ctx, w *kit.World, seq []string) {
	s := c19World(c, w, c19Confs[0])
	serve := func(o string) {
		uc := s.Last()
		switch o {
		case "eof":
			uc.Hangup()
		case "temp":
			uc.Send(":n1.test 465 * :banned")
		case "perm":
			uc.Send(":n1.test 464 * :bad password")
		case "okeof", "okerr":
			uc.Nick = "alice"
			uc.Welcome()
		}
	}
	s.Refuse = seq[0] == "refuse"
	w.Start()
	n := 0 // of the backoff
	last := time.Now()
	for i, o := range seq {
		c.Step(o)
		if !c.Check(len(w.Dials) == i+1, "%d attempts, want %d", len(w.Dials), i+1) {
			return
		}
		if i == 0 {
			n = 1
		}
		last = w.Dials[i].At
		if o != "refuse" {
			serve(o)
		}
		if i+1 < len(seq) {
			s.Refuse = seq[i+1] == "refuse"
		} else {
			s.Refuse = true
		}
		w.Settle()
		end := time.Now()
		switch o {
		case "silent":
			w.Sleep(60 * time.Second)
			end = last.Add(time.Minute)
		case "okeof", "okerr":
			if len(w.Dials) == i+1 {
				c.Check(s.Live() != nil, "not connected")
			}
			w.Sleep(30 * time.Second)
			end = time.Now()
			if o == "okeof" {
				n = 0
				s.Last().Hangup()
			} else {
				s.Last().Conn().FailReads(errors.New("reset"))
			}
			w.Settle()
		case "perm":
			w.SleepCoarse(time.Hour)
			c.Check(len(w.Dials) == i+1, "new attempt after a permanent error")
			return
		}
		c.Check(s.OpenConns() <= 1, "%d connections", s.OpenConns())
		var d, j time.Duration
		if n == 0 {
			n = 1
		} else {
			d, j = time.Duration(n)*time.Minute, time.Minute
			if d > 10*time.Minute {
				d = 10 * time.Minute
			} else {
				n *= 2
			}
		}
		lo, hi := last.Add(d), last.Add(d+j)
		if lo.Before(end) {
			lo = end
		}
		if hi.Before(end) {
			hi = end
		}
		for k := 0; k < 200 && len(w.Dials) == i+1; k++ {
			w.Sleep(5 * time.Second)
		}
		if !c.Check(len(w.Dials) > i+1, "no new attempt") {
			return
		}
		at := w.Dials[i+1].At
		c.Check(!at.Before(lo) && !at.After(hi), "attempt %d comes %v after the previous one, want %v to %v", i+2, at.Sub(last), lo.Sub(last), hi.Sub(last))
		if c.Bad() {
			return
		}
	}
}

func TestC19(t *testing.T) {
	r := kit.Start(t, "C19")
	loginTree(r, r.Pick(3, 4), false)
	for _, conf := range c19Confs {
		conf := conf
		if conf.name == "long" && !r.Thorough() {
			continue
		}
		r.Tree("reg-"+conf.name, 7, func(seq []string) []string { return c19Model(conf, seq).options }, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) { c19Exec(c, w, conf, seq) })
		})
	}
	r.Tree("backoff", r.Pick(4, 5), func(seq []string) []string {
		if len(seq) > 0 && seq[len(seq)-1] == "perm" {
			return nil
		}
		return []string{"refuse", "eof", "silent", "temp", "okeof", "okerr", "perm"}
	}, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) { c19Backoff(c, w, seq) })
	})
	// the longest delays
	for i, o := range []string{"refuse", "temp"} {
		seq := strings.Fields(strings.Repeat(o+" ", 9))
		r.World(fmt.Sprintf("capped-%d", i), func(c *kit.Ctx, w *kit.World) { c19Backoff(c, w, seq) })
	}
}
