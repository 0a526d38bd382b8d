package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C13: every client sees the user's current identity.

type c13State struct {
	uNick, uReal, nNick, nReal   string // configuration
	up                           bool
	nick, user, host, acct, real string // what the server reported last
	regain                       string // nickname the bouncer tries to get back
	setname                      bool   // the server supports setname
	monitor                      bool   // the server supports MONITOR
	fresh                        bool   // the account was reported on this connection
	login                        bool   // the bouncer logs in while it registers
}

func (s c13State) key() string { return fmt.Sprintf("%+v", s) }

func c13Or(l ...string) string {
	for _, s := range l {
		if s != "" {
			return s
		}
	}
	return ""
}

func (s c13State) cfgNick() string  { return c13Or(s.nNick, s.uNick, "alice") }
func (s c13State) cfgReal() string  { return c13Or(s.nReal, s.uReal, s.cfgNick()) }
func (s c13State) userNick() string { return c13Or(s.uNick, "alice") }
func (s c13State) userReal() string { return c13Or(s.uReal, s.userNick()) }

// nickNow and realNow are what bound clients must believe.
func (s c13State) nickNow() string {
	if s.up {
		return s.nick
	}
	return s.cfgNick()
}

func (s c13State) realNow() string {
	if s.up {
		return s.real
	}
	return s.cfgReal()
}

// register is a fresh connection to the server.
func (s c13State) register() c13State {
	s.regain, s.host, s.acct, s.fresh = "", "", "", false
	if !s.up {
		return s
	}
	s.nick, s.user, s.real = s.cfgNick(), s.cfgNick(), s.cfgReal()
	if s.login {
		s.user, s.host, s.acct = "u", "h", "acct"
	}
	return s
}

// update is what updating the network does.
func (s c13State) update() c13State {
	if s.nNick == s.uNick {
		s.nNick = ""
	}
	if s.nReal == s.uReal {
		s.nReal = ""
	}
	return s.register()
}

func (s c13State) setNick(n string) c13State {
	s.nick = n
	if strings.EqualFold(n, s.cfgNick()) {
		s.regain = ""
	}
	return s
}

func (s c13State) next(e string) c13State {
	f := strings.Fields(e)
	switch f[0] {
	case "NICK": // NICK who value accept|refuse
		if f[1] == "a" || f[1] == "b" {
			s.nNick = f[2]
			if s.up && f[3] == "ok" {
				s = s.setNick(f[2])
			}
			break
		}
		if s.uNick == f[2] {
			break
		}
		s.uNick = f[2]
		if s.nNick == "" && s.up && f[3] == "ok" {
			s = s.setNick(f[2])
		}
	case "SETNAME":
		if f[1] == "a" || f[1] == "b" {
			if s.realNow() == f[2] {
				break
			}
			s.nReal = f[2]
			if s.nReal == s.uReal {
				s.nReal = ""
			}
			if s.up && s.setname {
				if f[3] == "ok" {
					s.real = f[2]
				}
			} else {
				s = s.update()
			}
			break
		}
		if f[1] == "u" && s.userReal() == f[2] || s.uReal == f[2] {
			break
		}
		s.uReal = f[2]
		if s.nReal == "" {
			if s.up && s.setname {
				if f[3] == "ok" {
					s.real = s.cfgReal()
				}
			} else {
				s = s.update()
			}
		}
	case "net-nick":
		s.nNick = f[1]
		s = s.update()
	case "net-real":
		s.nReal = f[1]
		s = s.update()
	case "srv-nick":
		s = s.setNick(f[1])
	case "srv-real":
		s.real = f[1]
	case "chghost":
		s.user, s.host = f[1], f[2]
	case "396":
		if u, h, ok := strings.Cut(f[1], "@"); ok {
			s.user, s.host = u, h
		} else {
			s.host = f[1]
		}
	case "900":
		s.acct, s.user, s.host, s.fresh = f[1], "lu", "lh", true
	case "901":
		s.acct, s.user, s.host, s.fresh = "", "xu", "xh", true
	case "drop", "restart":
		s = s.register()
	case "taken":
		s = s.register()
		s.regain = s.cfgNick()
		s.nick = s.cfgNick() + "_"
	case "wait":
		if s.regain == s.cfgNick() {
			s.nick = s.cfgNick()
		}
		s.regain = ""
	case "slow":
		old := s.cfgNick()
		s = s.register()
		s.nNick = f[1]
		s.nick = f[1]
		if !s.login {
			s.user = old
		}
	case "down":
		s.up = false
		s = s.register()
	case "up":
		s.up = true
		s = s.register()
	}
	return s
}

func (s c13State) enabled() []string {
	var l []string
	for _, who := range []string{"a", "u", "b"} {
		for _, v := range []string{"n2", "alice"} {
			for _, r := range []string{"ok", "no"} {
				if who == "b" && (v != "n2" || r != "ok") || r == "no" && !s.up {
					continue
				}
				l = append(l, "NICK "+who+" "+v+" "+r)
			}
		}
		for _, v := range []string{"r1", "Real"} {
			for _, r := range []string{"ok", "no"} {
				if who == "b" && (v != "r1" || r != "ok") || r == "no" && (!s.up || !s.setname) {
					continue
				}
				l = append(l, "SETNAME "+who+" "+v+" "+r)
			}
		}
	}
	l = append(l, "NICK s n3 ok", "SETNAME s r2 ok", "net-nick n2", "net-nick alice", "net-real r1", "restart")
	if s.up {
		l = append(l, "srv-nick f1", "srv-nick Alice", "chghost cu ch", "chghost cu2 ch", "396 vh", "396 vu@vh", "900 acct", "901", "drop", "taken", "slow n4", "down")
		if s.setname {
			l = append(l, "srv-real fr")
		}
		if s.regain != "" {
			l = append(l, "wait")
		}
	} else {
		l = append(l, "up")
	}
	return l
}

type c13World struct {
	c       *kit.Ctx
	w       *kit.World
	s       *kit.UpServer
	cl      map[string]*kit.Client
	refuse  bool
	taken   bool
	hold    bool
	free    string // nickname MONITOR reports as offline
	conns   int
	clients []string
}

var c13Opts = map[string]kit.ConnOpts{
	"a":  {User: "alice", Network: "n1", Client: "a", Caps: []string{"setname", "chghost", "sasl", "cap-notify"}},
	"b":  {User: "alice", Network: "n1", Client: "b"},
	"u":  {User: "alice", Client: "u", Caps: []string{"setname", "sasl", "cap-notify"}},
	"v":  {User: "alice", Client: "v"},
	"la": {User: "alice", Network: "n1", Client: "la", Caps: []string{"setname", "chghost", "sasl"}, Nick: "other"},
	"lb": {User: "alice", Network: "n1", Client: "lb", Nick: "other"},
	"lu": {User: "alice", Client: "lu", Caps: []string{"setname", "sasl"}, Nick: "other"},
	"lv": {User: "alice", Client: "lv", Nick: "other"},
}

func c13New(c *kit.Ctx, w *kit.World, setname, monitor, login bool) *c13World {
	x := &c13World{c: c, w: w}
	u := w.AddUser("alice", func(u *database.User) { u.Realname = "Real"; u.Admin = true })
	rec, s := w.AddNetwork(u, "n1", func(n *database.Network) {
		if login {
			n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password = "PLAIN", "acct", "pw"
		}
	})
	w.AddChannel(rec, "#c", nil)
	x.s = s
	s.Caps = []string{"sasl=PLAIN", "labeled-response", "batch", "message-tags", "chghost"}
	if setname {
		s.Caps = append(s.Caps, "setname")
	}
	if monitor {
		s.ISupport = append(s.ISupport, "MONITOR=10")
	}
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		tag := ""
		if l, ok := m.Tags["label"]; ok {
			tag = "@label=" + l + " "
		}
		switch {
		case x.hold && m.Command == "CAP" && m.Params[0] == "END":
			return true
		case m.Command == "NICK" && !uc.Registered && x.taken:
			x.taken = false
			uc.Send(":n1.test 433 * " + m.Params[0] + " :in use")
			return true
		case m.Command == "NICK" && uc.Registered && x.refuse:
			uc.Send(tag + ":n1.test 433 " + uc.Nick + " " + m.Params[0] + " :in use")
			return true
		case m.Command == "MONITOR":
			if m.Params[0] == "+" {
				for _, n := range strings.Split(m.Params[1], ",") {
					if n != x.free {
						uc.Send(":n1.test 730 " + uc.Nick + " :" + n + "!u@h")
					} else {
						uc.Send(":n1.test 731 " + uc.Nick + " :" + n)
					}
				}
			}
			return true
		case m.Command == "SETNAME":
			if x.refuse {
				uc.Send(tag + ":n1.test FAIL SETNAME CANNOT_CHANGE_REALNAME :no")
			} else {
				uc.Send(tag + ":" + uc.Mask() + " SETNAME :" + m.Params[0])
			}
			return true
		}
		return false
	}
	w.Start()
	return x
}

func (x *c13World) connect(names ...string) {
	if x.cl == nil {
		x.cl = map[string]*kit.Client{}
	}
	for _, n := range names {
		x.cl[n] = x.w.Connect(n, c13Opts[n])
		x.c.Check(x.cl[n].Registered(), "client %s cannot register", n)
	}
	x.clients = kit.Keys(x.cl)
	sort.Strings(x.clients)
}

type c13Told struct {
	nick, user, host, acct, real string
	reply                        []string
}

func c13Read(c *kit.Ctx, cl *kit.Client) c13Told {
	cl.Peek()
	var t c13Told
	for _, m := range cl.All {
		own := m.Prefix != nil && m.Prefix.Name == t.nick
		switch m.Command {
		case "001":
			t.nick = m.Params[0]
		case "NICK":
			c.Check(own, "client %s, known as %s, receives %v", cl.Name, t.nick, m)
			t.nick = m.Params[0]
		case "SETNAME":
			c.Check(own, "client %s, known as %s, receives %v", cl.Name, t.nick, m)
			t.real = m.Params[0]
		case "CHGHOST":
			c.Check(own, "client %s, known as %s, receives %v", cl.Name, t.nick, m)
			t.user, t.host = m.Params[0], m.Params[1]
		case "396":
			c.Check(m.Params[0] == t.nick, "client %s, known as %s, receives %v", cl.Name, t.nick, m)
			t.host = m.Params[1]
		case "900":
			t.acct = m.Params[2]
		case "901":
			t.acct = ""
		case "JOIN":
			c.Check(own, "client %s, known as %s, receives %v", cl.Name, t.nick, m)
			if cl.Name[0] == 'l' && t.host != "" && t.user != "" {
				c.Check(m.Prefix.User == t.user && m.Prefix.Host == t.host, "client %s, told to be %s@%s, receives %v", cl.Name, t.user, t.host, m)
			}
		}
	}
	return t
}

func (x *c13World) check(s c13State, when string) {
	c := x.c
	for _, n := range x.clients {
		cl := x.cl[n]
		if !c.Check(!cl.Closed(), "%s: the connection of %s was closed", when, n) {
			return
		}
		o := c13Opts[n]
		has := func(cap string) bool { return strings.Contains(" "+strings.Join(o.Caps, " ")+" ", " "+cap+" ") }
		t := c13Read(c, cl)
		if o.Network == "" {
			c.Check(t.nick == s.userNick(), "%s: client %s believes its nickname is %q, want %q", when, n, t.nick, s.userNick())
			if has("setname") {
				c.Check(t.real == s.userReal(), "%s: client %s believes its real name is %q, want %q", when, n, t.real, s.userReal())
			}
			if has("sasl") {
				c.Check(t.acct == "alice", "%s: client %s believes its account is %q", when, n, t.acct)
			}
			continue
		}
		c.Check(t.nick == s.nickNow(), "%s: client %s believes its nickname is %q, want %q", when, n, t.nick, s.nickNow())
		if has("setname") {
			c.Check(t.real == s.realNow(), "%s: client %s believes its real name is %q, want %q", when, n, t.real, s.realNow())
		}
		if has("sasl") && s.up && (s.fresh || n[0] == 'l') {
			c.Check(t.acct == s.acct, "%s: client %s believes its account is %q, want %q", when, n, t.acct, s.acct)
		}
		if s.up && s.host != "" {
			c.Check(t.host == s.host, "%s: client %s believes its host is %q, want %q", when, n, t.host, s.host)
			if has("chghost") {
				c.Check(t.user == s.user, "%s: client %s believes its user name is %q, want %q", when, n, t.user, s.user)
			}
		}
	}
}

// self asks unbound clients about themselves.
func (x *c13World) self(s c13State) {
	for _, n := range x.clients {
		cl := x.cl[n]
		if c13Opts[n].Network != "" || cl.Closed() {
			continue
		}
		cl.Take()
		var got []string
		for _, m := range append(cl.Do("WHOIS "+s.userNick()), cl.Do("WHO "+s.userNick())...) {
			switch m.Command {
			case "311":
				got = append(got, m.Params[1]+" "+m.Params[5])
			case "352":
				got = append(got, m.Params[5]+" "+strings.TrimPrefix(m.Params[7], "0 "))
			}
		}
		want := s.userNick() + " " + s.userReal()
		x.c.Check(kit.Eq(got, []string{want, want}), "WHOIS and WHO tell client %s %s about itself, want %q", n, kit.Q(got), want)
	}
}

func (x *c13World) settle(s c13State) bool {
	x.w.Settle()
	if s.up && x.s.Live() == nil {
		return x.c.Check(x.w.AwaitLive(x.s, 30*time.Minute), "the network does not reconnect")
	}
	return true
}

// exec performs an event from state old, leading to state s.
func (x *c13World) exec(e string, old, s c13State) bool {
	c, w := x.c, x.w
	c.Step(e)
	f := strings.Fields(e)
	x.s.Take()
	nconns := len(x.s.Conns)
	x.refuse = f[len(f)-1] == "no"
	var wantSent []string
	uc := x.s.Live()
	svc := func(cmd string) {
		cl := x.cl["u"]
		cl.Take()
		cl.Send("PRIVMSG BouncerServ :" + cmd)
	}
	switch f[0] {
	case "NICK":
		switch f[1] {
		case "s":
			svc("user update -nick " + f[2])
		default:
			x.cl[f[1]].Send("NICK " + f[2])
		}
		if old.up && (f[1] == "a" || f[1] == "b") {
			wantSent = []string{"NICK " + f[2]}
		} else if old.up && old.nNick == "" && s.uNick != old.uNick {
			wantSent = []string{"NICK " + f[2]}
		}
	case "SETNAME":
		switch f[1] {
		case "s":
			svc("user update -realname " + f[2])
		default:
			x.cl[f[1]].Send("SETNAME " + f[2])
		}
		if old.up && old.setname {
			if (f[1] == "a" || f[1] == "b") && old.realNow() != f[2] {
				wantSent = []string{"SETNAME " + f[2]}
			} else if f[1] != "a" && f[1] != "b" && old.nReal == "" && s.uReal != old.uReal {
				wantSent = []string{"SETNAME " + f[2]}
			}
		}
	case "net-nick":
		svc("network update n1 -nick " + f[1])
	case "net-real":
		svc("network update n1 -realname " + f[1])
	case "srv-nick":
		uc.Send(":" + uc.Mask() + " NICK " + f[1])
		uc.Nick = f[1]
	case "srv-real":
		uc.Send(":" + uc.Mask() + " SETNAME :" + f[1])
	case "chghost":
		uc.Send(":" + uc.Mask() + " CHGHOST " + f[1] + " " + f[2])
	case "396":
		uc.Send(":n1.test 396 " + uc.Nick + " " + f[1] + " :is now your visible host")
	case "900":
		uc.Send(":n1.test 900 " + uc.Nick + " " + uc.Nick + "!lu@lh " + f[1] + " :You are logged in")
	case "901":
		uc.Send(":n1.test 901 " + uc.Nick + " " + uc.Nick + "!xu@xh :You are logged out")
	case "drop":
		x.s.Drop()
	case "taken":
		x.taken = true
		x.refuse = true
		x.s.Drop()
	case "wait":
		if s.monitor {
			uc.Send(":n1.test 731 " + uc.Nick + " :" + old.regain)
			x.w.Settle()
		} else {
			x.w.Sleep(3 * time.Minute)
		}
		wantSent = []string{"NICK " + s.nick}
		if old.regain != old.cfgNick() || old.nick == old.cfgNick() {
			wantSent = nil
		}
	case "slow":
		x.hold = true
		x.free = f[1]
		x.s.Drop()
		x.cl["a"].Send("NICK " + f[1])
		w.Settle()
		x.hold = false
		wantSent = []string{"NICK " + f[1]}
		if old.cfgNick() == f[1] {
			wantSent = nil
		}
		if last := x.s.Last(); last != nil && !last.Registered {
			last.Welcome()
		}
	case "down":
		x.s.Refuse = true
		x.s.Drop()
	case "up":
		x.s.Refuse = false
	case "restart":
		w.Restart()
		for _, n := range []string{"a", "b", "u", "v"} {
			delete(x.cl, n)
		}
		x.settle(s)
		x.connect("a", "b", "u", "v")
	}
	if !x.settle(s) {
		return false
	}
	x.refuse = false
	x.free = ""
	// what reached the server
	var sent []string
	for i, uc := range x.s.Conns {
		reg := i < nconns
		for _, m := range uc.Take() {
			switch m.Command {
			case "NICK", "SETNAME":
				if reg || m.Command == "SETNAME" || uc.User != "" && c13After(uc, m) {
					sent = append(sent, m.Command+" "+strings.Join(m.Params, " "))
				}
			case "USER":
				reg = true
				if i >= nconns {
					real := s.cfgReal()
					user := s.cfgNick()
					nick := s.cfgNick()
					if f[0] == "slow" {
						nick, user, real = old.cfgNick(), old.cfgNick(), old.cfgReal()
					}
					c.Check(m.Params[0] == user && m.Params[3] == real, "%s: the bouncer registers as %v, want user name %s and real name %s", e, m.Params, user, real)
					for _, o := range uc.All {
						if o.Command == "NICK" {
							c.Check(o.Params[0] == nick, "%s: the bouncer registers with nickname %s, want %s", e, o.Params[0], nick)
							break
						}
					}
				}
			}
		}
	}
	if f[0] == "taken" {
		wantSent = []string{"NICK " + s.nick}
		if !s.monitor {
			// the first attempt to get the nickname back
			wantSent = append(wantSent, "NICK "+s.cfgNick())
		}
	}
	c.Check(kit.Eq(sent, wantSent), "%s: the server received %s, want %s", e, kit.Q(sent), kit.Q(wantSent))
	if f[0] == "drop" || f[0] == "taken" || f[0] == "slow" || len(x.s.Conns) > nconns {
		if s.up && f[0] != "restart" {
			x.cl["a"].Send("CAP REQ :sasl")
			w.Settle()
		}
	}
	x.check(s, e)
	return !c.Bad()
}

// c13After tells whether m was sent after the USER command.
func c13After(uc *kit.UpConn, m *ircMessage) bool {
	user := false
	for _, o := range uc.All {
		if o.Command == "USER" {
			user = true
		}
		if o == m {
			return user
		}
	}
	return false
}

func TestC13(t *testing.T) {
	r := kit.Start(t, "C13")
	for v := 0; v < 5; v++ {
		setname, monitor, login := v&1 == 0, v&2 != 0, v&4 != 0
		init := c13State{uReal: "Real", up: true, setname: setname, monitor: monitor, login: login}.register()
		group := fmt.Sprintf("%v-%v", setname, monitor)
		if login {
			group += "-login"
		}
		run := func(c *kit.Ctx, w *kit.World, seq []string) {
			x := c13New(c, w, setname, monitor, login)
			x.connect("a", "b", "u", "v")
			s := init
			x.check(s, "at first")
			for _, e := range seq {
				n := s.next(e)
				if !x.exec(e, s, n) {
					return
				}
				s = n
			}
			x.self(s)
			x.connect("la", "lb", "lu", "lv")
			x.check(s, "for a late client")
			x.self(s)
		}
		depth := r.Pick(3, 5)
		r.Bound("C13 (server with setname: %v, MONITOR: %v, logging in: %v): every reachable identity state within %d events, every event from each; every sequence of %d events", setname, monitor, login, depth, r.Pick(2, 3))
		kit.Graph(r, "graph-"+group, init, c13State.key, func(s c13State) []string { return s.enabled() }, func(s c13State, e string) c13State { return s.next(e) }, depth,
			func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) { run(c, w, seq) })
			})
		r.Tree("tree-"+group, r.Pick(2, 3), func(seq []string) []string {
			s := init
			for _, e := range seq {
				s = s.next(e)
			}
			return s.enabled()
		}, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) { run(c, w, seq) })
		})
	}
}
