package props

import (
	"fmt"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C16: the user is away upstream exactly when nobody is present.

type c16State struct {
	// "" gone, "p" present, "a" away; clients a and b of network n1, o of n2
	// and u without network
	cl      [4]string
	auto    [2]bool // auto-away per network
	enabled bool    // n1
	up      bool    // n1 connected
	slow    bool    // n1 is registering
	pre     bool    // draft/pre-away
	reply   bool    // the server knows away
}

var c16Names = []string{"a", "b", "o", "u"}

func (s c16State) key() string { return fmt.Sprintf("%+v", s) }

func (s c16State) away(net int) bool {
	l := s.cl[:2]
	if net == 1 {
		l = s.cl[2:3]
	}
	for _, v := range l {
		if v == "p" {
			return false
		}
	}
	return s.auto[net]
}

func c16Index(n string) int {
	for i, v := range c16Names {
		if v == n {
			return i
		}
	}
	panic(n)
}

func (s c16State) next(e string) c16State {
	f := strings.Fields(e)
	switch f[0] {
	case "come":
		s.cl[c16Index(f[1])] = "p"
	case "comeaway", "comestar", "away", "star":
		s.cl[c16Index(f[1])] = "a"
	case "comeback", "back", "empty":
		s.cl[c16Index(f[1])] = "p"
	case "quit", "cut":
		s.cl[c16Index(f[1])] = ""
	case "auto":
		s.auto[0] = f[1] == "on"
	case "disable":
		s.enabled, s.up = false, false
	case "enable":
		s.enabled, s.up = true, true
	case "refuse":
		s.up = false
	case "slow":
		s.up, s.slow = false, true
	case "welcome":
		s.up, s.slow = true, false
	case "accept":
		s.up = true
	}
	return s
}

func (s c16State) list(group string) []string {
	var l []string
	names := []string{"a", "b"}
	if group == "nets" {
		names = []string{"a", "o", "u"}
	}
	for _, n := range names {
		switch s.cl[c16Index(n)] {
		case "":
			l = append(l, "come "+n, "comeaway "+n, "comestar "+n, "comeback "+n)
		case "p":
			l = append(l, "away "+n, "star "+n, "quit "+n, "cut "+n, "back "+n, "empty "+n)
		case "a":
			l = append(l, "away "+n, "quit "+n, "cut "+n, "back "+n, "empty "+n)
		}
	}
	if s.slow {
		return append(l, "welcome")
	} else if s.up {
		l = append(l, "drop", "refuse", "slow")
	} else if s.enabled {
		l = append(l, "accept")
	}
	if s.auto[0] {
		l = append(l, "auto off")
	} else {
		l = append(l, "auto on")
	}
	if s.enabled {
		l = append(l, "disable")
	} else {
		l = append(l, "enable")
	}
	return append(l, "restart")
}

type c16World struct {
	c  *kit.Ctx
	w  *kit.World
	s  [2]*kit.UpServer
	st c16State
	cl [4]*kit.Client
	// as seen by the servers, per connection
	away [2]bool
	last [2]*kit.UpConn
	hold bool
}

func c16New(c *kit.Ctx, w *kit.World, st c16State) *c16World {
	x := &c16World{c: c, w: w, st: st}
	u := w.AddUser("alice", nil)
	for i := range x.s {
		i := i
		_, x.s[i] = w.AddNetwork(u, fmt.Sprintf("n%d", i+1), func(n *database.Network) { n.AutoAway = st.auto[i] })
		x.s[i].ISupport = []string{"soju.im/SAFERATE", "CASEMAPPING=ascii"}
		if st.pre {
			x.s[i].Caps = []string{"draft/pre-away"}
		}
		x.s[i].Hook = func(uc *kit.UpConn, m *ircMessage) bool {
			if i == 0 && x.hold && m.Command == "CAP" && m.Params[0] == "END" {
				return true
			}
			if m.Command != "AWAY" {
				return false
			}
			if x.last[i] != uc {
				x.last[i], x.away[i] = uc, false
			}
			away := len(m.Params) > 0 && m.Params[0] != ""
			c.Check(away != x.away[i], "redundant %s sent to server %s", m, uc.S.Name)
			x.away[i] = away
			c.Check(uc.Registered, "AWAY before the end of the registration")
			if st.reply {
				num := "305"
				if away {
					num = "306"
				}
				uc.Send(":n1.test " + num + " " + uc.Nick + " :away")
			}
			return true
		}
	}
	w.Start()
	for i, n := range c16Names {
		if st.cl[i] != "" {
			x.come(i, n, "")
		}
	}
	return x
}

func (x *c16World) come(i int, n string, line string) {
	cl := x.w.Dial(n)
	cl.Send("CAP LS 302")
	user := "alice"
	if n == "o" {
		user += "/n2"
	} else if n != "u" {
		user += "/n1"
	}
	if line != "" {
		cl.Send("CAP REQ draft/pre-away")
		cl.Send(line)
		if line == "AWAY" {
			cl.Send("AWAY :x")
			cl.Send("AWAY :")
		}
	}
	for _, l := range []string{"PASS alice", "NICK alice", "USER " + user + "@" + n + " 0 * :alice", "CAP END"} {
		cl.Send(l)
	}
	x.w.Settle()
	x.c.Check(cl.Registered(), "client %s is not registered", n)
	x.cl[i] = cl
	cl.Take()
}

func (x *c16World) exec(e string) bool {
	c := x.c
	c.Step(e)
	n := x.st.next(e)
	f := strings.Fields(e)
	i := -1
	if len(f) > 1 && f[0] != "auto" {
		i = c16Index(f[1])
	}
	ack := func(num string, l []*ircMessage) {
		got := ""
		for _, m := range l {
			if m.Command == "305" || m.Command == "306" {
				got += m.Command
			}
		}
		c.Check(got == num, "client %s gets reply %q to %s", f[1], got, f[0])
	}
	service := func(cmd string) {
		cl := x.w.Connect("serv", kit.ConnOpts{User: "alice"})
		cl.Take()
		t := kit.Service(cl.Do("PRIVMSG BouncerServ :" + cmd))
		c.Check(strings.Contains(strings.Join(t, "\n"), "updated network"), "%s: %s", cmd, kit.Q(t))
		cl.Quit()
	}
	switch f[0] {
	case "come":
		x.come(i, f[1], "")
	case "comeaway":
		x.come(i, f[1], "AWAY :brb")
	case "comestar":
		x.come(i, f[1], "AWAY *")
	case "comeback":
		x.come(i, f[1], "AWAY")
	case "away":
		ack("306", x.cl[i].Do("AWAY :lunch"))
	case "star":
		ack("306", x.cl[i].Do("AWAY *"))
	case "back":
		ack("305", x.cl[i].Do("AWAY"))
	case "empty":
		ack("305", x.cl[i].Do("AWAY :"))
	case "quit":
		x.cl[i].Quit()
	case "cut":
		x.cl[i].Conn().Hangup()
		x.w.Settle()
	case "drop":
		x.s[0].Drop()
		x.w.Settle()
	case "slow":
		x.hold = true
		x.s[0].Drop()
		x.w.Settle()
		x.hold = false
	case "welcome":
		x.s[0].Last().Welcome()
	case "refuse":
		x.s[0].Refuse = true
		x.s[0].Drop()
		x.w.Settle()
	case "accept":
		x.s[0].Refuse = false
		x.w.AwaitLive(x.s[0], 1500e9)
	case "auto":
		service("network update n1 -auto-away " + map[string]string{"on": "true", "off": "false"}[f[1]])
	case "disable", "enable":
		x.s[0].Refuse = false
		service("network update n1 -enabled " + map[string]string{"enable": "true", "disable": "false"}[f[0]])
	case "restart":
		x.w.Restart()
		for i := range n.cl {
			n.cl[i] = ""
		}
	}
	x.w.Settle()
	x.st = n
	for k, s := range x.s {
		uc := s.Live()
		if k == 0 && !n.up {
			c.Check(uc == nil, "connected to n1")
			continue
		}
		if !c.Check(uc != nil, "not connected to %s", s.Name) {
			return false
		}
		away := x.away[k] && x.last[k] == uc
		c.Check(away == n.away(k), "away on %s: %v, want %v", s.Name, away, n.away(k))
	}
	return !c.Bad()
}

func TestC16(t *testing.T) {
	r := kit.Start(t, "C16")
	next := func(s c16State, e string) c16State {
		s = s.next(e)
		if e == "restart" {
			s.cl = [4]string{}
		}
		return s
	}
	// all sequences, also those the reference state does not tell apart
	first := c16State{cl: [4]string{"p"}, auto: [2]bool{true, true}, enabled: true, up: true, reply: true}
	r.Tree("all", r.Pick(3, 5), func(seq []string) []string {
		s := first
		for _, e := range seq {
			s = next(s, e)
		}
		return s.list("clients")
	}, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			x := c16New(c, w, first)
			for _, e := range seq {
				if !x.exec(e) {
					return
				}
			}
		})
	})
	for _, v := range []struct {
		name  string
		q, th int
		st    c16State
	}{
		{"clients", 6, 12, c16State{cl: [4]string{"p"}, auto: [2]bool{true, true}, enabled: true, up: true, reply: true}},
		{"mute", 4, 12, c16State{cl: [4]string{"p"}, auto: [2]bool{true, true}, enabled: true, up: true}},
		{"pre", 5, 12, c16State{cl: [4]string{"", "p"}, auto: [2]bool{true, true}, enabled: true, up: true, pre: true, reply: true}},
		{"nets", 5, 12, c16State{cl: [4]string{"p", "", "p"}, auto: [2]bool{true, true}, enabled: true, up: true, reply: true}},
	} {
		depth := r.Pick(v.q, v.th)
		r.Bound("C16 %s: every reference state within %d events, every event from each", v.name, depth)
		kit.Graph(r, v.name, v.st, c16State.key, func(s c16State) []string { return s.list(v.name) }, next, depth,
			func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c16New(c, w, v.st)
					for _, e := range seq {
						if !x.exec(e) {
							return
						}
					}
				})
			})
	}
}
