package props

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"sojuverif/kit"
)

// C28: a nickname that was in use is regained behind the clients' back.

type c28State struct {
	monitor bool
	labels  bool
	nick    string
	want    string
	queue   []string // nickname requests the server has not answered: "bouncer alice", "a alice", "b bob"
	trying  bool     // the nickname was in use at registration and we had no other since
	told    string   // what MONITOR said of alice
}

func c28Next(s c28State, e string) c28State {
	s.queue = append([]string(nil), s.queue...)
	f := strings.Fields(e)
	change := func(n string) {
		s.nick = n
		if n == s.want {
			s.trying = false
		}
	}
	try := func() {
		if s.trying && s.nick != s.want {
			s.queue = append(s.queue, "bouncer "+s.want)
		}
	}
	has := false
	for _, q := range s.queue {
		has = has || strings.HasPrefix(q, "bouncer")
	}
	switch f[0] {
	case "tick":
		if !s.monitor && !has {
			try()
		}
	case "free":
		s.told = "free"
		try()
	case "busy":
		s.told = "busy"
	case "ans":
		q := strings.Fields(s.queue[0])
		s.queue = s.queue[1:]
		if f[1] == "ok" && q[1] != s.nick {
			change(q[1])
		}
	case "ask":
		s.want = f[2]
		if f[2] == "bob" {
			// another nickname than the one in use is wanted now
			s.trying = s.trying && s.monitor
		}
		s.queue = append(s.queue, f[1]+" "+f[2])
	case "srv":
		change(f[1])
	case "drop":
		s.queue, s.told = nil, ""
		s.nick, s.trying = s.want, false
		if f[1] == "taken" {
			s.nick, s.trying, s.told = s.want+"_", true, "busy"
			if !s.monitor {
				try()
			}
		}
	}
	return s
}

func c28Enabled(s c28State) []string {
	var l []string
	if len(s.queue) > 0 {
		q := strings.Fields(s.queue[0])
		if q[1] == s.nick {
			l = append(l, "ans none")
		} else {
			l = append(l, "ans ok")
			if q[1] != "bob" {
				l = append(l, "ans 433", "ans 437")
				if q[0] == "bouncer" {
					l = append(l, "ans 432", "ans 436")
				}
			}
		}
	}
	bob := false
	asked := false
	for _, q := range s.queue {
		bob = bob || q == "b bob"
		asked = asked || q[0] == 'a'
	}
	// whose the answers are is only clear with labels, or with the bouncer's
	// request first
	quiet := !s.labels && len(s.queue) > 0
	// the wanted nickname changes at once, and back only after the answer
	if !asked && !bob && s.nick != "alice" && len(s.queue) < 3 {
		l = append(l, "ask a alice")
	}
	if s.nick != "bob" && s.want != "bob" && len(s.queue) < 3 {
		l = append(l, "ask b bob")
	}
	l = append(l, "srv f1", "drop taken", "drop ok")
	if s.monitor {
		if s.told == "busy" && !quiet && !strings.Contains(strings.Join(s.queue, ","), "bouncer") && s.want == "alice" {
			l = append(l, "free")
		}
		if s.told == "free" {
			l = append(l, "busy")
		}
	}
	if !quiet || s.queue[0][0] == 'b' && len(s.queue) == 1 {
		l = append(l, "tick")
	}
	return l
}

type c28World struct {
	c       *kit.Ctx
	w       *kit.World
	s       *kit.UpServer
	st      c28State
	labels  bool
	a, b    *kit.Client
	taken   bool
	pending []*ircMessage
}

func c28New(c *kit.Ctx, w *kit.World, monitor, labels bool) *c28World {
	x := &c28World{c: c, w: w, labels: labels, taken: true}
	u := w.AddUser("alice", nil)
	_, s := w.AddNetwork(u, "n1", nil)
	x.s = s
	if labels {
		s.Caps = []string{"labeled-response", "batch", "message-tags"}
	}
	if monitor {
		s.ISupport = append(s.ISupport, "MONITOR=10")
	}
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		switch {
		case m.Command == "NICK" && !uc.Registered:
			if x.taken {
				x.taken = false
				uc.Send(":n1.test 433 * " + m.Params[0] + " :in use")
				return true
			}
		case m.Command == "NICK":
			x.pending = append(x.pending, m)
			return true
		case m.Command == "MONITOR":
			if m.Params[0] == "+" {
				for _, n := range strings.Split(m.Params[1], ",") {
					uc.Send(":n1.test 730 " + uc.Nick + " :" + n + "!u@h")
				}
			}
			return true
		}
		return false
	}
	w.Start()
	x.a = w.Connect("a", kit.ConnOpts{User: "alice", Network: "n1", Client: "a", Nick: "alice"})
	x.b = w.Connect("b", kit.ConnOpts{User: "alice", Network: "n1", Client: "b", Nick: "alice"})
	init := c28State{monitor: monitor, labels: labels, want: "alice", nick: "alice"}
	x.st = c28Next(init, "drop taken")
	w.Settle()
	x.a.Take()
	x.b.Take()
	x.sent()
	return x
}

// sent checks the requests the server has got.
func (x *c28World) sent() {
	var got, want []string
	for _, m := range x.pending {
		got = append(got, m.Params[0])
	}
	for _, q := range x.st.queue {
		want = append(want, strings.Fields(q)[1])
	}
	x.c.Check(kit.Eq(got, want), "the server has to answer NICK for %s, want %s", kit.Q(got), kit.Q(want))
}

func (x *c28World) exec(e string) bool {
	c, w := x.c, x.w
	c.Step(e)
	f := strings.Fields(e)
	prev := x.st
	n := c28Next(prev, e)
	x.st = n
	errors := map[string]int{}
	switch f[0] {
	case "tick":
		for i := 0; i < 14; i++ {
			w.SleepCoarse(50 * time.Second)
		}
	case "free", "busy":
		num := "731"
		if f[0] == "busy" {
			num = "730"
		}
		x.s.Live().Send(":n1.test " + num + " " + prev.nick + " :alice")
	case "ans":
		m := x.pending[0]
		x.pending = x.pending[1:]
		uc := x.s.Live()
		tag := ""
		if l, ok := m.Tags["label"]; ok {
			tag = "@label=" + l + " "
		}
		q := strings.Fields(prev.queue[0])
		c.Check((tag != "") == (x.labels && q[0] != "bouncer"), "the request for %s by %s has label %q", q[1], q[0], tag)
		switch f[1] {
		case "ok":
			uc.Send(tag + ":" + uc.Mask() + " NICK " + m.Params[0])
			uc.Nick = m.Params[0]
		case "none":
			if tag != "" {
				uc.Send(tag + ":n1.test ACK")
			}
		default:
			uc.Send(tag + ":n1.test " + f[1] + " " + uc.Nick + " " + m.Params[0] + " :refused")
			if q[0] != "bouncer" {
				errors[q[0]]++
				if !x.labels {
					errors["a"], errors["b"] = 1, 1
				}
			}
		}
	case "ask":
		cl := x.a
		if f[1] == "b" {
			cl = x.b
		}
		cl.Send("NICK " + f[2])
	case "srv":
		uc := x.s.Live()
		uc.Send(":" + uc.Mask() + " NICK " + f[1])
		uc.Nick = f[1]
	case "drop":
		x.taken = f[1] == "taken"
		x.pending = nil
		x.s.Drop()
		w.Settle()
		if x.s.Live() == nil {
			w.AwaitLive(x.s, 10*time.Minute)
		}
	}
	w.Settle()
	x.sent()
	for _, cl := range []*kit.Client{x.a, x.b} {
		got := 0
		for _, m := range kit.Select(cl.Take(), "432", "433", "436", "437") {
			got++
			c.Check(m.Params[1] == "alice", "client %s gets %v", cl.Name, m)
		}
		c.Check(got == errors[cl.Name], "client %s is told %d times that a nickname is refused, want %d", cl.Name, got, errors[cl.Name])
		t := c13Read(c, cl)
		c.Check(t.nick == n.nick, "client %s believes its nickname is %s, want %s", cl.Name, t.nick, n.nick)
		c.Check(!cl.Closed(), "the connection of %s was closed", cl.Name)
	}
	return !c.Bad()
}

func TestC28(t *testing.T) {
	r := kit.Start(t, "C28")
	for v := 0; v < 4; v++ {
		monitor, labels := v&1 != 0, v&2 != 0
		depth := r.Pick(5, 7)
		if labels {
			depth--
		}
		r.Bound("C28 (MONITOR: %v, labels: %v): every sequence of %d events", monitor, labels, depth)
		r.Tree(fmt.Sprintf("%v-%v", monitor, labels), depth, func(seq []string) []string {
			s := c28Next(c28State{monitor: monitor, labels: labels, want: "alice", nick: "alice"}, "drop taken")
			for _, e := range seq {
				s = c28Next(s, e)
			}
			return c28Enabled(s)
		}, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				x := c28New(c, w, monitor, labels)
				for _, e := range seq {
					if !x.exec(e) {
						return
					}
				}
			})
		})
	}
}
