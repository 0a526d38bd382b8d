package props

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"gopkg.in/irc.v4"
	"sojuverif/kit"
)

// C29: what a client asks of a network reaches that network's server as it
// was asked, and what the server says reaches the clients as it was said.

func c29Line(cmd string, params ...string) string {
	return (&ircMessage{Command: cmd, Params: params}).String()
}

// c29Tuples lists all the parameter lists up to a length; only the last may
// be empty, have spaces or start with a colon.
func c29Tuples(words, last []string, n int) [][]string {
	out := [][]string{{}}
	level := [][]string{{}}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, t := range level {
			for _, w := range last {
				out = append(out, append(append([]string(nil), t...), w))
			}
			for _, w := range words {
				next = append(next, append(append([]string(nil), t...), w))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

type c29World struct {
	c              *kit.Ctx
	w              *kit.World
	s1, s2         *kit.UpServer
	cl, other, two *kit.Client
	multi          *kit.Client
	hold           bool // the server does not answer
	rich           bool
}

var c29Caps = []string{"message-tags", "server-time", "batch", "echo-message"}

func c29New(c *kit.Ctx, w *kit.World, rich bool) *c29World {
	x := &c29World{c: c, w: w, rich: rich}
	u := w.AddUser("alice", nil)
	n1, s1 := w.AddNetwork(u, "n1", nil)
	n2, s2 := w.AddNetwork(u, "n2", nil)
	w.AddChannel(n1, "#c", nil)
	w.AddChannel(n2, "#c", nil)
	x.s1, x.s2 = s1, s2
	for _, s := range []*kit.UpServer{s1, s2} {
		if rich {
			s.Caps = append([]string{"labeled-response"}, c29Caps...)
		}
		s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
			if !uc.Registered || !x.hold && m.Command == "JOIN" || m.Command == "PING" || m.Command == "CAP" {
				return false
			}
			if !x.hold {
				last := "*"
				if len(m.Params) > 0 {
					last = m.Params[len(m.Params)-1]
				}
				switch m.Command {
				case "LIST":
					uc.Send(":n1.test 323 " + uc.Nick + " :End")
				case "WHO":
					uc.Send(c29Line(":n1.test 315", uc.Nick, m.Params[0], "End"))
				case "WHOIS":
					uc.Send(c29Line(":n1.test 318", uc.Nick, last, "End"))
				}
			}
			return true
		}
	}
	w.Start()
	caps := c29Caps
	x.cl = w.Connect("cl", kit.ConnOpts{User: "alice", Network: "n1", Client: "cl", Caps: caps})
	x.other = w.Connect("other", kit.ConnOpts{User: "alice", Network: "n1", Client: "other"})
	x.two = w.Connect("two", kit.ConnOpts{User: "alice", Network: "n2", Client: "two", Caps: caps})
	x.multi = w.Connect("multi", kit.ConnOpts{User: "alice", Client: "multi", Caps: caps})
	x.clear()
	return x
}

func (x *c29World) clear() {
	x.w.Settle()
	for _, cl := range []*kit.Client{x.cl, x.other, x.two, x.multi} {
		cl.Take()
	}
	x.s1.Take()
	x.s2.Take()
}

// c29Show writes a message without its labels.
func c29Show(m *ircMessage) string {
	s := m.Command
	for _, p := range m.Params {
		s += fmt.Sprintf(" %q", p)
	}
	var tags []string
	for k, v := range m.Tags {
		if k != "label" {
			tags = append(tags, fmt.Sprintf("%s=%q", k, v))
		}
	}
	if len(tags) > 0 {
		s += " " + strings.Join(kit.Sorted(tags), " ")
	}
	return s
}

func c29Want(tags string, cmd string, params ...string) string {
	m := &ircMessage{Command: cmd, Params: params}
	if tags != "" {
		m.Tags = irc.MustParseMessage("@" + tags + " X").Tags
	}
	return c29Show(m)
}

// upward checks what the servers got.
func (x *c29World) upward(what string, want []string) {
	var got []string
	for _, m := range x.s1.Take() {
		got = append(got, c29Show(m))
	}
	x.c.Check(kit.Eq(got, want), "the client sends %q: the server gets %s, want %s", what, kit.Q(got), kit.Q(want))
	got = nil
	for _, m := range x.s2.Take() {
		got = append(got, c29Show(m))
	}
	x.c.Check(len(got) == 0, "a client of n1 sends %q: the server of n2 gets %s", what, kit.Q(got))
}

// echo checks what the clients of the network are shown of a message.
func (x *c29World) echo(line string, shown bool, want []string) {
	if !shown {
		return // that is left to the server
	}
	var got []string
	for _, m := range x.cl.Take() {
		if m.Prefix == nil || m.Prefix.Name != "alice" {
			continue
		}
		if strings.EqualFold(m.Params[0], kit.ServiceNick) {
			continue
		}
		_, hasLabel := m.Tags["label"]
		x.c.Check(!hasLabel, "the client sends %q and is shown the label of %q", line, m)
		delete(m.Tags, "time")
		got = append(got, c29Show(m))
	}
	x.c.Check(kit.Eq(got, want), "the client sends %q and is shown %s, want %s", line, kit.Q(got), kit.Q(want))
	for _, m := range x.other.Take() {
		x.c.Check(len(m.Tags) == 0 && m.Prefix != nil && m.Prefix.Name == "alice", "the client sends %q, another one gets %q", line, m)
	}
}

// c29Oracle tells what the server of the client's network gets.
func c29Oracle(cmd string, p []string, self string, rich bool, tags string) []string {
	if !rich {
		tags = ""
	}
	same := []string{c29Want(tags, cmd, p...)}
	arg := func(i int) string {
		if i < len(p) {
			return p[i]
		}
		return ""
	}
	joined := func(n string) bool { return strings.EqualFold(n, "#c") }
	switch cmd {
	case "PING", "PONG", "CAP", "PASS", "USER", "BOUNCER", "MARKREAD", "READ", "CHATHISTORY", "SEARCH", "WEBPUSH", "AUTHENTICATE":
		return nil
	case "PRIVMSG", "NOTICE", "TAGMSG":
		n := 2
		if cmd == "TAGMSG" {
			n = 1
		}
		if len(p) < n {
			return nil
		}
		var out []string
		for _, t := range strings.Split(p[0], ",") {
			if strings.EqualFold(t, kit.ServiceNick) {
				continue
			}
			if cmd == "TAGMSG" {
				out = append(out, c29Want(tags, cmd, t))
			} else {
				out = append(out, c29Want(tags, cmd, t, p[1]))
			}
		}
		return out
	case "TOPIC":
		if len(p) == 0 || len(p) == 1 && joined(p[0]) {
			return nil
		}
		if len(p) > 2 {
			p = p[:2]
		}
		if len(p) == 2 {
			tags = ""
		}
		return []string{c29Want(tags, cmd, p...)}
	case "MODE":
		own := strings.EqualFold(arg(0), self)
		switch {
		case len(p) == 0, !own && !strings.HasPrefix(p[0], "#"):
			return nil
		case len(p) == 1 || p[1] == "":
			if own || joined(p[0]) {
				return nil
			}
			return same
		}
		if !own {
			tags = ""
		}
		return []string{c29Want(tags, cmd, p...)}
	case "NAMES":
		if len(p) == 0 {
			return nil
		}
		var out []string
		for _, n := range strings.Split(p[0], ",") {
			if !joined(n) {
				out = append(out, c29Want("", cmd, n))
			}
		}
		return out
	case "PART":
		if len(p) == 0 || strings.EqualFold(arg(1), "detach") {
			return nil
		}
		var out []string
		for _, n := range strings.Split(p[0], ",") {
			if arg(1) != "" {
				out = append(out, c29Want("", cmd, n, p[1]))
			} else {
				out = append(out, c29Want("", cmd, n))
			}
		}
		return out
	case "WHO", "WHOIS":
		if len(p) == 0 {
			return nil
		}
		mask := p[0]
		if cmd == "WHOIS" && len(p) > 1 {
			mask = p[1]
		}
		if strings.EqualFold(strings.SplitN(mask, ",", 2)[0], kit.ServiceNick) {
			return nil
		}
	}
	return same
}

var c29Generic = []string{"KICK", "INVITE", "WHOWAS", "LUSERS", "VERSION", "USERHOST", "OPER", "KNOCK", "REDACT", "METADATA", "X1"}

var c29Special = []string{"PRIVMSG", "NOTICE", "TAGMSG", "TOPIC", "MODE", "NAMES", "LIST", "WHO", "WHOIS", "PART"}

func c29Up(r *kit.Run) {
	words := []string{"#c", "#x", "bob", "#C,bob,#x", "alice", "bouncerserv", "+k"}
	last := append([]string{}, "", "a b", ":x", " a  b ", "é☃")
	n := r.Pick(3, 3)
	for v := 0; v < 6; v++ {
		rich, tagged := v%3 != 0, v > 2
		echo := v%3 == 1
		for _, cmd := range append(append([]string{}, c29Generic...), c29Special...) {
			tuples := c29Tuples(words, last, n)
			tuples = append(tuples, []string{"a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "a12", "a13", "a14", ""},
				[]string{"#x", "+ov-b", "bob", "eve", "x!*@*"}, []string{"#c", "+ov-b", "bob", "eve", "a b"}, []string{"alice", "+w", "x"}, []string{"bob", strings.Repeat("x", 300)}, []string{"$*", "all"}, []string{"$*.test,bob,$*", "all of you"})
			// everything in one run, as commands must not affect each other
			const chunk = 40
			for from := 0; from < len(tuples); from += chunk {
				to := from + chunk
				if to > len(tuples) {
					to = len(tuples)
				}
				some := tuples[from:to]
				r.World(fmt.Sprintf("up:%d,%s,%d", v, cmd, from), func(c *kit.Ctx, w *kit.World) {
					x := c29New(c, w, rich)
					if rich && !echo {
						for _, s := range []*kit.UpServer{x.s1, x.s2} {
							s.Caps = s.Caps[:len(s.Caps)-1]
							s.Drop()
						}
						x.clear()
					}
					for _, p := range some {
						if len(p) > 0 && p[0] == "" {
							if cmd != "X1" {
								continue // nothing sensible can be asked of nobody
							}
						}
						if cmd == "WHO" || cmd == "WHOIS" || cmd == "PART" {
							// who is known is told from memory
							if len(p) > 0 && (strings.EqualFold(p[0], "#c") || p[0] == "alice" || p[len(p)-1] == "alice") {
								continue
							}
						}
						tags := ""
						if tagged {
							tags = "+a=b\\sc;+d"
						}
						line := c29Line(cmd, p...)
						if tags != "" {
							line = "@" + tags + ";time=2001-01-01T00:00:00.000Z;account=root " + line
							if cmd != "PRIVMSG" && cmd != "NOTICE" && cmd != "TAGMSG" {
								line = "@" + tags + " " + c29Line(cmd, p...)
							}
						}
						x.cl.Send(line)
						w.Settle()
						want := c29Oracle(cmd, p, "alice", rich, tags)
						x.upward(line, want)
						if cmd == "PART" {
							x.cl.Do("JOIN #c,#x")
							w.Settle()
						}
						if cmd == "PRIVMSG" || cmd == "NOTICE" || cmd == "TAGMSG" {
							x.echo(line, !echo && (rich || cmd != "TAGMSG"), want)
							x.clear()
						}
						for _, cl := range []*kit.Client{x.other, x.two, x.multi} {
							got := kit.Lines(cl.Take())
							c.Check(len(got) == 0 || cmd == "PART" && cl == x.other, "client %s gets %s after another client sent %q", cl.Name, kit.Q(got), line)
						}
						x.clear()
						// not for those without a network
						x.multi.Send(line)
						w.Settle()
						c.Check(len(x.s1.Take())+len(x.s2.Take()) == 0, "%q of a client without network reaches a server", line)
						x.clear()
						if c.Bad() {
							return
						}
					}
				})
			}
		}
	}
	r.Bound("%d commands x all the parameter lists up to %d of %d words x tags x server capabilities", len(c29Generic)+len(c29Special), n, len(words)+len(last))
}

// c29Order: several requests, the server answering late or not at all.
func c29Order(r *kit.Run) {
	acts := []string{"LIST", "LIST >5", "WHO bob", "WHO #x %nu,1", "WHOIS bob", "WHOIS srv bob", "PRIVMSG #x :a b", "MODE #x +b", "X1 :a b", "other LIST <9", "other WHO eve", "two LIST", "answer", "drop"}
	for v := 0; v < 2; v++ {
		rich := v == 1
		r.Tree(fmt.Sprintf("order:%v", rich), r.Pick(3, 5), func(seq []string) []string {
			if len(seq) > 0 && seq[len(seq)-1] == "answer" {
				return acts[:len(acts)-2]
			}
			return acts
		}, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				x := c29New(c, w, rich)
				x.hold = true
				queue := map[string][]string{}
				two := false
				var open []string // commands the server is to answer
				for _, a := range seq {
					c.Step(a)
					var want, want2 []string
					put := func(line string) {
						m := irc.MustParseMessage(line)
						switch m.Command {
						case "LIST", "WHO", "WHOIS":
							queue[m.Command] = append(queue[m.Command], c29Show(m))
							if len(queue[m.Command]) == 1 {
								want = append(want, c29Show(m))
								open = append(open, m.Command)
							}
						default:
							want = append(want, c29Show(m))
						}
					}
					switch {
					case a == "drop":
						x.s1.Drop()
						w.AwaitLive(x.s1, 10*time.Minute)
						queue, open = map[string][]string{}, nil
						x.hold = false
						w.Settle()
						x.s1.Live().SendJoin("#c")
						x.hold = true
						for _, m := range x.s1.Take() {
							switch m.Command {
							case "LIST", "WHO", "WHOIS", "PRIVMSG", "X1":
								c.Violatef("the server gets %q again after a reconnect", m)
							}
						}
						w.Settle()
						x.s1.Take()
					case a == "answer":
						if len(open) == 0 {
							continue
						}
						q := open[0]
						open = open[1:]
						switch q {
						case "LIST":
							x.s1.Send(":n1.test 323 alice :End")
						case "WHO":
							x.s1.Send(":n1.test 315 alice " + strings.Trim(strings.Fields(queue[q][0])[1], `"`) + " :End")
						case "WHOIS":
							x.s1.Send(":n1.test 318 alice bob :End")
						}
						queue[q] = queue[q][1:]
						if len(queue[q]) > 0 {
							want = append(want, queue[q][0])
							open = append(open, q)
						}
					case strings.HasPrefix(a, "two "):
						x.two.Send(a[4:])
						if !two {
							two = true
							want2 = append(want2, c29Show(irc.MustParseMessage(a[4:])))
						}
					case strings.HasPrefix(a, "other "):
						x.other.Send(a[6:])
						put(a[6:])
					default:
						x.cl.Send(a)
						put(a)
					}
					w.Settle()
					for i, s := range []*kit.UpServer{x.s1, x.s2} {
						var got []string
						for _, m := range s.Take() {
							got = append(got, c29Show(m))
						}
						wl := want
						if i == 1 {
							wl = want2
						}
						c.Check(kit.Eq(got, wl), "server %s gets %s, want %s", s.Name, kit.Q(got), kit.Q(wl))
					}
					if c.Bad() {
						return
					}
				}
			})
		})
	}
}

// c29Consumed are the numerics with a meaning to the bouncer.
var c29Consumed = map[int]string{
	1: "welcome", 2: "", 3: "", 4: "", 5: "isupport", 221: "modes", 305: "away", 306: "away",
	311: "whois", 312: "whois", 313: "whois", 317: "whois", 319: "whois", 318: "whois", 276: "whois", 307: "whois", 320: "whois", 330: "whois", 338: "whois", 378: "whois", 379: "whois", 671: "whois",
	315: "who", 352: "who", 354: "who", 321: "list", 322: "list", 323: "list",
	324: "chan", 329: "chan", 331: "chan", 332: "chan", 333: "chan", 353: "chan", 366: "chan",
	396: "host", 730: "monitor", 731: "monitor", 734: "monitor",
	900: "sasl", 901: "sasl", 902: "sasl", 903: "sasl", 904: "sasl", 905: "sasl", 906: "sasl", 907: "sasl",
	422: "motd", 376: "motd",
}

func c29Down(r *kit.Run) {
	shapes := [][]string{
		{"x", "y", "text"}, {"x", "y", "a b"}, {"#c", "bob", ""}, {"#x", "-:)", " a  b "}, {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "é☃"},
	}
	short := [][]string{{}, {"only"}, {"a b"}, {""}, {"x", "a b"}, {"#c", "t"}}
	prefixes := []string{":n1.test ", ":bob!b@h ", ":bob ", ""}
	for v := 0; v < 2; v++ {
		rich := v == 1
		for base := 0; base < 1000; base += 50 {
			for pi, prefix := range prefixes {
				r.World(fmt.Sprintf("down:%v,%d,%d", rich, base, pi), func(c *kit.Ctx, w *kit.World) {
					x := c29New(c, w, rich)
					for n := base; n < base+50; n++ {
						if _, ok := c29Consumed[n]; ok || n == 0 {
							continue
						}
						all := shapes
						switch n {
						case 401, 402, 400, 421, 461, 263, 341:
						default:
							all = append(append([][]string{}, shapes...), short...)
						}
						for _, p := range all {
							x.down(prefix, fmt.Sprintf("%03d", n), append([]string{"alice"}, p...))
						}
						if c.Bad() {
							return
						}
					}
				})
			}
		}
		for _, cmd := range []string{"WALLOPS", "REDACT", "RENAME", "METADATA", "WARN", "NOTE", "KNOCK", "X1"} {
			for pi, prefix := range prefixes {
				r.World(fmt.Sprintf("down:%v,%s,%d", rich, cmd, pi), func(c *kit.Ctx, w *kit.World) {
					x := c29New(c, w, rich)
					for _, p := range append(append([][]string{}, shapes...), short...) {
						x.down(prefix, cmd, p)
					}
				})
			}
		}
	}
	r.Bound("every numeric without a meaning to the bouncer, and 8 other commands, x %d parameter lists x %d sources x server capabilities", len(shapes)+len(short), len(prefixes))
}

func (x *c29World) down(prefix, cmd string, p []string) {
	c := x.c
	line := prefix + c29Line(cmd, p...)
	if x.rich {
		line = "@+a=b\\sc;msgid=m1 " + line
	}
	x.s1.Do(line)
	for _, cl := range []*kit.Client{x.cl, x.other} {
		var got []string
		for _, m := range cl.Take() {
			s := ""
			if m.Prefix != nil {
				s = ":" + m.Prefix.String() + " "
			}
			delete(m.Tags, "time")
			got = append(got, s+c29Show(m))
		}
		tags := ""
		if x.rich && cl == x.cl {
			tags = "+a=b\\sc;msgid=m1"
		}
		source := prefix
		if prefix == "" {
			source = ":n1.test " // it is the server's
		}
		want := source + c29Want(tags, cmd, p...)
		c.Check(len(got) == 1 && got[0] == want, "the server sends %q: client %s gets %s, want %q", line, cl.Name, kit.Q(got), want)
	}
	for _, cl := range []*kit.Client{x.two, x.multi} {
		got := kit.Lines(cl.Take())
		c.Check(len(got) == 0, "the server of n1 sends %q: client %s gets %s", line, cl.Name, kit.Q(got))
	}
	x.upward(line, nil)
}

// c29Offline: nothing asked while a network is away is kept for later.
func c29Offline(r *kit.Run) {
	for _, cmd := range append(append([]string{}, c29Generic...), c29Special...) {
		for _, p := range [][]string{{}, {"bob"}, {"#x", "a b"}, {"#c", "+o", "bob"}, {"alice", "+i"}, {"#c,bob", "text"}} {
			r.World(fmt.Sprintf("offline:%s,%v", cmd, p), func(c *kit.Ctx, w *kit.World) {
				x := c29New(c, w, false)
				x.s1.Refuse = true
				x.s1.Drop()
				x.clear()
				line := c29Line(cmd, p...)
				got := x.cl.Do(line)
				local := cmd == "MODE" && len(p) == 0
				c.Check(len(got) > 0 || local, "%q is not answered while the network is away", line)
				for _, m := range got {
					c.Check(m.Command != cmd, "%q: the client gets %q while the network is away", line, m)
				}
				x.s1.Refuse = false
				w.AwaitLive(x.s1, 10*time.Minute)
				w.Settle()
				for _, s := range []*kit.UpServer{x.s1, x.s2} {
					for _, m := range s.Take() {
						switch m.Command {
						case "CAP", "NICK", "USER", "JOIN", "PING", "PONG":
						case "MODE":
							c.Check(len(m.Params) == 1 && cmd != "X", "the server gets %q", m)
						default:
							c.Violatef("the server gets %q which was asked while it was away", m)
						}
					}
				}
			})
		}
	}
}

func TestC29(t *testing.T) {
	r := kit.Start(t, "C29")
	c29Up(r)
	c29Order(r)
	c29Down(r)
	c29Offline(r)
}
