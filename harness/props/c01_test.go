package props

import (
	"fmt"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/database"
	"sojuverif/kit"
)

// C01: messages reach exactly the right clients, once, in order.

type c01Client struct {
	name, user, net string
	echo, tags      bool
	on              bool
	cl              *kit.Client
	want            []string
}

type c01World struct {
	w       *kit.World
	c       *kit.Ctx
	variant string
	clients map[string]*c01Client
	srv     map[string]*kit.UpServer
	wantUp  map[string][]string
	n       int
	up      map[string]bool
}

var c01Order = []string{"a1", "a2", "a3", "b1", "a0"}

func c01Setup(c *kit.Ctx, w *kit.World, variant, store string) *c01World {
	x := &c01World{w: w, c: c, variant: variant, clients: map[string]*c01Client{}, srv: map[string]*kit.UpServer{}, wantUp: map[string][]string{}, up: map[string]bool{}}
	w.Cfg.MsgStoreDriver = store
	ua := w.AddUser("alice", nil)
	ub := w.AddUser("bruno", nil)
	add := func(u *database.User, name string) {
		n, s := w.AddNetwork(u, name, nil)
		w.AddChannel(n, "#c", nil)
		s.ISupport = append(s.ISupport, "STATUSMSG=@+")
		switch variant {
		case "tags":
			s.Caps = []string{"message-tags", "server-time"}
		case "label":
			s.Caps = []string{"message-tags", "server-time", "labeled-response", "batch", "echo-message"}
		}
		x.srv[name] = s
		x.up[name] = true
	}
	add(ua, "n1")
	add(ua, "n2")
	add(ub, "n3")
	w.Start()
	for _, d := range []c01Client{
		{name: "a1", user: "alice", net: "n1"},
		{name: "a2", user: "alice", net: "n1", echo: true, tags: true},
		{name: "a3", user: "alice", net: "n2", echo: true},
		{name: "b1", user: "bruno", net: "n3", tags: true},
		{name: "a0", user: "alice", net: "", tags: true},
	} {
		d := d
		x.clients[d.name] = &d
		x.connect(&d)
	}
	for _, s := range x.srv {
		s.Take()
	}
	return x
}

func (x *c01World) connect(d *c01Client) {
	var caps []string
	if d.echo {
		caps = append(caps, "echo-message")
	}
	if d.tags && x.variant != "plain" {
		caps = append(caps, "message-tags")
	}
	if d.net == "" {
		caps = append(caps, "soju.im/bouncer-networks")
	}
	if d.tags && d.net != "" {
		caps = append(caps, "server-time")
	}
	d.cl = x.w.Connect(d.name, kit.ConnOpts{User: d.user, Network: d.net, Client: d.name, Caps: caps})
	d.on = true
	if !d.cl.Registered() {
		x.c.Violatef("client %s could not register", d.name)
	}
	d.cl.Take()
	d.want = nil
}

// expectAll: a message from upstream on a network, to all clients of it.
func (x *c01World) expectAll(net, cmd, text string, except string) {
	for _, d := range x.clients {
		if !d.on || d.net != net || d.name == except {
			continue
		}
		if cmd == "TAGMSG" && !(d.tags && x.variant != "plain") {
			continue
		}
		d.want = append(d.want, text)
	}
}

func (x *c01World) apply(a string) {
	x.n++
	id := fmt.Sprintf("m%d", x.n)
	f := strings.Split(a, "-")
	switch f[0] {
	case "up": // up-<net>-<kind>
		net := f[1]
		var cmd, from, target, text string
		switch f[2] {
		case "chan":
			cmd, from, target, text = "PRIVMSG", "bob", "#c", id+" hi: there"
		case "CHAN":
			cmd, from, target, text = "NOTICE", "Bob", "#C", ":"+id
		case "status":
			cmd, from, target, text = "PRIVMSG", "bob", "@#c", id
		case "dm":
			cmd, from, target, text = "PRIVMSG", "bob", x.srv[net].Live().Nick, id+" "
		case "self":
			cmd, from, target, text = "PRIVMSG", x.srv[net].Live().Nick, "bob", id
		case "server":
			cmd, from, target, text = "NOTICE", x.srv[net].Name, "*", id
		case "tagmsg":
			cmd, from, target, text = "TAGMSG", "bob", "#c", ""
		}
		line := ":" + from + "!u@h " + cmd + " " + target
		if f[2] == "server" {
			line = ":" + from + " " + cmd + " " + target
		}
		exp := cmd + " " + from + " " + target
		if cmd != "TAGMSG" {
			line += " :" + text
			exp += " " + text
		} else {
			line = "@+x=" + id + " " + line
		}
		x.srv[net].Send(line)
		x.expectAll(net, cmd, exp, "")
	case "say": // say-<client>-<kind>
		d := x.clients[f[1]]
		if !d.on {
			return
		}
		var targets string
		cmd := "PRIVMSG"
		switch f[2] {
		case "chan":
			targets = "#c"
		case "dm":
			targets = "Bob"
		case "multi":
			targets = "#c,bob"
		case "notice":
			targets, cmd = "#c", "NOTICE"
		case "tagmsg":
			targets, cmd = "#c", "TAGMSG"
		}
		line := cmd + " " + targets
		if cmd != "TAGMSG" {
			line += " :" + id + " x"
		} else {
			line = "@+x=1 " + line
		}
		d.cl.Send(line)
		if d.net == "" {
			return // refused: no upstream
		}
		for _, t := range strings.Split(targets, ",") {
			up := cmd + " " + t
			exp := cmd + " " + x.srv[d.net].Live().Nick + " " + t
			if cmd != "TAGMSG" {
				up += " " + id + " x"
				exp += " " + id + " x"
			}
			x.wantUp[d.net] = append(x.wantUp[d.net], up)
			except := ""
			if !d.echo {
				except = d.name
			}
			x.expectAll(d.net, cmd, exp, except)
		}
	case "toggle":
		d := x.clients[f[1]]
		if d.on {
			d.cl.Quit()
			d.on = false
		} else {
			x.connect(d)
		}
	case "drop":
		x.srv[f[1]].Drop()
		if x.srv[f[1]].Live() == nil {
			x.c.Violatef("bouncer did not reconnect to %s", f[1])
		}
		x.srv[f[1]].Take()
	default:
		panic("bad action " + a)
	}
}

func (x *c01World) check() {
	x.w.Settle()
	for _, n := range c01Order {
		d := x.clients[n]
		if !d.on {
			continue
		}
		got := kit.Texts(d.cl.Take())
		x.c.Check(kit.Eq(got, d.want), "client %s received %s, want %s", n, kit.Q(got), kit.Q(d.want))
		x.c.Check(!d.cl.Closed(), "client %s was disconnected", n)
		d.want = nil
	}
	for _, net := range []string{"n1", "n2", "n3"} {
		var got []string
		for _, m := range x.srv[net].Take() {
			switch m.Command {
			case "PRIVMSG", "NOTICE", "TAGMSG":
				got = append(got, m.Command+" "+strings.Join(m.Params, " "))
			}
		}
		x.c.Check(kit.Eq(got, x.wantUp[net]), "server %s received %s, want %s", net, kit.Q(got), kit.Q(x.wantUp[net]))
		x.wantUp[net] = nil
	}
}

// c01Kinds delivers every kind of message on its own, in pairs of senders, as
// the server may write it.
func c01Kinds(r *kit.Run) {
	from := []string{"bob!u@h", "BOB!u@h", "zed!u@h", "alice!a@h", "Alice!a@h", "n1.test", "other.test", "bruno!b@h", "bob"}
	to := []string{"#c", "#C", "@#c", "+#c", "@+#c", "+@#c", "alice", "ALICE", "*", "$*", "$$n1.test", "bob", "#other"}
	text := []string{"hi", ":x", "", " ", "\x01ACTION waves\x01", "\x01VERSION\x01", "\x01PING 1\x01", "\x01", "-> a : b", "h\xc3\xa9\xff", strings.Repeat("x", 400), "$a", "alice: hi", "BouncerServ"}
	tags := []string{"", "@batch=b ", "@+draft/channel-context=#c ", "@msgid=m;time=2000-01-01T00:00:00.000Z;account=acc "}
	n := 0
	for _, variant := range []string{"plain", "tags", "label"} {
		for _, store := range []string{"", "memory"} {
			for fi, f := range from {
				for ti, to := range to {
					key := fmt.Sprintf("kinds/%s/%s/%d/%d", variant, store, fi, ti)
					r.World(key, func(c *kit.Ctx, w *kit.World) {
						x := c01Setup(c, w, variant, store)
						uc := x.srv["n1"].Live()
						for _, cmd := range []string{"PRIVMSG", "NOTICE", "TAGMSG"} {
							for gi, g := range tags {
								for xi, text := range text {
									if gi == 1 && variant != "label" || variant == "plain" && (gi > 0 || cmd == "TAGMSG") || cmd == "TAGMSG" && xi > 0 || gi > 1 && xi > 4 {
										continue
									}
									if f == "n1.test" && to == "alice" && cmd != "NOTICE" {
										continue
									}
									line := g + ":" + f + " " + cmd + " " + to
									exp := cmd + " " + strings.SplitN(f, "!", 2)[0] + " " + to
									if cmd != "TAGMSG" {
										line += " :" + text
										exp += " " + text
									} else if g == "" {
										line = "@+x=y " + line
									}
									if gi == 1 {
										uc.Send(":n1.test BATCH +b example.org/x")
									}
									uc.Send(line)
									if gi == 1 {
										uc.Send(":n1.test BATCH -b")
									}
									x.expectAll("n1", cmd, exp, "")
									c.Step(line)
									x.check()
									n++
									if c.Bad() {
										return
									}
								}
							}
						}
					})
				}
			}
		}
	}
	r.Bound("kinds: %d senders x %d targets x PRIVMSG/NOTICE/TAGMSG x %d sets of tags x %d texts", len(from), len(to), len(tags), len(text))
}

func TestC01(t *testing.T) {
	r := kit.Start(t, "C01")
	c01Kinds(r)
	c01Caps(r)
	c01Say(r)
	acts := []string{
		"up-n1-chan", "up-n1-CHAN", "up-n1-status", "up-n1-dm", "up-n1-self", "up-n1-server", "up-n1-tagmsg",
		"up-n2-chan", "up-n3-dm",
		"say-a1-chan", "say-a1-dm", "say-a1-multi", "say-a2-chan", "say-a2-multi", "say-a2-notice", "say-a2-tagmsg", "say-a3-chan", "say-b1-dm", "say-a0-chan",
		"toggle-a2", "drop-n1",
	}
	for _, variant := range []string{"plain", "tags", "label"} {
		var as []string
		for _, a := range acts {
			if variant == "plain" && strings.HasSuffix(a, "tagmsg") {
				continue
			}
			as = append(as, a)
		}
		for _, store := range []string{"none", "memory", "db"} {
			depth := r.Pick(2, 3)
			if store == "none" {
				depth = r.Pick(3, 4)
			}
			g := variant + "/" + store
			r.Tree(g, depth, func(seq []string) []string {
				var out []string
				for _, a := range as {
					if store != "none" && strings.HasPrefix(a, "toggle") {
						continue // backlog is C02's subject
					}
					out = append(out, a)
				}
				return out
			}, func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					st := store
					if st == "none" {
						st = ""
					}
					x := c01Setup(c, w, variant, st)
					for _, a := range seq {
						c.Step(a)
						x.apply(a)
						x.check()
						if c.Bad() {
							return
						}
					}
				})
			})
		}
		// Bursts: everything is in flight at once.
		var bs []string
		for _, a := range as {
			if strings.HasPrefix(a, "up-n1") || strings.HasPrefix(a, "say-a1") || strings.HasPrefix(a, "say-a2") {
				bs = append(bs, a)
			}
		}
		r.Tree(variant+"/burst", r.Pick(2, 3), func(seq []string) []string { return bs }, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				x := c01Setup(c, w, variant, "memory")
				// three rounds of the sequence, unsettled
				for i := 0; i < 3; i++ {
					for _, a := range seq {
						x.apply(a)
					}
				}
				x.checkBurst()
			})
		})
	}
}

// checkBurst: every message exactly once, and in order per source.
func (x *c01World) checkBurst() {
	x.w.Settle()
	src := func(s string) string { return strings.SplitN(s, " ", 3)[1] }
	for _, n := range c01Order {
		d := x.clients[n]
		got := kit.Texts(d.cl.Take())
		x.c.Check(kit.EqSet(got, d.want), "client %s received %s, want (any order across sources) %s", n, kit.Q(got), kit.Q(d.want))
		// messages by other users come from the server in one stream
		filter := func(l []string) []string {
			var out []string
			for _, s := range l {
				if src(s) != "alice" && src(s) != "bruno" {
					out = append(out, s)
				}
			}
			return out
		}
		g, wnt := filter(got), filter(d.want)
		x.c.Check(kit.Eq(g, wnt), "client %s received messages out of order: %s, want %s", n, kit.Q(g), kit.Q(wnt))
		d.want = nil
	}
	for _, net := range []string{"n1", "n2", "n3"} {
		var got []string
		for _, m := range x.srv[net].Take() {
			switch m.Command {
			case "PRIVMSG", "NOTICE", "TAGMSG":
				got = append(got, m.Command+" "+strings.Join(m.Params, " "))
			}
		}
		x.c.Check(kit.EqSet(got, x.wantUp[net]), "server %s received %s, want %s", net, kit.Q(got), kit.Q(x.wantUp[net]))
	}
}
