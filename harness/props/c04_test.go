package props

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
	"sojuverif/kit"
)

// C04: detached channels.

type c04Cfg struct {
	relay, reattach, deton database.MessageFilter
	after                  bool // detach-after 10 minutes
	store                  string
	seedDetached           bool
}

func (g c04Cfg) String() string {
	return fmt.Sprintf("relay=%d reattach=%d deton=%d after=%v store=%s", g.relay, g.reattach, g.deton, g.after, g.store)
}

type c04Model struct {
	g        c04Cfg
	detached bool
	joined   bool
	missed   string // kinds of the messages since the detach: p, h, n, o with a number
	yon      bool
	ymissed  string
	timer    int // minutes since the last reset, -1 when not armed
	n        int // number of messages so far
}

func (s c04Model) key() string {
	n := s
	n.n = 0
	strip := func(l string) string {
		var b strings.Builder
		for _, f := range strings.Fields(l) {
			b.WriteByte(f[0])
		}
		return b.String()
	}
	n.missed, n.ymissed = strip(s.missed), strip(s.ymissed)
	return fmt.Sprintf("%+v", n)
}

// c04Obs is what the model expects at each observer.
type c04Obs struct {
	x, y, up []string
	looseX   bool // extra JOINs are tolerated
}

func c04Enabled(s c04Model) []string {
	l := []string{"det", "sdet", "att"}
	if s.joined {
		l = append(l, "satt", "p", "h", "n", "o", "kick")
	}
	if s.g.after {
		l = append(l, "i6", "upd")
	}
	l = append(l, "drop")
	if s.yon {
		l = append(l, "yq")
	} else {
		l = append(l, "yc")
	}
	if s.g.store != "memory" {
		l = append(l, "restart")
	}
	return l
}

func c04Text(k string) (cmd, from, text string) {
	switch k[0] {
	case 'p':
		return "PRIVMSG", "bob", "text " + k
	case 'h':
		return "PRIVMSG", "bob", "hey alice: " + k
	case 'n':
		return "NOTICE", "bob", "alice, " + k
	default:
		return "PRIVMSG", "alice", "own " + k
	}
}

func c04IsHL(k string) bool { return k[0] == 'h' || k[0] == 'n' }

func (s c04Model) relays(k string) bool {
	return s.g.relay == database.FilterMessage || s.g.relay != database.FilterNone && c04IsHL(k)
}

func c04Notice(k string) string {
	_, from, text := c04Text(k)
	if c04IsHL(k) {
		return fmt.Sprintf("svc highlight in #a: <%s> %s", from, text)
	}
	return fmt.Sprintf("svc message in #a: <%s> %s", from, text)
}

func c04Line(k string) string {
	cmd, from, text := c04Text(k)
	return cmd + " " + from + " #a " + text
}

func c04Step(s c04Model, a string) (c04Model, c04Obs) {
	var o c04Obs
	both := func(l string) {
		o.x = append(o.x, l)
		if s.yon {
			o.y = append(o.y, l)
		}
	}
	arm := func() {
		if s.g.after && s.joined && !s.detached {
			s.timer = 0
		}
	}
	detach := func() {
		if s.detached {
			return
		}
		s.detached, s.missed, s.timer = true, "", -1
		both("PART #a")
	}
	attach := func() {
		if !s.detached {
			return
		}
		s.detached = false
		both("JOIN #a")
		if s.joined {
			both("names")
		}
		for _, k := range strings.Fields(s.missed) {
			both(c04Line(k))
		}
		s.missed = ""
		arm()
	}
	rejoin := func() {
		s.joined = true
		o.up = append(o.up, "JOIN #a")
		if !s.detached {
			both("JOIN #a")
			both("names")
		}
		s.timer = -1
		arm()
	}
	switch a {
	case "det", "sdet":
		detach()
		if a == "sdet" { // any update re-arms the timer
			arm()
		}
	case "att":
		was := s.joined
		attach()
		if !was {
			rejoin()
			o.looseX = true
		}
	case "satt":
		attach()
		arm()
	case "upd":
		arm()
	case "p", "h", "n":
		s.n++
		k := fmt.Sprintf("%s%d", a, s.n)
		if s.detached && s.relays(k) {
			both(c04Notice(k))
		}
		if s.detached && (s.g.reattach == database.FilterMessage || s.g.reattach == database.FilterHighlight && c04IsHL(k)) {
			attach()
		}
		if s.g.deton == database.FilterDefault || s.g.deton == database.FilterMessage || s.g.deton == database.FilterHighlight && c04IsHL(k) {
			arm()
		}
		if s.detached {
			s.missed += k + " "
		} else {
			both(c04Line(k))
		}
		if !s.yon {
			s.ymissed += k + " "
		}
	case "o":
		s.n++
		k := fmt.Sprintf("o%d", s.n)
		_, _, text := c04Text(k)
		o.up = append(o.up, "PRIVMSG #a "+text)
		if s.detached {
			s.missed += k + " "
		} else {
			both(c04Line(k))
		}
		if !s.yon {
			s.ymissed += k + " "
		}
		arm()
	case "kick":
		s.joined, s.timer = false, -1
		if !s.detached {
			both("KICK #a alice out")
		}
	case "i6":
		if s.timer >= 0 {
			s.timer += 6
			if s.timer >= 10 {
				detach()
			}
		}
	case "drop":
		s.joined = false
		rejoin()
	case "yq":
		s.yon = false
	case "yc":
		s.yon = true
		if s.joined && !s.detached {
			o.y = append(o.y, "JOIN #a", "names")
		}
		for _, k := range strings.Fields(s.ymissed) {
			if !s.detached {
				o.y = append(o.y, c04Line(k))
			} else if s.relays(k) {
				o.y = append(o.y, c04Notice(k))
			}
		}
		s.ymissed = ""
	case "restart":
		s.joined = false
		rejoin()
	default:
		panic(a)
	}
	return s, o
}

// c04View reduces what a client received to the observed events.
func c04View(msgs []*ircMessage) []string {
	var out []string
	for _, m := range msgs {
		from := ""
		if m.Prefix != nil {
			from = m.Prefix.Name
		}
		switch m.Command {
		case "JOIN", "PART":
			out = append(out, m.Command+" "+m.Params[0])
		case "KICK":
			out = append(out, m.Command+" "+strings.Join(m.Params, " "))
		case "353":
			if m.Params[3] == "alice bob" || m.Params[3] == "bob alice" {
				out = append(out, "names")
			} else {
				out = append(out, "names?"+m.Params[3])
			}
		case "PRIVMSG", "NOTICE":
			if m.Params[0] == kit.ServiceNick {
				continue
			}
			if from == kit.ServiceNick {
				if t := m.Params[1]; strings.Contains(t, " in ") && strings.Contains(t, ": <") {
					out = append(out, "svc "+t)
				}
				continue
			}
			out = append(out, m.Command+" "+from+" "+strings.Join(m.Params, " "))
		}
	}
	return out
}

func c04Exec(r *kit.Run, key string, seq []string, g c04Cfg) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		w.Cfg.MsgStoreDriver = g.store
		if g.store == "fs" {
			w.Cfg.MsgStorePath = w.TempDir()
		}
		u := w.AddUser("alice", nil)
		n, srv := w.AddNetwork(u, "n1", nil)
		w.AddChannel(n, "#a", func(ch *database.Channel) {
			ch.RelayDetached, ch.ReattachOn, ch.DetachOn = g.relay, g.reattach, g.deton
			if g.after {
				ch.DetachAfter = 10 * time.Minute
			}
		})
		srv.Chan("#a").Members["bob"] = ""
		w.Start()
		var x, y *kit.Client
		connX := func() {
			x = w.Connect("x", kit.ConnOpts{User: "alice", Network: "n1", Client: "x", Caps: []string{"echo-message", "server-time", "batch", "message-tags"}})
		}
		connY := func() { y = w.Connect("y", kit.ConnOpts{User: "alice", Network: "n1", Client: "y"}) }
		connX()
		connY()
		srv.Do(":bob!b@b PRIVMSG #a :first")
		w.SleepCoarse(1500 * time.Millisecond)
		x.Take()
		y.Take()
		srv.Take()
		st := c04Model{g: g, joined: true, yon: true, timer: -1}
		if g.after {
			st.timer = 0
		}
		for _, a := range seq {
			c.Step(a)
			next, want := c04Step(st, a)
			svc := func(s string) { x.Send("PRIVMSG BouncerServ :" + s) }
			switch a {
			case "det":
				if st.n%2 == 0 {
					x.Send("PART #a :detach")
				} else {
					x.Send("PART #A :Detach")
				}
			case "sdet":
				svc("channel update #A -detached true")
			case "satt":
				svc("channel update #a -detached false")
			case "upd":
				svc("channel update #a -detach-after 10m")
			case "att":
				if st.n%2 == 0 || !st.joined {
					x.Send("JOIN #a")
				} else {
					x.Send("JOIN #A")
				}
			case "p", "h", "n":
				cmd, _, text := c04Text(fmt.Sprintf("%s%d", a, st.n+1))
				srv.Send(":bob!b@b " + cmd + " #a :" + text)
			case "o":
				_, _, text := c04Text(fmt.Sprintf("o%d", st.n+1))
				x.Send("PRIVMSG #a :" + text)
			case "kick":
				delete(srv.Chan("#a").Members, "alice")
				srv.Send(":bob!b@b KICK #a alice :out")
			case "i6":
				for i := 0; i < 6; i++ {
					w.SleepCoarse(time.Minute)
				}
			case "drop":
				srv.Drop()
			case "yq":
				y.Quit()
			case "yc":
				connY()
			case "restart":
				w.Restart()
				connX()
				if st.yon {
					connY()
				}
				// A newly connected client sees the state, not the transition.
				want.x, want.y = nil, nil
				if !next.detached {
					want.x = []string{"JOIN #a", "names"}
					if next.yon {
						want.y = want.x
					}
				}
			}
			w.Settle()
			w.SleepCoarse(1500 * time.Millisecond)
			st = next
			var upl []string
			for _, m := range srv.Take() {
				switch m.Command {
				case "JOIN", "PART", "PRIVMSG", "NOTICE":
					upl = append(upl, m.Command+" "+strings.Join(m.Params, " "))
				}
			}
			c.Check(kit.Eq(upl, want.up), "%v: the server received %s, want %s", g, kit.Q(upl), kit.Q(want.up))
			dedup := func(l []string) []string {
				if !want.looseX {
					return l
				}
				var out []string
				seen := map[string]bool{}
				for _, s := range l {
					if (s == "JOIN #a" || s == "names") && seen[s] {
						continue
					}
					seen[s] = true
					out = append(out, s)
				}
				return kit.Sorted(out)
			}
			gx := dedup(c04View(x.Take()))
			c.Check(kit.Eq(gx, dedup(want.x)), "%v: client x received %s, want %s", g, kit.Q(gx), kit.Q(dedup(want.x)))
			if y != nil {
				gy := dedup(c04View(y.Take()))
				c.Check(kit.Eq(gy, dedup(want.y)), "%v: client y received %s, want %s", g, kit.Q(gy), kit.Q(dedup(want.y)))
			}
			l, err := w.DB.ListChannels(context.Background(), n.ID)
			if err != nil || len(l) != 1 {
				c.Violatef("%v: stored channels: %v %v", g, l, err)
				return
			}
			ch := l[0]
			c.Check(ch.Detached == st.detached && ch.RelayDetached == g.relay && ch.ReattachOn == g.reattach && ch.DetachOn == g.deton,
				"%v: stored channel record is %+v, want detached=%v and unchanged filters", g, ch, st.detached)
			if c.Bad() {
				return
			}
		}
	})
}

func TestC04(t *testing.T) {
	r := kit.Start(t, "C04")
	next := func(s c04Model, a string) c04Model { s, _ = c04Step(s, a); return s }
	init := func(g c04Cfg) c04Model {
		m := c04Model{g: g, joined: true, yon: true, timer: -1}
		if g.after {
			m.timer = 0
		}
		return m
	}
	// Afterwards: one round of messages with a client away, attach, idle.
	epi := func(s c04Model) []string {
		var out []string
		do := func(a string) { out = append(out, a); s = next(s, a) }
		if !s.joined {
			do("att")
		}
		do("p")
		if s.yon {
			do("yq")
		}
		do("h")
		do("yc")
		do("att")
		if s.g.after {
			do("i6")
			do("i6")
			do("n")
		}
		return out
	}
	graph := func(g c04Cfg, depth int) {
		kit.GraphEpi(r, fmt.Sprintf("graph%d ", depth)+g.String(), init(g), c04Model.key, c04Enabled, next, depth, epi, func(key string, seq []string) { c04Exec(r, key, seq, g) })
	}
	tree := func(g c04Cfg, depth int) {
		r.Tree("tree "+g.String(), depth, func(seq []string) []string {
			s := init(g)
			for _, a := range seq {
				s = next(s, a)
			}
			return c04Enabled(s)
		}, func(key string, seq []string) { c04Exec(r, key, seq, g) })
	}
	const fd, fn, fh, fm = database.FilterDefault, database.FilterNone, database.FilterHighlight, database.FilterMessage
	// Every filter setting, each event in each phase.
	for _, relay := range []database.MessageFilter{fd, fn, fh, fm} {
		for _, re := range []database.MessageFilter{fd, fn, fh, fm} {
			for _, on := range []database.MessageFilter{fd, fn, fh, fm} {
				g := c04Cfg{relay: relay, reattach: re, deton: on, after: true, store: "memory"}
				graph(g, 2)
				for i, seq := range []string{
					"det p h n o yq p h yc att", "det yq p h n yc o att", "i6 p i6 i6", "i6 h i6 i6", "i6 n i6 i6", "i6 o i6 i6",
					"i6 i6 p h p att i6 i6", "det h i6 i6 p", "det p i6 i6 h", "sdet drop p h att", "det kick att i6 i6", "kick i6 i6 att p",
				} {
					s := strings.Fields(seq)
					c04Exec(r, fmt.Sprintf("script %v %d", g, i), s, g)
				}
			}
		}
	}
	r.Bound("scripts: 12 fixed histories x all 64 filter settings")
	graph(c04Cfg{store: "memory"}, r.Pick(5, 7))
	graph(c04Cfg{store: "memory", relay: fm, reattach: fn, deton: fh, after: true}, r.Pick(5, 7))
	graph(c04Cfg{store: "memory", relay: fh, reattach: fh, deton: fm, after: true}, r.Pick(5, 7))
	graph(c04Cfg{store: "memory", relay: fn, reattach: fm, deton: fn, after: true}, r.Pick(5, 7))
	graph(c04Cfg{store: "fs", relay: fm, reattach: fh, deton: fh}, r.Pick(5, 7))
	graph(c04Cfg{store: "db", relay: fd, reattach: fn, deton: fd, after: true}, r.Pick(5, 7))
	tree(c04Cfg{store: "db", relay: fm, reattach: fh}, r.Pick(4, 5))
	tree(c04Cfg{store: "fs", relay: fh, reattach: fn, deton: fh, after: true}, r.Pick(3, 4))
	c04Traffic(r)
	// Channels whose member list is still pending.
	for _, relay := range []database.MessageFilter{fd, fm} {
		for _, a := range []string{"att", "satt", "p", "h", "det", "yc", "drop"} {
			for _, b := range []string{"", "att", "satt", "det", "p", "h", "yc"} {
				for det := 0; det < 2; det++ {
					c04Pending(r, fmt.Sprintf("pending:%d,%d,%s,%s", relay, det, a, b), relay, det == 1, a, b)
				}
			}
		}
	}
	// Channels which are joined but not saved.
	for _, b := range []string{"", "p", "h", "drop", "p,att", "att", "restart"} {
		b := b
		r.World("unsaved:"+b, func(c *kit.Ctx, w *kit.World) {
			w.Cfg.MsgStoreDriver = "db"
			u := w.AddUser("alice", nil)
			_, srv := w.AddNetwork(u, "n1", nil)
			srv.Chan("#a").Members["bob"] = ""
			w.Start()
			x := w.Connect("x", kit.ConnOpts{User: "alice", Network: "n1", Client: "x"})
			srv.Live().SendJoin("#a")
			w.Settle()
			x.Take()
			x.Send("PART #a :detach")
			w.Settle()
			got := c04View(x.Take())
			c.Check(kit.Eq(got, []string{"PART #a"}), "detaching an unsaved channel: the client received %s", kit.Q(got))
			var want []string
			got = nil
			for _, a := range strings.Split(b, ",") {
				w.SleepCoarse(1500 * time.Millisecond)
				switch a {
				case "p":
					srv.Do(":bob!b@b PRIVMSG #a :text")
				case "h":
					srv.Do(":bob!b@b PRIVMSG #a :hey alice")
					want = append(want, "svc highlight in #a: <bob> hey alice")
				case "drop":
					srv.Drop()
				case "restart":
					w.Restart()
					x = w.Connect("x", kit.ConnOpts{User: "alice", Network: "n1", Client: "x"})
				case "att":
					x.Do("JOIN #a")
					x.All = nil
				}
			}
			w.SleepCoarse(1500 * time.Millisecond)
			if !strings.Contains(b, "att") {
				got = append(got, c04View(x.Take())...)
				c.Check(kit.Eq(got, want), "after detaching an unsaved channel: the client received %s, want %s", kit.Q(got), kit.Q(want))
			}
			l, err := w.DB.ListChannels(context.Background(), 1)
			c.Check(err == nil && len(l) == 1 && l[0].Name == "#a" && l[0].Detached == !strings.Contains(b, "att"), "stored channels: %+v %v", l, err)
		})
	}
}

// c04Traffic has things other than messages happen in a channel: clients are
// told unless it is detached, and get the outcome when it is attached.
func c04Traffic(r *kit.Run) {
	lines := map[string][]string{
		"mode":   {":bob!b@b MODE #A +m"},
		"op":     {":bob!b@b MODE #a +o alice"},
		"topic":  {":bob!b@b TOPIC #A :new"},
		"join":   {":eve!e@e JOIN #A"},
		"part":   {":eve!e@e JOIN #a", ":eve!e@e PART #A"},
		"kick":   {":eve!e@e JOIN #a", ":bob!b@b KICK #A eve"},
		"tagmsg": {"@+x=y :bob!b@b TAGMSG #A"},
		"names":  {":n1.test 353 alice = #A :alice @bob", ":n1.test 366 alice #A :End"},
		"modes":  {":n1.test 324 alice #a +nt", ":n1.test 329 alice #a 7"},
		"who":    {":n1.test 332 alice #a :other", ":n1.test 333 alice #A bob 7"},
		"quit":   {":eve!e@e JOIN #a", ":eve!e@e QUIT :bye"},
		"nick":   {":bob!b@b NICK bobby"},
		// to the operators only; and by another client of the user
		"status": {":bob!b@b NOTICE @#A :psst", ":bob!b@b PRIVMSG +@#a :psst"},
		"said":   {">PRIVMSG #A :mine", ">NOTICE @#a :mine", ">@+x=y TAGMSG @#A"},
	}
	acts := append(kit.Sorted(kit.Keys(lines)), "drop", "det", "att")
	r.Tree("traffic", r.Pick(3, 4), func([]string) []string { return acts }, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("alice", nil)
			n, srv := w.AddNetwork(u, "n1", nil)
			w.AddChannel(n, "#a", func(ch *database.Channel) { ch.Detached, ch.RelayDetached = true, database.FilterMessage })
			srv.Caps = []string{"message-tags", "server-time"}
			srv.ISupport = append(srv.ISupport, "STATUSMSG=@+")
			srv.Chan("#a").Members["bob"] = ""
			w.Start()
			x := w.Connect("x", kit.ConnOpts{User: "alice", Network: "n1", Client: "x", Caps: []string{"message-tags"}})
			y := w.Connect("y", kit.ConnOpts{User: "alice", Network: "n1", Client: "y", Caps: []string{"message-tags"}})
			x.Take()
			det := true
			bob, topic, bobPre, alicePre := "bob", "", "", ""
			eve := false
			for _, a := range seq {
				c.Step(a)
				switch a {
				case "det":
					x.Do("PART #A :detach")
					x.Take()
					det = true
					continue
				case "drop":
					srv.Drop()
					x.Take()
					bob, topic, bobPre, alicePre, eve = "bob", "", "", "", false
					continue
				case "att":
					x.Take()
					if !det {
						continue
					}
					det = false
					x.Send("JOIN #A")
					w.Settle()
					var names []string
					got := ""
					for _, m := range x.Take() {
						switch m.Command {
						case "353":
							names = append(names, strings.Fields(m.Params[3])...)
						case "332":
							got += m.Params[2]
						case "JOIN", "366", "333":
						default:
							c.Violatef("on attach the client receives %q", m)
						}
					}
					want := []string{alicePre + "alice", bobPre + bob}
					if eve {
						want = append(want, "eve")
					}
					c.Check(kit.EqSet(names, want), "on attach the client is told of the members %s, want %s", kit.Q(names), kit.Q(want))
					c.Check(got == topic, "on attach the client is told the topic %q, want %q", got, topic)
					continue
				}
				if a == "names" && (bob != "bob" || eve) {
					continue // outdated
				}
				if eve && strings.Contains(lines[a][0], "eve!e@e JOIN") {
					srv.Do(":eve!e@e PART #a")
					x.Take()
				}
				for _, l := range lines[a] {
					if l, ok := strings.CutPrefix(l, ">"); ok {
						y.Do(l)
						continue
					}
					srv.Do(strings.ReplaceAll(l, ":bob!", ":"+bob+"!"))
				}
				switch a {
				case "join":
					eve = true
				case "part", "kick", "quit":
					eve = false
				case "nick":
					if bob == "bob" {
						bob = "bobby"
					}
				case "op":
					alicePre = "@"
				case "names":
					alicePre, bobPre = "", "@"
				case "topic":
					topic = "new"
				case "who":
					topic = "other"
				}
				told := 0
				for _, m := range x.Take() {
					about := false
					for _, p := range m.Params {
						about = about || strings.EqualFold(strings.TrimLeft(p, "@+"), "#a")
					}
					c.Check(!about || !det, "while the channel is detached the client receives %q", m)
					if about {
						told++
					}
				}
				switch a {
				case "mode", "op", "topic", "join", "part", "kick", "tagmsg", "status", "said":
					c.Check(det || told == len(lines[a]), "while the channel is attached the client is told %d of %s", told, kit.Q(lines[a]))
				}
				if c.Bad() {
					return
				}
			}
		})
	})
}

func c04Pending(r *kit.Run, key string, relay database.MessageFilter, det bool, acts ...string) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		u := w.AddUser("alice", nil)
		n, srv := w.AddNetwork(u, "n1", nil)
		w.AddChannel(n, "#a", func(ch *database.Channel) {
			ch.Detached, ch.RelayDetached, ch.ReattachOn = det, relay, database.FilterHighlight
		})
		srv.Chan("#a").Members["bob"] = ""
		srv.HoldNames = true
		w.Start()
		x := w.Connect("x", kit.ConnOpts{User: "alice", Network: "n1", Client: "x"})
		var ys []*kit.Client
		for _, a := range acts {
			switch a {
			case "att":
				x.Do("JOIN #a")
				det = false
			case "satt":
				x.Do("PRIVMSG BouncerServ :channel update #a -detached false")
				det = false
			case "det":
				x.Do("PART #a :detach")
				det = true
			case "p":
				srv.Do(":bob!b@b PRIVMSG #a :text")
			case "h":
				srv.Do(":bob!b@b PRIVMSG #a :hey alice")
				det = false
			case "yc":
				ys = append(ys, w.Connect("y", kit.ConnOpts{User: "alice", Network: "n1", Client: fmt.Sprintf("y%d", len(ys))}))
			case "drop":
				srv.Drop()
			}
		}
		srv.Live().SendNames("#a")
		w.Settle()
		// Each client must now be in the channel if and only if it is attached.
		for _, cl := range append([]*kit.Client{x}, ys...) {
			in, names := false, false
			for _, l := range c04View(cl.All) {
				switch {
				case l == "JOIN #a":
					in = true
				case l == "PART #a":
					in, names = false, false
				case l == "names":
					names = true
				case strings.HasPrefix(l, "names?"):
					c.Violatef("client %s got a wrong member list: %s", cl.Name, l)
				}
			}
			c.Check(in == !det, "client %s: in the channel: %v, want %v (received %s)", cl.Name, in, !det, kit.Q(c04View(cl.All)))
			c.Check(names || det, "client %s did not get the member list (received %s)", cl.Name, kit.Q(c04View(cl.All)))
		}
		cl := w.Connect("z", kit.ConnOpts{User: "alice", Network: "n1", Client: "z"})
		v := c04View(cl.Take())
		want := []string{"JOIN #a", "names"}
		if det {
			want = nil
		}
		c.Check(kit.Eq(v, want), "a late client received %s, want %s", kit.Q(v), kit.Q(want))
	})
}
