package props

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"sojuverif/kit"
)

// C05: saved channels and keys survive reconnects and restarts.

type c05Chan struct {
	saved    bool
	name     string
	key      string
	detached bool
	joined   bool
}

type c05Model struct {
	ch     [2]c05Chan // #a, #b
	online bool
	reject bool // the server refuses joins to #b
}

func (s c05Model) key() string { return fmt.Sprintf("%+v", s) }

func c05Index(name string) int {
	if strings.EqualFold(name, "#a") {
		return 0
	}
	return 1
}

func c05Enabled(s c05Model) []string {
	l := []string{
		"join-#a", "join-#a-k1", "join-#A-k2", "join-#b", "join-#a,#b-k1", "join-#b,#A-k3,k4", "join-nochan", "join-#b,,not,#^x,#A-k5,k6,k7,k8,k9",
		"part-#a", "part-#A", "part-#b", "part-#a,#b",
		"svccreate-#a", "svccreate-#b", "svcdelete-#a", "svcdelete-#b", "svcattach-#a", "svcdetach-#a",
		"restart", "netupd",
	}
	if s.ch[0].saved || s.ch[0].joined {
		l = append(l, "detach-#a")
	}
	if s.ch[1].saved || s.ch[1].joined {
		l = append(l, "detach-#b")
	}
	if s.online {
		l = append(l, "drop", "off", "fjoin-#b", "reject", "invite-#a", "invite-#b")
		if s.ch[0].joined {
			l = append(l, "kick-#a", "fpart-#a")
		}
		if s.ch[1].joined {
			l = append(l, "kick-#b")
		}
	} else {
		l = append(l, "on")
	}
	return l
}

// c05Step is the reference: it returns the next state and the JOIN and PART
// lines the server must see.
func c05Step(s c05Model, a string) (c05Model, []string) {
	f := strings.Split(a, "-")
	var up []string
	tryJoin := func(i int, name, key string) {
		line := "JOIN " + name
		if key != "" {
			line += " " + key
		}
		up = append(up, line)
		if !(i == 1 && s.reject) {
			s.ch[i].joined = true
		}
	}
	connect := func() {
		for i := range s.ch {
			s.ch[i].joined = false
			if s.ch[i].saved {
				tryJoin(i, s.ch[i].name, s.ch[i].key)
			}
		}
	}
	switch f[0] {
	case "join":
		if !s.online || f[1] == "nochan" {
			break
		}
		var keys []string
		if len(f) > 2 {
			keys = strings.Split(f[2], ",")
		}
		for k, name := range strings.Split(f[1], ",") {
			if !strings.HasPrefix(name, "#") || strings.Contains(name, "^") {
				continue // its key is skipped, too
			}
			i := c05Index(name)
			key := ""
			if k < len(keys) {
				key = keys[k]
			}
			if !s.ch[i].joined {
				tryJoin(i, name, key)
			}
			if !s.ch[i].saved {
				s.ch[i].saved, s.ch[i].name, s.ch[i].key = true, name, key
			} else if key != "" {
				s.ch[i].key = key
			}
			s.ch[i].detached = false
		}
	case "part":
		if !s.online {
			break
		}
		for _, name := range strings.Split(f[1], ",") {
			i := c05Index(name)
			up = append(up, "PART "+name)
			s.ch[i] = c05Chan{}
		}
	case "detach":
		if !s.online {
			break
		}
		i := c05Index(f[1])
		if !s.ch[i].saved {
			s.ch[i].saved, s.ch[i].name, s.ch[i].key = true, f[1], ""
		}
		s.ch[i].detached = true
	case "svccreate":
		i := c05Index(f[1])
		if s.ch[i].saved {
			break
		}
		s.ch[i].saved, s.ch[i].name, s.ch[i].key, s.ch[i].detached = true, f[1], "", false
		if s.online {
			tryJoin(i, f[1], "")
		}
	case "svcdelete":
		i := c05Index(f[1])
		if !s.ch[i].saved {
			break
		}
		if s.ch[i].joined {
			up = append(up, "PART "+f[1])
		}
		s.ch[i] = c05Chan{}
	case "svcattach":
		if i := c05Index(f[1]); s.ch[i].saved {
			s.ch[i].detached = false
		}
	case "svcdetach":
		if i := c05Index(f[1]); s.ch[i].saved {
			s.ch[i].detached = true
		}
	case "restart", "netupd":
		if s.online {
			connect()
		}
	case "drop":
		connect()
	case "off":
		s.online = false
		s.ch[0].joined, s.ch[1].joined = false, false
	case "on":
		s.online = true
		connect()
	case "kick", "fpart":
		s.ch[c05Index(f[1])].joined = false
	case "fjoin":
		s.ch[c05Index(f[1])].joined = true
	case "reject":
		s.reject = !s.reject
	case "invite":
		i := c05Index(f[1])
		if s.ch[i].saved && !s.ch[i].joined {
			tryJoin(i, s.ch[i].name, s.ch[i].key)
		}
	default:
		panic(a)
	}
	return s, up
}

// expandJoins splits JOIN/PART lines into one entry per channel.
func expandJoins(msgs []*ircMessage) []string {
	var out []string
	for _, m := range msgs {
		switch m.Command {
		case "JOIN":
			var keys []string
			if len(m.Params) > 1 {
				keys = strings.Split(m.Params[1], ",")
			}
			for i, n := range strings.Split(m.Params[0], ",") {
				l := "JOIN " + n
				if i < len(keys) && keys[i] != "" {
					l += " " + keys[i]
				}
				out = append(out, l)
			}
		case "PART":
			for _, n := range strings.Split(m.Params[0], ",") {
				out = append(out, "PART "+n)
			}
		}
	}
	return out
}

func c05Exec(r *kit.Run, key string, seq []string, store string) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		w.Cfg.MsgStoreDriver = store
		u := w.AddUser("alice", nil)
		n, srv := w.AddNetwork(u, "n1", nil)
		st := c05Model{online: true}
		srv.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
			if m.Command != "JOIN" || !st.reject {
				return false
			}
			for _, name := range strings.Split(m.Params[0], ",") {
				if strings.EqualFold(name, "#b") {
					uc.Send(":s 475 alice " + name + " :Cannot join channel (+k)")
				} else {
					uc.SendJoin(name)
				}
			}
			return true
		}
		w.Start()
		var cl *kit.Client
		nupd := 0
		connect := func() {
			cl = w.Connect("c", kit.ConnOpts{User: "alice", Network: "n1"})
			cl.Take()
		}
		connect()
		srv.Take()
		for _, a := range seq {
			c.Step(a)
			next, want := c05Step(st, a)
			f := strings.Split(a, "-")
			svc := func(s string) { cl.Do("PRIVMSG BouncerServ :" + s) }
			switch f[0] {
			case "join":
				if f[1] == "nochan" {
					cl.Do("JOIN notachannel")
					cl.Do("JOIN")
					cl.Do("JOIN 0")
				} else if len(f) > 2 {
					cl.Do("JOIN " + strings.ReplaceAll(f[1], "^", "\a") + " " + f[2])
				} else {
					cl.Do("JOIN " + f[1])
				}
			case "part":
				cl.Do("PART " + f[1] + " :bye")
			case "detach":
				cl.Do("PART " + f[1] + " :Detach")
			case "svccreate":
				svc("channel create " + f[1])
			case "svcdelete":
				svc("channel delete " + f[1])
			case "svcattach":
				svc("channel update " + f[1] + " -detached false")
			case "svcdetach":
				svc("channel update " + f[1] + " -detached true")
			case "restart":
				w.Restart()
				connect()
			case "netupd":
				nupd++
				svc(fmt.Sprintf("network update n1 -username u%d", nupd))
				if st.online {
					w.AwaitLive(srv, 15*time.Minute)
				}
			case "drop":
				srv.Drop()
			case "off":
				srv.Refuse = true
				srv.Drop()
			case "on":
				srv.Refuse = false
				w.AwaitLive(srv, 15*time.Minute)
			case "kick":
				srv.Do(":op!o@o KICK " + f[1] + " alice :out")
			case "fpart":
				srv.Do(":alice!alice@host PART " + f[1])
			case "fjoin":
				srv.Live().SendJoin(f[1])
			case "reject":
			case "invite":
				srv.Do(":op!o@o INVITE alice " + f[1])
			}
			st = next
			w.Settle()
			got := expandJoins(srv.Take())
			c.Check(kit.EqSet(got, want), "the server received %s, want %s", kit.Q(got), kit.Q(want))
			// stored and listed channels
			l, err := w.DB.ListChannels(context.Background(), n.ID)
			if err != nil {
				c.Violatef("ListChannels: %v", err)
				return
			}
			var db, exp, list, explist []string
			for _, ch := range l {
				db = append(db, fmt.Sprintf("%s key=%q detached=%v", ch.Name, ch.Key, ch.Detached))
			}
			for _, ch := range st.ch {
				if !ch.saved {
					continue
				}
				exp = append(exp, fmt.Sprintf("%s key=%q detached=%v", ch.name, ch.key, ch.detached))
				status := "parted"
				if !st.online {
					status = "disconnected"
				} else if ch.joined {
					status = "joined"
				}
				if ch.detached {
					status += ", detached"
				}
				explist = append(explist, fmt.Sprintf("%s [%s]", ch.name, status))
			}
			sort.Strings(db)
			sort.Strings(exp)
			c.Check(kit.Eq(db, exp), "stored channels %s, want %s", kit.Q(db), kit.Q(exp))
			cl.Take()
			list = kit.Service(cl.Do("PRIVMSG BouncerServ :channel status"))
			if len(explist) == 0 {
				explist = []string{"No channel configured."}
			}
			c.Check(kit.EqSet(list, explist), "channel status lists %s, want %s", kit.Q(list), kit.Q(explist))
			if c.Bad() {
				return
			}
		}
	})
}

func TestC05(t *testing.T) {
	r := kit.Start(t, "C05")
	init := c05Model{online: true}
	next := func(s c05Model, a string) c05Model { s, _ = c05Step(s, a); return s }
	epi := func(s c05Model) []string {
		if s.online {
			return []string{"drop", "restart"}
		}
		return []string{"on", "restart"}
	}
	kit.GraphEpi(r, "graph", init, c05Model.key, c05Enabled, next, r.Pick(4, 7), epi, func(key string, seq []string) { c05Exec(r, key, seq, "") })
	r.Tree("tree", r.Pick(3, 4), func(seq []string) []string {
		s := init
		for _, a := range seq {
			s = next(s, a)
		}
		return c05Enabled(s)
	}, func(key string, seq []string) { c05Exec(r, key, seq, "memory") })
	// Many channels: the rejoin is split over several lines.
	for _, n := range []int{1, 2, 30, 60, 100} {
		for _, klen := range []int{0, 1, 30} {
			for keyed := 0; keyed < 3; keyed++ { // none, all, every other
				key := fmt.Sprintf("many:%d,%d,%d", n, klen, keyed)
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					u := w.AddUser("alice", nil)
					_, srv := w.AddNetwork(u, "n1", nil)
					w.Start()
					cl := w.Connect("c", kit.ConnOpts{User: "alice", Network: "n1"})
					var want []string
					for i := 0; i < n; i++ {
						l := fmt.Sprintf("JOIN #channel-%d", i)
						if keyed == 1 || keyed == 2 && i%2 == 1 {
							if klen > 0 {
								l += " " + strings.Repeat("k", klen) + fmt.Sprint(i)
							}
						}
						want = append(want, l)
						cl.Do(l)
					}
					got := expandJoins(srv.Take())
					c.Check(kit.EqSet(got, want), "joins sent %s, want %s", kit.Q(got), kit.Q(want))
					for k := 0; k < 2; k++ {
						if k == 0 {
							srv.Drop()
						} else {
							w.Restart()
						}
						w.Sleep(time.Minute) // the output rate is limited until the server lifts it
						msgs := srv.Take()
						got := expandJoins(msgs)
						c.Check(kit.EqSet(got, want), "after reconnecting the bouncer joins %s, want %s", kit.Q(got), kit.Q(want))
						for _, m := range msgs {
							c.Check(len(m.String()) <= 510, "line too long (%d bytes): %q", len(m.String()), m)
						}
					}
				})
			}
		}
	}
}
