package props

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/xirc"
	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C22: names are compared with the server's case mapping, everywhere.

// c22Fold is the reference: the classes of characters each mapping identifies.
func c22Fold(mapping, s string) string {
	pairs := ""
	switch mapping {
	case "ascii":
	case "rfc1459-strict":
		pairs = "[{]}\\|"
	default: // rfc1459, and what is assumed without a (known) announcement
		pairs = "[{]}\\|^~"
	}
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
		for j := 0; j < len(pairs); j += 2 {
			if c == pairs[j] {
				b[i] = pairs[j+1]
			}
		}
	}
	return string(b)
}

func c22Same(mapping, a, b string) bool { return c22Fold(mapping, a) == c22Fold(mapping, b) }

var c22Mappings = []string{"ascii", "rfc1459", "rfc1459-strict"}

// c22Entry is an entry of the reference map.
type c22Entry struct{ name, val string }

func c22RefSet(mapping string, l []c22Entry, name, val string) []c22Entry {
	for i := range l {
		if c22Same(mapping, l[i].name, name) {
			l = append([]c22Entry(nil), l...)
			l[i].val = val
			return l
		}
	}
	return append(append([]c22Entry(nil), l...), c22Entry{name, val})
}

func c22MapScenario(c *kit.Ctx, seq []string) {
	m := xirc.NewCaseMappingMap[string](xirc.ParseCaseMapping("ascii"))
	mapping := "ascii"
	var ref []c22Entry
	names := []string{"a", "A", "[", "{", "^", "~", "|"}
	n := 0
	for _, a := range seq {
		c.Step(a)
		op, name := a[:1], a[1:]
		switch op {
		case "s":
			n++
			v := fmt.Sprintf("v%d", n)
			m.Set(name, v)
			ref = c22RefSet(mapping, ref, name, v)
		case "d":
			m.Del(name)
			for i := range ref {
				if c22Same(mapping, ref[i].name, name) {
					ref = append(append([]c22Entry(nil), ref[:i]...), ref[i+1:]...)
					break
				}
			}
		case "c":
			m.SetCaseMapping(xirc.ParseCaseMapping(name))
			mapping = name
			// entries whose names collide now: the survivor is unspecified
			var got []c22Entry
			m.ForEach(func(n, v string) { got = append(got, c22Entry{n, v}) })
			var merged []c22Entry
			for _, e := range ref {
				clash := false
				for _, o := range ref {
					if o.name != e.name && c22Same(mapping, o.name, e.name) {
						clash = true
					}
				}
				if !clash {
					merged = append(merged, e)
					continue
				}
				for _, g := range got {
					if g == e {
						merged = append(merged, e)
					}
				}
			}
			ref = merged
			for i, e := range ref {
				for _, o := range ref[:i] {
					c.Check(!c22Same(mapping, o.name, e.name), "two entries %q and %q under %s", o.name, e.name, mapping)
				}
			}
		}
		c.Check(m.Len() == len(ref), "the map holds %d entries, expected %v", m.Len(), ref)
		var got, want []string
		m.ForEach(func(n, v string) { got = append(got, n+"="+v) })
		for _, e := range ref {
			want = append(want, e.name+"="+e.val)
		}
		c.Check(kit.EqSet(got, want), "the map holds %s, expected %s", kit.Q(got), kit.Q(want))
		for _, nm := range names {
			v := ""
			for _, e := range ref {
				if c22Same(mapping, e.name, nm) {
					v = e.val
				}
			}
			c.Check(m.Get(nm) == v && m.Has(nm) == (v != ""), "looking up %q under %s: %q, %v; expected %q", nm, mapping, m.Get(nm), m.Has(nm), v)
		}
		if c.Bad() {
			return
		}
	}
}

// c22World checks every place where the bouncer compares names, with a name
// ending in x that the server (or a client) later writes ending in y.
// The mapping is announced from the start, or replaces another one with a new
// connection, or within the connection.
func c22World(c *kit.Ctx, w *kit.World, before, mapping, x, y string, live bool) {
	isup := func(m string) []string {
		l := []string{"soju.im/SAFERATE", "CHANTYPES=#", "PREFIX=(ov)@+", "CHANMODES=b,k,l,imnpst", "MONITOR=100"}
		if m != "none" {
			l = append(l, "CASEMAPPING="+m)
		}
		return l
	}
	same := c22Same(mapping, x, y)
	u := w.AddUser("alice", nil)
	net, s := w.AddNetwork(u, "net", func(n *database.Network) { n.Nick = "me" + x })
	w.Cfg.MsgStoreDriver = "db"
	for _, p := range []string{"t", "d", "s", "j", "k"} {
		w.AddChannel(net, "#"+p+x, func(ch *database.Channel) { ch.Detached = p == "d" })
		ch := s.Chan("#" + p + x)
		ch.Topic = "old"
		ch.Members["n"+x] = ""
		ch.Members["other"] = "@"
	}
	s.Hook = func(uc *kit.UpConn, m *irc.Message) bool {
		if len(m.Params) == 0 || !uc.Registered {
			return false
		}
		switch m.Command {
		case "PART":
			if c22Same(mapping, m.Params[0], "#s"+x) {
				uc.Send(":" + uc.Mask() + " PART #s" + x)
			} else {
				uc.Send(":" + s.Name + " 442 " + uc.Nick + " " + m.Params[0] + " :You're not on that channel")
			}
			return true
		case "JOIN":
			if len(s.Conns) == 1 || uc != s.Live() || m.Params[0] != "#j"+y {
				return false
			}
			if c22Same(mapping, "#j"+x, "#j"+y) {
				return true // already there
			}
		case "MONITOR":
			return true
		}
		return false
	}
	if before != "" {
		s.ISupport = isup(before)
	} else {
		s.ISupport = isup(mapping)
	}
	w.Start()
	caps := []string{"draft/chathistory", "batch", "server-time", "message-tags", "draft/read-marker"}
	cl := w.Connect("c1", kit.ConnOpts{User: "alice", Network: "net", Client: "one", Nick: "me" + x, Caps: caps})
	cl.Do("MONITOR + m" + x + ",v" + x)
	// a client which comes back later, and what it got before
	bk := w.Connect("bk", kit.ConnOpts{User: "alice", Network: "net", Client: "bk", Nick: "me" + x})
	s.Do(":r" + x + "!u@h PRIVMSG me" + x + " :early")
	s.Do(":srv 730 me" + x + " :m" + x + "!u@h")
	s.Do(":srv 731 me" + x + " :v" + x)
	bk.Quit()
	if live {
		s.ISupport = isup(mapping)
		s.Do(":" + s.Name + " 005 me" + x + " CASEMAPPING=" + mapping + " :are supported by this server")
	} else if before != "" {
		s.ISupport = isup(mapping)
		s.Drop()
		if !w.AwaitLive(s, 10*time.Minute) {
			c.Violatef("no reconnection")
			return
		}
		w.Sleep(time.Minute)
	}
	if x != y && before == "" {
		// joined once each
		c.Check(len(kit.Select(s.Live().All, "JOIN")) >= 1, "no JOIN sent")
	}
	cl.Take()
	count := func(msgs []*irc.Message, cmd, sub string) int {
		n := 0
		for _, m := range msgs {
			if m.Command == cmd && strings.Contains(strings.Join(m.Params, " "), sub) {
				n++
			}
		}
		return n
	}
	is := func(what string, got bool) {
		c.Check(got == same, "%s: %q and %q under %s treated as the same: %v, expected %v", what, x, y, mapping, got, same)
	}
	me := "me" + x
	// conversations of absent clients
	s.Do(":r" + y + "!u@h PRIVMSG " + me + " :late")
	cl.Take()
	bk = w.Connect("bk", kit.ConnOpts{User: "alice", Network: "net", Client: "bk", Nick: me})
	c.Check(count(bk.Peek(), "PRIVMSG", "late") == 1 && count(bk.Peek(), "PRIVMSG", "early") == 0, "backlog of conversations with %q and %q under %s: %s", "r"+x, "r"+y, mapping, kit.Q(kit.Lines(kit.Select(bk.Peek(), "PRIVMSG"))))
	bk.Quit()
	if live || before == "" {
		// what is known about monitored nicknames
		s.Take()
		got := cl.Do("MONITOR + m" + y)
		cl.Do("MONITOR + v" + y)
		up := 0
		for _, m := range s.Take() {
			if m.Command == "MONITOR" {
				up++
			}
		}
		is("MONITOR + of a known nickname", count(got, "730", "m"+y) == 1)
		is("MONITOR + sent upstream", up == 0)
		cl.Do("MONITOR - m" + y + ",v" + y)
		cl.Do("MONITOR + m" + x)
		cl.Take()
	}
	// topic
	s.Do(":other!u@h TOPIC #t" + y + " :newtopic")
	is("TOPIC", count(cl.Take(), "TOPIC", "newtopic") == 1)
	// membership
	s.Do(":other!u@h MODE #t" + x + " +o n" + y)
	s.Do(":other!u@h MODE #t" + x + " +v other")
	cl.Take()
	s.Do(":n" + y + "!u@h PART #k" + x)
	cl.Take()
	// detached channel
	s.Do(":other!u@h PRIVMSG #d" + y + " :quiet")
	is("message to a detached channel", count(cl.Take(), "PRIVMSG", "quiet") == 0)
	// conversations
	s.Do(":p" + x + "!u@h PRIVMSG " + me + " :first")
	s.Do(":p" + y + "!u@h PRIVMSG " + me + " :second")
	s.Do(":q!u@h PRIVMSG me" + y + " :tome")
	cl.Take()
	w.Sleep(time.Second)
	is("private conversation", count(cl.Do("CHATHISTORY LATEST p"+y+" * 10"), "PRIVMSG", "first") == 1)
	is("message to the user", count(cl.Do("CHATHISTORY LATEST q * 10"), "PRIVMSG", "tome") == 1)
	// monitor
	s.Do(":srv 730 " + me + " :m" + y + "!u@h")
	is("MONITOR", count(cl.Take(), "730", "m"+y) == 1)
	// read markers
	cl.Do("MARKREAD #t" + x + " timestamp=1999-01-01T00:00:00.000Z")
	is("MARKREAD", count(cl.Do("MARKREAD #t"+y), "MARKREAD", "1999") == 1)
	// service
	cl.Send("PRIVMSG BouncerServ :channel update #d" + strings.ReplaceAll(y, "\\", "\\\\") + " -relay-detached none")
	w.Settle()
	is("channel update", !strings.Contains(strings.Join(kit.Service(cl.Take()), "\n"), "error"))
	// saved channels
	cl.Do("PART #s" + y)
	cl.Do("JOIN #j" + y)
	w.Sleep(10 * time.Second)
	chans, err := w.DB.ListChannels(context.Background(), net.ID)
	if err != nil {
		panic(err)
	}
	var names []string
	for _, ch := range chans {
		names = append(names, ch.Name)
	}
	want := []string{"#t" + x, "#d" + x, "#j" + x, "#k" + x}
	if !same {
		want = append(want, "#s"+x, "#j"+y)
	}
	c.Check(kit.EqSet(names, want), "saved channels %s, expected %s (same under %s: %v)", kit.Q(names), kit.Q(want), mapping, same)
	// kick of the user under another spelling
	s.Do(":other!u@h KICK #t" + x + " me" + y)
	cl.Take()
	// kick from a channel under another spelling
	late0 := w.Connect("late0", kit.ConnOpts{User: "alice", Network: "net", Client: "late0", Nick: me, Caps: []string{"multi-prefix"}})
	joined := func(cl *kit.Client, ch string) bool {
		n := 0
		for _, m := range kit.Select(cl.Peek(), "JOIN") {
			if m.Params[0] == ch {
				n++
			}
		}
		return n == 1
	}
	is("KICK of the user", !joined(late0, "#t"+x))
	if !same {
		is("topic seen later", count(late0.Peek(), "332", "newtopic") > 0)
		is("mode seen later", count(late0.Peek(), "353", "@n"+x) > 0)
	}
	is("PART of a member", func() bool {
		for _, m := range kit.Select(late0.Peek(), "353") {
			if m.Params[2] == "#k"+x {
				for _, f := range strings.Fields(m.Params[3]) {
					if f == "n"+x {
						return false
					}
				}
				return true
			}
		}
		c.Violatef("no member list for #k%s", x)
		return false
	}())
	s.Do(":other!u@h KICK #k" + y + " " + me)
	late := w.Connect("late", kit.ConnOpts{User: "alice", Network: "net", Client: "late", Nick: me})
	is("KICK from a channel", !joined(late, "#k"+x))
	// own nickname
	cl.Take()
	late.Take()
	s.Do(":me" + y + "!u@h NICK renamed")
	last := w.Connect("last", kit.ConnOpts{User: "alice", Network: "net", Client: "last", Nick: me})
	nick := ""
	for _, m := range last.Take() {
		if m.Command == "001" || m.Command == "NICK" {
			nick = m.Params[0]
		}
	}
	is("NICK of the user", nick == "renamed")
	if !same {
		c.Check(nick == me, "the client is called %q", nick)
	}
	c.Check(s.Live() != nil, "the connection is lost")
}

func TestC22(t *testing.T) {
	r := kit.Start(t, "C22")

	// 1. the mappings themselves, over every string of two bytes
	for _, mp := range c22Mappings {
		for hi := 0; hi < 256; hi += 16 {
			r.Plain(fmt.Sprintf("fold:%s/%d", mp, hi), func(c *kit.Ctx) {
				f := xirc.ParseCaseMapping(mp)
				if !c.Check(f != nil, "the mapping %s is not known", mp) {
					return
				}
				fwd, back := map[string]string{}, map[string]string{}
				// all bytes are needed to see classes across blocks
				for a := 0; a < 256; a++ {
					for b := hi; b < hi+16; b++ {
						for d := 0; d < 256; d += 1 {
							s := string([]byte{byte(d), byte(b), byte(a)})
							if a > 2 && d > 2 {
								continue
							}
							ref, got := c22Fold(mp, s), f(s)
							if p, ok := fwd[ref]; ok && p != got {
								c.Check(false, "%q is not folded like its equals under %s", s, mp)
							}
							if p, ok := back[got]; ok && p != ref {
								c.Check(false, "%q is folded like a different name under %s", s, mp)
							}
							fwd[ref], back[got] = got, ref
						}
					}
				}
				c.Check(len(fwd) == len(back), "%s: %d classes, expected %d", mp, len(back), len(fwd))
			})
			r.Count(256*16, 256*16)
		}
	}
	for _, mp := range c22Mappings {
		r.Plain("byte:"+mp, func(c *kit.Ctx) {
			f := xirc.ParseCaseMapping(mp)
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					x, y := "#"+string([]byte{byte(a)}), "#"+string([]byte{byte(b)})
					c.Check((f(x) == f(y)) == c22Same(mp, x, y), "%q and %q under %s: same=%v", x, y, mp, f(x) == f(y))
				}
			}
		})
		r.Count(65536, 65536)
	}

	// 2. the map, all operation sequences
	ops := []string{"sa", "sA", "s[", "s{", "s~", "s^", "d[", "d{", "dA", "d^", "cascii", "crfc1459", "crfc1459-strict"}
	r.Tree("map", r.Pick(5, 6), func(seq []string) []string { return ops }, func(key string, seq []string) {
		r.Plain(key, func(c *kit.Ctx) { c22MapScenario(c, seq) })
	})

	// 3. the bouncer, for every mapping and every pair of characters
	chars := []string{"a", "A", "[", "{", "]", "}", "\\", "|", "^", "~", "é", "É", "_", ""}
	nw := 0
	for _, mp := range append([]string{"none", "strange"}, c22Mappings...) {
		for i, x := range chars {
			for j, y := range chars {
				if (mp == "none" || mp == "strange") && !r.Thorough() && (i+j)%2 == 0 && i != j {
					continue
				}
				nw++
				r.World(fmt.Sprintf("world:%s/%s/%s", mp, x, y), func(c *kit.Ctx, w *kit.World) { c22World(c, w, "", mp, x, y, false) })
			}
		}
	}
	// after a change of mapping, with what existed before
	for _, before := range c22Mappings {
		for _, mp := range c22Mappings {
			if before == mp {
				continue
			}
			for i, x := range chars[:10] {
				for j, y := range chars[:10] {
					if (i/2+j/2)%2 != 0 && !r.Thorough() {
						continue
					}
					nw++
					r.World(fmt.Sprintf("switch:%s/%s/%s/%s", before, mp, x, y), func(c *kit.Ctx, w *kit.World) { c22World(c, w, before, mp, x, y, false) })
					r.World(fmt.Sprintf("live:%s/%s/%s/%s", before, mp, x, y), func(c *kit.Ctx, w *kit.World) { c22World(c, w, before, mp, x, y, true) })
					nw++
				}
			}
		}
	}
	r.Count(nw, nw*16)
	r.Bound("worlds: %d combinations of announced mapping (and previous mapping) and spelling pair, 16 comparisons of names each", nw)
}
