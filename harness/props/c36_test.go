package props

import (
	"context"
	"encoding/base64"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C36: networks named at login are added when they exist, and only then.

type c36Env struct {
	c     *kit.Ctx
	w     *kit.World
	u     *database.User
	pki   *c33PKI
	srv   map[string]*c33Server // by the name a client gives
	reach map[string]bool       // its server can be reached
	trust map[string]bool       // its certificate is fine
	hang  *c33Server
	nets  []string // the networks the user should have: name, nick
	limit int
	watch *kit.Client
	n     int
	other *kit.UpServer
}

func c36World(c *kit.Ctx, w *kit.World, pki *c33PKI, chain *c33Chain, limit int) *c36Env {
	e := &c36Env{c: c, w: w, pki: pki, limit: limit, srv: map[string]*c33Server{}, reach: map[string]bool{}}
	w.Cfg.MaxUserNetworks = limit
	e.u = w.AddUser("alice", nil)
	bob := w.AddUser("bob", nil)
	w.AddUser("off", func(u *database.User) { u.Enabled = false })
	_, e.other = w.AddNetwork(e.u, "old", nil)
	w.AddNetwork(bob, "bobnet", nil)
	e.nets = []string{"old alice"}
	e.srv["name.test"] = c33Listen(w, "name.test:6697", chain)
	e.srv["name.test:7000"] = c33Listen(w, "name.test:7000", chain)
	e.srv["other.test"] = c33Listen(w, "other.test:6697", pki.by["host"])
	e.srv["bad.test"] = c33Listen(w, "bad.test:6697", pki.by["good"])
	e.reach["name.test"], e.reach["name.test:7000"] = chain.trusted, chain.trusted
	e.reach["other.test"] = true
	e.trust = map[string]bool{"name.test": chain.trusted, "name.test:7000": chain.trusted, "other.test": true}
	for _, a := range []string{"plain.test:6697", "plain.test:6667"} { // doesn't talk TLS
		w.Server(a).Wrap = func(inner net.Conn) net.Conn {
			a, b := c33Pipe(inner)
			b.Write([]byte(":plain.test NOTICE * :*** Looking up your hostname\r\n"))
			return a
		}
	}
	hang := w.Server("hang.test:6697")
	hang.Wrap = func(inner net.Conn) net.Conn {
		a, _ := c33Pipe(inner)
		return a
	}
	w.Start()
	w.AwaitLive(e.other, time.Minute)
	e.watch = w.Connect("watch", kit.ConnOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}})
	e.watch.Take()
	return e
}

// stored are the networks in the database.
func (e *c36Env) stored() []string {
	l, err := e.w.DB.ListNetworks(context.Background(), e.u.ID)
	if err != nil {
		panic(err)
	}
	var out []string
	for _, n := range l {
		if !n.Enabled || n.CertFP != "" || n.Pass != "" || n.SASL.Mechanism != "" || n.Username != "" || n.Realname != "" {
			out = append(out, fmt.Sprintf("%+v", n))
			continue
		}
		nick := n.Nick
		if nick == "" {
			nick = "alice"
		}
		out = append(out, n.GetName()+" "+nick)
	}
	return kit.Sorted(out)
}

func (e *c36Env) known(name string) bool {
	for _, n := range e.nets {
		if strings.HasPrefix(n, name+" ") {
			return true
		}
	}
	return false
}

type c36Login struct {
	path, user, name, nick, pass string
}

// login makes a client log in; it returns the client if it is welcomed.
func (e *c36Env) login(l c36Login) *kit.Client {
	c, w := e.c, e.w
	e.n++
	w.Settle()
	e.watch.Take()
	nd := len(w.Dials)
	cl := w.Dial(fmt.Sprintf("l%d", e.n))
	full := l.user
	if l.name != "" {
		full += "/" + l.name
	}
	sasl := func(user string) {
		cl.Send("CAP REQ :sasl")
		cl.Send("AUTHENTICATE PLAIN")
		cl.Send("AUTHENTICATE " + base64.StdEncoding.EncodeToString([]byte("\x00"+user+"\x00"+l.pass)))
	}
	switch l.path {
	case "pass":
		cl.Send("PASS " + l.pass)
		cl.Send("NICK " + l.nick)
		cl.Send("USER " + full + " 0 * :x")
	case "pass-client":
		cl.Send("PASS " + l.pass)
		cl.Send("NICK " + l.nick)
		cl.Send("USER " + l.user + "@phone/" + l.name + " 0 * :x")
	case "sasl":
		sasl(full)
		cl.Send("NICK " + l.nick)
		cl.Send("USER x 0 * :x")
		cl.Send("CAP END")
	case "sasl-user":
		sasl(l.user)
		cl.Send("NICK " + l.nick)
		cl.Send("USER x/" + l.name + " 0 * :x")
		cl.Send("CAP END")
	}
	got := cl.Take()
	if strings.HasPrefix(l.name, "hang") {
		for i := 0; i < 4; i++ {
			w.Sleep(5 * time.Second)
			got = append(got, cl.Take()...)
		}
	}
	w.Settle()
	got = append(got, cl.Take()...)

	goodpw := l.pass == "alice" && l.user == "alice"
	nick := l.nick
	if i := strings.IndexAny(nick, "/@"); i >= 0 {
		nick = nick[:i]
	}
	nickOK := nick != "" && !strings.ContainsAny(nick, " :@!*?$,.") && !strings.EqualFold(nick, "BouncerServ")
	was := e.known(l.name)
	full0 := e.limit >= 0 && len(e.nets) >= e.limit
	add := goodpw && l.name != "" && !was && e.reach[l.name] && nickOK && !full0
	ok := goodpw && (add || was || l.name == "")
	if l.user == "bob" { // has the password bob
		ok = l.pass == "bob" && (l.name == "bobnet" || l.name == "")
	}
	if add {
		e.nets = append(e.nets, l.name+" "+nick)
	}
	what := fmt.Sprintf("a login as %q with the nick %q", full, l.nick)
	welcomed := len(kit.Select(got, "001")) == 1
	if !c.Check(welcomed == ok, "%s is welcomed: %v, expected %v (%q)", what, welcomed, ok, kit.Texts(got)) {
		return nil
	}
	if got, want := e.stored(), kit.Sorted(append([]string(nil), e.nets...)); !c.Check(kit.Eq(got, want), "after %s the user's networks are %q, expected %q", what, got, want) {
		return nil
	}
	var notes []string
	for _, m := range kit.Select(e.watch.Take(), "BOUNCER") {
		if len(m.Params) == 3 && strings.Contains(m.Params[2], "name=") {
			notes = append(notes, m.Params[2])
		}
	}
	if add {
		c.Check(len(notes) == 1 && strings.Contains(";"+notes[0]+";", ";host="+strings.SplitN(l.name, ":", 2)[0]+";"), "after %s the other client is told %q", what, notes)
	} else {
		c.Check(len(notes) == 0, "after %s the other client is told of the network %q", what, notes)
	}
	// nobody makes the bouncer connect anywhere without an account
	checked := 0
	for _, d := range w.Dials[nd:] {
		if (goodpw && !was || l.user == "bob" && l.pass == "bob") && l.name != "" && (d.Addr == l.name || d.Addr == l.name+":6697") {
			checked++
			continue
		}
		known := false
		for _, n := range e.nets {
			n := strings.Fields(n)[0]
			known = known || d.Addr == n || d.Addr == n+":6697" || d.Addr == n+".test:6667"
		}
		c.Check(known || d.Addr == "bobnet.test:6667", "%s makes the bouncer connect to %q", what, d.Addr)
	}
	if goodpw && !was && e.srv[l.name] != nil && nickOK && !full0 {
		c.Check(checked > 0, "%s does not make the bouncer connect to the server", what)
	}
	if s := e.srv[l.name]; s != nil && !e.trust[l.name] {
		for _, rec := range s.conns {
			rec.mu.Lock()
			n := rec.data
			rec.mu.Unlock()
			c.Check(n == 0, "%d bytes are sent to a server which cannot be trusted", n)
		}
	}
	if !ok {
		w.Sleep(5 * time.Second)
		cl.Take()
		c.Check(cl.Closed(), "the refused client stays connected")
		return nil
	}
	if l.user == "alice" && l.name != "" {
		// the client is bound to the network, which is connected
		w.Sleep(5 * time.Second)
		s := e.other
		if l.name != "old" {
			s = e.srv[l.name].up
		}
		if !c.Check(s.Live() != nil, "after %s the network is not connected", what) {
			return nil
		}
		cl.Take()
		s.Do(fmt.Sprintf(":peer!p@h PRIVMSG %s :secret%d", e.nickOn(l.name), e.n))
		if t := kit.Texts(kit.Select(cl.Take(), "PRIVMSG")); !c.Check(len(t) == 1 && strings.Contains(t[0], fmt.Sprintf("secret%d", e.n)), "after %s the client receives %q when the server says something", what, t) {
			return nil
		}
		for name, x := range e.srv {
			if name != l.name {
				x.up.Take()
			}
		}
		e.other.Take()
		s.Take()
		cl.Do("PRIVMSG peer :hey")
		t := kit.CmdLines(kit.Select(s.Take(), "PRIVMSG"))
		c.Check(len(t) == 1, "after %s the server receives %q when the client says something", what, t)
	}
	return cl
}

func (e *c36Env) nickOn(name string) string {
	for _, n := range e.nets {
		if f := strings.Fields(n); f[0] == name {
			return f[1]
		}
	}
	return "alice"
}

func TestC36(t *testing.T) {
	r := kit.Start(t, "C36")
	pki := c33NewPKI(t.TempDir())

	paths := []string{"pass", "pass-client", "sasl", "sasl-user"}
	names := []string{"name.test", "name.test:7000", "other.test", "bad.test", "plain.test", "plain.test:6667", "hang.test", "none.test", "old", "bobnet", "name.test:", ":6697", "-name.test", "name.test:7001", "name.test?a=b", "name.test#x", "u:p"}
	for _, p := range paths {
		for _, n := range names {
			for _, limit := range []int{-1, 0, 1, 2} {
				for _, who := range [][2]string{{"alice", "alice"}, {"alice", "wrong"}, {"bob", "bob"}, {"bob", "alice"}, {"off", "off"}, {"nobody", "x"}} {
					p, n, limit, who := p, n, limit, who
					if who[0] == "bob" && who[1] == "bob" && n != "none.test" && n != "bobnet" && n != "old" && n != "bad.test" {
						continue
					}
					r.World(fmt.Sprintf("login/%s/%s/%d/%s/%s", p, n, limit, who[0], who[1]), func(c *kit.Ctx, w *kit.World) {
						e := c36World(c, w, pki, pki.by["good"], limit)
						e.login(c36Login{p, who[0], n, "al", who[1]})
						if !c.Bad() {
							e.login(c36Login{"pass", "alice", "old", "al", "alice"})
						}
					})
				}
			}
		}
	}
	r.Bound("login: %d ways to log in x %d names x 4 limits x 6 accounts", len(paths), len(names))

	for _, ch := range pki.chains {
		for _, p := range paths {
			for _, n := range []string{"name.test", "name.test:7000"} {
				ch, p, n := ch, p, n
				r.World(fmt.Sprintf("server/%s/%s/%s", ch.name, p, n), func(c *kit.Ctx, w *kit.World) {
					e := c36World(c, w, pki, ch, -1)
					e.login(c36Login{p, "alice", n, "al", "alice"})
				})
			}
		}
	}
	r.Bound("server: %d certificate chains", len(pki.chains))

	for _, nick := range []string{"al", "al/name.test", "al@phone", "a!b", "*", "a,b", "a.b", "$a", "a?", "BouncerServ", "bouncerserv", "BOUNCERSERV/x", "alice", "/x", "é"} {
		for _, p := range paths {
			nick, p := nick, p
			r.World("nick/"+nick+"/"+p, func(c *kit.Ctx, w *kit.World) {
				e := c36World(c, w, pki, pki.by["good"], -1)
				e.login(c36Login{p, "alice", "name.test", nick, "alice"})
				if !c.Bad() {
					e.login(c36Login{p, "alice", "name.test", "al", "alice"})
				}
			})
		}
	}

	// histories of logins and commands
	acts := []string{"name", "port", "other", "bad", "none", "wrong", "old", "delete", "deleteold", "restart", "later", "down", "up"}
	for _, limit := range []int{-1, 2} {
		limit := limit
		r.Tree(fmt.Sprintf("history/%d", limit), r.Pick(3, 4), func(seq []string) []string { return acts }, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				e := c36World(c, w, pki, pki.by["good"], limit)
				down := false
				for i, a := range seq {
					if c.Bad() {
						return
					}
					p := paths[i%len(paths)]
					switch a {
					case "name", "port", "other", "bad", "none", "old":
						n := map[string]string{"name": "name.test", "port": "name.test:7000", "other": "other.test", "bad": "bad.test", "none": "none.test", "old": "old"}[a]
						if down && n == "name.test" && e.known(n) {
							continue // known but unreachable
						}
						e.login(c36Login{p, "alice", n, "al", "alice"})
					case "wrong":
						e.login(c36Login{p, "alice", "name.test", "al", "wrong"})
					case "delete", "deleteold":
						n := map[string]string{"delete": "name.test", "deleteold": "old"}[a]
						e.watch.Do("PRIVMSG BouncerServ :network delete " + n)
						var l []string
						for _, x := range e.nets {
							if !strings.HasPrefix(x, n+" ") {
								l = append(l, x)
							}
						}
						e.nets = l
						if got, want := e.stored(), kit.Sorted(append([]string(nil), e.nets...)); !c.Check(kit.Eq(got, want), "after network delete %s the user's networks are %q, expected %q", n, got, want) {
							return
						}
					case "restart":
						w.Restart()
						w.Sleep(5 * time.Second)
						e.watch = w.Connect("watch", kit.ConnOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}})
						e.watch.Take()
					case "later":
						for i := 0; i < 60; i++ {
							w.Sleep(5 * time.Second)
						}
					case "down", "up":
						down = a == "down"
						s := e.srv["name.test"].up
						s.Refuse = down
						if down {
							s.Drop()
						} else {
							for i := 0; i < 144 && e.known("name.test"); i++ {
								w.Sleep(5 * time.Second)
							}
						}
						e.reach["name.test"] = !down
					}
				}
				w.Restart()
				if got, want := e.stored(), kit.Sorted(append([]string(nil), e.nets...)); !c.Check(kit.Eq(got, want), "at last the user's networks are %q, expected %q", got, want) {
					return
				}
			})
		})
	}

	// a slow server doesn't stop anything for good
	for _, k := range []int{1, 2, 3} {
		k := k
		r.World(fmt.Sprintf("hang/%d", k), func(c *kit.Ctx, w *kit.World) {
			e := c36World(c, w, pki, pki.by["good"], -1)
			b := w.Connect("bob", kit.ConnOpts{User: "bob", Network: "bobnet", Pass: "bob"})
			a := w.Connect("a", kit.ConnOpts{User: "alice", Network: "old"})
			a.Take()
			var hung []*kit.Client
			for i := 0; i < k; i++ {
				cl := w.Dial(fmt.Sprintf("h%d", i))
				cl.Send("PASS alice")
				cl.Send("NICK al")
				cl.Send("USER alice/hang.test 0 * :x")
				hung = append(hung, cl)
			}
			w.Settle()
			c.Check(len(kit.Select(b.Do("PING :x"), "PONG")) == 1, "another user gets no answer")
			a.Send("PRIVMSG peer :hey")
			e.other.Send(":peer!p@h PRIVMSG alice :hello")
			var got []string
			for i := 0; i < 4*k; i++ {
				w.Sleep(5 * time.Second)
				for _, m := range kit.Select(a.Take(), "PRIVMSG") {
					got = append(got, m.Params[1])
				}
			}
			c.Check(kit.Eq(got, []string{"hello"}), "the user's other client receives %q", got)
			c.Check(len(kit.Select(e.other.Take(), "PRIVMSG")) == 1, "the other client's message is lost")
			for _, cl := range hung {
				cl.Take()
				c.Check(cl.Closed(), "a client waiting for a silent server is still connected")
			}
			c.Check(kit.Eq(e.stored(), e.nets), "the user's networks are %q", e.stored())
		})
	}
}
