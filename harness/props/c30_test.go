package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"
	"unicode"

	"codeberg.org/emersion/soju/database"
	"sojuverif/kit"
)

// C30: the service understands what it is told, to the letter, and says what
// is the case.

func TestC30(t *testing.T) {
	r := kit.Start(t, "C30")
	c30Quoting(r)
	c30Options(r)
	c30Status(r)
	c30Certs(r)
	c30Faults(r)
	c30Many(r)
}

// c30Split cuts a text into words as documented. ok is false if the quoting is
// incomplete, sure if the documentation leaves nothing open.
func c30Split(s string) (words []string, ok, sure bool) {
	rs := []rune(s)
	sure = true
	word, in := "", false
	var quote rune
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		switch {
		case c == '\\':
			if i+1 == len(rs) {
				return nil, false, sure && quote != '\''
			}
			i++
			if quote == '\'' || quote == '"' && rs[i] != '"' && rs[i] != '\\' {
				sure = false // POSIX keeps the backslash
			}
			word += string(rs[i])
			in = true
		case quote != 0 && c == quote:
			quote = 0
		case quote != 0:
			word += string(c)
		case c == '"' || c == '\'':
			quote = c
			in = true
		case unicode.IsSpace(c):
			if in {
				words = append(words, word)
			}
			word, in = "", false
		default:
			word += string(c)
			in = true
		}
	}
	if quote != 0 {
		return nil, false, sure
	}
	if in {
		words = append(words, word)
	}
	return words, true, sure
}

func c30Quoting(r *kit.Run) {
	alpha := []string{"a", " ", "\"", "'", "\\", "\t", "é"}
	var texts []string
	var gen func(s string, n int)
	gen = func(s string, n int) {
		texts = append(texts, s)
		if n > 0 {
			for _, a := range alpha {
				gen(s+a, n-1)
			}
		}
	}
	gen("", r.Pick(5, 6))
	per := 400
	for i := 0; i < len(texts); i += per {
		r.World(fmt.Sprintf("quoting:%d", i), func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("alice", nil)
			w.AddNetwork(u, "n1", nil)
			w.Start()
			cl := w.Connect("cl", kit.ConnOpts{User: "alice", Network: "n1", Client: "cl"})
			cl.Take()
			get := func() (string, string) {
				n := c07Load(w.DB)["alice"].Nets[0].N
				return n.SASL.Plain.Username, n.SASL.Plain.Password
			}
			user, pass := get()
			for _, s := range texts[i:min(i+per, len(texts))] {
				words, ok, sure := c30Split("sasl set-plain " + s)
				if !sure {
					user, pass = "", ""
					cl.Do("PRIVMSG BouncerServ :sasl reset")
					continue
				}
				reply := strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :sasl set-plain "+s)), "\n")
				done := ok && len(words) == 4
				if done {
					user, pass = words[2], words[3]
				}
				gu, gp := get()
				c.Check(gu == user && gp == pass, "sasl set-plain %s: the user name and password become %q and %q, want %q and %q (reply %q)", s, gu, gp, user, pass, reply)
				c.Check(strings.Contains(reply, "error") != done, "sasl set-plain %s: reply %q", s, reply)
				if c.Bad() {
					return
				}
			}
		})
	}
	r.Count(len(texts), len(texts))
	r.Bound("quoting: all %d texts of up to %d of %d characters as arguments", len(texts), r.Pick(5, 6), len(alpha))
}

type c30Opt struct {
	name, arg string
	net       func(n *database.Network)
	ch        func(n *database.Channel)
}

func c30Pairs(l []c30Opt) [][]c30Opt {
	out := [][]c30Opt{{}}
	for i, a := range l {
		out = append(out, []c30Opt{a})
		for j, b := range l {
			if i != j && a.name != b.name {
				out = append(out, []c30Opt{a, b})
			}
		}
	}
	return out
}

func c30Options(r *kit.Run) {
	fp := strings.Repeat("ab", 32)
	colons := strings.TrimSuffix(strings.Repeat("AB:", 32), ":")
	nets := []c30Opt{
		{"name", "nm", func(n *database.Network) { n.Name = "nm" }, nil},
		{"name", `"n m"`, func(n *database.Network) { n.Name = "n m" }, nil},
		{"nick", "nn", func(n *database.Network) { n.Nick = "nn" }, nil},
		{"nick", `""`, func(n *database.Network) { n.Nick = "" }, nil},
		{"username", "uu", func(n *database.Network) { n.Username = "uu" }, nil},
		{"username", `""`, func(n *database.Network) { n.Username = "" }, nil},
		{"pass", `"p -w"`, func(n *database.Network) { n.Pass = "p -w" }, nil},
		{"pass", `""`, func(n *database.Network) { n.Pass = "" }, nil},
		{"realname", `"-r r "`, func(n *database.Network) { n.Realname = "-r r " }, nil},
		{"realname", `""`, func(n *database.Network) { n.Realname = "" }, nil},
		{"certfp", colons, func(n *database.Network) { n.CertFP = "sha-256:" + fp }, nil},
		{"certfp", fp + fp, func(n *database.Network) { n.CertFP = "sha-512:" + fp + fp }, nil},
		{"certfp", `""`, func(n *database.Network) { n.CertFP = "" }, nil},
		{"auto-away", "true", func(n *database.Network) { n.AutoAway = true }, nil},
		{"auto-away", "false", func(n *database.Network) { n.AutoAway = false }, nil},
		{"enabled", "true", func(n *database.Network) { n.Enabled = true }, nil},
		{"enabled", "false", func(n *database.Network) { n.Enabled = false }, nil},
		{"connect-command", `"JOIN #x"`, func(n *database.Network) { n.ConnectCommands = []string{"JOIN #x"} }, nil},
		{"connect-command", `"PRIVMSG x :a  b" -connect-command "AWAY"`, func(n *database.Network) { n.ConnectCommands = []string{"PRIVMSG x :a  b", "AWAY"} }, nil},
		{"connect-command", `""`, func(n *database.Network) { n.ConnectCommands = nil }, nil},
		{"addr", "irc+insecure://other.test:6667", func(n *database.Network) { n.Addr = "irc+insecure://other.test:6667" }, nil},
	}
	chans := []c30Opt{
		{"detached", "true", nil, func(ch *database.Channel) { ch.Detached = true }},
		{"detached", "false", nil, func(ch *database.Channel) { ch.Detached = false }},
		{"detach-after", "0", nil, func(ch *database.Channel) { ch.DetachAfter = 0 }},
		{"detach-after", "1h30m", nil, func(ch *database.Channel) { ch.DetachAfter = 90 * time.Minute }},
	}
	for _, f := range []struct {
		name string
		f    database.MessageFilter
	}{{"default", database.FilterDefault}, {"none", database.FilterNone}, {"highlight", database.FilterHighlight}, {"message", database.FilterMessage}} {
		chans = append(chans,
			c30Opt{"relay-detached", f.name, nil, func(ch *database.Channel) { ch.RelayDetached = f.f }},
			c30Opt{"reattach-on", f.name, nil, func(ch *database.Channel) { ch.ReattachOn = f.f }},
			c30Opt{"detach-on", f.name, nil, func(ch *database.Channel) { ch.DetachOn = f.f }})
	}
	full := func(n *database.Network) {
		n.Nick, n.Username, n.Realname, n.Pass = "anick", "auser", "areal", "apass"
		n.ConnectCommands = []string{"AWAY x"}
		n.AutoAway = true
		n.Enabled = false
	}
	line := func(pre string, l []c30Opt) string {
		for _, o := range l {
			pre += " -" + o.name + " " + o.arg
		}
		return pre
	}
	for _, cmd := range []string{"create", "update", "update full", "update bound"} {
		for i, l := range c30Pairs(nets) {
			if cmd == "create" && len(l) > 0 && (l[0].name == "addr" || l[len(l)-1].name == "addr") {
				continue
			}
			r.World(fmt.Sprintf("network %s:%d", cmd, i), func(c *kit.Ctx, w *kit.World) {
				u := w.AddUser("alice", nil)
				w.AddNetwork(u, "n0", nil)
				_, srv := w.AddNetwork(u, "n1", func(n *database.Network) {
					if cmd == "update full" {
						full(n)
					}
				})
				other := w.Server("other.test:6667")
				w.Start()
				cl := w.Connect("cl", kit.ConnOpts{User: "alice", Network: map[bool]string{true: "n1", false: "n0"}[cmd == "update bound"], Client: "cl"})
				cl.Take()
				want := c07Load(w.DB)
				n := want["alice"].Nets[1].N
				var text string
				switch cmd {
				case "create":
					n = *database.NewNetwork("irc+insecure://other.test:6667")
					text = line("network create -addr irc+insecure://other.test:6667", l)
					srv = other
				case "update bound":
					text = line("network update", l)
				default:
					text = line("network update n1", l)
				}
				for _, o := range l {
					o.net(&n)
					if o.name == "addr" {
						srv = other
					}
				}
				if cmd == "create" {
					want["alice"].Nets = append(want["alice"].Nets, &c07Net{N: n, Chans: map[string]database.Channel{}})
				} else {
					want["alice"].Nets[1].N = n
				}
				c.Step(text)
				reply := strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :"+text)), "\n")
				if cmd != "update bound" || n.Enabled {
					c.Check(strings.Contains(reply, strings.TrimSuffix(strings.Fields(cmd)[0], "e")+"ed network "+fmt.Sprintf("%q", n.GetName())), "%s: reply %q", text, reply)
				}
				w.AwaitLive(srv, 2*time.Minute)
				got := c07Load(w.DB)
				c.Check(got.render("alice") == want.render("alice"), "%s leaves\n%s\nwant\n%s", text, got.render("alice"), want.render("alice"))
				// and it is so that the network is joined
				uc := srv.Live()
				if n.CertFP != "" {
					return // without effect on plain-text connections, or not: C19's matter
				}
				if !c.Check((uc != nil) == n.Enabled, "%s: connected: %v", text, uc != nil) || uc == nil {
					return
				}
				or := func(s, d string) string {
					if s == "" {
						return d
					}
					return s
				}
				c.Check(uc.Nick == or(n.Nick, "alice") && uc.User == or(n.Username, or(n.Nick, "alice")) && uc.Real == or(n.Realname, or(n.Nick, "alice")), "%s: connected as %q, user %q, real name %q", text, uc.Nick, uc.User, uc.Real)
				pass := ""
				var cmds []string
				for _, m := range uc.All {
					switch {
					case m.Command == "PASS":
						pass = m.Params[0]
					case m.Command == "AWAY" && len(m.Params) == 0, m.Command == "PRIVMSG", m.Command == "JOIN", m.Command == "AWAY" && m.Params[0] == "x":
						cmds = append(cmds, m.String())
					}
				}
				var wantCmds []string
				for _, s := range n.ConnectCommands {
					wantCmds = append(wantCmds, s)
				}
				c.Check(pass == n.Pass, "%s: the server password is %q", text, pass)
				c.Check(kit.Eq(cmds, wantCmds), "%s: the commands on connection are %s, want %s", text, kit.Q(cmds), kit.Q(wantCmds))
			})
		}
	}
	for _, cmd := range []string{"create", "update", "update suffix"} {
		for i, l := range c30Pairs(chans) {
			for _, start := range []bool{false, true} {
				if cmd == "create" && start {
					continue
				}
				r.World(fmt.Sprintf("channel %s:%d,%v", cmd, i, start), func(c *kit.Ctx, w *kit.World) {
					u := w.AddUser("alice", nil)
					rec, srv := w.AddNetwork(u, "n1", nil)
					w.AddChannel(rec, "#c", func(ch *database.Channel) {
						if start {
							ch.Detached, ch.RelayDetached, ch.ReattachOn, ch.DetachAfter, ch.DetachOn = true, database.FilterMessage, database.FilterHighlight, time.Hour, database.FilterNone
						}
					})
					rec2, _ := w.AddNetwork(u, "n2", nil)
					w.AddChannel(rec2, "#c", nil)
					w.AddChannel(rec2, "#d", nil)
					w.Start()
					net, text := "n1", "channel "+cmd+" #c"
					if cmd == "create" {
						text = "channel create #d"
					}
					if cmd == "update suffix" {
						net, text = "", "channel update #c/n1"
					}
					cl := w.Connect("cl", kit.ConnOpts{User: "alice", Network: net, Client: "cl"})
					cl.Take()
					srv.Take()
					want := c07Load(w.DB)
					name := "#c"
					var ch database.Channel
					if cmd == "create" {
						name = "#d"
						ch.Name = name
					} else {
						ch = want["alice"].Nets[0].Chans["#c"]
					}
					for _, o := range l {
						o.ch(&ch)
					}
					want["alice"].Nets[0].Chans[name] = ch
					text = line(text, l)
					c.Step(text)
					reply := strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :"+text)), "\n")
					c.Check(strings.Contains(reply, "ed channel \""+name), "%s: reply %q", text, reply)
					got := c07Load(w.DB)
					g, wa := *got["alice"].Nets[0], *want["alice"].Nets[0]
					c.Check(got.render("alice") == want.render("alice"), "%s leaves %s, want %s", text, c30JSON(g.Chans), c30JSON(wa.Chans))
					if cmd == "create" {
						c.Check(kit.Eq(kit.CmdLines(srv.Take()), []string{"JOIN #d", "MODE #d"}), "%s: the server is asked to %s", text, kit.Q(srv.Last().Raw))
					}
				})
			}
		}
	}
	r.Bound("options: all ordered pairs of %d network settings and of %d channel settings", len(nets), len(chans))
	// settings of users
	type uopt struct {
		name, arg string
		f         func(u *database.User)
	}
	users := []uopt{
		{"admin", "true", func(u *database.User) { u.Admin = true }},
		{"admin", "false", func(u *database.User) { u.Admin = false }},
		{"enabled", "true", func(u *database.User) { u.Enabled = true }},
		{"enabled", "false", func(u *database.User) { u.Enabled = false }},
		{"max-networks", "3", func(u *database.User) { u.MaxNetworks = 3 }},
		{"max-networks", "0", func(u *database.User) { u.MaxNetworks = 0 }},
		{"max-networks", "-1", func(u *database.User) { u.MaxNetworks = -1 }},
		{"nick", "nn", func(u *database.User) { u.Nick = "nn" }},
		{"nick", `""`, func(u *database.User) { u.Nick = "" }},
		{"realname", `"r r"`, func(u *database.User) { u.Realname = "r r" }},
		{"realname", `""`, func(u *database.User) { u.Realname = "" }},
		{"disable-password", "", func(u *database.User) { u.Password = "" }},
	}
	for _, cmd := range []string{"create", "other", "self", "named"} {
		for i, a := range users {
			for j, b := range users {
				for _, full := range []bool{false, true} {
					if i != j && a.name == b.name || cmd == "create" && full {
						continue
					}
					own := a.name == "nick" || a.name == "realname" || b.name == "nick" || b.name == "realname"
					notOwn := a.name == "admin" || a.name == "enabled" || b.name == "admin" || b.name == "enabled"
					if cmd == "other" && own || (cmd == "self" || cmd == "named") && notOwn {
						continue
					}
					r.World(fmt.Sprintf("user %s:%d,%d,%v", cmd, i, j, full), func(c *kit.Ctx, w *kit.World) {
						f := func(u *database.User) {
							u.Password = "x"
							u.Admin = u.Username == "root"
							if full {
								u.Nick, u.Realname, u.MaxNetworks = "unick", "ureal", 7
								u.Admin = true
							}
						}
						w.AddUser("root", f)
						w.AddUser("bob", f)
						w.Start()
						cl := w.Connect("cl", kit.ConnOpts{User: "root", Client: "cl"})
						cl.Take()
						want := c07Load(w.DB)
						who := "root"
						text := "user update"
						switch cmd {
						case "create":
							who = "new"
							text = "user create -username new"
							want["new"] = &c07User{U: *database.NewUser("new")}
							if a.name != "disable-password" && b.name != "disable-password" {
								text += " -disable-password"
							}
						case "other":
							who = "bob"
							text += " bob"
						case "named":
							text += " root"
						}
						add := func(o uopt) {
							text += " -" + o.name
							if o.arg != "" {
								if cmd == "create" && (o.name == "admin" || o.name == "enabled") {
									text += "=" + o.arg
								} else {
									text += " " + o.arg
								}
							}
							o.f(&want[who].U)
						}
						add(a)
						if i != j {
							add(b)
						}
						c.Step(text)
						reply := strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :"+text)), "\n")
						if !cl.Closed() {
							c.Check(strings.Contains(reply, "ed user \""+who), "%s: reply %q", text, reply)
						}
						got := c07Load(w.DB)
						for _, n := range got.names(want) {
							c.Check(got.render(n) == want.render(n), "%s leaves %s: %s, want %s", text, n, got.render(n), want.render(n))
						}
					})
				}
			}
		}
	}
	r.Bound("options: all pairs of %d user settings, for new, other and own accounts", len(users))
}

func c30JSON(v any) string {
	j, _ := json.Marshal(v)
	return string(j)
}

// c30Status lets things happen and asks the service for the state of affairs.
func c30Status(r *kit.Run) {
	acts := []string{"join", "part", "kick", "detach", "attach", "nick", "down", "up", "disable", "enable", "plain", "reset", "login", "logout", "create", "delete", "rename", "adduser", "deluser", "offuser", "limit", "bound", "client"}
	r.Tree("status", r.Pick(3, 4), func(seq []string) []string { return acts }, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("root", func(u *database.User) { u.Admin = true })
			rec, s := w.AddNetwork(u, "n1", nil)
			w.AddChannel(rec, "#c", nil)
			w.AddChannel(rec, "#e", func(ch *database.Channel) { ch.Detached = true })
			_, s2 := w.AddNetwork(u, "n2", nil)
			b := w.AddUser("bob", nil)
			w.AddNetwork(b, "n9", nil)
			s2.Refuse = true
			s3 := w.Server("n3.test:6667")
			w.Start()
			ask := w.Connect("ask", kit.ConnOpts{User: "root", Client: "ask"})
			ask.Take()
			serv := func(cmd string) string {
				ask.Take()
				return strings.Join(kit.Service(ask.Do("PRIVMSG BouncerServ :"+cmd)), "\n")
			}
			cl := w.Connect("cl", kit.ConnOpts{User: "root", Network: "n1", Client: "cl"})
			// the state of affairs
			chans := map[string]bool{"#c": true, "#e": true} // joined, among the saved ones
			det := map[string]bool{"#e": true}
			name, enabled, down := "n1", true, false
			sasl, account, n3 := "", "", false
			users := map[string]string{"root": "", "bob": ""}
			limit := -1
			bound := ""
			for _, a := range seq {
				c.Step(a)
				live := s.Live()
				switch a {
				case "join":
					if live != nil {
						cl.Do("JOIN #d")
						chans["#d"] = true
					}
				case "part":
					if live != nil && (chans["#c"] || det["#c"]) {
						cl.Do("PART #c")
						delete(chans, "#c")
						delete(det, "#c")
					}
				case "kick":
					if _, ok := chans["#c"]; live != nil && ok && chans["#c"] {
						live.Send(":op!o@o KICK #c " + live.Nick)
						w.Settle()
						chans["#c"] = false
					}
				case "detach", "attach":
					if _, ok := chans["#c"]; ok {
						which := "#c/" + name
						if bound != "" {
							which = "#c"
						}
						serv("channel update " + which + " -detached " + fmt.Sprint(a == "detach"))
						if a == "detach" {
							det["#c"] = true
						} else {
							delete(det, "#c")
						}
					}
				case "nick":
					if live != nil {
						live.Send(":" + live.Mask() + " NICK changed")
						live.Nick = "changed"
						w.Settle()
					}
				case "down":
					s.Refuse, down = true, true
					s.Drop()
					account = ""
				case "up":
					s.Refuse, down = false, false
					w.AwaitLive(s, 15*time.Minute)
				case "disable", "enable":
					serv("network update " + name + " -enabled " + fmt.Sprint(a == "enable"))
					enabled = a == "enable"
					account = ""
					w.AwaitLive(s, time.Minute)
				case "plain":
					serv("sasl set-plain -network " + name + " acc pw")
					sasl = "acc"
				case "reset":
					serv("sasl reset -network " + name)
					sasl = ""
				case "login":
					if live != nil {
						live.Send(":n1.test 900 " + live.Nick + " " + live.Mask() + " someone :You are now logged in")
						w.Settle()
						account = "someone"
					}
				case "logout":
					if live != nil {
						live.Send(":n1.test 901 " + live.Nick + " " + live.Mask() + " :You are now logged out")
						w.Settle()
						account = ""
					}
				case "create":
					serv("network create -addr irc+insecure://n3.test:6667")
					n3 = true
					w.AwaitLive(s3, time.Minute)
				case "delete":
					serv("network delete irc+insecure://n3.test:6667")
					n3 = false
				case "rename":
					serv("network update " + name + " -name other")
					name = "other"
					account = ""
					w.AwaitLive(s, time.Minute)
				case "adduser":
					serv("user create -username zoe -disable-password -max-networks 4")
					if _, ok := users["zoe"]; !ok {
						users["zoe"] = ""
					}
				case "deluser":
					if _, ok := users["zoe"]; ok {
						serv("user delete zoe " + c07Token("zoe"))
						delete(users, "zoe")
					}
				case "offuser":
					serv("user update bob -enabled false")
					users["bob"] = "disabled"
				case "limit":
					serv("user update -max-networks 5")
					limit = 5
				case "bound":
					ask.Quit()
					ask = w.Connect("ask", kit.ConnOpts{User: "root", Network: name, Client: "ask"})
					c.Check(ask.Registered(), "cannot connect to network %s", name)
					bound = name
				case "client":
					w.Connect("more", kit.ConnOpts{User: "root", Client: "more"})
				}
				w.Settle()
				if bound != "" {
					bound = name
				}
				if s.Live() == nil {
					for ch := range chans {
						chans[ch] = false
					}
				} else if a == "up" && live == nil || a == "enable" || a == "rename" {
					for ch := range chans {
						chans[ch] = true
					}
				}
				if s.Live() != nil && s.Live() != live && sasl != "" {
					account = "" // only tried if the server offers it
				}
				c.Check((s.Live() != nil) == (enabled && !down), "connected: %v", s.Live() != nil)
				if c.Bad() {
					return
				}
			}
			// network status
			got := strings.Split(serv("network status"), "\n")
			var want []string
			joined := 0
			for _, v := range chans {
				if v {
					joined++
				}
			}
			line := name + " (irc+insecure://n1.test) ["
			switch {
			case !enabled:
				line += "disabled"
			case down:
				line += "disconnected"
			case s.Live().Nick != c30Nick(ask):
				line += "connected as " + s.Live().Nick
			default:
				line += "connected"
			}
			if bound != "" {
				line += ", current"
			}
			line += "]"
			if s.Live() != nil {
				line += fmt.Sprintf(": %d channels", joined)
			}
			want = append(want, line, "n2 (irc+insecure://n2.test) [disconnected]")
			if n3 {
				st := "connected"
				if s3.Live().Nick != c30Nick(ask) {
					st += " as " + s3.Live().Nick
				}
				want = append(want, "irc+insecure://n3.test:6667 ["+st+"]: 0 channels")
			}
			for i, g := range got {
				if strings.Contains(g, "[disconnected") {
					got[i] = g[:strings.Index(g, "]")+1] // leave out the reason
				}
			}
			c.Check(kit.EqSet(got, want), "network status: %s, want %s", kit.Q(got), kit.Q(want))
			// channel status
			for _, sel := range []string{"", " -network " + name} {
				got = strings.Split(serv("channel status"+sel), "\n")
				want = nil
				for _, ch := range kit.Keys(chans) {
					st := "joined"
					if s.Live() == nil {
						st = "disconnected"
					} else if !chans[ch] {
						st = "parted"
					}
					if det[ch] {
						st += ", detached"
					}
					n := ch
					if sel == "" && bound == "" {
						n += "/" + name
					}
					want = append(want, n+" ["+st+"]")
				}
				if len(want) == 0 {
					want = []string{"No channel configured."}
				}
				c.Check(kit.EqSet(got, want), "channel status%s: %s, want %s", sel, kit.Q(got), kit.Q(want))
			}
			// sasl status
			got = strings.Split(serv("sasl status -network "+name), "\n")
			want = []string{"SASL is disabled"}
			if sasl != "" {
				want = []string{`SASL PLAIN enabled with username "acc"`}
			}
			switch {
			case s.Live() == nil:
				want = append(want, "Disconnected from upstream network")
			case account != "":
				want = append(want, `Authenticated on upstream network with account "someone"`)
			default:
				want = append(want, "Unauthenticated on upstream network")
			}
			c.Check(kit.Eq(got, want), "sasl status: %s, want %s", kit.Q(got), kit.Q(want))
			// user status
			nets := 2
			if n3 {
				nets++
			}
			row := func(u string) string {
				n, extra, lim := 0, "", ""
				switch u {
				case "root":
					n, extra = nets, " (admin)"
					if limit >= 0 {
						lim = fmt.Sprintf(" (%d max)", limit)
					}
				case "bob":
					n = 1
					if users[u] != "" {
						extra = " (disabled)"
					}
				case "zoe":
					lim = " (4 max)"
				}
				return fmt.Sprintf("%s%s: %d networks%s", u, extra, n, lim)
			}
			want = nil
			for _, u := range kit.Keys(users) {
				want = append(want, row(u))
				one := serv("user status " + u)
				c.Check(one == row(u), "user status %s: %q, want %q", u, one, row(u))
			}
			got = strings.Split(serv("user status"), "\n")
			c.Check(kit.EqSet(got, want), "user status: %s, want %s", kit.Q(got), kit.Q(want))
			// server status
			down2 := 0
			for _, cl := range w.Clients {
				if !cl.Closed() {
					down2++
				}
			}
			ups := 0
			for _, s := range w.Servers {
				ups += s.OpenConns()
			}
			g := serv("server status")
			wantS := fmt.Sprintf("%d/%d users, %d downstreams, %d upstreams, %d networks, %d channels", len(users), len(users), down2, ups, nets+1, len(chans))
			c.Check(g == wantS, "server status: %q, want %q", g, wantS)
		})
	})
}

// c30Nick is the nick a client was told to have.
func c30Nick(cl *kit.Client) string {
	nick := ""
	for _, m := range cl.All {
		switch {
		case m.Command == "001":
			nick = m.Params[0]
		case m.Command == "NICK" && m.Prefix != nil && m.Prefix.Name == nick:
			nick = m.Params[0]
		}
	}
	return nick
}
