package props

import (
	"context"
	"fmt"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"sojuverif/kit"
)

// Logging in to the upstream server through the bouncer, after registration.
// Used by C03 (replies) and C19 (what the bouncer remembers).

type loginState struct {
	mech   string // exchange in progress
	fail   bool
	saved  string // credentials the bouncer knows
	replay string // replies to the last message
	up     []string
}

var loginPayloads = map[string]string{
	"good":     "\x00acct\x00good",
	"good2":    "acct2\x00acct2\x00good",
	"bad":      "\x00acct\x00bad",
	"identity": "other\x00acct\x00good",
	"bearer":   "n,a=acct,\x01auth=Bearer good\x01\x01",
}

func loginLine(a string) string {
	if p, ok := loginPayloads[a]; ok {
		return "AUTHENTICATE " + b64(p)
	}
	if a == "badb64" {
		return "AUTHENTICATE !!!"
	}
	return a
}

// loginStep is the reference; SASL is what the network was configured with.
func loginStep(s loginState, a string) loginState {
	s.replay, s.up = "", nil
	end := func(reply string) { s.mech, s.replay = "", reply }
	arg := strings.Fields(loginLine(a) + " ")
	switch {
	case a == "reconnect":
		s.mech = ""
	case len(arg) == 1:
		end("[904]")
	case arg[1] == "*":
		end("[906]")
	case s.mech == "":
		switch arg[1] {
		case "PLAIN", "OAUTHBEARER", "ANONYMOUS":
			s.mech, s.replay = arg[1], "[AUTHENTICATE]"
		default:
			end("[904]")
		}
	case a == "badb64" || len(arg[1]) != 1 && loginPayloads[a] == "":
		end("[904]") // not base64
	case s.mech == "ANONYMOUS":
		end("[903]")
		s.saved = "none"
	case s.mech == "OAUTHBEARER" || a == "identity":
		end("[904]")
	case a == "bad":
		end("[904]")
		s.up = []string{"AUTHENTICATE PLAIN", loginLine("bad")}
	default:
		end("[903]")
		user := strings.Split(loginPayloads[a], "\x00")[1]
		s.up = []string{"AUTHENTICATE PLAIN", "AUTHENTICATE " + b64("\x00"+user+"\x00good")}
		if s.saved != "EXTERNAL" {
			s.saved = user + ":good"
		}
	}
	return s
}

func loginEnabled(s loginState) []string {
	l := []string{"AUTHENTICATE PLAIN", "AUTHENTICATE OAUTHBEARER", "AUTHENTICATE ANONYMOUS", "AUTHENTICATE BOGUS", "AUTHENTICATE *", "AUTHENTICATE", "reconnect"}
	switch s.mech {
	case "PLAIN":
		l = append(l, "good", "good2", "bad", "identity", "badb64")
	case "OAUTHBEARER":
		l = append(l, "bearer", "AUTHENTICATE +")
	case "ANONYMOUS":
		l = append(l, "AUTHENTICATE +", "badb64")
	}
	return l
}

func loginTree(r *kit.Run, depth int, replies bool) {
	for _, first := range []string{"none", "old:good", "EXTERNAL"} {
		first := first
		init := loginState{saved: first}
		run := func(seq []string) loginState {
			s := init
			for _, a := range seq {
				s = loginStep(s, a)
			}
			return s
		}
		r.Tree("login/"+strings.TrimSuffix(first, ":good"), depth, func(seq []string) []string { return loginEnabled(run(seq)) },
			func(key string, seq []string) {
				s := run(seq)
				if s.mech == "PLAIN" {
					seq = append(append([]string{}, seq...), "good", "AUTHENTICATE PLAIN", "bad")
				} else {
					seq = append(append([]string{}, seq...), "AUTHENTICATE *", "AUTHENTICATE PLAIN", "good2")
				}
				loginExec(r, key, init, seq, replies)
			})
	}
}

func loginExec(r *kit.Run, key string, s loginState, seq []string, replies bool) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		u := w.AddUser("alice", nil)
		rec, srv := w.AddNetwork(u, "net", func(n *database.Network) {
			switch s.saved {
			case "old:good":
				n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password = "PLAIN", "old", "good"
			case "EXTERNAL":
				n.SASL.Mechanism = "EXTERNAL"
				n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = []byte{1}, []byte{2}
			}
		})
		srv.Caps = []string{"sasl"}
		var pre []string // what was used at registration
		srv.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
			if m.Command != "AUTHENTICATE" {
				return false
			}
			if !uc.Registered {
				pre = append(pre, strings.Join(m.Params, " "))
				return false
			}
			if m.Params[0] == b64("\x00acct\x00bad") {
				uc.Send(":s 904 " + uc.Nick + " :SASL authentication failed")
				return true
			}
			return false
		}
		w.Start()
		want := func(saved string) string {
			switch saved {
			case "none":
				return "[]"
			case "EXTERNAL":
				return "[EXTERNAL +]"
			}
			user, pw, _ := strings.Cut(saved, ":")
			return "[PLAIN " + b64("\x00"+user+"\x00"+pw) + "]"
		}
		if !replies {
			c.Check(fmt.Sprint(pre) == want(s.saved), "the bouncer logs in with %v, want %s", pre, want(s.saved))
		}
		a := w.Connect("a", kit.ConnOpts{User: "alice", Network: "net", Caps: []string{"sasl"}})
		// the capability is withdrawn while the server is away
		again := func() {
			a.Send("CAP REQ :sasl")
			a.Send("AUTHENTICATE *")
			w.Settle()
		}
		for _, act := range seq {
			c.Step(act)
			prev := s
			s = loginStep(s, act)
			if act == "reconnect" {
				pre = nil
				srv.Drop()
				w.AwaitLive(srv, time.Minute)
				if !replies {
					c.Check(fmt.Sprint(pre) == want(s.saved), "after a reconnect the bouncer logs in with %v, want %s", pre, want(s.saved))
				}
				again()
				continue
			}
			a.Take()
			srv.Take()
			a.Send(loginLine(act))
			w.Settle()
			var got, up []string
			for _, m := range a.Take() {
				switch m.Command {
				case "902", "903", "904", "905", "906", "907", "AUTHENTICATE":
					got = append(got, m.Command)
				}
			}
			for _, m := range srv.Take() {
				if m.Command == "AUTHENTICATE" {
					up = append(up, "AUTHENTICATE "+strings.Join(m.Params, " "))
				}
			}
			if replies {
				c.Check(fmt.Sprint(got) == s.replay, "%q is answered with %v, want %s", loginLine(act), got, s.replay)
			} else {
				c.Check(kit.Eq(up, s.up), "%q makes the bouncer send %s, want %s", loginLine(act), kit.Q(up), kit.Q(s.up))
				n, err := w.DB.ListNetworks(context.Background(), u.ID)
				if !c.Check(err == nil && len(n) == 1 && n[0].ID == rec.ID, "networks: %v", err) {
					return
				}
				saved := "none"
				switch n[0].SASL.Mechanism {
				case "PLAIN":
					saved = n[0].SASL.Plain.Username + ":" + n[0].SASL.Plain.Password
				case "EXTERNAL":
					saved = "EXTERNAL"
				}
				c.Check(saved == s.saved, "the stored credentials are %s, want %s", saved, s.saved)
			}
			if s.saved == "none" && prev.saved != "none" {
				// the network settings have changed
				w.AwaitLive(srv, time.Minute)
				again()
			}
		}
	})
}

// Two clients log in at the same time, and the server takes its time.

type loginPairState struct {
	phase [2]string // "", "open" (the mechanism is chosen), "sent" (waiting for the server)
	creds [2]string
	owner int    // whose attempt the server is busy with, -1 for none
	live  bool   // the owner is still waiting for the result
	given string // the credentials of that attempt
	asked bool   // the server has asked for the credentials
	saved string
	quit  [2]bool
	// the effects of the last event
	replies [2]string
	up      []string
}

func loginPairStep(s loginPairState, e string) loginPairState {
	s.replies, s.up = [2]string{}, nil
	f := strings.Fields(e)
	done := func(reply string) {
		if s.live {
			i := s.owner
			s.phase[i], s.replies[i] = "", reply
			if reply == "[903]" {
				s.saved = s.given + ":good"
			}
		}
		s.owner, s.live, s.asked = -1, false, false
	}
	switch f[0] {
	case "srv":
		switch f[1] {
		case "+":
			s.asked = true
			s.up = []string{"AUTHENTICATE " + b64("\x00"+s.given+"\x00good")}
		case "ok":
			done("[903]")
		case "fail":
			done("[904]")
		case "421":
			i := s.owner
			done("[421]")
			if !s.quit[i] {
				s.replies[i] = "[421]" // even if it has lost interest
			}
		}
		return s
	case "drop":
		for i := range s.phase {
			if s.phase[i] == "sent" {
				s.replies[i] = "[906]"
			}
			s.phase[i] = ""
		}
		s.owner, s.live, s.asked = -1, false, false
		return s
	}
	i := int(f[0][0] - 'a')
	switch f[1] {
	case "start":
		s.phase[i], s.replies[i] = "open", "[AUTHENTICATE]"
	case "abort":
		if s.owner == i {
			s.live = false
		}
		s.phase[i], s.replies[i] = "", "[906]"
	case "quit":
		if s.owner == i {
			s.live = false
		}
		s.phase[i], s.quit[i] = "", true
	default:
		if s.owner >= 0 {
			s.phase[i], s.replies[i] = "", "[904]"
			break
		}
		s.phase[i], s.owner, s.live, s.given = "sent", i, true, f[1]
		s.up = []string{"AUTHENTICATE PLAIN"}
	}
	return s
}

func loginPairEnabled(s loginPairState) []string {
	var l []string
	for i := range s.phase {
		n := string(rune('a' + i))
		if s.quit[i] {
			continue
		}
		switch s.phase[i] {
		case "":
			l = append(l, n+" start")
		case "open":
			l = append(l, n+" acct"+n)
		}
		l = append(l, n+" abort")
		if s.phase[i] == "sent" {
			l = append(l, n+" quit")
		}
	}
	if s.owner >= 0 {
		if !s.asked {
			l = append(l, "srv +", "srv 421")
		} else {
			l = append(l, "srv ok")
		}
		l = append(l, "srv fail")
	}
	if s.owner >= 0 || s.phase[0] == "open" {
		l = append(l, "drop")
	}
	return l
}

func loginPair(r *kit.Run, depth int) {
	init := loginPairState{owner: -1, saved: "none"}
	run := func(seq []string) loginPairState {
		s := init
		for _, e := range seq {
			s = loginPairStep(s, e)
		}
		return s
	}
	r.Bound("two clients logging in to the server: every sequence of %d events", depth)
	r.Tree("pair", depth, func(seq []string) []string { return loginPairEnabled(run(seq)) }, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("alice", nil)
			_, srv := w.AddNetwork(u, "net", nil)
			srv.Caps = []string{"sasl"}
			srv.Hook = func(uc *kit.UpConn, m *ircMessage) bool { return m.Command == "AUTHENTICATE" && uc.Registered }
			drop := 0
			w.Start()
			var cl [2]*kit.Client
			for i := range cl {
				cl[i] = w.Connect(string(rune('a'+i)), kit.ConnOpts{User: "alice", Network: "net", Client: string(rune('a' + i)), Caps: []string{"sasl"}})
			}
			s := init
			for _, e := range seq {
				c.Step(e)
				s = loginPairStep(s, e)
				srv.Take()
				for i := range cl {
					if !s.quit[i] || strings.HasSuffix(e, "quit") {
						cl[i].Take()
					}
				}
				f := strings.Fields(e)
				switch f[0] {
				case "srv":
					uc := srv.Live()
					switch f[1] {
					case "+":
						uc.Send("AUTHENTICATE +")
					case "ok":
						uc.Send(":n1.test 900 " + uc.Nick + " alice!alice@host " + s.given + " :You are now logged in")
						uc.Send(":n1.test 903 " + uc.Nick + " :SASL authentication successful")
					case "421":
						uc.Send(":n1.test 421 " + uc.Nick + " AUTHENTICATE :Unknown command")
					case "fail":
						uc.Send(":n1.test 904 " + uc.Nick + " :SASL authentication failed")
					}
				case "drop":
					drop++
					hook := srv.Hook
					srv.Drop()
					w.AwaitLive(srv, time.Minute)
					srv.Hook = hook
				default:
					x := cl[f[0][0]-'a']
					switch f[1] {
					case "start":
						x.Send("AUTHENTICATE PLAIN")
					case "abort":
						x.Send("AUTHENTICATE *")
					case "quit":
						x.Quit()
					default:
						x.Send("AUTHENTICATE " + b64("\x00"+f[1]+"\x00good"))
					}
				}
				w.Settle()
				for i := range cl {
					if s.quit[i] {
						continue
					}
					var got []string
					for _, m := range cl[i].Take() {
						switch m.Command {
						case "421", "902", "903", "904", "905", "906", "907", "AUTHENTICATE":
							got = append(got, m.Command)
						}
					}
					want := s.replies[i]
					if want == "" {
						want = "[]"
					}
					if e == "drop" && fmt.Sprint(got) != want {
						// an exchange that has not got to the server may end, too
						c.Check(want == "[]" && fmt.Sprint(got) == "[906]", "client %s gets %v, want %s", cl[i].Name, got, want)
					} else {
						c.Check(fmt.Sprint(got) == want, "client %s gets %v, want %s", cl[i].Name, got, want)
					}
				}
				if e == "drop" {
					for i := range cl {
						if !s.quit[i] {
							cl[i].Send("CAP REQ :sasl")
							cl[i].Send("AUTHENTICATE *")
						}
					}
					w.Settle()
				} else {
					var up []string
					for _, m := range srv.Take() {
						if m.Command == "AUTHENTICATE" {
							up = append(up, "AUTHENTICATE "+strings.Join(m.Params, " "))
						}
					}
					c.Check(kit.Eq(up, s.up), "the server gets %s, want %s", kit.Q(up), kit.Q(s.up))
				}
				n, err := w.DB.ListNetworks(context.Background(), u.ID)
				if !c.Check(err == nil && len(n) == 1, "networks: %v", err) {
					return
				}
				saved := "none"
				if n[0].SASL.Mechanism == "PLAIN" {
					saved = n[0].SASL.Plain.Username + ":" + n[0].SASL.Plain.Password
				}
				c.Check(saved == s.saved, "the stored credentials are %s, want %s", saved, s.saved)
				if c.Bad() {
					return
				}
			}
		})
	})
}
