package props

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"golang.org/x/crypto/bcrypt"
	"sojuverif/kit"
)

// C06: no client acts as a user without proving that user's identity.

type c06OAuth struct{}

func (c06OAuth) AuthOAuthBearer(ctx context.Context, db database.Database, token string) (string, error) {
	switch token {
	case "tok-alice":
		return "alice", nil
	case "tok-bob":
		return "bob", nil
	}
	return "", &auth.Error{InternalErr: errors.New("bad token"), ExternalMsg: "Invalid token"}
}

var c06Long = strings.Repeat("d", 400)

func c06Pass(user string) string {
	if user == "dave" {
		return c06Long
	}
	return user
}

type c06State struct {
	nick, neg, sasl bool
	user, pass      string
	mech, pend      string // SASL exchange in progress
	fail            bool   // the OAUTHBEARER exchange already failed
	auth            string
	authnet         bool
	bind            int // 0 none, 1 alice's, 2 bob's, 9 unknown
	end             string
}

func (s c06State) key() string { return fmt.Sprintf("%+v", s) }

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

var c06Payloads = map[string]string{
	"p:alice":       "\x00alice\x00alice",
	"p:alice/net":   "\x00alice/net\x00alice",
	"p:alice-self":  "alice\x00alice\x00alice",
	"p:wrong":       "\x00alice\x00bob",
	"p:emptypw":     "\x00alice\x00",
	"p:emptyuser":   "\x00\x00alice",
	"p:bob":         "\x00bob\x00bob",
	"p:bobasalice":  "alice\x00bob\x00bob",
	"p:rootasalice": "alice\x00root\x00root",
	"p:rootwrong":   "alice\x00root\x00alice",
	"p:rootasghost": "ghost\x00root\x00root",
	"p:rootas/net":  "alice/net@cl\x00root\x00root",
	"p:alice-net":   "alice/net\x00alice\x00alice",
	"p:alicex":      "alicex\x00alice\x00alice",
	"p:carl":        "\x00carl\x00carl",
	"p:short":       "alice\x00alice",
	"p:many":        "\x00alice\x00alice\x00",
	"o:alice":       "n,a=alice,\x01auth=Bearer tok-alice\x01\x01",
	"o:noname":      "n,,\x01auth=Bearer tok-bob\x01\x01",
	"o:mismatch":    "n,a=alice,\x01auth=Bearer tok-bob\x01\x01",
	"o:bad":         "n,a=alice,\x01auth=Bearer nope\x01\x01",
	"o:bad2":        "n,a=alice,\x01auth=Basic tok-alice\x01\x01",
}

// c06Line gives the raw line of an action.
func c06Line(a string) string {
	if p, ok := c06Payloads[a]; ok {
		return "AUTHENTICATE " + b64(p)
	}
	dave := b64("\x00dave\x00" + c06Long)
	switch a {
	case "dave1":
		return "AUTHENTICATE " + dave[:400]
	case "dave2":
		return "AUTHENTICATE " + dave[400:]
	case "badb64":
		return "AUTHENTICATE !!!"
	case "399":
		return "AUTHENTICATE " + dave[:399]
	case "396":
		return "AUTHENTICATE " + dave[:396]
	case "400":
		return "AUTHENTICATE " + strings.Repeat("A", 400)
	}
	return a
}

func c06Enabled(s c06State) []string {
	if s.end != "" {
		return nil
	}
	l := []string{"NICK zoe", "USER alice 0 * :r", "USER alice/net 0 * :r", "USER bob 0 * :r", "USER carl 0 * :r", "USER ghost 0 * :r",
		"PASS alice", "PASS bob", "PASS :", "PASS root",
		"CAP LS 302", "CAP REQ :sasl", "CAP REQ :-sasl", "CAP END",
		"AUTHENTICATE PLAIN", "AUTHENTICATE OAUTHBEARER", "AUTHENTICATE ANONYMOUS", "AUTHENTICATE *", "AUTHENTICATE +", "AUTHENTICATE",
		"BOUNCER BIND 1", "BOUNCER BIND 2", "BOUNCER BIND 99", "PROBE"}
	if s.sasl && s.mech != "" {
		for _, k := range kit.Keys(c06Payloads) {
			if k[0] == 'p' && s.mech != "OAUTHBEARER" || k[0] == 'o' && s.mech == "OAUTHBEARER" || k == "p:alice" || k == "o:alice" {
				l = append(l, k)
			}
		}
		l = append(l, "dave1", "badb64")
		if s.pend != "" {
			l = append(l, "dave2")
		}
	} else {
		l = append(l, "p:alice")
	}
	return l
}

var c06Probes = []string{"PRIVMSG BouncerServ :network status", "PRIVMSG BouncerServ :user status", "BOUNCER LISTNETWORKS", "JOIN #secret", "PRIVMSG #secret :hi",
	"NAMES #secret", "WHO *", "WHOIS zoe", "LIST", "CHATHISTORY LATEST #secret * 10", "CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2030-01-01T00:00:00.000Z 10",
	"MARKREAD #secret", "WEBPUSH REGISTER https://x.test/ p256dh=AA;auth=BB", "BOUNCER DELNETWORK 1", "SEARCH from=bob", "MONITOR L", "REGISTER * * pw", "TOPIC #secret", "MOTD", "PONG soju-msgid-x", "PING x", "AWAY"}

// c06Replies gives the numerics (and challenges) which answer an
// AUTHENTICATE message received in a state.
func c06Replies(s c06State, a string) string {
	f := strings.Fields(c06Line(a))
	t := c06Step(s, a)
	switch {
	case !s.sasl || len(f) == 1:
		return "[904]"
	case f[1] == "*":
		return "[906]"
	case t.end == "error":
		return ""
	case s.mech == "" && t.mech != "":
		return "[AUTHENTICATE+]"
	case s.mech == "":
		return "[904]"
	case !s.fail && t.fail:
		return "[AUTHENTICATE]"
	case t.mech != "":
		return "[]"
	case c06Accepted(s, t, a):
		return "[903]"
	}
	return "[904]"
}

func c06Accepted(s, t c06State, a string) bool {
	s.auth, s.nick = "", false
	return c06Step(s, a).auth != ""
}

// c06Step is the reference for the registration protocol.
func c06Step(s c06State, a string) c06State {
	line := c06Line(a)
	f := strings.SplitN(line, " ", 2)
	arg := ""
	if len(f) > 1 {
		arg = strings.TrimPrefix(f[1], ":")
	}
	switch f[0] {
	case "NICK":
		s.nick = true
	case "USER":
		s.user = strings.Fields(arg)[0]
	case "PASS":
		s.pass = arg
	case "CAP":
		switch arg {
		case "LS 302":
			s.neg = true
		case "REQ :sasl":
			s.neg, s.sasl = true, true
		case "REQ :-sasl":
			s.neg, s.sasl = true, false
		case "END":
			s.neg = false
		}
	case "BOUNCER":
		if s.auth != "" {
			fmt.Sscanf(arg, "BIND %d", &s.bind)
		}
	case "AUTHENTICATE":
		if !s.sasl || len(f) == 1 || arg == "*" {
			s.mech, s.pend, s.fail = "", "", false
			break
		}
		if s.mech == "" {
			switch arg {
			case "PLAIN", "OAUTHBEARER", "ANONYMOUS":
				s.mech = arg
			}
			break
		}
		chunk := arg
		if chunk == "+" {
			chunk = ""
		}
		if len(s.pend)+len(chunk) > 10*1024 {
			s.mech, s.pend, s.fail = "", "", false
			break
		}
		s.pend += chunk
		if len(chunk) == 400 {
			break
		}
		resp, err := base64.StdEncoding.DecodeString(s.pend)
		mech, fail := s.mech, s.fail
		s.pend = ""
		if err != nil {
			s.mech, s.fail = "", false
			break
		}
		ok := ""
		net := false
		switch mech {
		case "PLAIN":
			p := bytes.Split(resp, []byte{0})
			if len(p) != 3 {
				s.end = "error"
				return s
			}
			id, user, pw := string(p[0]), string(p[1]), string(p[2])
			name, netname, hasNet := strings.Cut(user, "/")
			known := name == "alice" || name == "bob" || name == "root" || name == "carl" || name == "dave"
			if known && pw == c06Pass(name) {
				ok, net = name, hasNet && netname == "net"
				if id != "" && id != user {
					ok = ""
					if name == "root" && id != "ghost" {
						ok, _, net = strings.Cut(id, "/")
					}
				}
			}
		case "OAUTHBEARER":
			if len(resp) == 0 {
				break
			}
			if fail {
				s.end = "error"
				return s
			}
			switch string(resp) {
			case c06Payloads["o:alice"]:
				ok = "alice"
			case c06Payloads["o:noname"]:
				ok = "bob"
			case c06Payloads["o:mismatch"], c06Payloads["o:bad"]:
			default:
				s.fail = true
				return s.tryRegister()
			}
		case "ANONYMOUS":
		}
		s.mech, s.fail = "", false
		if ok != "" {
			s.auth, s.authnet = ok, net
		}
	}
	return s.tryRegister()
}

func (s c06State) tryRegister() c06State {
	if !s.nick || s.user == "" || s.neg {
		return s
	}
	name, _, hasNet := strings.Cut(s.user, "/")
	if s.auth == "" {
		if s.pass == "" || s.pass != c06Pass(name) || name == "ghost" {
			s.end = "refused"
			return s
		}
		s.auth = name
	}
	if s.auth == "carl" {
		s.end = "refused"
		return s
	}
	id := 0
	switch {
	case s.bind != 0:
		id = s.bind
		if !(id == 1 && s.auth == "alice" || id == 2 && s.auth == "bob") {
			s.end = "refused"
			return s
		}
	case hasNet || s.authnet:
		id = map[string]int{"alice": 1, "bob": 2, "root": 3, "dave": 5}[s.auth]
	}
	s.end = fmt.Sprintf("%s %d", s.auth, id)
	return s
}

func c06Setup(w *kit.World) {
	w.Cfg.MsgStoreDriver = "db"
	w.Cfg.Auth = &auth.Authenticator{Plain: w.Auth, OAuthBearer: c06OAuth{}}
	for _, n := range []string{"alice", "bob", "root", "carl", "dave"} {
		u := w.AddUser(n, func(u *database.User) {
			u.Admin = n == "root"
			u.Enabled = n != "carl"
			u.Realname = "secret-realname-" + n
		})
		w.Auth.Pass[n] = c06Pass(n)
		w.AddNetwork(u, "net", func(rec *database.Network) {
			rec.Addr = "irc+insecure://secret-" + n + ".test"
			rec.Nick = "secretnick-" + n
		})
		srv := w.Server("secret-" + n + ".test:6667")
		_ = srv
	}
	w.Start()
}

// c06Leak looks for user data in what an unauthenticated client received.
func c06Leak(raw []string) string {
	for _, l := range raw {
		if strings.Contains(l, "secret") || strings.Contains(l, "BOUNCER NETWORK") {
			return l
		}
	}
	return ""
}

func c06Exec(r *kit.Run, key string, seq []string) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		c06Setup(w)
		cl := w.Dial("c")
		st := c06State{}
		for _, s := range w.Servers {
			s.Take()
		}
		upstream := func() string {
			for _, s := range w.Servers {
				if l := s.Take(); len(l) > 0 {
					return fmt.Sprint(l)
				}
			}
			return ""
		}
		for _, a := range seq {
			c.Step(a)
			next := c06Step(st, a)
			if a == "PROBE" {
				for _, p := range c06Probes {
					cl.Send(p)
				}
			} else {
				cl.Take()
				cl.Send(c06Line(a))
			}
			w.Settle()
			if strings.HasPrefix(c06Line(a), "AUTHENTICATE") {
				got := []string{}
				for _, m := range cl.Take() {
					switch m.Command {
					case "AUTHENTICATE":
						if m.Params[0] == "+" {
							got = append(got, "AUTHENTICATE+")
						} else {
							got = append(got, "AUTHENTICATE")
						}
					case "900", "901", "902", "903", "904", "905", "906", "907", "908":
						got = append(got, m.Command)
					}
				}
				want := c06Replies(st, a)
				c.Check(want == "" || fmt.Sprint(got) == want, "%.60q is answered with %v, want %s", c06Line(a), got, want)
			}
			if next.end == "" || next.end == "refused" || next.end == "error" {
				c.Check(!cl.Registered(), "a session was opened without valid credentials: %s", kit.Q(cl.Raw))
				l := c06Leak(cl.Raw)
				c.Check(l == "" || strings.HasPrefix(l, "ECHO"), "user data sent before authentication: %q", l)
				u := upstream()
				c.Check(u == "", "an unauthenticated client caused upstream traffic: %s", u)
			}
			switch next.end {
			case "":
				c.Check(!cl.Closed(), "the connection was closed although registration can go on: %s", kit.Q(cl.Raw))
			case "refused":
				c.Check(cl.Closed(), "the connection is not closed after failed authentication: %s", kit.Q(cl.Raw))
				ok := false
				for _, m := range cl.All {
					switch m.Command {
					case "ERROR", "464", "FAIL", "432", "904":
						ok = true
					}
				}
				c.Check(ok, "no error was reported for the failed authentication: %s", kit.Q(cl.Raw))
				return
			case "error":
				return // closed or answered with an error; not logged in
			default:
				f := strings.Fields(next.end)
				if !c.Check(cl.Registered() && !cl.Closed(), "valid credentials of %s were not accepted: %s", f[0], kit.Q(cl.Raw)) {
					return
				}
				for _, l := range cl.Raw {
					for _, o := range []string{"alice", "bob", "root", "carl", "dave"} {
						if o != f[0] && (strings.Contains(l, "secret-"+o) || strings.Contains(l, "realname-"+o) || strings.Contains(l, "secretnick-"+o)) {
							c.Violatef("session of %s received data of %s: %q", f[0], o, l)
						}
					}
				}
				id := "0"
				for _, m := range cl.All {
					if m.Command == "005" {
						for _, p := range m.Params {
							if strings.HasPrefix(p, "BOUNCER_NETID=") {
								id = strings.TrimPrefix(p, "BOUNCER_NETID=")
							}
						}
					}
				}
				c.Check(id == f[1], "the session of %s is bound to network %s, want %s", f[0], id, f[1])
				cl.Take()
				list := strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :network status")), "\n")
				c.Check(strings.Contains(list, "secret-"+f[0]+".test"), "session of %s lists networks %q", f[0], list)
				for _, o := range []string{"alice", "bob", "root", "carl", "dave"} {
					c.Check(o == f[0] || !strings.Contains(list, "secret-"+o), "session of %s lists networks of %s: %q", f[0], o, list)
				}
				return
			}
			st = next
		}
		// The registration must end one way or the other.
		w.Sleep(40 * time.Second)
		c.Check(cl.Closed() && !cl.Registered(), "an unauthenticated connection is not closed in time")
	})
}

func TestC06(t *testing.T) {
	r := kit.Start(t, "C06")
	// Afterwards: complete the registration without further credentials.
	epi := func(s c06State) []string {
		var out []string
		for _, a := range []string{"PROBE", "NICK zoe", "USER alice 0 * :r", "CAP END", "PROBE"} {
			if s.end != "" {
				break
			}
			out = append(out, a)
			s = c06Step(s, a)
		}
		return out
	}
	kit.GraphEpi(r, "graph", c06State{}, c06State.key, c06Enabled, c06Step, r.Pick(6, 8), epi, func(key string, seq []string) { c06Exec(r, key, seq) })
	r.Tree("tree", r.Pick(3, 4), func(seq []string) []string {
		var s c06State
		for _, a := range seq {
			s = c06Step(s, a)
		}
		return c06Enabled(s)
	}, func(key string, seq []string) { c06Exec(r, key, seq) })

	// The exchange alone, on a connection that lacks nothing else. Whatever
	// happens, a correct exchange afterwards opens the session.
	pre := []string{"CAP REQ :sasl", "NICK zoe", "USER alice 0 * :r"}
	r.Tree("exchange", r.Pick(4, 5), func(seq []string) []string {
		var s c06State
		for _, a := range append(append([]string{}, pre...), seq...) {
			s = c06Step(s, a)
		}
		if s.end != "" {
			return nil
		}
		l := []string{"AUTHENTICATE PLAIN", "AUTHENTICATE OAUTHBEARER", "AUTHENTICATE ANONYMOUS", "AUTHENTICATE BOGUS", "AUTHENTICATE *", "AUTHENTICATE +", "AUTHENTICATE"}
		if s.mech == "" {
			return append(l, "p:alice")
		}
		if s.mech == "OAUTHBEARER" {
			return append(l, "o:alice", "o:bad", "o:bad2", "badb64", "400")
		}
		return append(l, "p:alice", "p:wrong", "p:rootas/net", "p:rootwrong", "p:alicex", "dave1", "dave2", "badb64", "399", "396", "400")
	}, func(key string, seq []string) {
		full := append(append([]string{}, pre...), seq...)
		var s c06State
		for _, a := range full {
			s = c06Step(s, a)
		}
		for _, a := range []string{"AUTHENTICATE *", "AUTHENTICATE PLAIN", "p:alice", "CAP END"} {
			if s.end == "" {
				full = append(full, a)
				s = c06Step(s, a)
			}
		}
		c06Exec(r, key, full)
	})
	// Every payload with every mechanism, and long responses.
	for _, mech := range []string{"PLAIN", "OAUTHBEARER", "ANONYMOUS"} {
		for _, p := range kit.Keys(c06Payloads) {
			c06Exec(r, "payload:"+mech+","+p, append(append([]string{}, pre...), "AUTHENTICATE "+mech, p, "CAP END"))
		}
		for n := 20; n <= 30; n++ {
			for _, last := range []string{"400", "399", "396", "p:alice", "AUTHENTICATE +"} {
				seq := append(append([]string{}, pre...), "AUTHENTICATE "+mech)
				for i := 0; i < n; i++ {
					seq = append(seq, "400")
				}
				seq = append(seq, last)
				var s c06State
				for _, a := range seq {
					s = c06Step(s, a)
				}
				if s.end == "" {
					seq = append(seq, "AUTHENTICATE PLAIN", "p:alice", "CAP END")
				}
				c06Exec(r, fmt.Sprintf("long:%s,%d,%s", mech, n, last), seq)
			}
		}
	}

	// The built-in password database.
	low, _ := bcrypt.GenerateFromPassword([]byte("s3cret"), bcrypt.MinCost)
	def, _ := bcrypt.GenerateFromPassword([]byte("s3cret"), bcrypt.DefaultCost)
	stored := map[string]string{"low": string(low), "default": string(def), "none": "", "garbage": "s3cret"}
	for _, k := range kit.Keys(stored) {
		for _, pw := range []string{"s3cret", "S3cret", "s3cret ", "s3cre", "s3crett", "", string(def), string(low), strings.Repeat("s3cret", 20)} {
			for _, mode := range []string{"direct", "pass", "sasl"} {
				if mode == "pass" && (pw == "" || strings.Contains(pw, " ")) {
					continue
				}
				label := pw
				if len(label) > 20 {
					label = fmt.Sprintf("%s...%d", map[bool]string{true: "long", false: "hash"}[pw[0] == 's'], len(pw)) + map[bool]string{true: "L", false: "D"}[pw == string(low)]
				}
				r.World(fmt.Sprintf("internal:%s,%q,%s", k, label, mode), func(c *kit.Ctx, w *kit.World) {
					w.Cfg.Auth = auth.NewInternal()
					w.AddUser("alice", func(u *database.User) { u.Password = stored[k] })
					w.AddUser("bob", func(u *database.User) { u.Password = string(low[:len(low)-1]) })
					want := pw == "s3cret" && (k == "low" || k == "default")
					if mode == "direct" {
						err := w.Cfg.Auth.Plain.AuthPlain(context.Background(), w.DB, "alice", pw)
						c.Check((err == nil) == want, "password %q against a stored %s hash: %v", pw, k, err)
						err = w.Cfg.Auth.Plain.AuthPlain(context.Background(), w.DB, "ghost", pw)
						c.Check(err != nil, "unknown user accepted")
						err = w.Cfg.Auth.Plain.AuthPlain(context.Background(), w.DB, "", pw)
						c.Check(err != nil, "empty user accepted")
						u, err := w.DB.GetUser(context.Background(), "alice")
						c.Check(err == nil, "GetUser: %v", err)
						if stored[k] == "" || stored[k] == "s3cret" {
							c.Check(u.Password == stored[k], "stored password changed to %q", u.Password)
						} else {
							c.Check(bcrypt.CompareHashAndPassword([]byte(u.Password), []byte("s3cret")) == nil, "the stored hash no longer matches the password")
						}
						return
					}
					w.Start()
					cl := w.Dial("c")
					if mode == "pass" {
						cl.Send("PASS :" + pw)
					} else {
						cl.Send("CAP REQ :sasl")
						cl.Send("AUTHENTICATE PLAIN")
						cl.Send("AUTHENTICATE " + b64("\x00alice\x00"+pw))
					}
					cl.Send("NICK alice")
					cl.Send("USER alice 0 * :x")
					cl.Send("CAP END")
					w.Settle()
					c.Check(cl.Registered() == want, "password %q against a stored %s hash: logged in=%v: %s", pw, k, cl.Registered(), kit.Q(cl.Raw))
					c.Check(cl.Closed() == !want, "password %q: connection closed=%v", pw, cl.Closed())
				})
			}
		}
	}
	// Password changes and disabling take effect at once.
	for _, how := range []string{"self", "-password n3w", "-password n3w -admin true", "-admin true -password n3w", "-password n3w -enabled true", "-password n3w -max-networks 7", "-disable-password", "-disable-password -admin false"} {
		r.World("change:"+how, func(c *kit.Ctx, w *kit.World) {
			w.Cfg.Auth = auth.NewInternal()
			w.AddUser("alice", func(u *database.User) { u.Password = string(def) })
			w.AddUser("root", func(u *database.User) { u.Password = string(def); u.Admin = true })
			w.Start()
			a := w.Connect("a", kit.ConnOpts{User: "alice", Pass: "s3cret"})
			ro := w.Connect("r", kit.ConnOpts{User: "root", Pass: "s3cret"})
			c.Check(a.Registered() && ro.Registered(), "login failed")
			if how == "self" {
				a.Do("PRIVMSG BouncerServ :user update -password n3w")
			} else {
				ro.Do("PRIVMSG BouncerServ :user update alice " + how)
			}
			w.Settle()
			if how != "self" {
				c.Check(a.Closed(), "the session opened with the old password survives the password change")
			}
			c.Check(!w.Connect("a2", kit.ConnOpts{User: "alice", Pass: "s3cret"}).Registered(), "the old password still works")
			works := w.Connect("a3", kit.ConnOpts{User: "alice", Pass: "n3w"}).Registered()
			c.Check(works != strings.HasPrefix(how, "-disable"), "the new password works: %v", works)
			for _, pw := range []string{"alice", "x"} {
				c.Check(!w.Connect("a4", kit.ConnOpts{User: "alice", Pass: pw}).Registered(), "a wrong password works")
			}
			c.Check(w.Connect("r2", kit.ConnOpts{User: "root", Pass: "s3cret"}).Registered(), "another user's password changed")
			c.Check(!w.Connect("r3", kit.ConnOpts{User: "root", Pass: "n3w"}).Registered(), "another user's password changed")
		})
	}
	// The administration socket is not an IRC server.
	for _, first := range []string{"NICK x", "USER x 0 * :x", "PASS root", "CAP LS"} {
		r.World("admin:"+first, func(c *kit.Ctx, w *kit.World) {
			c06Setup(w)
			a := w.DialAdmin("a")
			a.Do(first)
			c.Check(a.Closed(), "the administration socket accepts %q", first)
			a2 := w.DialAdmin("a2")
			a2.Send("BOUNCERSERV :user status")
			w.Settle()
			c.Check(strings.Contains(strings.Join(a2.Raw, "\n"), "alice"), "the administration socket does not work: %s", kit.Q(a2.Raw))
		})
	}
}
