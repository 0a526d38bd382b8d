package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C20: secrets sent to services.

// c20Creds are the credentials saved for a network.
type c20Creds struct{ mech, user, pass string }

type c20World struct {
	c              *kit.Ctx
	w              *kit.World
	store, dir     string
	n1, n2, n3     *kit.UpServer
	id1, id2       int64
	user           *database.User
	a, b, d, z, un *kit.Client
	saslErr        string
	caps           string
	uniq           int
}

var c20Caps = map[string][]string{
	"none":    {"sasl=PLAIN", "draft/account-registration", "message-tags"},
	"echo":    {"sasl=PLAIN", "draft/account-registration", "message-tags", "labeled-response", "echo-message", "batch"},
	"labeled": {"sasl=PLAIN", "draft/account-registration", "message-tags", "labeled-response", "batch"},
	"nosasl":  {"message-tags"},
}

func c20New(c *kit.Ctx, w *kit.World, store, caps string, init c20Creds) *c20World {
	x := &c20World{c: c, w: w, store: store, caps: caps}
	w.Cfg.MsgStoreDriver = store
	if store == "fs" {
		x.dir = w.TempDir()
		w.Cfg.MsgStorePath = x.dir
	}
	u := w.AddUser("alice", func(u *database.User) { u.Admin = true })
	x.user = u
	set := func(n *database.Network) {
		n.SASL.Mechanism = init.mech
		n.SASL.Plain.Username, n.SASL.Plain.Password = init.user, init.pass
		if init.mech == "EXTERNAL" {
			n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = []byte{1}, []byte{2}
		}
	}
	r1, s1 := w.AddNetwork(u, "n1", set)
	r2, s2 := w.AddNetwork(u, "n2", set)
	x.id1, x.id2 = r1.ID, r2.ID
	zoe := w.AddUser("zoe", nil)
	_, s3 := w.AddNetwork(zoe, "n3", nil)
	x.n1, x.n2, x.n3 = s1, s2, s3
	for _, s := range []*kit.UpServer{s1, s2, s3} {
		s.Caps = c20Caps[caps]
		s.Hook = x.hook
	}
	w.Start()
	x.connect()
	return x
}

// connect attaches all clients.
func (x *c20World) connect() {
	caps := []string{"message-tags", "echo-message", "batch", "soju.im/bouncer-networks"}
	x.a = x.w.Connect("a", kit.ConnOpts{User: "alice", Network: "n1", Client: "a", Nick: "alice", Caps: caps})
	x.b = x.w.Connect("b", kit.ConnOpts{User: "alice", Network: "n1", Client: "b", Nick: "alice"})
	x.d = x.w.Connect("d", kit.ConnOpts{User: "alice", Network: "n2", Client: "d", Nick: "alice"})
	x.un = x.w.Connect("un", kit.ConnOpts{User: "alice", Client: "un", Nick: "alice", Caps: append(caps, "soju.im/bouncer-networks-notify")})
	for _, m := range x.a.All {
		if m.Command == "CAP" && len(m.Params) > 1 && m.Params[1] == "NAK" {
			panic("harness: capabilities refused")
		}
	}
	x.z = x.w.Connect("z", kit.ConnOpts{User: "zoe", Network: "n3", Client: "z", Nick: "zoe"})
}

func (x *c20World) hook(uc *kit.UpConn, m *ircMessage) bool {
	switch m.Command {
	case "PRIVMSG", "NOTICE":
		if uc.Caps["echo-message"] {
			tags := ""
			if l := string(m.Tags["label"]); l != "" {
				tags = "@label=" + l + " "
			}
			uc.Send(tags + ":" + uc.Mask() + " " + m.Command + " " + m.Params[0] + " :" + m.Params[1])
		}
		return true
	case "AUTHENTICATE":
		if m.Params[0] != "PLAIN" && m.Params[0] != "EXTERNAL" && m.Params[0] != "*" && x.saslErr != "" {
			uc.Send(":n1.test " + x.saslErr + " " + uc.Nick + " :SASL authentication failed")
			return true
		}
	case "REGISTER":
		return true // answered by the scenario
	}
	return false
}

// stored is everything in the message store.
func (x *c20World) stored() string {
	var b strings.Builder
	switch x.store {
	case "fs":
		filepath.Walk(x.dir, func(path string, info os.FileInfo, err error) error {
			if err == nil {
				b.WriteString(strings.ToLower(path) + "\n")
				if info.Mode().IsRegular() {
					t, _ := os.ReadFile(path)
					b.Write(t)
				}
			}
			return nil
		})
	case "db":
		users, _ := x.w.DB.ListUsers(context.Background())
		for _, u := range users {
			nets, _ := x.w.DB.ListNetworks(context.Background(), u.ID)
			for _, n := range nets {
				opts := &database.MessageOptions{BeforeTime: time.Now().Add(time.Hour), Limit: 1000, Events: true}
				targets, _ := x.w.DB.ListMessageLastPerTarget(context.Background(), n.ID, opts)
				for _, t := range targets {
					fmt.Fprintf(&b, "/%s\n", t.Name)
					msgs, _ := x.w.DB.ListMessages(context.Background(), n.ID, t.Name, opts)
					for _, m := range msgs {
						b.WriteString(m.String() + "\n")
					}
				}
			}
		}
	}
	return b.String()
}

// sinks returns where a secret can be found.
func (x *c20World) sinks(secrets ...string) []string {
	var out []string
	in := func(name, text string) {
		for _, s := range secrets {
			if strings.Contains(text, s) {
				out = append(out, name)
				return
			}
		}
	}
	for _, cl := range x.w.Clients {
		in("client "+cl.Name, strings.Join(cl.Raw, "\n"))
	}
	for addr, s := range x.w.Servers {
		var t []string
		for _, uc := range s.Conns {
			t = append(t, uc.Raw...)
		}
		in("server "+addr, strings.Join(t, "\n"))
	}
	in("store", x.stored())
	in("bouncer log", x.w.Log.String())
	return kit.Sorted(out)
}

// only checks that a secret is nowhere but in the places allowed.
func (x *c20World) only(what, secret, user string, allowed ...string) []string {
	l := x.sinks(secret, b64("\x00"+user+"\x00"+secret))
	for _, s := range l {
		ok := false
		for _, a := range allowed {
			ok = ok || a == s
		}
		x.c.Check(ok, "%s: secret found in: %s", what, s)
	}
	return l
}

func (x *c20World) record(id int64) *database.Network {
	nets, err := x.w.DB.ListNetworks(context.Background(), x.user.ID)
	if err != nil {
		panic(err)
	}
	for i := range nets {
		if nets[i].ID == id {
			return &nets[i]
		}
	}
	return nil
}

func (x *c20World) creds(id int64) c20Creds {
	r := x.record(id)
	return c20Creds{r.SASL.Mechanism, r.SASL.Plain.Username, r.SASL.Plain.Password}
}

// c20NickServ is the reference for the commands of NickServ.
func c20NickServ(cur c20Creds, nick, cmd, text string) c20Creds {
	if cmd != "PRIVMSG" || (cur.mech != "" && cur.mech != "PLAIN") {
		return cur
	}
	f := strings.Fields(text)
	if len(f) < 2 {
		return cur
	}
	switch strings.ToLower(f[0]) {
	case "register":
		return c20Creds{"PLAIN", nick, f[1]}
	case "identify":
		if len(f) == 2 {
			return c20Creds{"PLAIN", nick, f[1]}
		}
		return c20Creds{"PLAIN", f[1], f[2]}
	case "set":
		if len(f) == 3 && strings.ToLower(f[1]) == "password" {
			return c20Creds{"PLAIN", nick, f[2]}
		}
	}
	return cur
}

var c20Inits = map[string]c20Creds{
	"none":  {},
	"plain": {"PLAIN", "old", "oldpw"},
	"ext":   {"EXTERNAL", "", ""},
}

const c20Secret = "Tr0ub4dor"

// c20Command sends one command to NickServ.
func c20Command(c *kit.Ctx, w *kit.World, store, caps, init, cmd, target, text string) {
	x := c20New(c, w, store, caps, c20Inits[init])
	want := c20NickServ(c20Inits[init], "alice", cmd, text)
	before := c20Inits[init]
	w.SleepCoarse(1500 * time.Millisecond)
	c.Step(cmd + " " + target + " :" + text)
	x.a.Send("@label=x1 " + cmd + " " + target + " :" + text)
	w.SleepCoarse(1500 * time.Millisecond)
	c.Check(x.creds(x.id1) == want, "saved credentials are %q, want %q", x.creds(x.id1), want)
	c.Check(x.creds(x.id2) == before, "credentials of another network changed to %q", x.creds(x.id2))
	n := 0
	for _, m := range x.n1.Last().All {
		if m.Command == cmd && len(m.Params) == 2 && m.Params[0] == target && m.Params[1] == text {
			n++
		}
	}
	c.Check(n == 1, "the server got the message %d times", n)
	// replies from the service
	from := ":" + target + "!s@services "
	x.n1.Last().Send(from + "NOTICE alice :your password is " + c20Secret)
	x.n1.Last().Send(from + "PRIVMSG alice :your password is " + c20Secret)
	w.SleepCoarse(1500 * time.Millisecond)
	// what a returning client gets
	x.a.Quit()
	x.b.Quit()
	w.Settle()
	x.n1.Last().Send(from + "NOTICE alice :again, " + c20Secret)
	w.SleepCoarse(1500 * time.Millisecond)
	x.connectLate()
	allowed := []string{"client a", "client b", "server n1.test:6667"}
	if want.user == c20Secret {
		allowed = append(allowed, "bouncer log") // where the username is expected
	}
	x.only("NickServ", c20Secret, "alice", allowed...)
	c.Check(!strings.Contains(strings.ToLower(x.stored()), "/nickserv"), "a log for NickServ exists")
	for _, m := range append(x.a.All, x.b.All...) {
		if m.Command != "PRIVMSG" && m.Command != "NOTICE" {
			continue
		}
		l := string(m.Tags["label"])
		c.Check(l == "", "a message has the label %q: %v", l, m)
	}
	if store != "memory" {
		h := w.Connect("hist", kit.ConnOpts{User: "alice", Network: "n1", Client: "h", Nick: "alice", Caps: []string{"draft/chathistory", "message-tags", "batch", "server-time"}})
		h.Take()
		l := append(h.Do("CHATHISTORY LATEST "+target+" * 50"), h.Do("CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2050-01-01T00:00:00.000Z 50")...)
		for _, m := range l {
			c.Check(m.Command == "BATCH", "history: %v", m)
		}
	}
}

func (x *c20World) connectLate() {
	x.w.Connect("late-a", kit.ConnOpts{User: "alice", Network: "n1", Client: "a", Nick: "alice"})
	x.w.Connect("late-n", kit.ConnOpts{User: "alice", Network: "n1", Client: "fresh", Nick: "alice"})
}

// ---- commands for the bouncer itself ---------------------------------------

type c20Bouncer struct {
	name, by, line string
	allowed        []string
}

var c20Bouncers = []c20Bouncer{
	{"set-plain", "a", "PRIVMSG BouncerServ :sasl set-plain acct %s", []string{"client a", "server n1.test:6667"}},
	{"set-plain-case", "a", "PRIVMSG bouncerserv :SASL set-plain acct %s", []string{"client a", "server n1.test:6667"}},
	{"set-plain-upper", "b", "PRIVMSG BOUNCERSERV :sasl set-plain acct %s", []string{"client b", "server n1.test:6667"}},
	{"set-plain-other", "d", "PRIVMSG BouncerServ :sasl set-plain -network n1 acct %s", []string{"client d", "server n1.test:6667"}},
	{"set-plain-unbound", "un", "PRIVMSG BouncerServ :sasl set-plain -network n1 acct %s", []string{"client un", "server n1.test:6667"}},
	{"notice", "a", "NOTICE BouncerServ :sasl set-plain acct %s", []string{"client a"}},
	{"twice", "a", "PRIVMSG BouncerServ,bouncerserv :user update -password %s", []string{"client a"}},
	{"unknown", "a", "PRIVMSG BouncerServ :sasl set-plian acct %s", []string{"client a"}},
	{"quoting", "a", "PRIVMSG BouncerServ :sasl set-plain acct '%s", []string{"client a"}},
	{"create", "a", "PRIVMSG BouncerServ :network create -addr irc+insecure://n4.test -name n4 -pass %s", []string{"client a", "server n4.test:6667"}},
	{"create-b", "b", "PRIVMSG BouncerServ :network create -addr irc+insecure://n4.test -name n4 -pass %s", []string{"client b", "server n4.test:6667"}},
	{"update", "a", "PRIVMSG BouncerServ :network update -pass %s", []string{"client a", "server n1.test:6667"}},
	{"update-n2", "a", "PRIVMSG BouncerServ :network update n2 -pass %s", []string{"client a", "server n2.test:6667"}},
	{"password", "a", "PRIVMSG BouncerServ :user update -password %s", []string{"client a"}},
	{"user-create", "un", "PRIVMSG BouncerServ :user create -username carol -password %s", []string{"client un"}},
	{"user-update", "a", "PRIVMSG BouncerServ :user update zoe -password %s", []string{"client a"}},
	{"user-run", "a", "PRIVMSG BouncerServ :user run zoe sasl set-plain -network n3 acct %s", []string{"client a", "server n3.test:6667"}},
	{"addnetwork", "a", "BOUNCER ADDNETWORK name=n4;host=n4.test;port=6667;tls=0;pass=%s", []string{"server n4.test:6667"}},
	{"addnetwork-un", "un", "BOUNCER ADDNETWORK name=n4;host=n4.test;port=6667;tls=0;pass=%s", []string{"server n4.test:6667"}},
	{"changenetwork", "a", "BOUNCER CHANGENETWORK 2 pass=%s", []string{"server n2.test:6667"}},
	{"pass", "a", "PASS %s", nil},
	{"pass-unbound", "un", "PASS %s", nil},
	{"pass-trailing", "b", "pass :%s", nil},
}

func c20ExecBouncer(c *kit.Ctx, w *kit.World, k c20Bouncer, store, caps string) {
	x := c20New(c, w, store, caps, c20Inits["plain"])
	cl := map[string]*kit.Client{"a": x.a, "b": x.b, "d": x.d, "un": x.un}[k.by]
	if cl == nil {
		return
	}
	line := fmt.Sprintf(k.line, c20Secret)
	c.Step(k.by + ": " + line)
	cl.Send(line)
	w.SleepCoarse(1500 * time.Millisecond)
	w.Sleep(20 * time.Second)
	// whatever the clients ask
	for _, y := range []*kit.Client{x.a, x.b, x.d, x.un, x.z} {
		if y.Closed() {
			continue
		}
		y.Send("BOUNCER LISTNETWORKS")
		for _, q := range []string{"network status", "sasl status", "sasl status -network n1", "channel status", "user status", "server status"} {
			y.Send("PRIVMSG BouncerServ :" + q)
			w.Settle()
		}
	}
	x.connectLate()
	x.only(k.name, c20Secret, "acct", k.allowed...)
}

// ---- histories --------------------------------------------------------------

var c20Actions = []string{
	"identify", "identify2", "nsregister", "setpw", "setmail", "ghost",
	"register-ok", "register-verify", "register-fail", "register-other",
	"sasl-ok", "sasl-902", "sasl-904", "sasl-905", "sasl-906", "sasl-abort", "sasl-two", "sasl-drop", "anonymous",
	"set-plain", "reset", "nick", "other", "drop", "restart", "stray",
}

type c20Hist struct {
	*c20World
	one, two c20Creds
	nick     string
}

func (h *c20Hist) pw() string {
	h.uniq++
	return fmt.Sprintf("%s%d", c20Secret, h.uniq)
}

func (h *c20Hist) sasl(user, pass string) {
	h.a.Send("CAP REQ :sasl")
	h.w.Settle()
	h.a.Send("AUTHENTICATE PLAIN")
	h.w.Settle()
	h.a.Send("AUTHENTICATE " + b64("\x00"+user+"\x00"+pass))
	h.w.Settle()
}

func (h *c20Hist) wait() bool {
	h.w.Settle()
	return h.c.Check(h.w.AwaitLive(h.n1, 3*time.Minute) && h.w.AwaitLive(h.n2, 3*time.Minute), "not connected again")
}

func (h *c20Hist) do(a string) {
	pw := h.pw()
	user := "alice"
	allow := []string{"client a", "client b", "server n1.test:6667"}
	ns := func(text string) {
		h.a.Send("PRIVMSG NickServ :" + text)
		h.one = c20NickServ(h.one, h.nick, "PRIVMSG", text)
	}
	register := func(reply string) {
		h.a.Send("REGISTER * mail@x " + pw)
		h.w.Settle()
		h.n1.Last().Send(reply)
		allow = []string{"server n1.test:6667"}
	}
	switch a {
	case "identify":
		ns("IDENTIFY " + pw)
	case "identify2":
		ns("identify acct " + pw)
		user = "acct"
	case "nsregister":
		ns("REGISTER " + pw + " mail@x")
	case "setpw":
		ns("SET PASSWORD " + pw)
	case "setmail":
		ns("SET EMAIL " + pw)
	case "ghost":
		ns("GHOST alice " + pw)
	case "register-ok":
		register(":n1.test REGISTER SUCCESS reg :Account created")
		h.one = c20Creds{"PLAIN", "reg", pw}
		user = "reg"
	case "register-verify":
		register(":n1.test REGISTER VERIFICATION_REQUIRED reg :Check your mail")
		h.one = c20Creds{"PLAIN", "reg", pw}
		user = "reg"
	case "register-fail":
		register(":n1.test FAIL REGISTER ACCOUNT_EXISTS reg :No")
	case "register-other":
		// another client's registration fails, this one is accepted
		other := h.pw()
		h.b.Send("REGISTER * mail@x " + other)
		h.w.Settle()
		h.a.Send("REGISTER * mail@x " + pw)
		h.w.Settle()
		h.n1.Last().Send(":n1.test FAIL REGISTER ACCOUNT_EXISTS reg :No")
		h.w.Settle()
		h.n1.Last().Send(":n1.test REGISTER SUCCESS reg2 :Account created")
		h.one = c20Creds{"PLAIN", "reg2", pw}
		h.only(a, other, "reg", "server n1.test:6667")
		allow, user = []string{"server n1.test:6667"}, "reg2"
	case "sasl-ok":
		h.sasl("sas", pw)
		h.one = c20Creds{"PLAIN", "sas", pw}
		allow, user = []string{"server n1.test:6667"}, "sas"
	case "sasl-902", "sasl-904", "sasl-905", "sasl-906":
		h.saslErr = a[5:]
		h.sasl("sas", pw)
		h.saslErr = ""
		allow, user = []string{"server n1.test:6667"}, "sas"
	case "sasl-abort":
		h.a.Send("CAP REQ :sasl")
		h.a.Send("AUTHENTICATE PLAIN")
		h.w.Settle()
		h.a.Send("AUTHENTICATE *")
		h.w.Settle()
	case "sasl-two":
		// another client tries meanwhile
		hook := h.n1.Hook
		h.n1.Hook = func(uc *kit.UpConn, m *ircMessage) bool { return m.Command == "AUTHENTICATE" || hook(uc, m) }
		h.sasl("sas", pw)
		h.n1.Hook = hook
		other := h.pw()
		h.b.Send("CAP REQ :sasl")
		h.b.Send("AUTHENTICATE PLAIN")
		h.b.Send("AUTHENTICATE " + b64("\x00sbs\x00"+other))
		h.w.Settle()
		h.n1.Last().Send("AUTHENTICATE +")
		h.w.Settle()
		h.one = c20Creds{"PLAIN", "sas", pw}
		h.only(a, other, "sbs")
		allow, user = []string{"server n1.test:6667"}, "sas"
	case "sasl-drop":
		// the connection is lost while the server decides
		hook := h.n1.Hook
		h.n1.Hook = func(uc *kit.UpConn, m *ircMessage) bool { return m.Command == "AUTHENTICATE" || hook(uc, m) }
		h.sasl("sas", pw)
		h.n1.Hook = hook
		h.n1.Drop()
		allow, user = []string{"server n1.test:6667"}, "sas"
		if !h.wait() {
			return
		}
	case "anonymous":
		h.a.Send("CAP REQ :sasl")
		h.a.Send("AUTHENTICATE ANONYMOUS")
		h.w.Settle()
		h.a.Send("AUTHENTICATE +")
		h.one = c20Creds{}
		if !h.wait() {
			return
		}
	case "set-plain":
		h.a.Do("PRIVMSG BouncerServ :sasl set-plain sv " + pw)
		h.one = c20Creds{"PLAIN", "sv", pw}
		allow, user = []string{"client a", "server n1.test:6667"}, "sv"
		if !h.wait() {
			return
		}
	case "reset":
		h.a.Do("PRIVMSG BouncerServ :sasl reset")
		h.one = c20Creds{}
		if !h.wait() {
			return
		}
	case "nick":
		h.nick += "x"
		h.a.Send("NICK " + h.nick)
	case "other":
		h.d.Send("PRIVMSG NickServ :IDENTIFY " + pw)
		h.two = c20NickServ(h.two, "alice", "PRIVMSG", "IDENTIFY "+pw)
		allow = []string{"client d", "server n2.test:6667"}
	case "drop":
		h.n1.Drop()
		if !h.wait() {
			return
		}
	case "restart":
		h.w.Restart()
		h.connect()
		if !h.wait() {
			return
		}
	case "stray":
		h.n1.Last().Send(":n1.test REGISTER SUCCESS ghost :Account created")
		h.n1.Last().Send(":n1.test 903 alice :SASL authentication successful")
	}
	h.w.SleepCoarse(1500 * time.Millisecond)
	h.c.Check(h.creds(h.id1) == h.one, "saved credentials are %q, want %q", h.creds(h.id1), h.one)
	h.c.Check(h.creds(h.id2) == h.two, "other network: saved credentials are %q, want %q", h.creds(h.id2), h.two)
	h.only(a, pw, user, allow...)
}

func c20Hists(c *kit.Ctx, w *kit.World, store, caps string, seq []string) {
	x := c20New(c, w, store, caps, c20Creds{})
	h := &c20Hist{c20World: x, nick: "alice"}
	for _, a := range seq {
		c.Step(a)
		h.do(a)
		if c.Bad() {
			return
		}
	}
	// what a new connection presents
	for i, s := range []*kit.UpServer{h.n1, h.n2} {
		n := len(s.Conns)
		s.Drop()
		w.Settle()
		if !c.Check(w.AwaitLive(s, 3*time.Minute), "not connected again") {
			return
		}
		want := h.one
		if i == 1 {
			want = h.two
		}
		var got []string
		for _, m := range s.Conns[len(s.Conns)-1].All {
			if m.Command == "AUTHENTICATE" {
				got = append(got, m.Params[0])
			}
		}
		var exp []string
		if want.mech != "" {
			exp = []string{"PLAIN", b64("\x00" + want.user + "\x00" + want.pass)}
		}
		c.Check(len(s.Conns) > n && kit.Eq(got, exp), "network %d: the new connection authenticates with %s, want %s", i+1, kit.Q(got), kit.Q(exp))
	}
}

// c20Login checks the passwords used to log in to the bouncer.
func c20Login(c *kit.Ctx, w *kit.World, how string, wrong bool) {
	w.Cfg.MsgStoreDriver = "db"
	u := w.AddUser("alice", nil)
	_, s := w.AddNetwork(u, "n1", nil)
	w.Auth.Pass["alice"] = c20Secret
	w.Start()
	cl := w.Dial("cl")
	secret := c20Secret
	if wrong {
		secret = "Wr0ngOne"
	}
	switch how {
	case "pass":
		cl.Send("PASS " + secret)
		cl.Send("NICK alice")
		cl.Send("USER alice/n1 0 * :alice")
	case "sasl":
		cl.Send("CAP REQ :sasl")
		cl.Send("NICK alice")
		cl.Send("USER alice/n1 0 * :alice")
		cl.Send("AUTHENTICATE PLAIN")
		cl.Send("AUTHENTICATE " + b64("\x00alice/n1\x00"+secret))
		cl.Send("CAP END")
	case "sasl-raw":
		cl.Send("CAP REQ :sasl")
		cl.Send("AUTHENTICATE PLAIN")
		cl.Send("AUTHENTICATE " + secret)
		cl.Send("CAP END")
	}
	w.SleepCoarse(2 * time.Second)
	x := &c20World{c: c, w: w, store: "db", user: u}
	x.only(how, secret, "alice/n1")
	if !wrong && how != "sasl-raw" {
		c.Check(len(kit.Select(cl.All, "001")) == 1, "not logged in")
	}
	_ = s
}

func TestC20(t *testing.T) {
	r := kit.Start(t, "C20")
	verbs := []string{"IDENTIFY", "identify", "REGISTER", "Register", "SET", "set", "GHOST", "HELP", "INFO"}
	args := []string{"", c20Secret, "acct " + c20Secret, c20Secret + " m@x", "PASSWORD " + c20Secret, "password " + c20Secret, "EMAIL " + c20Secret, "PASSWORD", "PASSWORD " + c20Secret + " x", "acct " + c20Secret + " x y", " acct   " + c20Secret}
	var texts []string
	for _, v := range verbs {
		for _, a := range args {
			texts = append(texts, strings.TrimRight(v+" "+a, " "))
		}
	}
	texts = append(texts, c20Secret, "  IDENTIFY "+c20Secret, "\x01ACTION IDENTIFY "+c20Secret+"\x01")
	n := 0
	one := func(store, caps, init, cmd, target, text string) {
		n++
		r.World(fmt.Sprintf("nickserv:%s,%s,%s,%s,%s,%q", store, caps, init, cmd, target, text), func(c *kit.Ctx, w *kit.World) {
			c20Command(c, w, store, caps, init, cmd, target, text)
		})
	}
	seen := map[string]bool{}
	cross := func(stores, caps, inits, cmds, targets, texts []string) {
		for _, a := range stores {
			for _, b := range caps {
				for _, d := range inits {
					for _, e := range cmds {
						for _, f := range targets {
							for _, g := range texts {
								k := strings.Join([]string{a, b, d, e, f, g}, "\x00")
								if !seen[k] {
									seen[k] = true
									one(a, b, d, e, f, g)
								}
							}
						}
					}
				}
			}
		}
	}
	stores, capss := []string{"db", "fs", "memory"}, []string{"none", "echo", "labeled", "nosasl"}
	inits, cmds, targets := []string{"none", "plain", "ext"}, []string{"PRIVMSG", "NOTICE"}, []string{"NickServ", "nickserv", "NICKSERV"}
	reps := []string{"IDENTIFY " + c20Secret, "SET EMAIL " + c20Secret, "HELP " + c20Secret}
	if r.Thorough() {
		cross(stores, capss, inits, cmds, targets, texts)
	} else {
		cross([]string{"db"}, []string{"none"}, inits, cmds, targets[:1], texts)
		cross(stores, capss, []string{"plain"}, cmds, targets, reps)
	}
	r.Bound("nickserv: %d commands", n)
	for _, k := range c20Bouncers {
		for _, store := range []string{"db", "fs"} {
			for _, caps := range []string{"none", "echo", "nosasl"} {
				k, store, caps := k, store, caps
				r.World("bouncer:"+k.name+","+store+","+caps, func(c *kit.Ctx, w *kit.World) { c20ExecBouncer(c, w, k, store, caps) })
			}
		}
	}
	for _, how := range []string{"pass", "sasl", "sasl-raw"} {
		for _, wrong := range []bool{false, true} {
			how, wrong := how, wrong
			r.World(fmt.Sprintf("login:%s,%v", how, wrong), func(c *kit.Ctx, w *kit.World) { c20Login(c, w, how, wrong) })
		}
	}
	for _, cfg := range []string{"db,none", "memory,echo", "fs,labeled"} {
		cfg := cfg
		i := strings.IndexByte(cfg, ',')
		depth := r.Pick(2, 3)
		if cfg == "db,none" {
			depth = r.Pick(3, 4)
		}
		r.Tree("hist-"+cfg, depth, func([]string) []string { return c20Actions }, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) { c20Hists(c, w, cfg[:i], cfg[i+1:], seq) })
		})
	}
}
