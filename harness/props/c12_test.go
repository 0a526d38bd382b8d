package props

import (
	"context"
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C12: no message takes down a user's session. Every message of a bounded
// grammar (command, prefix, tags, parameters) is sent from an upstream server
// and from a client in each phase of their connections, alone, after every
// state-changing message and while every client command is pending; afterwards
// the other clients and networks of the user, and the offending network
// itself, must be served.

var c12UpCaps = []string{
	"server-time", "message-tags", "echo-message", "labeled-response", "batch", "account-tag", "sasl=PLAIN",
	"multi-prefix", "away-notify", "chghost", "setname", "extended-join", "account-notify", "invite-notify",
	"draft/account-registration", "cap-notify",
}

var c12Caps = []string{
	"server-time", "message-tags", "echo-message", "batch", "account-tag", "away-notify", "chghost", "setname",
	"extended-join", "account-notify", "invite-notify", "multi-prefix", "draft/read-marker", "soju.im/read",
	"soju.im/bouncer-networks", "soju.im/no-implicit-names", "cap-notify", "sasl",
}

type c12World struct {
	c          *kit.Ctx
	w          *kit.World
	n1, n2     *kit.UpServer
	a, b, o, u *kit.Client
	z          *kit.Client
	n          int
	answer     bool // the server answers commands
}

func c12New(c *kit.Ctx, w *kit.World, bare bool) *c12World {
	x := &c12World{c: c, w: w}
	w.Cfg.MsgStoreDriver = "memory"
	alice := w.AddUser("alice", func(u *database.User) { u.Admin = true })
	rec, n1 := w.AddNetwork(alice, "n1", nil)
	w.AddChannel(rec, "#c", nil)
	w.AddChannel(rec, "#d", func(ch *database.Channel) { ch.Detached = true; ch.RelayDetached = database.FilterMessage })
	_, x.n2 = w.AddNetwork(alice, "n2", nil)
	zoe := w.AddUser("zoe", nil)
	w.AddNetwork(zoe, "zn", nil)
	x.n1 = n1
	if !bare {
		n1.Caps = append([]string{}, c12UpCaps...)
		n1.ISupport = append(n1.ISupport, "MONITOR=3", "WHOX", "STATUSMSG=@+", "BOT=B")
	}
	for _, ch := range []string{"#c", "#d"} {
		n1.Chan(ch).Members["bob"] = "@"
	}
	// the server is mute about what clients ask for, unless told otherwise
	n1.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		switch m.Command {
		case "CAP", "NICK", "USER", "PASS", "PING", "JOIN":
			return false
		case "AUTHENTICATE":
			if !uc.Registered {
				uc.Send(":n1.test 904 * :no")
			}
			return true
		}
		return !x.answer
	}
	return x
}

func (x *c12World) start(caps bool) {
	x.w.Start()
	var l []string
	if caps {
		l = c12Caps
	}
	x.a = x.w.Connect("a", kit.ConnOpts{User: "alice", Network: "n1", Client: "a", Caps: l})
	x.b = x.w.Connect("b", kit.ConnOpts{User: "alice", Network: "n1", Client: "b", Caps: []string{"sasl"}})
	x.o = x.w.Connect("o", kit.ConnOpts{User: "alice", Network: "n2", Client: "o"})
	x.u = x.w.Connect("u", kit.ConnOpts{User: "alice", Client: "u", Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "cap-notify"}})
	x.z = x.w.Connect("z", kit.ConnOpts{User: "zoe", Network: "zn", Client: "z"})
	for _, cl := range []*kit.Client{x.a, x.b, x.o, x.u, x.z} {
		x.c.Check(cl.Registered(), "client %s could not register", cl.Name)
	}
}

func (x *c12World) pinged(cl *kit.Client) bool {
	x.n++
	tok := fmt.Sprintf("tok%d", x.n)
	cl.Take()
	cl.Send("PING " + tok)
	for i := 0; i < 8; i++ {
		if i > 0 {
			x.w.Sleep(15 * time.Second)
		} else {
			x.w.Settle()
		}
		for _, m := range cl.Take() {
			if m.Command == "PONG" && len(m.Params) > 0 && m.Params[len(m.Params)-1] == tok {
				return true
			}
		}
		if cl.Closed() {
			return false
		}
	}
	return false
}

// quickAlive checks that the worker serves the bystanders.
func (x *c12World) quickAlive(after string, bound bool) bool {
	l := []*kit.Client{x.o}
	if bound {
		l = append(l, x.a, x.b)
	}
	for _, cl := range l {
		if cl.Closed() {
			return x.c.Check(false, "after %q the connection of client %s was closed", after, cl.Name)
		}
		if !x.pinged(cl) {
			return x.c.Check(false, "after %q client %s gets no answer to PING", after, cl.Name)
		}
	}
	return true
}

// live waits until the first network is connected.
func (x *c12World) live(after string) bool {
	if x.n1.Live() != nil {
		return true
	}
	return x.c.Check(x.w.AwaitLive(x.n1, 45*time.Minute), "after %q the network never comes back", after)
}

// reset brings the first network back to a fresh session.
func (x *c12World) reset(after string) bool {
	x.n1.Drop()
	if !x.live(after) {
		return false
	}
	x.w.Settle()
	return true
}

func (x *c12World) relays(s *kit.UpServer, cl *kit.Client, after string) bool {
	x.n++
	tok := fmt.Sprintf("relay%d", x.n)
	cl.Take()
	uc := s.Live()
	if uc == nil {
		return x.c.Check(false, "after %q network %s is not connected", after, s.Name)
	}
	uc.Send(":peer!p@h PRIVMSG " + uc.Nick + " :" + tok)
	x.w.Settle()
	ok := false
	for _, m := range cl.Take() {
		ok = ok || m.Command == "PRIVMSG" && m.Params[1] == tok
	}
	if !x.c.Check(ok, "after %q a message of network %s no longer reaches client %s", after, s.Name, cl.Name) {
		return false
	}
	uc.Take()
	cl.Send("PRIVMSG peer :" + tok)
	x.w.Settle()
	ok = false
	for _, m := range uc.Take() {
		ok = ok || m.Command == "PRIVMSG" && m.Params[1] == tok
	}
	return x.c.Check(ok, "after %q a message of client %s no longer reaches network %s", after, cl.Name, s.Name)
}

// alive checks everything the user can expect, after a fresh session.
func (x *c12World) alive(after string) {
	x.answer = true
	defer func() { x.answer = false }()
	x.w.Sleep(35 * time.Second)
	for _, cl := range []*kit.Client{x.o, x.u, x.z} {
		if !x.c.Check(!cl.Closed() && x.pinged(cl), "after %q client %s gets no answer to PING", after, cl.Name) {
			return
		}
	}
	if x.n2.Live() == nil && !x.c.Check(x.w.AwaitLive(x.n2, 45*time.Minute), "after %q network n2 is gone", after) {
		return
	}
	if !x.relays(x.n2, x.o, after) || !x.reset(after) {
		return
	}
	for _, cl := range []*kit.Client{x.a, x.b} {
		if !cl.Closed() && !x.c.Check(x.pinged(cl), "after %q client %s gets no answer to PING", after, cl.Name) {
			return
		}
	}
	cl := x.w.Connect("probe", kit.ConnOpts{User: "alice", Network: "n1", Client: "probe", Nick: x.n1.Live().Nick})
	if x.c.Check(cl.Registered() && !cl.Closed(), "after %q a new client cannot connect", after) {
		x.relays(x.n1, cl, after)
		cl.Quit()
	}
}

var c12Pool = []string{"", "*", "alice", "ALICE", "bob", "#c", "#d", "#nope", "+o", "-", "0", "=x", "BouncerServ"}
var c12Small = []string{"", "*", "alice", "bob", "#c", "+o"}
var c12Tiny = []string{"", "alice", "#c"}

func c12Line(params []string) string {
	var sb strings.Builder
	for i, p := range params {
		sb.WriteByte(' ')
		if i == len(params)-1 && (p == "" || strings.Contains(p, " ") || p[0] == ':') {
			sb.WriteByte(':')
		}
		sb.WriteString(p)
	}
	return sb.String()
}

// c12Tuples lists the well-formed tuples over the given columns; only the last
// parameter may be empty or contain spaces.
func c12Tuples(cols ...[]string) []string {
	var out []string
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) == len(cols) {
			out = append(out, c12Line(p))
			return
		}
		for _, v := range cols[len(p)] {
			if len(p) < len(cols)-1 && (v == "" || strings.Contains(v, " ") || v[0] == ':') {
				continue
			}
			rec(append(p[:len(p):len(p)], v))
		}
	}
	rec(nil)
	return out
}

func c12Uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// c12Shapes is the set of parameter lists; level 0 is tiny, 3 is deep.
func c12Shapes(level int) []string {
	l := c12Tuples()
	cols := func(n int, p []string) [][]string {
		var out [][]string
		for i := 0; i < n; i++ {
			out = append(out, p)
		}
		return out
	}
	add := func(n int, p []string) { l = append(l, c12Tuples(cols(n, p)...)...) }
	switch {
	case level == 0:
		add(1, c12Tiny)
		add(2, c12Tiny)
		add(3, []string{"alice", "#c"})
	case level == 1:
		add(1, c12Pool)
		add(2, c12Small)
		add(3, c12Tiny)
		add(4, []string{"alice", "#c"})
	case level == 2:
		add(1, c12Pool)
		add(2, c12Pool)
		add(3, c12Small)
		add(4, c12Tiny)
		add(5, []string{"alice", "#c"})
	default:
		add(1, c12Pool)
		add(2, c12Pool)
		add(3, c12Pool)
		add(4, c12Small)
		add(5, c12Tiny)
		add(6, []string{"alice", "#c"})
	}
	for n := 5; n <= 15; n++ {
		add(n, []string{"x"})
	}
	return c12Uniq(l)
}

var c12Prefixes = map[string]string{
	"none": "", "server": ":n1.test ", "own": ":alice!u@host ", "OWN": ":ALICE!u@host ", "bob": ":bob!u@h ",
	"empty": ":!u@h ", "bare": ":bob ", "star": ":* ", "serv": ":BouncerServ!u@h ", "at": ":@h ", "chan": ":#c ",
}

var c12Tags = []string{
	"@batch=x ", "@batch= ", "@label=sd-1-1 ", "@label=sd-99-1 ", "@label=bad ", "@label= ", "@time=bad ", "@time=2010-01-01T00:00:00.000Z ",
	"@+draft/channel-context=#c ", "@+draft/channel-context=#nope ", "@+draft/channel-context= ", "@msgid=;a;=;b=\\ ", "@account= ", "@account=x;+draft/reply=y ",
}

var c12Cmds = []string{
	"PING", "PONG", "NOTICE", "PRIVMSG", "TAGMSG", "CAP", "AUTHENTICATE", "REGISTER", "VERIFY", "BATCH", "NICK",
	"SETNAME", "CHGHOST", "JOIN", "PART", "KICK", "QUIT", "TOPIC", "MODE", "INVITE", "AWAY", "ACCOUNT", "FAIL",
	"WARN", "NOTE", "ACK", "ERROR", "KILL", "WALLOPS", "REDACT", "RENAME", "MARKREAD", "BOUNCER", "X",
}

var c12Nums = []string{
	"001", "002", "003", "004", "005", "221", "250", "251", "252", "253", "254", "255", "265", "266", "263", "276",
	"301", "302", "303", "305", "306", "307", "311", "312", "313", "315", "317", "318", "319", "320", "321", "322",
	"323", "324", "329", "330", "331", "332", "333", "335", "338", "341", "346", "347", "348", "349", "352", "353",
	"354", "364", "365", "366", "367", "368", "369", "371", "372", "374", "375", "376", "378", "379", "396", "400",
	"401", "402", "403", "404", "405", "406", "407", "411", "412", "421", "422", "431", "432", "433", "436", "437",
	"441", "442", "443", "451", "461", "462", "463", "464", "465", "466", "471", "473", "474", "475", "476", "477",
	"482", "501", "671", "716", "717", "730", "731", "732", "733", "734", "760", "761", "900", "901", "902", "903",
	"904", "905", "906", "907", "908", "999", "000",
}

func c12Cases(level int, l ...string) []string {
	if level == 0 && len(l) > 6 {
		return l[:6]
	}
	return l
}

// c12Extra lists further parameter lists that make sense for a command.
func c12Extra(cmd string, level int) []string {
	switch cmd {
	case "CAP":
		caps := []string{"", "sasl", "-sasl", "sasl=", "sasl=EXTERNAL", "=", "-", "- -=", "echo-message", "labeled-response batch", "setname away-notify", "a b c", "draft/account-registration=x", "ECHO-MESSAGE"}
		subs := []string{"LS", "ACK", "NAK", "NEW", "DEL", "LIST", "ls", "END", "REQ"}
		l := c12Tuples([]string{"*", "alice"}, subs)
		l = append(l, c12Tuples([]string{"*", "alice"}, subs, caps)...)
		return append(l, c12Tuples([]string{"*"}, subs, []string{"*", "x"}, caps)...)
	case "BATCH":
		types := []string{"netsplit", "netjoin", "labeled-response", "chathistory", "draft/multiline", "x"}
		l := c12Tuples([]string{"+x", "-x", "+", "-", "x", "", "+x y"})
		l = append(l, c12Tuples([]string{"+x", "-x", "+y", "+"}, types)...)
		l = append(l, c12Tuples([]string{"+x", "+y"}, types, c12Tiny)...)
		return append(l, c12Tuples([]string{"+x", "+y"}, types, c12Tiny, c12Tiny)...)
	case "005":
		toks := []string{"CASEMAPPING=", "CASEMAPPING=ascii", "CASEMAPPING=rfc1459", "CASEMAPPING=rfc1459-strict", "CASEMAPPING=bogus", "CASEMAPPING", "-CASEMAPPING",
			"CHANMODES=", "CHANMODES=a,b", "CHANMODES=,,,", "CHANMODES=b,k,l,i", "CHANMODES=b,k,l,i,z,,", "CHANMODES", "-CHANMODES", "CHANMODES=o,o,o,o",
			"CHANTYPES=", "CHANTYPES=#&", "CHANTYPES", "-CHANTYPES", "CHANTYPES=a",
			"PREFIX=", "PREFIX=(o", "PREFIX=(ov)@", "PREFIX=(o)@+", "PREFIX=)(", "PREFIX=()", "PREFIX=(qaohv)~&@%+", "PREFIX", "-PREFIX", "PREFIX=((o)@", "PREFIX=o",
			"STATUSMSG=", "STATUSMSG=@", "STATUSMSG", "-STATUSMSG", "STATUSMSG=#a",
			"MONITOR=", "MONITOR=0", "MONITOR=x", "MONITOR=1", "MONITOR=-1", "MONITOR", "-MONITOR",
			"NETWORK=", "soju.im/SAFERATE", "-soju.im/SAFERATE", "-", "=", "", "WHOX", "-WHOX", "BOT=", "BOT=B", "BOT", "VAPID=x", "soju.im/FILEHOST=x", "CHATHISTORY=0",
			"A=\\x20", "A=\\x", "A=\\xZZ", "UTF8ONLY", "CLIENTTAGDENY=*", "TOPICLEN=1", "-AWAYLEN", "BOUNCER_NETID=5", "MSGREFTYPES="}
		l := c12Tuples([]string{"alice", "*"}, toks)
		l = append(l, c12Tuples([]string{"alice"}, toks, []string{"are supported", ""})...)
		if level > 1 {
			l = append(l, c12Tuples([]string{"alice"}, toks, toks, []string{"are supported"})...)
		}
		return l
	case "353":
		names := []string{"", " ", "@", "@+", "@@", "+@bob", "@+bob", "!u@h", "@!u@h", "alice", "bob!u@h BOB", "@bob!u@h +alice!u@host", "bob  carol ", "BouncerServ", "#c"}
		return append(c12Tuples([]string{"alice", "*"}, []string{"=", "@", "*", "#c", "x"}, []string{"#c", "#C", "#d", "#nope", "x"}, names),
			c12Tuples([]string{"alice"}, []string{"#c", "="}, names)...)
	case "352":
		return c12Tuples([]string{"alice", "*"}, []string{"#c", "*"}, []string{"u"}, []string{"h"}, []string{"s"}, []string{"bob", "alice", "*"}, []string{"H", "G*", "H@+B", "*", "@"}, []string{"", "0", "0 Real", "Real", " "})
	case "354":
		l := []string{}
		for n := 1; n <= 12; n++ {
			var cols [][]string
			for i := 0; i < n; i++ {
				switch i {
				case 0:
					cols = append(cols, []string{"alice"})
				case 1:
					cols = append(cols, []string{"0", "1", "999", "x", "#c"})
				case n - 1:
					cols = append(cols, []string{"", "x", "H@B", "0"})
				default:
					cols = append(cols, []string{"bob"})
				}
			}
			l = append(l, c12Tuples(cols...)...)
		}
		return l
	case "MODE", "324", "221":
		modes := []string{"", "+", "-", "o", "+o", "-o", "+ov", "+oo", "+k", "-k", "+l", "-l", "+b", "+n-t", "+é", "++--", "+B", "-B", "+q", "+okl"}
		args := []string{"", "alice", "bob", "#c", "5", "x y"}
		var pre [][]string
		if cmd != "MODE" {
			pre = append(pre, []string{"alice", "*"})
		}
		targets := []string{"#c", "#C", "#d", "#nope", "alice", "ALICE", "bob"}
		cols := func(more ...[]string) [][]string { return append(append([][]string{}, pre...), more...) }
		l := c12Tuples(cols(targets, modes)...)
		l = append(l, c12Tuples(cols(targets, modes, args)...)...)
		if level > 0 {
			l = append(l, c12Tuples(cols(targets[:3], modes, args, args)...)...)
		}
		return l
	case "AUTHENTICATE":
		return c12Tuples([]string{"+", "*", "x", "PLAIN", "", strings.Repeat("A", 400), "dGVzdA=="})
	case "730", "731", "734":
		names := []string{"", ",", "bob", "bob,", ",bob", "bob!u@h", "!u@h", "alice", "bob,carol!u@h,,x", "ALICE,alice", "#c"}
		return append(c12Tuples([]string{"alice", "*"}, names), c12Tuples([]string{"alice"}, []string{"3", "", "x"}, names, []string{"full"})...)
	case "FAIL":
		return append(c12Tuples([]string{"REGISTER", "VERIFY", "AUTHENTICATE", "CHATHISTORY", "LIST", "WHO", "WHOIS", "NICK", "*", "JOIN"}, []string{"ACCOUNT_EXISTS", "NEED_MORE_PARAMS", "", "x"}),
			c12Tuples([]string{"REGISTER", "VERIFY", "AUTHENTICATE", "WHO", "*"}, []string{"ACCOUNT_EXISTS", "x"}, []string{"", "text here", "acct"})...)
	case "REGISTER", "VERIFY":
		return append(c12Tuples([]string{"SUCCESS", "VERIFICATION_REQUIRED", "x", ""}), c12Tuples([]string{"SUCCESS", "VERIFICATION_REQUIRED"}, []string{"alice", "*", ""}, []string{"", "done"})...)
	case "421", "461", "400", "263":
		cmds := []string{"LIST", "WHO", "WHOIS", "AUTHENTICATE", "REGISTER", "VERIFY", "CAP", "MONITOR", "list", "*", "NICK"}
		return append(c12Tuples([]string{"alice", "*"}, cmds), c12Tuples([]string{"alice"}, cmds, []string{"", "text"})...)
	case "NICK":
		return c12Tuples([]string{"alice2", "bob", "alice", "", "*", "#c", "BouncerServ", "a b"})
	case "JOIN", "PART":
		return append(c12Tuples([]string{"#c", "#C", "#d", "#new", "#c,#d", "#c,,#x", ",", "x", "0"}), c12Tuples([]string{"#c", "#new"}, []string{"*", "acct", "key", ""}, []string{"", "Real Name"})...)
	case "KICK":
		return append(c12Tuples([]string{"#c", "#C", "#nope", "#c,#d"}, []string{"alice", "ALICE", "bob", "nobody", "alice,bob"}), c12Tuples([]string{"#c"}, []string{"alice", "bob"}, []string{"", "why"})...)
	case "332", "331", "333", "329", "366":
		return append(c12Tuples([]string{"alice", "*"}, []string{"#c", "#C", "#d", "#nope"}, []string{"", "topic text", "bob!u@h", "123", "-1", "x"}),
			c12Tuples([]string{"alice"}, []string{"#c", "#d"}, []string{"bob", "bob!u@h", "!", "*"}, []string{"123", "x", "", "99999999999999999999", "-5"})...)
	case "PRIVMSG", "NOTICE":
		texts := []string{"", " ", "hi alice", "alice", "\x01", "\x01\x01", "\x01ACTION x\x01", "\x01VERSION\x01", "\x01VERSION", "ALICE!", "\x02alice"}
		return c12Tuples([]string{"alice", "ALICE", "bob", "#c", "@#c", "+@#c", "@", "#d", "#nope", "*", "$$x", "BouncerServ", "@alice"}, texts)
	case "432", "433", "436", "437":
		return append(c12Tuples([]string{"*", "alice"}, []string{"alice", "bob", "*"}, []string{"", "in use"}), c12Tuples([]string{"*", "alice"})...)
	case "004":
		return c12Tuples([]string{"alice"}, []string{"srv"}, []string{"v"}, []string{"iow", ""}, []string{"bk", ""})
	case "908":
		return c12Tuples([]string{"alice", "*"}, []string{"PLAIN", "", ",", "PLAIN,EXTERNAL"}, []string{"are available", ""})
	case "900", "901", "396":
		return append(c12Tuples([]string{"alice", "*"}, []string{"alice!u@host", "!", "*", "bob"}), c12Tuples([]string{"alice"}, []string{"alice!u@h2", "h2"}, []string{"acct", "*", ""}, []string{"", "text"})...)
	case "INVITE":
		return c12Tuples([]string{"alice", "ALICE", "bob", ""}, []string{"#c", "#d", "#nope", "#sav", "x", ""})
	}
	return nil
}

func c12Lines(cmd string, level int) []string {
	return c12Uniq(append(c12Shapes(level), c12Extra(cmd, level)...))
}

// c12Up sends lines on the registered connection of the first network.
func c12Up(x *c12World, lines []string, before func(i int)) {
	c := x.c
	last := ""
	for i, line := range lines {
		if before != nil {
			before(i)
		}
		uc := x.n1.Live()
		if uc == nil {
			if !x.live(last) {
				return
			}
			uc = x.n1.Live()
		}
		c.Step("server: " + line)
		uc.Send(line)
		x.w.Settle()
		last = line
		if (i+1)%20 == 0 || i == len(lines)-1 {
			if !x.quickAlive(last, true) {
				return
			}
			// the session survived: members and channels are refreshed
			if i%100 == 99 && !x.reset(last) {
				return
			}
			if uc := x.n1.Live(); uc != nil {
				uc.Send(":" + uc.Mask() + " JOIN #c")
				uc.Send(":n1.test 353 " + uc.Nick + " = #c :@bob alice")
				uc.Send(":n1.test 366 " + uc.Nick + " #c :End")
				uc.Take()
			}
			x.n2.Take()
			x.w.Settle()
			for _, cl := range []*kit.Client{x.a, x.b, x.o, x.u} {
				cl.Take()
			}
		}
		if c.Bad() {
			return
		}
	}
}

var c12State = []string{
	":n1.test 005 alice CASEMAPPING=rfc1459 :are supported", ":n1.test 005 alice -CASEMAPPING :are supported",
	":n1.test 005 alice PREFIX= :are supported", ":n1.test 005 alice PREFIX=(qaohv)~&@%+ :are supported", ":n1.test 005 alice -PREFIX :are supported",
	":n1.test 005 alice CHANMODES=,,, :are supported", ":n1.test 005 alice -CHANMODES :are supported", ":n1.test 005 alice CHANTYPES= :are supported",
	":n1.test 005 alice STATUSMSG=#@+abc :are supported", ":n1.test 005 alice -MONITOR :are supported", ":n1.test 005 alice MONITOR=0 :are supported",
	":n1.test 005 alice -WHOX BOT=B :are supported",
	":alice!u@host NICK bob", ":alice!u@host NICK *", ":alice!u@host NICK :", ":alice!u@host NICK #c", ":alice!u@host NICK BouncerServ", ":bob!u@h NICK alice", ":bob!u@h NICK :",
	":alice!u@host PART #c", ":bob!u@h PART #c", ":x!u@h KICK #c alice :x", ":x!u@h KICK #c bob", ":alice!u@host QUIT :bye", ":bob!u@h QUIT",
	":alice!u@host JOIN #new", ":alice!u@host JOIN :", ":alice!u@host JOIN x", ":alice!u@host JOIN BouncerServ", ":alice!u@host JOIN alice", ":BOB!u@h JOIN #c", ":!u@h JOIN #c", ":#c JOIN #c",
	":n1.test CAP alice DEL :sasl", ":n1.test CAP alice DEL :labeled-response batch message-tags echo-message server-time", ":n1.test CAP alice ACK :-sasl -labeled-response -echo-message",
	":n1.test CAP alice NEW :sasl=EXTERNAL cap-notify", ":n1.test CAP * LS :", ":n1.test CAP * LS * :a b",
	":n1.test BATCH +x labeled-response", "@label=sd-1-1 :n1.test BATCH +x labeled-response", ":n1.test BATCH +x netsplit a b",
	":n1.test 353 alice = #c :@!u@h @ bob!u@h", ":n1.test 366 alice #c :End", ":n1.test 001 bob :again", ":n1.test 001 : ", ":bob!u@h 001 x :y",
	":n1.test 900 alice alice!u@host acct :ok", ":n1.test 901 alice alice!u@host :out", ":n1.test 376 alice :End", ":n1.test 422 alice :End",
	":n1.test 332 alice #c :topic", ":bob!u@h TOPIC #c :", ":n1.test 324 alice #c +kl key 5", ":bob!u@h MODE #c +o alice", ":n1.test 730 alice :bob!u@h", ":n1.test 734 alice 1 bob :full",
	":alice!u@host AWAY :gone", ":n1.test 306 alice :away", ":alice!u@host CHGHOST new host", ":alice!u@host SETNAME :new", ":bob!u@h ACCOUNT x", ":alice!u@host ACCOUNT *", ":alice!u@host INVITE bob #c",
	":!u@h PRIVMSG #c :hello", ":bob!u@h PRIVMSG alice :", ":bob!u@h PRIVMSG #d :alice", ":n1.test 433 alice alice :in use",
}

// c12Probes is a compact set of messages which touch every handler.
func c12Probes() []string {
	var out []string
	for _, cmd := range append(append([]string{}, c12Cmds...), c12Nums...) {
		shapes := []string{"", " #c", " alice #c", " #c alice", " alice = #c :bob alice", " alice #c :", " bob", " #c +o-v+k alice bob x", " alice bob u h * :r", " alice #c bob 123", " #new"}
		for _, s := range shapes {
			out = append(out, ":bob!u@h "+cmd+s)
		}
		if cmd[0] >= 'A' {
			for _, s := range []string{"", " #c", " bob", " #c bob", " #c +b x", " alice #d :x"} {
				out = append(out, ":alice!u@host "+cmd+s)
			}
		}
	}
	for _, cmd := range []string{"CAP", "BATCH", "353", "MODE", "005", "354", "FAIL", "AUTHENTICATE"} {
		l := c12Extra(cmd, 0)
		for i := 0; i < len(l); i += 1 + len(l)/12 {
			out = append(out, ":n1.test "+cmd+l[i])
		}
	}
	return out
}

// c12ClientCmds are client commands that leave something pending.
var c12ClientCmds = []string{
	"LIST", "WHO #c", "WHO bob %tcuihsnfdlaor,9", "WHO #nope", "WHOIS bob", "NAMES #nope", "MODE #c +b", "MODE #c", "TOPIC #nope", "AWAY :x", "AWAY",
	"JOIN #new key", "PART #c", "INVITE bob #c", "SETNAME :other", "NICK alice2", "@label=x PRIVMSG bob :hi", "PRIVMSG #c,bob :x", "MONITOR + bob,carol", "MONITOR - bob", "MONITOR C", "MONITOR S",
	"AUTHENTICATE PLAIN", "REGISTER * * pass", "REGISTER acct mail pass", "VERIFY acct code", "PRIVMSG NickServ :IDENTIFY pass", "KICK #c bob", "TAGMSG #c", "PART #c :detach", "JOIN #d",
}

func c12Upstream(r *kit.Run) {
	level := r.Pick(1, 3)
	cmds := append(append([]string{}, c12Cmds...), c12Nums...)
	prefixes := kit.Sorted(kit.Keys(c12Prefixes))
	r.Bound("C12 upstream: %d commands and numerics x %d prefixes x %d generic and command-specific parameter lists on a registered connection", len(cmds), len(prefixes), len(c12Shapes(level)))
	for _, cmd := range cmds {
		for _, pn := range prefixes {
			if cmd[0] < 'A' && pn != "server" && pn != "bob" && pn != "empty" && pn != "none" {
				continue
			}
			lv := level
			if pn == "server" || pn == "bob" || pn == "own" {
				lv = min(level+1, 3)
			}
			p := c12Prefixes[pn]
			r.World("up|reg|"+cmd+"|"+pn, func(c *kit.Ctx, w *kit.World) {
				x := c12New(c, w, false)
				x.start(true)
				var lines []string
				for _, s := range c12Lines(cmd, lv) {
					lines = append(lines, p+cmd+s)
				}
				c12Up(x, lines, nil)
				x.alive(cmd)
			})
		}
		r.World("up|tags|"+cmd, func(c *kit.Ctx, w *kit.World) {
			x := c12New(c, w, false)
			x.start(true)
			var lines []string
			for _, t := range c12Tags {
				for _, s := range c12Uniq(append(c12Shapes(r.Pick(0, 1)), c12Extra(cmd, 0)...)) {
					lines = append(lines, t+":bob!u@h "+cmd+s)
				}
			}
			c12Up(x, lines, nil)
			x.alive(cmd)
		})
		r.World("up|bare|"+cmd, func(c *kit.Ctx, w *kit.World) {
			x := c12New(c, w, true)
			x.n1.ISupport = nil
			x.start(false)
			var lines []string
			for _, p := range []string{":bob!u@h ", ":alice!u@host "} {
				for _, s := range c12Lines(cmd, r.Pick(0, 2)) {
					lines = append(lines, p+cmd+s)
				}
			}
			c12Up(x, lines, nil)
			x.alive(cmd)
		})
	}
	for h := 0; h < 10; h++ {
		r.World(fmt.Sprintf("up|num|%d", h), func(c *kit.Ctx, w *kit.World) {
			x := c12New(c, w, false)
			x.start(true)
			var lines []string
			for n := h * 100; n < h*100+100; n++ {
				for _, s := range []string{"", " alice", " alice :", " alice #c", " #c bob :x", " alice a b c d e f g h :i"} {
					lines = append(lines, fmt.Sprintf(":n1.test %03d%s", n, s))
				}
			}
			c12Up(x, lines, nil)
			x.alive(fmt.Sprint(h))
		})
	}
	probes := c12Probes()
	r.Bound("C12 upstream pairs: %d state-changing messages x %d probes; %d pending client commands x the probes", len(c12State), len(probes), len(c12ClientCmds))
	chunk := 120
	for si, st := range c12State {
		for at := 0; at < len(probes); at += chunk {
			r.World(fmt.Sprintf("up|pair|%d|%d", si, at), func(c *kit.Ctx, w *kit.World) {
				x := c12New(c, w, false)
				x.start(true)
				l := probes[at:min(at+chunk, len(probes))]
				c12Up(x, l, func(i int) {
					if i%10 == 0 && i > 0 {
						x.reset(l[i-1])
					}
					if uc := x.n1.Live(); uc != nil {
						uc.Send(st)
						x.w.Settle()
					}
				})
				x.alive(st)
			})
		}
	}
	for ci, cc := range c12ClientCmds {
		for at := 0; at < len(probes); at += chunk {
			r.World(fmt.Sprintf("up|pending|%d|%d", ci, at), func(c *kit.Ctx, w *kit.World) {
				x := c12New(c, w, false)
				x.start(true)
				l := probes[at:min(at+chunk, len(probes))]
				c12Up(x, l, func(i int) {
					if i%6 == 0 && i > 0 {
						x.reset(l[i-1])
					}
					c.Step("client: " + cc)
					if strings.HasPrefix(cc, "AUTHENTICATE") {
						x.a.Send("AUTHENTICATE *")
					}
					x.a.Send(cc)
					if strings.HasPrefix(cc, "AUTHENTICATE") {
						x.a.Send("AUTHENTICATE " + base64.StdEncoding.EncodeToString([]byte("\x00acct\x00pw")))
					}
					x.w.Settle()
				})
				x.alive(cc)
			})
		}
	}
}

// c12Unregistered sends messages before the end of the registration.
func c12Unregistered(r *kit.Run) {
	cmds := append(append([]string{}, c12Cmds...), c12Nums...)
	phases := []string{"pre", "caps", "sasl", "sasl2", "ext"}
	level := r.Pick(0, 2)
	r.Bound("C12 registration: %d commands x 5 phases (before capabilities, after LS, SASL PLAIN started, SASL payload sent, SASL EXTERNAL) x 2 prefixes x %d parameter lists", len(cmds), len(c12Shapes(level)))
	for _, ph := range phases {
		for _, cmd := range cmds {
			for _, pn := range []string{"none", "server"} {
				r.World("unreg|"+ph+"|"+cmd+"|"+pn, func(c *kit.Ctx, w *kit.World) { c12UnregWorld(c, w, ph, cmd, c12Prefixes[pn], c12Lines(cmd, level)) })
			}
		}
	}
}

func c12UnregWorld(c *kit.Ctx, w *kit.World, ph, cmd, prefix string, shapes []string) {
	x := c12New(c, w, false)
	hold := false
	x.n1.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		if !hold {
			if m.Command == "AUTHENTICATE" {
				if m.Params[0] == "PLAIN" || m.Params[0] == "EXTERNAL" {
					uc.Send("AUTHENTICATE +")
				} else {
					uc.Send(":n1.test 900 * *!*@* acct :ok")
					uc.Send(":n1.test 903 * :ok")
				}
				return true
			}
			return false
		}
		switch {
		case ph == "pre":
			return true
		case ph == "caps":
			if m.Command == "CAP" && m.Params[0] == "LS" {
				uc.Send(":n1.test CAP * LS :server-time batch sasl=PLAIN")
			}
			return true
		case m.Command == "CAP" && m.Params[0] != "END":
			return false
		case m.Command == "AUTHENTICATE":
			if ph == "sasl2" && len(m.Params) > 0 && m.Params[0] == "PLAIN" {
				uc.Send("AUTHENTICATE +")
			}
			return true
		case m.Command == "CAP":
			return true
		}
		return false
	}
	// stored credentials
	nets, err := w.DB.ListNetworks(context.Background(), 1)
	if err != nil || len(nets) == 0 {
		panic(fmt.Sprint("networks: ", err))
	}
	rec := nets[0]
	if ph == "ext" {
		rec.SASL.Mechanism = "EXTERNAL"
		rec.SASL.External.CertBlob = []byte("bogus")
		rec.SASL.External.PrivKeyBlob = []byte("bogus")
	} else {
		rec.SASL.Mechanism = "PLAIN"
		rec.SASL.Plain.Username = "acct"
		rec.SASL.Plain.Password = "pw"
	}
	if err := w.DB.StoreNetwork(context.Background(), 1, &rec); err != nil {
		panic(err)
	}
	x.start(true)
	last := ""
	for i, s := range shapes {
		// a connection in the wanted phase
		uc := x.n1.Last()
		if !hold || uc == nil || uc.Registered || uc.Closed() || c12Dirty(last) {
			hold = true
			if uc != nil && !uc.Closed() {
				uc.Hangup()
				w.Settle()
			}
			ok := false
			for k := 0; k < 300 && !ok; k++ {
				if k == 30 && (cmd == "464" || cmd == "432" || cmd == "FAIL") {
					// the bouncer gave up on purpose
					x.b.Send("PRIVMSG BouncerServ :network update n1 -enabled true")
				}
				uc = x.n1.Last()
				ok = uc != nil && !uc.Registered && !uc.Closed() && len(uc.All) > 0 && uc.Conn() != nil && x.n1.OpenConns() > 0
				if !ok {
					w.Sleep(10 * time.Second)
				}
			}
			if !c.Check(ok, "after %q the bouncer never reconnects", last) {
				return
			}
			w.Settle()
		}
		line := prefix + cmd + s
		c.Step("server: " + line)
		uc.Send(line)
		w.Settle()
		last = line
		if i%20 == 19 || i == len(shapes)-1 {
			if !x.quickAlive(line, true) {
				return
			}
		}
		if c.Bad() {
			return
		}
	}
	hold = false
	if uc := x.n1.Last(); uc != nil {
		uc.Hangup()
		w.Settle()
	}
	if cmd == "464" || cmd == "432" || cmd == "FAIL" {
		x.b.Send("PRIVMSG BouncerServ :network update n1 -enabled true")
		w.Settle()
	}
	if x.live(last) {
		x.alive(last)
	}
}

// c12Dirty tells whether a message may have ended the registration.
func c12Dirty(line string) bool {
	f := strings.Fields(line)
	for i, s := range f {
		if i < 2 && (s == "001" || s == "903" || s == "904" || s == "902" || s == "905" || s == "906" || s == "907" || s == "CAP" || s == "AUTHENTICATE" || s == "433") {
			return true
		}
	}
	return false
}

var c12DownCmds = map[string][]string{
	"CAP":          {"LS", "LIST", "REQ", "END", "ACK", "ls", "x", "CLEAR"},
	"PING":         nil,
	"PONG":         nil,
	"PASS":         {"x", "alice"},
	"USER":         {"alice", "alice/n1", "alice/", "/n1", "alice@x", "@", "/"},
	"NICK":         {"alice2", "bob", "a!b", "*", ":x", "BouncerServ", "a@b"},
	"SETNAME":      {"Real", "x y"},
	"JOIN":         {"#c", "#d", "#c,#d", ",", "#c,,#x", "0", "x", "BouncerServ", "#new"},
	"PART":         {"#c", "#d", "#c,#d", ",", "0", "#nope"},
	"KICK":         {"#c", "#c,#d", "#nope", ","},
	"MODE":         {"#c", "#nope", "alice", "bob", "BouncerServ", "*"},
	"TOPIC":        {"#c", "#nope", "#d", "BouncerServ"},
	"LIST":         {"#c", "*", ">1"},
	"NAMES":        {"#c", "#d", "#nope", "*", "#c,#d"},
	"WHO":          {"#c", "alice", "bob", "BouncerServ", "*", "#nope", "0"},
	"WHOIS":        {"bob", "alice", "BouncerServ", "n1", "*", "bob,alice"},
	"WHOWAS":       {"bob"},
	"PRIVMSG":      {"#c", "bob", "#c,bob", "BouncerServ", "bouncerserv", ",", "@#c", "#d", "$$x", "NickServ", "*"},
	"NOTICE":       {"#c", "bob", "BouncerServ", "$alice", "*"},
	"TAGMSG":       {"#c", "bob", "BouncerServ", ","},
	"INVITE":       {"bob", "BouncerServ"},
	"AUTHENTICATE": {"PLAIN", "EXTERNAL", "OAUTHBEARER", "ANONYMOUS", "*", "+", "plain", "AGFjY3QAcHc=", "AAA=", "AA=="},
	"REGISTER":     {"*", "acct", "alice"},
	"VERIFY":       {"acct", "*"},
	"AWAY":         {"gone", "*"},
	"INFO":         {"x"},
	"MOTD":         nil,
	"MONITOR":      {"+", "-", "C", "L", "S", "c", "x"},
	"CHATHISTORY":  {"LATEST", "BEFORE", "AFTER", "BETWEEN", "AROUND", "TARGETS", "latest"},
	"READ":         {"#c", "bob", "*", "BouncerServ"},
	"MARKREAD":     {"#c", "bob", "*", "BouncerServ"},
	"SEARCH":       {"in=#c", "from=bob", "in=#c;text=x", "limit=x", "limit=-1", "after=x", "text=;in=", "in=bob;limit=0"},
	"BOUNCER":      {"BIND", "LISTNETWORKS", "ADDNETWORK", "CHANGENETWORK", "DELNETWORK", "x"},
	"WEBPUSH":      {"REGISTER", "UNREGISTER", "x"},
	"WALLOPS":      {"x"},
	"OPER":         {"x"},
	"X":            {"x"},
	"ERROR":        {"x"},
	"QUIT":         {"x"},
	"001":          {"x"},
}

var c12DownSecond = map[string][]string{
	"CAP":         {"302", "301", "x", "server-time", "-server-time", "server-time x", "-", "sasl", "-cap-notify cap-notify", "", "soju.im/bouncer-networks", "draft/chathistory=x"},
	"MODE":        {"+o", "+", "-o", "b", "+b", "+k-l", "", "+B"},
	"WHO":         {"%", "%n", "%tcuihsnfdlaor", "%tcuihsnfdlaor,1", "%,", "%t,1234", "%x", "o", ""},
	"WHOIS":       {"bob", "alice", "", "*"},
	"PRIVMSG":     {"", " ", "hi", "\x01ACTION x\x01", "\x01", "\x01VERSION\x01", "help", "'", "\"", "\\", "network", "IDENTIFY p", "IDENTIFY a p", "SET PASSWORD", "SET PASSWORD x", "REGISTER", "REGISTER p", "SET", "IDENTIFY"},
	"NOTICE":      {"", "\x01VERSION x\x01", "\x01", "help"},
	"MONITOR":     {"bob", "bob,carol", ",", "", "*", "alice", "BouncerServ", "a,b,c,d,e,f"},
	"CHATHISTORY": {"#c", "bob", "*", "BouncerServ", "timestamp=2000-01-01T00:00:00.000Z", "", "x"},
	"READ":        {"timestamp=2000-01-01T00:00:00.000Z", "timestamp=x", "*", "", "x", "timestamp="},
	"MARKREAD":    {"timestamp=2000-01-01T00:00:00.000Z", "timestamp=x", "*", "", "x", "timestamp="},
	"BOUNCER":     {"1", "2", "99", "x", "", "-1", "name=x", "host=h;port=x", "host=h;port=99999", "host=", "host=e.test;name=n1", "nickname=;username=", "=", ";;", "host=e.test;tls=x", "realname=\\s\\n"},
	"WEBPUSH":     {"https://e.test/x", "http://e.test/x", "x", "", "https://", "https://127.0.0.1/", "https://[::1]:443/x", "unix:/x"},
	"KICK":        {"bob", "alice", "bob,alice", "", ","},
	"INVITE":      {"#c", "#nope", "bob", ""},
	"JOIN":        {"key", "k1,k2", ",", ""},
	"PART":        {"detach", "bye", ""},
	"TOPIC":       {"", "new"},
	"REGISTER":    {"*", "mail@x", ""},
	"VERIFY":      {"code", ""},
	"USER":        {"0", ""},
	"NAMES":       {"x"},
}

var c12DownThird = map[string][]string{
	"CHATHISTORY": {"*", "timestamp=2000-01-01T00:00:00.000Z", "timestamp=x", "msgid=x", "5", "", "timestamp=1999-01-01T00:00:00.000Z"},
	"BOUNCER":     {"name=x", "host=h2.test", "", "host=", "port=x", "=;=", "realname=", "name=n2", "pass=", "enabled=0", "state=x"},
	"WEBPUSH":     {"", "p256dh=x;auth=y", "p256dh=;auth=", "=", "p256dh"},
	"MODE":        {"alice", "bob", "", "x"},
	"WHO":         {"o", ""},
	"KICK":        {"why", ""},
	"REGISTER":    {"pass", ""},
	"USER":        {"*", ""},
	"CAP":         {"x"},
	"JOIN":        {"x"},
}

var c12DownFourth = map[string][]string{
	"CHATHISTORY": {"timestamp=2000-01-01T00:00:00.000Z", "5", "0", "-1", "x", "99999999999", ""},
	"MODE":        {"bob", ""},
	"USER":        {"", "Real"},
	"BOUNCER":     {"x"},
	"KICK":        {"x"},
}

func c12DownLines(cmd string, level int) []string {
	l := c12Shapes(level)
	first := append(append([]string{}, c12DownCmds[cmd]...), "", "x")
	l = append(l, c12Tuples(first)...)
	if s := c12DownSecond[cmd]; s != nil {
		l = append(l, c12Tuples(first, s)...)
		if t := c12DownThird[cmd]; t != nil {
			l = append(l, c12Tuples(first, s, t)...)
			if f := c12DownFourth[cmd]; f != nil {
				l = append(l, c12Tuples(first, s, t, f)...)
				if cmd == "CHATHISTORY" {
					l = append(l, c12Tuples(first[:6], s, t, t, f)...)
				}
			}
		}
	}
	return c12Uniq(l)
}

// c12Down sends lines from one client, which is replaced when its connection
// ends.
func c12Down(x *c12World, mk func() *kit.Client, lines []string, before func(cl *kit.Client)) {
	c, w := x.c, x.w
	var cl *kit.Client
	for i, line := range lines {
		if cl == nil || cl.Closed() || i%50 == 49 {
			if cl != nil {
				cl.Quit()
			}
			cl = mk()
		}
		if before != nil {
			before(cl)
		}
		c.Step(cl.Name + ": " + line)
		cl.Send(line)
		w.Settle()
		if i%20 == 19 || i == len(lines)-1 {
			if !x.quickAlive(line, false) {
				return
			}
			for _, l := range []*kit.Client{x.a, x.b, x.o, x.u} {
				l.Take()
			}
			cl.Take()
			x.n1.Take()
		}
		if c.Bad() {
			return
		}
	}
	if cl != nil {
		cl.Quit()
	}
}

var c12Phases = []string{"raw", "half", "bound", "bare", "unbound", "down", "quiet"}

func c12Maker(x *c12World, ph string) func() *kit.Client {
	n := 0
	return func() *kit.Client {
		n++
		name := fmt.Sprintf("d%d", n%3)
		switch ph {
		case "raw":
			return x.w.Dial(name)
		case "half":
			cl := x.w.Dial(name)
			cl.Send("CAP LS 302")
			cl.Send("CAP REQ :sasl cap-notify")
			cl.Send("NICK alice")
			x.w.Settle()
			return cl
		case "bare":
			return x.w.Connect(name, kit.ConnOpts{User: "alice", Network: "n1"})
		case "unbound":
			return x.w.Connect(name, kit.ConnOpts{User: "alice", Client: name, Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "batch", "draft/chathistory", "server-time", "message-tags"}})
		}
		return x.w.Connect(name, kit.ConnOpts{User: "alice", Network: "n1", Client: name, Caps: append([]string{"draft/chathistory", "soju.im/search"}, c12Caps...)})
	}
}

func c12Downstream(r *kit.Run) {
	cmds := kit.Keys(c12DownCmds)
	sort.Strings(cmds)
	level := r.Pick(1, 3)
	r.Bound("C12 downstream: %d commands x 7 phases (fresh, negotiating, bound with and without capabilities, unbound, network down, mute server) x generic and command-specific parameter lists", len(cmds))
	for _, ph := range c12Phases {
		for _, cmd := range cmds {
			r.World("down|"+ph+"|"+cmd, func(c *kit.Ctx, w *kit.World) {
				x := c12New(c, w, false)
				x.answer = ph != "quiet"
				x.w.Cfg.MsgStoreDriver = "db"
				x.start(true)
				x.n1.Send(":bob!u@h PRIVMSG #c :hi alice")
				x.n1.Send(":bob!u@h PRIVMSG alice :hi")
				w.Settle()
				if ph == "down" {
					x.n1.Refuse = true
					x.n1.Drop()
				}
				lines := c12DownLines(cmd, level)
				c12Down(x, c12Maker(x, ph), lines, nil)
				x.n1.Refuse = false
				// the networks may have been deleted or changed on request
				if cmd == "BOUNCER" {
					return
				}
				x.alive(cmd)
			})
			if r.Thorough() || ph == "bound" {
				r.World("downtags|"+ph+"|"+cmd, func(c *kit.Ctx, w *kit.World) {
					x := c12New(c, w, false)
					x.answer = true
					x.start(true)
					var lines []string
					for _, t := range append([]string{"@+typing=active;+draft/reply=x "}, c12Tags...) {
						for _, s := range c12Uniq(append(c12Shapes(0), c12Tuples(append(append([]string{}, c12DownCmds[cmd]...), "x"), []string{"bob", "x"})...)) {
							lines = append(lines, t+cmd+s)
						}
					}
					c12Down(x, c12Maker(x, ph), lines, nil)
					if cmd == "BOUNCER" {
						return
					}
					x.alive(cmd)
				})
			}
		}
	}
}

var c12Service = map[string][]string{
	"help": nil, "network": nil, "certfp": nil, "sasl": nil, "user": nil, "channel": nil, "server": nil, "": nil, "x": nil,
	"network create": {"-addr", "-name", "-username", "-pass", "-realname", "-certfp", "-nick", "-auto-away", "-enabled", "-connect-command"},
	"network status": nil, "network update": {"-addr", "-name", "-nick", "-enabled", "-connect-command", "-auto-away", "-pass"},
	"network delete": nil, "network quote": nil, "certfp fingerprint": {"-network"}, "sasl status": {"-network"}, "sasl set-plain": {"-network"}, "sasl reset": {"-network"},
	"user status": nil, "user update": {"-nick", "-realname", "-enabled"}, "user delete": nil, "user run": nil, "user create": {"-username", "-nick"},
	"channel status": {"-network"}, "channel create": {"-detached", "-relay-detached", "-detach-after"}, "channel update": {"-detached", "-relay-detached", "-reattach-on", "-detach-after", "-detach-on"}, "channel delete": nil,
	"server status": nil, "server notice": nil, "server debug": nil,
}

func c12ServiceCmds(r *kit.Run) {
	vals := []string{"n2", "alice", "zoe", "#c", "#d", "#nope", "nope", "''", "1", "-1", "true", "irc+insecure://e.test", "'", "\\", "--", "-x", "message", "1h"}
	r.Bound("C12 service: %d commands with up to three arguments out of their flags and %d values", len(c12Service), len(vals))
	cmds := kit.Keys(c12Service)
	sort.Strings(cmds)
	for _, cmd := range cmds {
		for _, ph := range []string{"bound", "unbound", "down"} {
			r.World("service|"+ph+"|"+cmd, func(c *kit.Ctx, w *kit.World) {
				x := c12New(c, w, false)
				x.answer = true
				x.start(true)
				if ph == "down" {
					x.n1.Refuse = true
					x.n1.Drop()
				}
				var l []string
				pool := append(append([]string{}, c12Service[cmd]...), vals...)
				if cmd == "server debug" || cmd == "help" {
					pool = vals
				}
				l = append(l, "")
				for _, a := range pool {
					l = append(l, a)
					for _, b := range pool {
						l = append(l, a+" "+b)
						if r.Thorough() || a[0] == '-' || a[0] == '#' {
							for _, d := range pool {
								l = append(l, a+" "+b+" "+d)
							}
						}
					}
				}
				var lines []string
				for _, s := range l {
					if strings.Contains(s, "n1") || (cmd == "user delete" || cmd == "user update" || cmd == "network delete") && !strings.Contains(s, "nope") {
						continue
					}
					lines = append(lines, "PRIVMSG BouncerServ :"+strings.TrimSpace(cmd+" "+s))
				}
				c12Down(x, c12Maker(x, ph), lines, nil)
				x.n1.Refuse = false
				if strings.HasPrefix(cmd, "network") || strings.HasPrefix(cmd, "user") {
					return
				}
				x.alive(cmd)
			})
		}
	}
}

// c12Seqs explores sequences of client and server events.
func c12Seqs(r *kit.Run) {
	auth := []string{
		"a AUTHENTICATE PLAIN", "a AUTHENTICATE AGFjY3QAcHc=", "a AUTHENTICATE *", "a AUTHENTICATE PLAIN|AUTHENTICATE AGFjY3QAcHc=", "a AUTHENTICATE *|AUTHENTICATE PLAIN", "a AUTHENTICATE ANONYMOUS|AUTHENTICATE AA==", "a REGISTER acct mail pw", "a VERIFY acct code", "a PRIVMSG NickServ :IDENTIFY pw",
		"b AUTHENTICATE PLAIN|AUTHENTICATE AGFjY3QAcHc=", "s AUTHENTICATE +", "s :n1.test 900 alice alice!u@h acct :ok", "s :n1.test 903 alice :ok", "s :n1.test 904 alice :no", "s :n1.test 908 alice PLAIN :mechs", "s :n1.test 907 alice :already",
		"s :n1.test 421 alice AUTHENTICATE :unknown", "s :n1.test FAIL AUTHENTICATE X :no", "s :n1.test FAIL REGISTER X acct :no", "s REGISTER SUCCESS acct :ok", "s VERIFY SUCCESS acct :ok", "s CAP alice DEL :sasl", "s CAP alice NEW :sasl=PLAIN",
		"drop", "quit a",
	}
	mixed := []string{
		"a LIST", "a WHO #c", "a WHOIS bob", "a JOIN #new", "a PART #c", "a PART #c :detach", "a JOIN #d", "a NICK alice2", "a MONITOR + bob", "a AWAY :x", "a BOUNCER CHANGENETWORK 1 nickname=other", "a PRIVMSG BouncerServ :network update n1 -enabled false", "a PRIVMSG BouncerServ :channel delete #c", "u BOUNCER DELNETWORK 1",
		"a PRIVMSG BouncerServ :network update n1 -enabled true", "s :alice!u@host JOIN #new", "s :x!u@h KICK #c alice", "s :n1.test 323 alice :End", "s :n1.test 315 alice #c :End", "s :n1.test 366 alice #new :End", "s :alice!u@host NICK bob", "s :bob!u@h PRIVMSG #d :alice", "s :n1.test 421 alice LIST :unknown",
		"s :n1.test 005 alice CASEMAPPING=rfc1459 :x", "s ERROR :bye", "drop", "quit a", "quit b", "sleep",
	}
	for _, g := range []struct {
		name  string
		ev    []string
		depth int
	}{{"auth", auth, r.Pick(3, 4)}, {"mixed", mixed, r.Pick(3, 4)}} {
		r.Bound("C12 sequences %s: every sequence of %d events up to length %d", g.name, len(g.ev), g.depth)
		r.Tree("seq-"+g.name, g.depth, func(seq []string) []string {
			var out []string
			for _, e := range g.ev {
				if strings.HasPrefix(e, "quit") && len(seq) > 0 && seq[len(seq)-1] == e {
					continue
				}
				out = append(out, e)
			}
			return out
		}, func(key string, seq []string) {
			if len(seq) < g.depth {
				return
			}
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				x := c12New(c, w, false)
				x.start(true)
				deleted := false
				gone := map[string]bool{}
				for _, e := range seq {
					c.Step(e)
					f := strings.SplitN(e, " ", 2)
					switch f[0] {
					case "a", "b", "u":
						cl := map[string]*kit.Client{"a": x.a, "b": x.b, "u": x.u}[f[0]]
						if !gone[f[0]] {
							for _, line := range strings.Split(f[1], "|") {
								cl.Send(line)
							}
						}
						deleted = deleted || strings.HasPrefix(f[1], "BOUNCER DELNETWORK")
					case "s":
						x.n1.Send(f[1])
					case "drop":
						x.n1.Drop()
					case "sleep":
						w.Sleep(time.Minute)
					case "quit":
						cl := map[string]*kit.Client{"a": x.a, "b": x.b}[f[1]]
						if !gone[f[1]] {
							cl.Conn().Hangup()
							gone[f[1]] = true
						}
					}
					w.Settle()
				}
				if !x.quickAlive(seq[len(seq)-1], false) {
					return
				}
				c.Check(x.pinged(x.u) && x.pinged(x.z), "clients no longer get answers to PING")
				x.relays(x.n2, x.o, seq[len(seq)-1])
				if deleted {
					return
				}
				// a new client finds the network, which reconnects if enabled
				cl := w.Connect("probe", kit.ConnOpts{User: "alice", Network: "n1", Client: "probe"})
				if !c.Check(cl.Registered(), "a new client cannot connect") {
					return
				}
				cl.Send("PRIVMSG BouncerServ :network update n1 -enabled true")
				x.answer = true
				w.Settle()
				if !c.Check(x.live("the sequence"), "the network does not come back") {
					return
				}
				x.relays(x.n1, cl, "the sequence")
			})
		})
	}
}

func TestC12(t *testing.T) {
	r := kit.Start(t, "C12")
	c12Upstream(r)
	c12Unregistered(r)
	c12Downstream(r)
	c12ServiceCmds(r)
	c12Seqs(r)
}
