package props

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C09, first part: what each client receives is what a client with every
// capability receives, projected to the capabilities it enabled.

var c09Caps = []string{
	"server-time", "message-tags", "batch", "account-tag", "extended-join", "setname", // vary within a world
	"chghost", "away-notify", "account-notify", "invite-notify", "multi-prefix", "echo-message", "draft/read-marker", "draft/no-implicit-names",
}

var c09UpCaps = []string{"message-tags", "server-time", "account-tag", "batch", "extended-join", "setname", "chghost", "away-notify", "account-notify", "invite-notify", "multi-prefix", "labeled-response", "echo-message"}

// c09Canon writes a message so that equal messages are equal strings.
func c09Canon(m *ircMessage) string {
	var tags []string
	for k, v := range m.Tags {
		tags = append(tags, k+"="+string(v))
	}
	sort.Strings(tags)
	p := slices.Clone(m.Params)
	if m.Command == "353" && len(p) == 4 {
		names := strings.Fields(p[3])
		sort.Strings(names)
		p[3] = strings.Join(names, " ")
	}
	prefix := ""
	if m.Prefix != nil {
		prefix = m.Prefix.String()
		if m.Prefix.Name == "alice" {
			prefix = "alice" // the host the clients believe to have is not the subject here
		}
	}
	return fmt.Sprintf("%v %s %s %q", tags, prefix, m.Command, p)
}

type c09Proj struct {
	has      map[string]bool
	nick     string
	implicit bool // names not asked for
}

// project gives what a client with the capabilities may see of a message.
func (p c09Proj) project(m *ircMessage) *ircMessage {
	m = m.Copy()
	need := map[string]string{"TAGMSG": "message-tags", "SETNAME": "setname", "AWAY": "away-notify", "ACCOUNT": "account-notify", "BATCH": "batch", "MARKREAD": "draft/read-marker"}[m.Command]
	if need != "" && !p.has[need] {
		return nil
	}
	for t := range m.Tags {
		keep := p.has["message-tags"]
		switch t {
		case "time":
			keep = keep || p.has["server-time"]
		case "account":
			keep = keep || p.has["account-tag"]
		case "batch":
			keep = p.has["batch"]
		}
		if !keep {
			delete(m.Tags, t)
		}
	}
	switch m.Command {
	case "JOIN":
		if !p.has["extended-join"] {
			m.Params = m.Params[:1]
		}
	case "INVITE":
		if m.Params[0] != p.nick && !p.has["invite-notify"] {
			return nil
		}
	case "353", "366":
		if p.implicit && p.has["draft/no-implicit-names"] {
			return nil
		}
		if m.Command == "353" && !p.has["multi-prefix"] {
			names := strings.Fields(m.Params[3])
			for i, n := range names {
				bare := strings.TrimLeft(n, "@+")
				if bare != n {
					names[i] = n[:1] + bare
				}
			}
			m.Params[3] = strings.Join(names, " ")
		}
	case "CHGHOST":
		if !p.has["chghost"] {
			if m.Prefix.Name != p.nick {
				return nil
			}
			// the host of the user itself is told in another way
			return &irc.Message{Prefix: &irc.Prefix{Name: "#"}, Command: "396", Params: []string{p.nick, m.Params[1], "is now your visible host"}}
		}
	}
	return m
}

func c09Parse(line string) *ircMessage {
	m, err := irc.ParseMessage(line)
	if err != nil {
		panic(line)
	}
	return m
}

type c09Client struct {
	cl   *kit.Client
	caps []string
	proj c09Proj
}

type c09World struct {
	c    *kit.Ctx
	w    *kit.World
	srv  *kit.UpServer
	ref  *c09Client
	all  []*c09Client
	self string
}

func c09Lines(cl *kit.Client) []*ircMessage {
	refs := map[string]string{}
	var out []*ircMessage
	for _, m := range cl.Take() {
		if m.Command == "PING" {
			continue
		}
		m = m.Copy()
		// number the batches in the order they appear
		name := func(ref string) string {
			if _, ok := refs[ref]; !ok {
				refs[ref] = fmt.Sprint("b", len(refs))
			}
			return refs[ref]
		}
		if m.Command == "BATCH" {
			m.Params[0] = m.Params[0][:1] + name(m.Params[0][1:])
		}
		if b, ok := m.Tags["batch"]; ok {
			m.Tags["batch"] = name(b)
		}
		if m.Command == "396" {
			m.Prefix = &irc.Prefix{Name: "#"}
		}
		if m.Command == "CHGHOST" && m.Prefix != nil {
			m.Prefix = &irc.Prefix{Name: m.Prefix.Name}
		}
		out = append(out, m)
	}
	return out
}

func (x *c09World) connect(name string, caps []string) *c09Client {
	k := &c09Client{caps: caps}
	k.proj = c09Proj{has: map[string]bool{}, nick: "alice"}
	for _, c := range caps {
		k.proj.has[c] = true
	}
	k.cl = x.w.Connect(name, kit.ConnOpts{User: "alice", Network: "net", Client: name, Caps: caps})
	x.c.Check(k.cl.Registered(), "%v could not register", caps)
	return k
}

// compare checks everything received since the last call. want are the lines
// for a client with all capabilities, nil if only the projections count; only
// restricts who gets something.
func (x *c09World) compare(what string, want []string, implicit bool, skip map[*c09Client]bool) {
	if x.c.Bad() {
		return
	}
	ref := c09Lines(x.ref.cl)
	if want != nil {
		var got, exp []string
		for _, m := range ref {
			got = append(got, c09Canon(m))
		}
		for _, l := range want {
			m := c09Parse(l)
			if m.Command == "CHGHOST" {
				m.Prefix = &irc.Prefix{Name: m.Prefix.Name}
			}
			exp = append(exp, c09Canon(m))
		}
		x.c.Check(kit.Eq(got, exp), "%s: a client with all capabilities receives %s, want %s", what, kit.Q(got), kit.Q(exp))
	}
	for _, k := range x.all {
		var got, exp []string
		for _, m := range c09Lines(k.cl) {
			got = append(got, c09Canon(m))
		}
		if !skip[k] {
			p := k.proj
			p.implicit = implicit
			for _, m := range ref {
				if m = p.project(m); m != nil {
					exp = append(exp, c09Canon(m))
				}
			}
		}
		x.c.Check(kit.Eq(got, exp), "%s: the client with %v receives %s, want %s", what, k.caps, kit.Q(got), kit.Q(exp))
		if x.c.Bad() {
			return
		}
	}
}

func (x *c09World) up(implicit bool, lines ...string) {
	for _, l := range lines {
		x.srv.Send(l)
	}
	x.w.Settle()
	want := []string{}
	for _, l := range lines {
		if strings.Contains(l, " BATCH ") {
			continue
		}
		m := c09Parse(l)
		delete(m.Tags, "batch")
		if _, ok := m.Tags["time"]; !ok && !(m.Command[0] >= '0' && m.Command[0] <= '9') {
			if m.Tags == nil {
				m.Tags = irc.Tags{}
			}
			m.Tags["time"] = time.Now().UTC().Format(c11Layout)
		}
		want = append(want, m.String())
	}
	x.compare(strings.Join(lines, " | "), want, implicit, nil)
}

func c09World_(c *kit.Ctx, w *kit.World, subsets [][]string) {
	w.Cfg.MsgStoreDriver = "db"
	u := w.AddUser("alice", nil)
	rec, s := w.AddNetwork(u, "net", nil)
	w.AddChannel(rec, "#c", nil)
	s.Caps = c09UpCaps
	s.ISupport = append(s.ISupport, "PREFIX=(ov)@+", "CHANMODES=b,k,l,imnpst")
	x := &c09World{c: c, w: w, srv: s}
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		if m.Command == "JOIN" {
			tag := ""
			if l := m.Tags["label"]; l != "" {
				tag = "@label=" + l + " "
			}
			uc.Send(tag + ":" + uc.Mask() + " JOIN " + m.Params[0] + " myacc :My Name")
			uc.Send(":srv 332 alice " + m.Params[0] + " :the topic")
			uc.Send(":srv 353 alice = " + m.Params[0] + " :alice @+bob +carol erin")
			uc.Send(":srv 366 alice " + m.Params[0] + " :End")
			return true
		}
		return false
	}
	w.Start()
	me := s.Live().Mask()
	x.self = me
	x.ref = x.connect("ref", slices.Clone(c09Caps[:len(c09Caps)-1])) // all, but with names
	burst := func(k *c09Client) (out []string) {
		for _, m := range c09Lines(k.cl) {
			switch m.Command {
			case "JOIN", "353", "366", "MARKREAD", "READ", "332", "BATCH", "PRIVMSG", "TAGMSG":
				out = append(out, c09Canon(m))
			case "SETNAME", "CHGHOST", "AWAY", "ACCOUNT":
				need := map[string]string{"SETNAME": "setname", "CHGHOST": "chghost", "AWAY": "away-notify", "ACCOUNT": "account-notify"}[m.Command]
				c.Check(k.proj.has[need], "the client with %v receives %s", k.caps, m)
			default:
				for t := range m.Tags {
					pm := k.proj.project(m)
					_, ok := pm.Tags[t]
					c.Check(ok, "the client with %v receives %s", k.caps, m)
				}
			}
		}
		return
	}
	full := []*ircMessage{
		c09Parse(":" + me + " JOIN #c * :alice"), c09Parse(":srv 332 alice #c :the topic"), c09Parse(":" + me + " MARKREAD #c *"),
		c09Parse(":srv 353 alice = #c :alice @+bob +carol erin"), c09Parse(":srv 366 alice #c :End of /NAMES list"),
	}
	refBurst := c09Lines(x.ref.cl)
	full = nil
	for _, m := range refBurst {
		switch m.Command {
		case "JOIN", "353", "366", "MARKREAD", "332":
			full = append(full, m)
		}
	}
	c.Check(len(full) == 5 && full[0].Command == "JOIN" && len(full[0].Params) == 3 && full[0].Params[2] != "" && full[1].Command == "332" && full[2].Command == "MARKREAD" && full[3].Command == "353" && full[4].Command == "366" &&
		strings.Contains(full[3].Params[3], "@+bob"), "a client with all capabilities joins with %s", kit.Q(kit.Lines(full)))
	for i, sub := range subsets {
		k := x.connect(fmt.Sprint("k", i), sub)
		got := burst(k)
		var exp []string
		p := k.proj
		p.implicit = true
		for _, m := range full {
			if m = p.project(m); m != nil {
				exp = append(exp, c09Canon(m))
			}
		}
		c.Check(kit.Eq(got, exp), "the client with %v joins with %s, want %s", sub, kit.Q(got), kit.Q(exp))
		x.all = append(x.all, k)
		if c.Bad() {
			return
		}
	}
	w.Settle()
	for _, k := range append(x.all, x.ref) {
		k.cl.Take()
	}

	const T = "time=1999-12-31T10:00:00.123Z"
	x.up(false, "@"+T+";account=bobacc;msgid=x1;+foo=bar :bob!u@h PRIVMSG #c :hello")
	x.up(false, "@"+T+" :bob!u@h NOTICE alice :hello")
	x.up(false, "@account=bobacc :bob!u@h PRIVMSG alice :no time")
	x.up(false, "@"+T+";+typing=active;msgid=x2 :bob!u@h TAGMSG #c")
	x.up(false, "@+typing=active :bob!u@h TAGMSG alice")
	x.up(false, "@"+T+";account=daveacc :dave!d@d JOIN #c daveacc :Dave Real")
	x.up(false, ":frank!f@f JOIN #c * :Frank")
	x.up(false, "@"+T+";account=daveacc :dave!d@d PART #c :bye")
	x.up(false, "@account=frankacc :frank!f@f QUIT :gone")
	x.up(false, "@account=a :erin!e@e NICK erin2")
	x.up(false, "@account=a :bob!u@h KICK #c erin2 :out")
	x.up(false, "@account=a :bob!u@h MODE #c +v alice")
	x.up(false, "@account=a :bob!u@h TOPIC #c :new topic")
	x.up(false, "@account=a;"+T+" :bob!u@h SETNAME :New Name")
	x.up(false, "@account=a;"+T+" :bob!u@h CHGHOST nu nh")
	x.up(false, "@account=a;"+T+" :bob!nu@nh AWAY :lunch")
	x.up(false, "@account=a;"+T+" :bob!nu@nh AWAY")
	x.up(false, "@account=a;"+T+" :bob!nu@nh ACCOUNT newacc")
	x.up(false, "@account=a;"+T+" :bob!nu@nh ACCOUNT *")
	x.up(false, "@account=a;"+T+" :bob!nu@nh INVITE alice #other")
	x.up(false, "@account=a;"+T+" :bob!nu@nh INVITE dave #c")
	x.up(false, "@account=a;"+T+" :carol!c@c JOIN #c * :Carol")
	x.up(false, ":srv BATCH +n netsplit one.two three.four", "@batch=n :carol!c@c QUIT :one.two three.four", "@batch=n;account=z :bob!u@h QUIT :one.two three.four", ":srv BATCH -n")
	x.up(false, ":srv BATCH +n netjoin one.two three.four", "@batch=n :carol!c@c JOIN #c * :Carol", "@batch=n;account=z :bob!u@h JOIN #c bobacc :Bob", ":srv BATCH -n")
	x.up(false, "@"+T+" :srv NOTICE alice :*** server notice")
	if c.Bad() {
		return
	}
	// the user's own changes
	s.Send("@" + T + " :" + me + " SETNAME :Other Name")
	w.Settle()
	x.compare("own SETNAME", []string{":" + me + " SETNAME :Other Name"}, false, nil)
	s.Send("@" + T + " :" + me + " CHGHOST nu nh")
	w.Settle()
	x.compare("own CHGHOST", []string{":alice CHGHOST nu nh"}, false, nil)
	me = "alice!nu@nh"
	if c.Bad() {
		return
	}
	// by other clients
	x.ref.cl.Send("PRIVMSG #c :by another client")
	w.Settle()
	now := "time=" + time.Now().UTC().Format(c11Layout)
	x.compare("PRIVMSG by a client", []string{"@" + now + " :" + s.Live().Mask() + " PRIVMSG #c :by another client"}, false, nil)
	x.ref.cl.Send("@+typing=active TAGMSG #c")
	w.Settle()
	x.compare("TAGMSG by a client", nil, false, nil)
	x.ref.cl.Send("MARKREAD #c timestamp=1999-12-31T00:00:00.000Z")
	w.Settle()
	x.compare("MARKREAD by a client", []string{":" + me + " MARKREAD #c timestamp=1999-12-31T00:00:00.000Z"}, false, nil)
	x.ref.cl.Send("JOIN #new")
	w.Settle()
	x.compare("JOIN by a client", nil, true, nil)
	x.ref.cl.Send("PART #new :detach")
	w.Settle()
	x.compare("detach by a client", []string{":" + me + " PART #new Detach"}, false, nil)
	x.ref.cl.Send("JOIN #new")
	w.Settle()
	x.attach("reattach by a client", me)
	x.ref.cl.Send("PART #new")
	w.Settle()
	x.compare("PART by a client", nil, false, nil)
	if c.Bad() {
		return
	}
	// requests of each client
	for _, q := range []string{"NAMES #c", "TOPIC #c", "CHATHISTORY LATEST #c * 5", "SEARCH :in=#c;text=client", "CAP LIST", "MARKREAD #c"} {
		x.ref.cl.Send(q)
		for _, k := range x.all {
			k.cl.Send(q)
		}
		w.Settle()
		if q == "CAP LIST" {
			for _, k := range append(slices.Clone(x.all), x.ref) {
				l := c09Lines(k.cl)
				var got []string
				for _, m := range l {
					c.Check(m.Command == "CAP" && m.Params[1] == "LIST", "CAP LIST: %s", m)
					got = append(got, strings.Fields(m.Params[len(m.Params)-1])...)
				}
				got = slices.DeleteFunc(got, func(s string) bool { return s == "cap-notify" })
				c.Check(kit.EqSet(got, k.caps), "CAP LIST returns %v, enabled are %v", got, k.caps)
			}
			continue
		}
		x.compare(q, nil, false, nil)
	}
	// one message by every client: it alone depends on echo-message
	for i, k := range x.all {
		k.cl.Send(fmt.Sprintf("PRIVMSG #c :number %d", i))
	}
	w.Settle()
	if c.Bad() {
		return
	}
	var orderRef []string
	at := time.Now().UTC().Format(c11Layout)
	for _, m := range c09Lines(x.ref.cl) {
		orderRef = append(orderRef, m.Params[1])
	}
	c.Check(len(orderRef) == len(x.all), "%d of %d messages arrived", len(orderRef), len(x.all))
	for i, k := range x.all {
		var got, exp []string
		for _, m := range c09Lines(k.cl) {
			got = append(got, c09Canon(m))
		}
		for _, t := range orderRef {
			if t == fmt.Sprintf("number %d", i) && !k.proj.has["echo-message"] {
				continue
			}
			exp = append(exp, c09Canon(k.proj.project(c09Parse("@time="+at+" :"+s.Live().Mask()+" PRIVMSG #c :"+t))))
		}
		c.Check(kit.Eq(got, exp), "messages by clients: the client with %v receives %s, want %s", k.caps, kit.Q(got), kit.Q(exp))
		if c.Bad() {
			return
		}
	}
	// disabling a capability stops it at once
	for _, k := range x.all {
		k.cl.Send("CAP REQ :-" + strings.Join(append([]string{"nothing"}, k.caps...), " -"))
	}
	w.Settle()
	for _, k := range x.all {
		l := k.cl.Take()
		c.Check(len(l) == 1 && l[0].Command == "CAP" && l[0].Params[1] == "ACK", "disabling %v: %s", k.caps, kit.Q(kit.Lines(l)))
		k.proj.has = map[string]bool{}
	}
	x.up(false, "@"+T+";account=bobacc;msgid=x1;+foo=bar :bob!u@h PRIVMSG #c :bye")
	x.up(false, "@"+T+";+foo=bar :bob!u@h TAGMSG #c")
	x.up(false, "@"+T+";account=daveacc :dave!d@d JOIN #c daveacc :Dave Real")
	x.up(false, "@"+T+" :dave!d@d SETNAME :x")
	x.up(false, "@"+T+" :dave!d@d CHGHOST x y")
	x.up(false, "@"+T+" :dave!x@y AWAY :x")
	x.up(false, "@"+T+" :dave!x@y ACCOUNT x")
	x.up(false, "@"+T+" :dave!x@y INVITE bob #c")
}

// attach checks the lines after a reattach, which come with the channel's state.
func (x *c09World) attach(what, me string) {
	if x.c.Bad() {
		return
	}
	ref := x.ref.cl.Peek()
	j := slices.IndexFunc(ref, func(m *ircMessage) bool { return m.Command == "JOIN" })
	x.c.Check(j >= 0 && len(ref[j].Params) == 3, "%s: a client with extended-join receives %s", what, kit.Q(kit.Lines(ref)))
	x.compare(what, nil, true, nil)
}

func TestC09(t *testing.T) {
	r := kit.Start(t, "C09")
	n := len(c09Caps)
	for g := 0; g < 1<<(n-6); g++ {
		var subsets [][]string
		for l := 0; l < 64; l++ {
			s := g<<6 | l
			var sub []string
			for i, c := range c09Caps {
				if s>>i&1 == 1 {
					sub = append(sub, c)
				}
			}
			subsets = append(subsets, sub)
		}
		r.World(fmt.Sprintf("caps:%d", g), func(c *kit.Ctx, w *kit.World) {
			c09World_(c, w, subsets)
			r.Count(64, 64*45)
		})
	}
	r.Bound("projection: all %d subsets of %d capabilities, 45 kinds of events each", 1<<n, n)
	c09Negotiation(r)
}
