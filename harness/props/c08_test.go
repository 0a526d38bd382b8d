package props

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C08: the stored networks, the listed networks, the clients' views and the
// running connections agree after every history of network operations.

type c08Net struct {
	label            int
	name, addr       string
	nick, user, real string
	enabled          bool
}

type c08Model struct {
	nets         []c08Net
	unick, ureal string
	max          int
	admin        bool
	mute, down   bool // server one does not answer, or refuses
	nlabel       int
	fail         string // why the last operation has to be refused
}

const c08User = "alice"

func (s c08Model) key() string {
	s.fail = ""
	s.nlabel = 0
	return fmt.Sprintf("%+v", s)
}

func (s c08Model) clone() c08Model {
	s.nets = append([]c08Net(nil), s.nets...)
	s.fail = ""
	return s
}

func (s *c08Model) find(label int) *c08Net {
	for i := range s.nets {
		if s.nets[i].label == label {
			return &s.nets[i]
		}
	}
	return nil
}

func (n *c08Net) getName() string {
	if n.name != "" {
		return n.name
	}
	return n.addr
}

func (s *c08Model) defNick() string {
	if s.unick != "" {
		return s.unick
	}
	return c08User
}

func (s *c08Model) effNick(n *c08Net) string {
	if n.nick != "" {
		return n.nick
	}
	return s.defNick()
}

func (s *c08Model) effReal(n *c08Net) string {
	if n.real != "" {
		return n.real
	}
	if s.ureal != "" {
		return s.ureal
	}
	return s.effNick(n)
}

// c08Addr splits an address into its attributes.
func c08Addr(addr string) (host, port, tls string) {
	tls = "1"
	if a, ok := strings.CutPrefix(addr, "irc+insecure://"); ok {
		tls, addr = "0", a
	}
	addr = strings.TrimPrefix(addr, "ircs://")
	host = addr
	if i := strings.LastIndexByte(addr, ':'); i >= 0 && !strings.HasSuffix(addr, "]") {
		host, port = addr[:i], addr[i+1:]
	}
	host = strings.TrimSuffix(strings.TrimPrefix(host, "["), "]")
	return
}

func c08HostOf(addr string) string { h, _, _ := c08Addr(addr); return h }

func (s *c08Model) running(n *c08Net) bool {
	h, p, _ := c08Addr(n.addr)
	if (s.mute || s.down) && h == "one.test" {
		return false
	}
	return n.enabled && (h == "one.test" || h == "two.test") && (p == "" || p == "6667")
}

func (s *c08Model) attrs(n *c08Net) map[string]string {
	m := map[string]string{"name": n.getName(), "state": "disconnected", "nickname": s.effNick(n), "realname": s.effReal(n)}
	if n.user != "" {
		m["username"] = n.user
	}
	if s.running(n) {
		m["state"] = "connected"
	} else if n.enabled && !(s.mute && c08HostOf(n.addr) == "one.test") {
		m["error"] = "(some)"
	}
	host, port, tls := c08Addr(n.addr)
	m["host"], m["tls"] = host, tls
	if port != "" {
		m["port"] = port
	}
	return m
}

func (s *c08Model) enabledCount() int {
	c := 0
	for _, n := range s.nets {
		if n.enabled {
			c++
		}
	}
	return c
}

// c08Apply makes the result of a create (label 0) or change.
func (s *c08Model) put(n c08Net, force bool) {
	old := s.find(n.label)
	switch name := n.getName(); {
	case name == "*" || strings.HasPrefix(name, "-"):
		s.fail = "name"
		return
	}
	for _, o := range s.nets {
		if o.label != n.label && o.getName() == n.getName() {
			s.fail = "duplicate"
			return
		}
		if o.label != n.label && n.nick != "" && o.addr == n.addr && o.nick == n.nick {
			s.fail = "same address and nickname"
			return
		}
	}
	if n.enabled && (old == nil || !old.enabled) && !force && s.max >= 0 && s.enabledCount() >= s.max {
		s.fail = "limit"
		return
	}
	if old == nil {
		s.nlabel++
		n.label = s.nlabel
		s.nets = append(s.nets, n)
	} else {
		*old = n
	}
}

// The operations. Each is a line (with %I replaced with the network's ID and
// %N with its name) sent by a client, and its effect on the model.
type c08Op struct {
	name string
	by   string // A: unbound notify client, B: bound notify client, S: service through L
	line string
	f    func(s *c08Model)
	per  bool // per network label
	fl   func(s *c08Model, n *c08Net)
}

func c08Set(s *c08Model, n *c08Net, g func(n *c08Net)) {
	c := *n
	g(&c)
	if c.nick == s.defNick() {
		c.nick = ""
	}
	if c.real == s.ureal {
		c.real = ""
	}
	s.put(c, false)
}

func c08Create(n c08Net) func(s *c08Model) {
	return func(s *c08Model) {
		n := n
		if n.nick == s.defNick() {
			n.nick = ""
		}
		s.put(n, false)
	}
}

const (
	c08One  = "irc+insecure://one.test:6667"
	c08Two  = "irc+insecure://two.test:6667"
	c08Down = "irc+insecure://down.test:6667"
)

func c08No(why string) func(s *c08Model) { return func(s *c08Model) { s.fail = why } }

var c08Ops = []c08Op{
	{name: "add-two", by: "A", line: `BOUNCER ADDNETWORK name=two;host=two.test;port=6667;tls=0;realname=R\sR`, f: c08Create(c08Net{name: "two", addr: c08Two, real: "R R", enabled: true})},
	{name: "add-down", by: "B", line: `BOUNCER ADDNETWORK name=dn;host=down.test;port=6667;tls=0;username=U;nickname=zed`, f: c08Create(c08Net{name: "dn", addr: c08Down, user: "U", nick: "zed", enabled: true})},
	{name: "add-noname", by: "A", line: `BOUNCER ADDNETWORK host=two.test;port=6667;tls=0`, f: c08Create(c08Net{addr: c08Two, enabled: true})},
	{name: "svc-off", by: "S", line: `network create -addr irc+insecure://two.test:6667 -name off -enabled false`, f: c08Create(c08Net{name: "off", addr: c08Two})},
	{name: "svc-two", by: "S", line: `network create -addr irc+insecure://two.test:6667 -name two -nick nn -username u2 -realname rr`, f: c08Create(c08Net{name: "two", addr: c08Two, nick: "nn", user: "u2", real: "rr", enabled: true})},
	{name: "svc-ign", by: "S", line: `network create -addr irc+insecure://two.test:6667 -name ign -ignore-limit`, f: func(s *c08Model) {
		if !s.admin {
			s.fail = "privilege"
			return
		}
		s.put(c08Net{name: "ign", addr: c08Two, enabled: true}, true)
	}},
	{name: "unick", by: "A", line: "NICK uu", f: func(s *c08Model) { s.unick = "uu" }},
	{name: "unick0", by: "S", line: "user update -nick alice", f: func(s *c08Model) { s.unick = "alice" }},
	{name: "ureal", by: "A", line: "SETNAME :Real U", f: func(s *c08Model) { s.ureal = "Real U" }},
	{name: "del", by: "A", line: "BOUNCER DELNETWORK %I", per: true, fl: c08Del},
	{name: "sdel", by: "S", line: "network delete %N", per: true, fl: c08Del},
	{name: "nick", by: "A", line: "BOUNCER CHANGENETWORK %I nickname=nn", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.nick = "nn" }) }},
	{name: "nickU", by: "B", line: "BOUNCER CHANGENETWORK %I nickname=alice", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.nick = "alice" }) }},
	{name: "nick0", by: "S", line: "network update %N -nick ''", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.nick = "" }) }},
	{name: "user", by: "S", line: "network update %N -username u1", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.user = "u1" }) }},
	{name: "user0", by: "A", line: "BOUNCER CHANGENETWORK %I username=;realname=r1", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.user, n.real = "", "r1" }) }},
	{name: "real0", by: "A", line: "BOUNCER CHANGENETWORK %I realname", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.real = "" }) }},
	{name: "ren", by: "A", line: "BOUNCER CHANGENETWORK %I name=uno", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.name = "uno" }) }},
	{name: "ren2", by: "S", line: "network update %N -name two", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.name = "two" }) }},
	{name: "ren0", by: "B", line: "BOUNCER CHANGENETWORK %I name=", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.name = "" }) }},
	{name: "host", by: "A", line: "BOUNCER CHANGENETWORK %I host=down.test", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { c08Host(n, "down.test") }) }},
	{name: "host1", by: "S", line: "network update %N -addr irc+insecure://one.test:6667", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.addr = c08One }) }},
	{name: "port0", by: "A", line: "BOUNCER CHANGENETWORK %I port=", per: true, fl: func(s *c08Model, n *c08Net) {
		c08Set(s, n, func(n *c08Net) { h, _, _ := c08Addr(n.addr); n.addr = "irc+insecure://" + h })
	}},
	{name: "off", by: "S", line: "network update %N -enabled false", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.enabled = false }) }},
	{name: "on", by: "S", line: "network update %N -enabled true", per: true, fl: func(s *c08Model, n *c08Net) { c08Set(s, n, func(n *c08Net) { n.enabled = true }) }},
	{name: "bnick", by: "B", line: "NICK bb", f: func(s *c08Model) {
		if n := s.find(1); n != nil {
			c := *n
			c.nick = "bb"
			s.put(c, false)
		}
	}},
	{name: "bset", by: "B", line: "SETNAME :Bee", f: func(s *c08Model) {
		if n := s.find(1); n != nil {
			n.real = "Bee"
			if s.ureal == "Bee" {
				n.real = ""
			}
		}
	}},
	{name: "drop", by: "up", f: func(s *c08Model) {}},
	{name: "err", by: "up", f: func(s *c08Model) {}},
}

func c08Host(n *c08Net, h string) {
	_, port, tls := c08Addr(n.addr)
	n.addr = h
	if port != "" {
		n.addr += ":" + port
	}
	if tls == "0" {
		n.addr = "irc+insecure://" + n.addr
	}
}

func c08Del(s *c08Model, n *c08Net) {
	for i := range s.nets {
		if s.nets[i].label == n.label {
			s.nets = append(s.nets[:i:i], s.nets[i+1:]...)
			return
		}
	}
}

// Requests that have to be refused whatever the state.
var c08Bad = []string{
	"A BOUNCER ADDNETWORK name=*;host=two.test;port=6667;tls=0",
	"A BOUNCER ADDNETWORK name=-x;host=two.test;port=6667;tls=0",
	"A BOUNCER ADDNETWORK name=one;host=two.test;port=6667;tls=0",
	"A BOUNCER ADDNETWORK name=x",
	"A BOUNCER ADDNETWORK name=x;host=",
	"A BOUNCER ADDNETWORK name=x;port=6667;tls=0",
	"A BOUNCER ADDNETWORK name=x;host=two.test;foo=bar",
	"A BOUNCER ADDNETWORK name=x;host=two.test;state=connected",
	"A BOUNCER ADDNETWORK name=x;host=two.test;error=e",
	"A BOUNCER ADDNETWORK name=x;host=two.test/path;tls=0",
	"A BOUNCER ADDNETWORK name=x;host=u@two.test;tls=0",
	"A BOUNCER ADDNETWORK name=x;host=two.test#f;tls=0",
	"A BOUNCER ADDNETWORK name=x;host=two.test?q=1;tls=0",
	"A BOUNCER ADDNETWORK name=x;host=unix:///tmp/sock;tls=1",
	"A BOUNCER ADDNETWORK",
	"A BOUNCER CHANGENETWORK %I name=*",
	"A BOUNCER CHANGENETWORK %I name=-x",
	"A BOUNCER CHANGENETWORK %I name=spare",
	"A BOUNCER CHANGENETWORK %I name=zzz;foo=bar",
	"A BOUNCER CHANGENETWORK %I name=zzz;state=connected",
	"A BOUNCER CHANGENETWORK %I nickname=zzz;host=",
	"A BOUNCER CHANGENETWORK %I nickname=zzz;host=a/b",
	"A BOUNCER CHANGENETWORK %I",
	"A BOUNCER CHANGENETWORK 999 name=zzz",
	"A BOUNCER CHANGENETWORK 0 name=zzz",
	"A BOUNCER CHANGENETWORK -1 name=zzz",
	"A BOUNCER CHANGENETWORK x name=zzz",
	"A BOUNCER CHANGENETWORK %O name=zzz",
	"A BOUNCER DELNETWORK 999",
	"A BOUNCER DELNETWORK x",
	"A BOUNCER DELNETWORK %O",
	"A BOUNCER DELNETWORK",
	"A BOUNCER BIND %I",
	"A BOUNCER ADDNETWORK host=-x.test",
	"S network create -addr -x.test",
	"S network update one -name \"\" -addr -x.test",
	"A BOUNCER NOPE",
	"A BOUNCER",
	"S network create -addr irc+insecure://two.test:6667 -name one",
	"S network create -addr irc+insecure://two.test:6667 -name *",
	"S network create -addr irc+insecure://two.test:6667 -name -x",
	"S network create -addr gopher://two.test -name x",
	"S network create -addr irc+insecure://two.test/path -name x",
	"S network create -addr irc+insecure:// -name x",
	"S network create -name x",
	"S network create -addr unix:///tmp/x -name x",
	"S network create -addr irc+insecure://two.test:6667 -name x -certfp 00",
	"S network create -addr irc+insecure://two.test:6667 -name x -ignore-limit",
	"S network update one -name spare",
	"S network update one -name *",
	"S network update one -nick zzz -name spare",
	"S network update one -nick zzz -addr irc+insecure://a/b",
	"S network update one -nick zzz -enabled maybe",
	"S network update nope -nick zzz",
	"S network update one -addr unix:///tmp/x",
	"S network delete nope",
	"S network delete",
}

type c08World struct {
	c          *kit.Ctx
	w          *kit.World
	u          *database.User
	one, two   *kit.UpServer
	A, B, L, P *kit.Client
	ids        map[int]int64
	other      int64 // a network of another user
	view       map[*kit.Client]map[string]map[string]string
	batch      map[*kit.Client]map[string]bool
	bdead      bool
	nping      int
	g          *kit.GateDB
}

func c08Setup(c *kit.Ctx, w *kit.World, s *c08Model, setname bool) *c08World {
	x := &c08World{c: c, w: w, ids: map[int]int64{}, view: map[*kit.Client]map[string]map[string]string{}, batch: map[*kit.Client]map[string]bool{}}
	x.u = w.AddUser(c08User, func(u *database.User) { u.MaxNetworks = s.max; u.Admin = s.admin })
	n, one := w.AddNetwork(x.u, "one", func(n *database.Network) { n.Addr = c08One })
	x.one = one
	x.two = w.Server("two.test:6667")
	if setname {
		one.Caps = append(one.Caps, "setname")
		x.two.Caps = append(x.two.Caps, "setname")
	}
	x.g = w.Gate()
	one.Silent, one.Refuse = s.mute, s.down
	x.ids[1] = n.ID
	s.nets = []c08Net{{label: 1, name: "one", addr: c08One, enabled: true}}
	s.nlabel = 1
	sp := database.NewNetwork(c08Two)
	sp.Name, sp.Enabled = "spare", false
	if err := w.DB.StoreNetwork(context.Background(), x.u.ID, sp); err != nil {
		panic(err)
	}
	x.ids[2] = sp.ID
	s.nets = append(s.nets, c08Net{label: 2, name: "spare", addr: c08Two})
	s.nlabel = 2
	o := w.AddUser("other", nil)
	on, _ := w.AddNetwork(o, "theirs", nil)
	x.other = on.ID
	w.Start()
	w.Settle()
	caps := []string{"batch", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}
	x.A = w.Connect("A", kit.ConnOpts{User: c08User, Caps: caps})
	x.L = w.Connect("L", kit.ConnOpts{User: c08User, Caps: caps[:2]})
	x.B = w.Connect("B", kit.ConnOpts{User: c08User, Network: "one", Client: "b", Caps: caps})
	x.P = w.Connect("P", kit.ConnOpts{User: c08User, Network: "one", Client: "p"})
	w.Settle()
	return x
}

// drain reads what a client received and maintains its view of the networks.
// It returns the messages that are not part of it.
func (x *c08World) drain(cl *kit.Client) []*irc.Message {
	var rest []*irc.Message
	if x.view[cl] == nil {
		x.view[cl] = map[string]map[string]string{}
		x.batch[cl] = map[string]bool{}
	}
	for _, m := range cl.Take() {
		if m.Command == "BATCH" && len(m.Params) > 1 && m.Params[1] == "soju.im/bouncer-networks" {
			x.batch[cl][strings.TrimPrefix(m.Params[0], "+")] = true
		}
		if m.Command == "BOUNCER" && len(m.Params) == 3 && m.Params[0] == "NETWORK" && !(m.Tags["batch"] != "" && cl == x.L) {
			id, l := m.Params[1], m.Params[2]
			if cl == x.L || cl == x.P {
				x.c.Violatef("a client that did not ask for notifications got one: %v", m)
			}
			if l == "*" {
				delete(x.view[cl], id)
				continue
			}
			v := x.view[cl][id]
			if v == nil {
				v = map[string]string{}
				x.view[cl][id] = v
			}
			for k, val := range irc.ParseTags(l) {
				if val == "" {
					delete(v, k)
				} else {
					v[k] = string(val)
				}
			}
			continue
		}
		rest = append(rest, m)
	}
	return rest
}

func c08Render(m map[string]map[string]string) string {
	var l []string
	for id, a := range m {
		var f []string
		for _, k := range kit.Keys(a) {
			f = append(f, k+"="+a[k])
		}
		l = append(l, id+"{"+strings.Join(f, " ")+"}")
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// list asks for the networks.
func (x *c08World) list() map[string]map[string]string {
	x.drain(x.L)
	x.L.Send("BOUNCER LISTNETWORKS")
	x.w.Settle()
	res := map[string]map[string]string{}
	for _, m := range x.L.Take() {
		if m.Command == "BOUNCER" && len(m.Params) == 3 && m.Params[0] == "NETWORK" {
			a := map[string]string{}
			for k, v := range irc.ParseTags(m.Params[2]) {
				a[k] = string(v)
			}
			if !x.c.Check(res[m.Params[1]] == nil, "network %s is listed twice", m.Params[1]) {
				return nil
			}
			res[m.Params[1]] = a
		}
	}
	return res
}

// verify compares every copy of the network list with the model.
func (x *c08World) verify(s *c08Model) {
	c, w := x.c, x.w
	// the database
	recs, err := w.DB.ListNetworks(context.Background(), x.u.ID)
	if err != nil {
		panic(err)
	}
	got, want := map[string]bool{}, map[string]bool{}
	for _, r := range recs {
		got[fmt.Sprintf("%d name=%q addr=%q nick=%q user=%q real=%q enabled=%v", r.ID, r.Name, r.Addr, r.Nick, r.Username, r.Realname, r.Enabled)] = true
	}
	for i := range s.nets {
		n := &s.nets[i]
		want[fmt.Sprintf("%d name=%q addr=%q nick=%q user=%q real=%q enabled=%v", x.ids[n.label], n.name, n.addr, n.nick, n.user, n.real, n.enabled)] = true
	}
	if !c.Check(kit.Eq(kit.Keys(got), kit.Keys(want)), "stored networks %s, want %s", kit.Q(kit.Keys(got)), kit.Q(kit.Keys(want))) {
		return
	}
	// the list
	l := x.list()
	wl := map[string]map[string]string{}
	for i := range s.nets {
		n := &s.nets[i]
		id := fmt.Sprint(x.ids[n.label])
		a := s.attrs(n)
		if a["error"] != "" && l[id]["error"] != "" {
			a["error"] = l[id]["error"]
		}
		wl[id] = a
	}
	if !c.Check(c08Render(l) == c08Render(wl), "listed networks %s, want %s", c08Render(l), c08Render(wl)) {
		return
	}
	// the notified views
	for _, cl := range []*kit.Client{x.A, x.B} {
		if cl == x.B && s.find(1) == nil {
			continue
		}
		x.drain(cl)
		if !c.Check(c08Render(x.view[cl]) == c08Render(l), "client %s was told %s, the list is %s", cl.Name, c08Render(x.view[cl]), c08Render(l)) {
			return
		}
	}
	x.drain(x.P)
	// the connections
	for _, sv := range []*kit.UpServer{x.one, x.two} {
		var has, exp []string
		pending := 0
		for _, uc := range sv.Conns {
			if !uc.Closed() && uc.Registered {
				has = append(has, uc.Nick+" "+uc.User+" "+uc.Real)
			}
		}
		for i := range s.nets {
			n := &s.nets[i]
			if s.running(n) && c08HostOf(n.addr) == sv.Name {
				user := n.user
				if user == "" {
					user = s.effNick(n)
				}
				exp = append(exp, s.effNick(n)+" "+user+" "+s.effReal(n))
			}
		}
		ok := len(has) == len(exp)
		if s.mute && sv == x.one {
			for i := range s.nets {
				if n := &s.nets[i]; n.enabled && c08HostOf(n.addr) == sv.Name {
					pending++
				}
			}
		}
		if ok {
			// the user name and real name of a connection are those of
			// its registration: compare the nicknames only, unless the
			// connection is fresh
			nicks := func(l []string) []string {
				var r []string
				for _, s := range l {
					r = append(r, strings.Fields(s)[0])
				}
				return kit.Sorted(r)
			}
			ok = kit.Eq(nicks(has), nicks(exp))
		}
		if !c.Check(ok && sv.OpenConns() == len(exp)+pending, "connections to %s: %s (%d open), want %s", sv.Name, kit.Q(has), sv.OpenConns(), kit.Q(exp)) {
			return
		}
	}
	// the bound clients
	n1 := s.find(1)
	for _, cl := range []*kit.Client{x.B, x.P} {
		if !c.Check(cl.Closed() == (n1 == nil), "bound client %s closed=%v, network exists=%v", cl.Name, cl.Closed(), n1 != nil) {
			return
		}
	}
	c.Check(!x.A.Closed() && !x.L.Closed(), "an unbound client was disconnected")
	if n1 == nil {
		x.bdead = true
	} else if s.running(n1) {
		// the bound client talks to that network's connection
		x.nping++
		line := fmt.Sprintf("PRIVMSG bob :ping%d", x.nping)
		x.P.Send(line)
		w.Settle()
		hits := 0
		for _, sv := range []*kit.UpServer{x.one, x.two} {
			for _, uc := range sv.Conns {
				for _, m := range uc.Take() {
					if m.Command == "PRIVMSG" && m.Params[len(m.Params)-1] == fmt.Sprintf("ping%d", x.nping) {
						hits++
						c.Check(!uc.Closed() && uc.Nick == s.effNick(n1) && sv.Name == c08HostOf(n1.addr), "the bound client's message went out on the wrong connection (%s %s)", sv.Name, uc.Nick)
					}
				}
			}
		}
		c.Check(hits == 1, "a message of the bound client went out %d times", hits)
	}
}

// send performs a client's line and reports whether it was refused.
func (x *c08World) send(by, line string) (refused bool, what string) {
	cl := map[string]*kit.Client{"A": x.A, "B": x.B, "S": x.L}[by]
	x.drain(cl)
	if by == "S" {
		line = "PRIVMSG BouncerServ :" + line
	}
	cl.Send(line)
	x.w.Settle()
	rest := x.drain(cl)
	n := 0
	for _, m := range rest {
		switch {
		case m.Command == "FAIL", m.Command == "461", m.Command == "400", m.Command == "421":
			refused, what = true, what+m.String()
			n++
		case m.Command == "BOUNCER":
			what += m.String()
			n++
		case by == "S" && m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == "BouncerServ":
			what += m.String()
			n++
			if strings.HasPrefix(m.Params[1], "error") {
				refused = true
			}
		}
	}
	if by == "S" || strings.HasPrefix(line, "BOUNCER") {
		if !(cl == x.B && cl.Closed()) {
			x.c.Check(n == 1, "%q got %d replies: %s", line, n, kit.Q(kit.Lines(rest)))
		}
	}
	return
}

func (x *c08World) sub(line string, s *c08Model, label int) string {
	if n := s.find(label); n != nil {
		line = strings.ReplaceAll(line, "%N", n.getName())
	}
	line = strings.ReplaceAll(line, "%O", fmt.Sprint(x.other))
	return strings.ReplaceAll(line, "%I", fmt.Sprint(x.ids[label]))
}

func c08Parse(a string) (op *c08Op, label int) {
	name := a
	if i := strings.IndexByte(a, '/'); i >= 0 {
		name = a[:i]
		label = int(a[i+1] - '0')
	}
	for i := range c08Ops {
		if c08Ops[i].name == name {
			return &c08Ops[i], label
		}
	}
	panic("unknown op " + a)
}

func c08Next(s c08Model, a string) c08Model {
	s = s.clone()
	op, label := c08Parse(a)
	if op.per {
		op.fl(&s, s.find(label))
	} else {
		op.f(&s)
	}
	return s
}

func c08Enabled(s c08Model) []string {
	var l []string
	for i := range c08Ops {
		op := &c08Ops[i]
		if op.by == "B" && s.find(1) == nil {
			continue
		}
		if op.by == "up" && (s.mute || s.down || s.find(1) == nil || c08HostOf(s.find(1).addr) != "one.test" || !s.find(1).enabled) {
			continue
		}
		if !op.per {
			l = append(l, op.name)
			continue
		}
		for _, n := range s.nets {
			if n.label > 9 {
				continue
			}
			l = append(l, fmt.Sprintf("%s/%d", op.name, n.label))
		}
	}
	return l
}

func c08Exec(r *kit.Run, key string, seq []string, init c08Model, setname bool) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		s := init
		x := c08Setup(c, w, &s, setname)
		x.verify(&s)
		for _, a := range seq {
			if c.Bad() {
				return
			}
			c.Step(a)
			op, label := c08Parse(a)
			var before []int64
			for _, id := range x.ids {
				before = append(before, id)
			}
			line := x.sub(op.line, &s, label)
			s2 := c08Next(s, a)
			switch op.name {
			case "drop":
				x.one.Drop()
				w.Settle()
			case "err":
				if uc := x.one.Live(); uc != nil {
					uc.Send("ERROR :bye")
					w.Settle()
					uc.Hangup()
				}
				w.Settle()
				w.AwaitLive(x.one, 5*time.Minute)
			default:
				refused, what := x.send(op.by, line)
				if op.by == "B" && x.B.Closed() {
					refused = s2.fail != ""
				}
				if !c.Check(refused == (s2.fail != ""), "%q: refused=%v (%s), want refusal=%q", line, refused, what, s2.fail) {
					return
				}
			}
			if s2.nlabel > s.nlabel {
				recs, _ := w.DB.ListNetworks(context.Background(), x.u.ID)
				for _, rec := range recs {
					known := false
					for _, n := range s.nets {
						known = known || x.ids[n.label] == rec.ID
					}
					if !known {
						x.ids[s2.nlabel] = rec.ID
					}
				}
			}
			s = s2
			w.Settle()
			x.verify(&s)
		}
		if c.Bad() {
			return
		}
		// A client that comes now gets the whole list.
		nc := w.Connect("N", kit.ConnOpts{User: c08User, Caps: []string{"batch", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}})
		w.Settle()
		x.drain(nc)
		l := x.list()
		c.Check(c08Render(x.view[nc]) == c08Render(l), "a new client was told %s, the list is %s", c08Render(x.view[nc]), c08Render(l))
		x.verify(&s)
	})
}

func c08BadExec(r *kit.Run) {
	for i, l := range c08Bad {
		for _, pre := range []string{"", "unick", "host/1", "off/1"} {
			r.World(fmt.Sprintf("refused/%d/%s %s", i, pre, l), func(c *kit.Ctx, w *kit.World) {
				s := c08Model{max: -1}
				x := c08Setup(c, w, &s, false)
				if pre != "" {
					op, label := c08Parse(pre)
					x.send(op.by, x.sub(op.line, &s, label))
					s = c08Next(s, pre)
				}
				x.verify(&s)
				by, line, _ := strings.Cut(l, " ")
				c.Step(line)
				refused, what := x.send(by, x.sub(line, &s, 1))
				c.Check(refused, "%q is not refused: %s", line, what)
				x.verify(&s)
			})
		}
	}
}

// c08Race interleaves an operation (held in the database) with what happens to
// the network's connection meanwhile.
func c08Race(r *kit.Run) {
	for _, op := range []string{"nick/1", "ren/1", "off/1", "host/1", "del/1", "sdel/1", "user/1", "bnick", "add-two", "ureal"} {
		for _, mute := range []bool{false, true} {
			for _, ev := range []string{"none", "welcome", "drop", "error", "refuse"} {
				for _, after := range []string{"up", "down", "mute"} {
					if ev == "welcome" && !mute || ev == "error" && mute {
						continue
					}
					r.World(fmt.Sprintf("race/%s/mute=%v/%s/%s", op, mute, ev, after), func(c *kit.Ctx, w *kit.World) {
						s := c08Model{max: -1, mute: mute}
						x := c08Setup(c, w, &s, false)
						x.verify(&s)
						o, label := c08Parse(op)
						dbop := "StoreNetwork"
						if strings.HasSuffix(op, "del/1") {
							dbop = "DeleteNetwork"
						} else if op == "ureal" {
							dbop = "StoreUser"
						}
						x.g.Hold(dbop)
						c.Step(op + " (held)")
						cl := map[string]*kit.Client{"A": x.A, "B": x.B, "S": x.L}[o.by]
						line := x.sub(o.line, &s, label)
						if o.by == "S" {
							line = "PRIVMSG BouncerServ :" + line
						}
						cl.Send(line)
						w.Settle()
						c.Step(ev)
						uc := x.one.Last()
						switch ev {
						case "welcome":
							uc.Nick, uc.User = c08User, c08User
							uc.Welcome()
						case "drop":
							uc.Hangup()
						case "error":
							uc.Send("ERROR :oops")
						case "refuse":
							uc.Send(":one.test 465 * :banned")
							uc.Hangup()
						}
						x.one.Silent, x.one.Refuse = after == "mute", after == "down"
						w.Settle()
						c.Step("release")
						x.g.Release(dbop)
						w.Settle()
						s2 := c08Next(s, op)
						if s2.nlabel > s.nlabel {
							recs, _ := w.DB.ListNetworks(context.Background(), x.u.ID)
							x.ids[s2.nlabel] = recs[len(recs)-1].ID
						}
						s = s2
						// let everything come to rest
						one := s.find(1)
						if after == "up" && one != nil && one.enabled && c08HostOf(one.addr) == "one.test" {
							s.mute = false
							w.AwaitLive(x.one, 5*time.Minute)
						}
						x.agree()
						if !c.Bad() && after == "up" {
							x.verify(&s)
						}
					})
				}
			}
		}
	}
}

// agree compares the clients' views with the list and the connections.
func (x *c08World) agree() {
	l := x.list()
	for _, cl := range []*kit.Client{x.A, x.B} {
		if !cl.Closed() {
			x.drain(cl)
			x.c.Check(c08Render(x.view[cl]) == c08Render(l), "client %s was told %s, the list is %s", cl.Name, c08Render(x.view[cl]), c08Render(l))
		}
	}
	for _, sv := range []*kit.UpServer{x.one, x.two} {
		n, reg := 0, 0
		for _, a := range l {
			if a["host"] == sv.Name && a["state"] == "connected" {
				n++
			}
		}
		for _, uc := range sv.Conns {
			if !uc.Closed() && uc.Registered {
				reg++
			}
		}
		x.c.Check(n == reg, "%d networks at %s are listed as connected, %d connections are registered", n, sv.Name, reg)
	}
}

// c08DBFail makes every operation fail in the database: nothing may change.
func c08DBFail(r *kit.Run) {
	for _, pre := range []string{"", "off/1", "unick", "host/1"} {
		s0 := c08Model{max: -1, nlabel: 2, nets: []c08Net{{label: 1, name: "one", addr: c08One, enabled: true}, {label: 2, name: "spare", addr: c08Two}}}
		if pre != "" {
			s0 = c08Next(s0, pre)
		}
		for _, op := range c08Enabled(s0) {
			if strings.HasPrefix(op, "drop") || strings.HasPrefix(op, "err") || c08Next(s0, op).fail != "" {
				continue
			}
			r.World("dbfail/"+pre+"/"+op, func(c *kit.Ctx, w *kit.World) {
				s := c08Model{max: -1}
				x := c08Setup(c, w, &s, false)
				if pre != "" {
					o, label := c08Parse(pre)
					x.send(o.by, x.sub(o.line, &s, label))
					s = c08Next(s, pre)
				}
				x.verify(&s)
				x.g.Ops = nil
				x.g.Fail("*", true)
				c.Step(op)
				o, label := c08Parse(op)
				cl := map[string]*kit.Client{"A": x.A, "B": x.B, "S": x.L}[o.by]
				line := x.sub(o.line, &s, label)
				if o.by == "S" {
					line = "PRIVMSG BouncerServ :" + line
				}
				cl.Send(line)
				w.Settle()
				failed := len(x.g.Ops) > 0
				x.g.Fail("*", false)
				if !failed {
					return
				}
				if cl.Closed() {
					// a client may be disconnected when its command
					// cannot be carried out
					x.A, x.B, x.L = c08Re(w, cl, x.A), c08Re(w, cl, x.B), c08Re(w, cl, x.L)
					w.Settle()
				}
				x.verify(&s)
				w.Restart()
				w.Settle()
				if s.running(s.find(1)) {
					w.AwaitLive(x.one, 5*time.Minute)
				}
				y := *x
				y.view, y.batch = map[*kit.Client]map[string]map[string]string{}, map[*kit.Client]map[string]bool{}
				y.A, y.B, y.L, y.P = c08Re(w, x.A, x.A), c08Re(w, x.B, x.B), c08Re(w, x.L, x.L), c08Re(w, x.P, x.P)
				w.Settle()
				y.verify(&s)
			})
		}
	}
}

func c08Re(w *kit.World, gone, cl *kit.Client) *kit.Client {
	if cl != gone {
		return cl
	}
	caps := []string{"batch", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}
	switch cl.Name {
	case "A":
		return w.Connect("A", kit.ConnOpts{User: c08User, Caps: caps})
	case "L":
		return w.Connect("L", kit.ConnOpts{User: c08User, Caps: caps[:2]})
	case "B":
		return w.Connect("B", kit.ConnOpts{User: c08User, Network: "one", Client: "b", Caps: caps})
	default:
		return w.Connect("P", kit.ConnOpts{User: c08User, Network: "one", Client: "p"})
	}
}

// c08Attrs: the address attributes can be set and changed one by one.
func c08Attrs(r *kit.Run) {
	type at struct{ host, port, tls string }
	var all []at
	for _, h := range []string{"h.test", "192.0.2.1", "2001:db8::1"} {
		for _, p := range []string{"", "6667", "7000"} {
			for _, t := range []string{"0", "1"} {
				all = append(all, at{h, p, t})
			}
		}
	}
	for i, a := range all {
		for j, b := range all {
			for _, via := range []string{"all", "diff"} {
				r.World(fmt.Sprintf("attrs/%d/%d/%s", i, j, via), func(c *kit.Ctx, w *kit.World) {
					u := w.AddUser(c08User, nil)
					w.Start()
					cl := w.Connect("A", kit.ConnOpts{User: c08User, Caps: []string{"batch", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}})
					w.Settle()
					x := &c08World{c: c, w: w, L: nil, view: map[*kit.Client]map[string]map[string]string{}, batch: map[*kit.Client]map[string]bool{}}
					x.drain(cl)
					set := func(l string, want at) {
						c.Step(l)
						cl.Send(l)
						w.Settle()
						x.drain(cl)
						if len(x.view[cl]) != 1 {
							c.Violatef("the network is not announced: %s", c08Render(x.view[cl]))
							return
						}
						recs, _ := w.DB.ListNetworks(context.Background(), u.ID)
						for _, v := range x.view[cl] {
							got := at{v["host"], v["port"], v["tls"]}
							c.Check(got == want, "attributes %+v, want %+v (address %q)", got, want, recs[0].Addr)
						}
						// what is dialed
						d := w.Dials[len(w.Dials)-1]
						port := want.port
						if port == "" {
							port = map[string]string{"0": "6667", "1": "6697"}[want.tls]
						}
						wa := want.host + ":" + port
						if strings.Contains(want.host, ":") {
							wa = "[" + want.host + "]:" + port
						}
						c.Check(d.Addr == wa, "dialed %s, want %s", d.Addr, wa)
					}
					l := "BOUNCER ADDNETWORK name=x;host=" + a.host
					if a.port != "" {
						l += ";port=" + a.port
					}
					if a.tls != "1" {
						l += ";tls=" + a.tls
					}
					set(l, a)
					if c.Bad() {
						return
					}
					id := kit.Keys(x.view[cl])[0]
					var f []string
					if via == "all" || a.host != b.host {
						f = append(f, "host="+b.host)
					}
					if via == "all" || a.port != b.port {
						f = append(f, "port="+b.port)
					}
					if via == "all" || a.tls != b.tls {
						f = append(f, "tls="+b.tls)
					}
					if len(f) == 0 {
						f = []string{"nickname=q"}
					}
					set("BOUNCER CHANGENETWORK "+id+" "+strings.Join(f, ";"), b)
				})
			}
		}
	}
	r.Count(len(all), 2*len(all)*len(all))
	r.Bound("attrs: every pair of %d host/port/tls settings, changed at once or one by one", len(all))
}

// c08Limits: the limit in force is the user's, or else the configured one.
func c08Limits(r *kit.Run) {
	vals := []int{-1, 0, 1, 2}
	for _, um := range vals {
		for _, cm := range vals {
			for _, path := range []string{"bouncer", "service", "enable", "run", "bound", "changed"} {
				for _, admin := range []bool{false, true} {
					r.World(fmt.Sprintf("limits/%d/%d/%s/%v", um, cm, path, admin), func(c *kit.Ctx, w *kit.World) {
						w.Cfg.MaxUserNetworks = cm
						start := um
						if path == "changed" {
							start = 5
						}
						u := w.AddUser(c08User, func(u *database.User) { u.MaxNetworks = start; u.Admin = admin })
						w.AddUser("root", func(u *database.User) { u.Admin = true })
						n, _ := w.AddNetwork(u, "one", func(n *database.Network) { n.Addr, n.Enabled = c08One, false })
						_ = n
						for i := 0; i < 3; i++ {
							sp := database.NewNetwork(fmt.Sprintf("irc+insecure://spare%d.test:6667", i))
							sp.Name, sp.Enabled = fmt.Sprintf("spare%d", i), false
							if err := w.DB.StoreNetwork(context.Background(), u.ID, sp); err != nil {
								panic(err)
							}
						}
						w.Start()
						cl := w.Connect("A", kit.ConnOpts{User: c08User, Caps: []string{"batch", "soju.im/bouncer-networks"}})
						root := w.Connect("R", kit.ConnOpts{User: "root"})
						bound := w.Connect("B", kit.ConnOpts{User: c08User, Network: "one", Client: "b", Caps: []string{"batch", "soju.im/bouncer-networks"}})
						if path == "changed" {
							root.Do(fmt.Sprintf("PRIVMSG BouncerServ :user update alice -max-networks %d", um))
						}
						lim := um
						if lim < 0 {
							lim = cm
						}
						for i := 0; i < 3; i++ {
							add := fmt.Sprintf("BOUNCER ADDNETWORK name=n%d;host=h%d.test;port=6667;tls=0", i, i)
							create := fmt.Sprintf("network create -addr irc+insecure://h%d.test:6667 -name n%d", i, i)
							switch path {
							case "bouncer":
								cl.Do(add)
							case "bound":
								bound.Do(add)
							case "service", "changed":
								cl.Do("PRIVMSG BouncerServ :" + create)
							case "run":
								root.Do("PRIVMSG BouncerServ :user run alice " + create)
							case "enable":
								cl.Do(fmt.Sprintf("PRIVMSG BouncerServ :network update spare%d -enabled true", i))
							}
							w.Settle()
							recs, _ := w.DB.ListNetworks(context.Background(), u.ID)
							got := 0
							for _, r := range recs {
								if r.Enabled {
									got++
								}
							}
							want := i + 1
							if lim >= 0 && want > lim {
								want = lim
							}
							if admin && got > want {
								continue
							}
							c.Check(got == want, "user limit %d, default limit %d: %d enabled networks after enabling %d, want %d", um, cm, got, i+1, want)
						}
						// whatever is enabled can still be changed
						recs, _ := w.DB.ListNetworks(context.Background(), u.ID)
						for _, rec := range recs {
							cl.Do("PRIVMSG BouncerServ :network update " + rec.GetName() + " -realname changed")
							w.Settle()
						}
						recs, _ = w.DB.ListNetworks(context.Background(), u.ID)
						for _, rec := range recs {
							c.Check(rec.Realname == "changed", "network %s cannot be changed at the limit", rec.Name)
						}
					})
				}
			}
		}
	}
	r.Bound("limits: every pair of user limit and default limit in -1..2, 6 ways to enable 3 networks, administrator or not")
}

// c08Addresses: which addresses are accepted.
func c08Addresses(r *kit.Run) {
	for _, scheme := range []string{"", "ircs://", "irc+insecure://", "irc+unix://", "unix://", "irc://", "gopher://"} {
		for _, host := range []string{"", "h.test", "h.test:7000", "[2001:db8::1]:7000", "u@h.test", "u:p@h.test"} {
			for _, path := range []string{"", "/p", "/p/q"} {
				for _, tail := range []string{"", "?q=1", "#f"} {
					for _, admin := range []bool{false, true} {
						addr := scheme + host + path + tail
						if addr == "" {
							continue
						}
						unix := strings.Contains(scheme, "unix")
						ok := tail == "" && !strings.Contains(host, "@")
						switch scheme {
						case "", "ircs://", "irc+insecure://":
							ok = ok && host != "" && path == ""
						case "irc+unix://", "unix://":
							if host != "" {
								// relative paths; Go refuses some of them
								if admin {
									continue
								}
							}
							ok = ok && admin && path != ""
						default:
							ok = false
						}
						if tail == "#f" && unix && admin {
							ok = false
						}
						r.World(fmt.Sprintf("addr/%s/%v", addr, admin), func(c *kit.Ctx, w *kit.World) {
							u := w.AddUser(c08User, func(u *database.User) { u.Admin = admin })
							sp := database.NewNetwork("irc+insecure://spare.test:6667")
							sp.Name, sp.Enabled = "spare", false
							if err := w.DB.StoreNetwork(context.Background(), u.ID, sp); err != nil {
								panic(err)
							}
							w.Start()
							cl := w.Connect("A", kit.ConnOpts{User: c08User})
							cl.Do("PRIVMSG BouncerServ :network create -enabled false -name x -addr " + addr)
							cl.Do("PRIVMSG BouncerServ :network update spare -enabled false -addr " + addr)
							w.Settle()
							recs, _ := w.DB.ListNetworks(context.Background(), u.ID)
							created, updated := false, false
							for _, rec := range recs {
								switch rec.Name {
								case "x":
									created = true
									c.Check(rec.Addr == addr, "address %q stored as %q", addr, rec.Addr)
								case "spare":
									updated = rec.Addr == addr
									c.Check(updated || rec.Addr == "irc+insecure://spare.test:6667", "address %q stored as %q", addr, rec.Addr)
								}
							}
							c.Check(created == ok, "network with address %q created: %v, want %v", addr, created, ok)
							c.Check(updated == ok, "network updated to address %q: %v, want %v", addr, updated, ok)
						})
					}
				}
			}
		}
	}
	r.Bound("addr: every combination of 7 schemes, 6 hosts, 3 paths and 3 suffixes, administrator or not")
}

func TestC08(t *testing.T) {
	r := kit.Start(t, "C08")
	c08Bind(r)
	c08Limits(r)
	c08Addresses(r)
	c08BadExec(r)
	c08Race(r)
	c08DBFail(r)
	c08Attrs(r)
	for _, v := range []struct {
		name    string
		max     int
		admin   bool
		setname bool
		mute    bool
		q, th   int
	}{{"limit2", 2, false, false, false, 3, 3}, {"nolimit", -1, false, true, false, 2, 3}, {"admin1", 1, true, true, false, 2, 3}, {"mute", 2, false, false, true, 2, 3}} {
		init := c08Model{max: v.max, admin: v.admin, mute: v.mute}
		in := init
		in.nets = []c08Net{{label: 1, name: "one", addr: c08One, enabled: true}, {label: 2, name: "spare", addr: c08Two}}
		in.nlabel = 2
		kit.Graph(r, v.name, in, c08Model.key, c08Enabled, c08Next, r.Pick(v.q, v.th), func(key string, seq []string) {
			c08Exec(r, key, seq, init, v.setname)
		})
	}
}
