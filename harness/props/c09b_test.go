package props

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"sojuverif/kit"
)

// C09, second part: negotiation. The model knows which upstream offers what
// and what the client enabled; the list of available capabilities follows.

var c09Perm = []string{"batch", "cap-notify", "echo-message", "invite-notify", "server-time", "setname", "draft/pre-away", "draft/read-marker", "draft/no-implicit-names",
	"soju.im/account-required", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "soju.im/no-implicit-names", "soju.im/read", "soju.im/webpush", "draft/chathistory", "soju.im/search"}

// c09All are available if the server, when connected, has them.
var c09All = []string{"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix", "draft/extended-monitor"}

// c09Offers are the capability sets of the simulated servers.
var c09Offers = map[string][]string{
	"full": append(slices.Clone(c09All), "sasl=PLAIN,EXTERNAL", "draft/account-registration=before-connect,email-required"),
	"part": {"message-tags", "account-tag", "sasl=EXTERNAL"},
	"none": {},
	"nak":  append(slices.Clone(c09All), "sasl=PLAIN", "draft/account-registration", c09Nak),
	"case": {"MESSAGE-TAGS", "Account-Tag", "SASL=PLAIN", "draft/Account-Registration=email-required,before-connect"},
}

// c09Nak marks a server that offers capabilities and refuses every request.
const c09Nak = "!nak"

// c09Dyn are changes a server can announce.
var c09Dyn = []string{"message-tags", "account-tag", "sasl=PLAIN", "sasl=EXTERNAL", "draft/account-registration=custom"}

type c09Model struct {
	net     string // network of the client, "" for none
	ver     int
	enabled string    // space-separated, sorted
	up      [2]string // offered by each server, sorted; "-" when down
}

func c09Join(l []string) string {
	l = slices.Clone(l)
	sort.Strings(l)
	return strings.Join(slices.Compact(l), " ")
}

func (m c09Model) key() string { return fmt.Sprint(m) }

// values of an offer by name
func c09Vals(offer string) map[string]string {
	v := map[string]string{}
	for _, c := range strings.Fields(offer) {
		k, val, _ := strings.Cut(c, "=")
		v[strings.ToLower(k)] = val
	}
	return v
}

// c09Live are the capabilities of an offer the bouncer gets.
func c09Live(offer string) map[string]string {
	v := c09Vals(offer)
	if _, nak := v[c09Nak]; nak {
		return nil
	}
	return v
}

// available gives name to value.
func (m c09Model) available() map[string]string {
	a := map[string]string{}
	for _, c := range c09Perm {
		a[c] = ""
	}
	for _, c := range c09All {
		// connections without a network do not depend on servers
		if _, has := c09Live(m.up[0])[c]; m.net == "" || m.up[0] == "-" || has {
			a[c] = ""
		}
	}
	if m.net == "" {
		a["sasl"] = "PLAIN"
		return a
	}
	a["draft/event-playback"] = ""
	if m.up[0] != "-" {
		v := c09Live(m.up[0])
		if s, ok := v["sasl"]; ok && (s == "" || slices.Contains(strings.Split(s, ","), "PLAIN")) {
			a["sasl"] = "PLAIN,ANONYMOUS"
		}
		if s, ok := v["draft/account-registration"]; ok {
			a["draft/account-registration"] = strings.Join(slices.DeleteFunc(strings.Split(s, ","), func(v string) bool { return v == "before-connect" }), ",")
		}
	}
	return a
}

// settle removes what is no longer available from the enabled capabilities.
func (m c09Model) settle() c09Model {
	a := m.available()
	m.enabled = c09Join(slices.DeleteFunc(strings.Fields(m.enabled), func(c string) bool { _, ok := a[c]; return !ok }))
	return m
}

// request says whether a request is accepted, and what is enabled then.
func (m c09Model) request(caps string) (bool, c09Model) {
	a := m.available()
	on := map[string]bool{}
	for _, c := range strings.Fields(m.enabled) {
		on[c] = true
	}
	for _, c := range strings.Fields(strings.ToLower(caps)) {
		name, off := strings.CutPrefix(c, "-")
		if on[name] == !off {
			continue
		}
		if _, ok := a[name]; !ok || name == "soju.im/account-required" || off && name == "cap-notify" && m.ver >= 302 {
			return false, m
		}
		if off {
			delete(on, name)
		} else {
			on[name] = true
		}
	}
	m.enabled = c09Join(kit.Keys(on))
	return true, m
}

func (m c09Model) next(a string) c09Model {
	f := strings.SplitN(a, "|", 3)
	switch f[0] {
	case "req":
		_, m = m.request(f[1])
	case "ls302":
		m.ver = 302
		_, m = m.request("cap-notify")
	case "up":
		i := int(f[1][0] - '0')
		m.up[i] = "-"
		m = m.settle()
		if f[2] != "-" {
			m.up[i] = c09Join(c09Offers[f[2]])
		}
	case "new":
		v := c09Vals(m.up[0])
		k, val, _ := strings.Cut(f[1], "=")
		v[k] = val
		m.up[0] = c09Offer(v)
	case "del":
		v := c09Vals(m.up[0])
		delete(v, f[1])
		m.up[0] = c09Offer(v)
	}
	return m.settle()
}

func c09Offer(v map[string]string) string {
	var l []string
	for k, val := range v {
		if val != "" {
			k += "=" + val
		}
		l = append(l, k)
	}
	return c09Join(l)
}

var c09Reqs = []string{"batch", "-batch", "message-tags", "-message-tags", "account-tag batch", "batch nope", "nope -batch", "-nope", "BATCH", "soju.im/account-required", "cap-notify", "-cap-notify", "sasl", "draft/account-registration", "-sasl message-tags", "batch soju.im/account-required message-tags", "-cap-notify batch"}

func (m c09Model) actions(small bool) []string {
	var l []string
	for _, q := range c09Reqs {
		if small && !slices.Contains([]string{"batch", "-batch", "message-tags", "account-tag batch", "sasl", "cap-notify", "-cap-notify", "draft/account-registration"}, q) {
			continue
		}
		l = append(l, "req|"+q)
	}
	l = append(l, "ls", "ls302", "list")
	for _, o := range []string{"-", "full", "part", "none", "nak", "case"} {
		l = append(l, "up|0|"+o)
		if m.net == "" {
			l = append(l, "up|1|"+o)
		}
	}
	if m.net != "" && m.up[0] != "-" {
		for _, d := range c09Dyn {
			l = append(l, "new|"+d)
			k, _, _ := strings.Cut(d, "=")
			if _, ok := c09Vals(m.up[0])[k]; ok && !strings.Contains(m.up[0], "MESSAGE") && !slices.Contains(l, "del|"+k) {
				l = append(l, "del|"+k)
			}
		}
	}
	return l
}

type c09Neg struct {
	c        *kit.Ctx
	w        *kit.World
	m        c09Model
	cl       *kit.Client
	srv      [2]*kit.UpServer
	believed map[string]string // what the client has been told is available; nil when not notified
}

func c09List(msgs []*ircMessage, sub string) (l []string, n int) {
	for _, m := range msgs {
		if m.Command == "CAP" && len(m.Params) > 2 && m.Params[1] == sub {
			l = append(l, strings.Fields(m.Params[len(m.Params)-1])...)
			n++
		}
	}
	return
}

func (x *c09Neg) notifies() bool { return slices.Contains(strings.Fields(x.m.enabled), "cap-notify") }

// told processes the CAP NEW and DEL messages among msgs.
func (x *c09Neg) told(what string, msgs []*ircMessage) {
	for _, m := range msgs {
		if m.Command != "CAP" || m.Params[1] != "NEW" && m.Params[1] != "DEL" {
			continue
		}
		if !x.c.Check(x.believed != nil, "%s: a client which does not want to be notified receives %s", what, m) {
			return
		}
		for _, c := range strings.Fields(m.Params[2]) {
			k, v, hasV := strings.Cut(c, "=")
			old, had := x.believed[k]
			if m.Params[1] == "DEL" {
				x.c.Check(had, "%s: %s removes what was not there", what, m)
				delete(x.believed, k)
				continue
			}
			x.c.Check(!hasV || x.m.ver >= 302, "%s: %s has a value", what, m)
			x.c.Check(!had || old != v && x.m.ver >= 302 || x.m.ver < 302, "%s: %s is not new", what, m)
			x.believed[k] = v
		}
	}
}

// offer makes a server offer capabilities from its next connection on.
func (x *c09Neg) offer(s *kit.UpServer, caps []string) {
	nak := slices.Contains(caps, c09Nak)
	s.Caps = slices.DeleteFunc(slices.Clone(caps), func(c string) bool { return c == c09Nak })
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		if m.Command != "CAP" || m.Params[0] != "REQ" || !nak && !slices.Contains(caps, "MESSAGE-TAGS") {
			return false
		}
		if nak {
			uc.Send(":srv CAP * NAK :" + m.Params[1])
		} else {
			uc.Send(":srv CAP * ACK :" + strings.ToUpper(m.Params[1]) + " ")
		}
		return true
	}
}

func (x *c09Neg) want() map[string]string {
	a := x.m.available()
	if x.m.ver < 302 {
		for k := range a {
			a[k] = ""
		}
	}
	return a
}

func c09Show(a map[string]string) []string { return strings.Fields(c09Offer(a)) }

// agree checks that what the client was told is what is available.
func (x *c09Neg) agree(what string) {
	if x.believed != nil && !x.c.Bad() {
		got, want := c09Show(x.believed), c09Show(x.want())
		if x.m.ver < 302 {
			for i := range got {
				got[i], _, _ = strings.Cut(got[i], "=")
			}
		}
		x.c.Check(kit.EqSet(got, want), "%s: the client was told about %v, available are %v", what, got, want)
	}
}

func (x *c09Neg) ls(what string, msgs []*ircMessage) {
	l, n := c09List(msgs, "LS")
	x.c.Check(n > 0 && (n == 1 || x.m.ver >= 302), "%s: %d replies to CAP LS", what, n)
	x.c.Check(kit.EqSet(l, c09Show(x.want())), "%s: CAP LS lists %v, available are %v", what, kit.Sorted(l), c09Show(x.want()))
}

func (x *c09Neg) list(what string) {
	l, n := c09List(x.cl.Do("CAP LIST"), "LIST")
	x.c.Check(n > 0 && kit.EqSet(l, strings.Fields(x.m.enabled)), "%s: CAP LIST returns %v, enabled are %v", what, kit.Sorted(l), x.m.enabled)
}

func (x *c09Neg) request(what, caps string) {
	ok, next := x.m.request(caps)
	msgs := x.cl.Do("CAP REQ :" + caps)
	reply := map[bool]string{true: "ACK", false: "NAK"}[ok]
	x.c.Check(len(msgs) == 1 && msgs[0].Command == "CAP" && msgs[0].Params[1] == reply && msgs[0].Params[2] == caps, "%s: CAP REQ :%s is answered with %s, want %s", what, caps, kit.Q(kit.Lines(msgs)), reply)
	was := x.notifies()
	x.m = next
	if !x.notifies() {
		x.believed = nil
	} else if !was {
		x.believed = x.want()
	}
}

func (x *c09Neg) apply(a string) {
	f := strings.SplitN(a, "|", 3)
	switch f[0] {
	case "req":
		x.request(a, f[1])
	case "ls":
		x.ls(a, x.cl.Do("CAP LS"))
	case "ls302":
		x.m.ver = 302
		x.ls(a, x.cl.Do("CAP LS 302"))
		x.m = x.m.next(a)
		x.believed = x.want()
	case "list":
		x.list(a)
	default:
		switch f[0] {
		case "up":
			i := int(f[1][0] - '0')
			s := x.srv[i]
			s.Refuse = f[2] == "-"
			if f[2] != "-" {
				x.offer(s, c09Offers[f[2]])
			}
			if s.Live() != nil {
				s.Drop()
			}
			x.w.Settle()
			if f[2] != "-" {
				x.w.AwaitLive(s, 15*time.Minute)
			} else {
				x.w.Sleep(5 * time.Second)
			}
		case "new":
			x.srv[0].Do(":srv CAP * NEW :" + f[1])
		case "del":
			x.srv[0].Do(":srv CAP * DEL :" + f[1])
		}
		x.w.Settle()
		x.m = x.m.next(a)
		x.c.Check(!x.cl.Closed(), "%s: the client was disconnected", a)
		x.told(a, x.cl.Take())
	}
	x.agree(a)
	if !x.c.Bad() {
		x.list("after " + a)
	}
}

// final requests every capability on its own: accepted are exactly the listed ones.
func (x *c09Neg) final() {
	if x.c.Bad() {
		return
	}
	x.ls("at the end", x.cl.Do("CAP LS"))
	names := append(append(slices.Clone(c09Perm), c09All...), "sasl", "draft/event-playback", "draft/account-registration", "labeled-response", "nope", "userhost-in-names")
	for _, n := range names {
		for _, q := range []string{n, "-" + n} {
			if x.c.Bad() {
				return
			}
			x.request("at the end", q)
		}
	}
	if !x.c.Bad() {
		x.list("at the end")
	}
}

func c09Neg_(c *kit.Ctx, w *kit.World, init c09Model, hello string) *c09Neg {
	x := &c09Neg{c: c, w: w, m: init}
	w.Cfg.MsgStoreDriver = "db"
	u := w.AddUser("alice", nil)
	for i, n := range []string{"net", "two"} {
		_, s := w.AddNetwork(u, n, nil)
		x.srv[i] = s
		if init.up[i] != "" {
			x.offer(s, strings.Fields(init.up[i]))
		}
		if init.up[i] == "-" {
			s.Refuse = true
			s.Caps = nil
		}
	}
	w.Start()
	cl := w.Dial("c")
	x.cl = cl
	var req []string
	if hello != "" {
		f := strings.Split(hello, "|")
		cl.Send("CAP " + f[0])
		if len(f) > 1 {
			cl.Send("CAP REQ :" + f[1])
			req = strings.Fields(f[1])
		}
	}
	user := "alice"
	if init.net != "" {
		user += "/" + init.net
	}
	cl.Send("PASS alice")
	cl.Send("NICK alice")
	cl.Send("USER " + user + " 0 * :alice")
	w.Settle()
	before := cl.Take()
	if hello != "" {
		listed, n := c09List(before, "LS")
		c.Check(n > 0, "no reply to CAP LS")
		told := c09Vals(strings.Join(listed, " "))
		want := append(slices.Clone(c09Perm), "sasl")
		if strings.HasPrefix(hello, "LS 302") {
			want = append(want, c09All...)
			x.m.ver = 302
		}
		c.Check(kit.EqSet(kit.Keys(told), want), "CAP LS before the registration lists %v, want %v", listed, want)
		if len(req) > 0 {
			ack, _ := c09List(before, "ACK")
			nak, _ := c09List(before, "NAK")
			ok := true
			for _, r := range req {
				_, has := told[r]
				ok = ok && has
			}
			c.Check(ok && kit.Eq(ack, req) && nak == nil || !ok && kit.Eq(nak, req) && ack == nil, "CAP REQ :%v before the registration: ACK %v NAK %v", req, ack, nak)
			if !ok {
				req = nil
			}
		}
		if x.m.ver >= 302 {
			req = append(req, "cap-notify")
		}
		x.m.enabled = c09Join(req)
		if x.notifies() {
			x.believed = told
		}
		cl.Send("CAP END")
		w.Settle()
		after := cl.Take()
		x.m = x.m.settle()
		x.told("registration", after)
	}
	c.Check(cl.Registered(), "the client is not registered")
	x.agree("registration")
	if !c.Bad() {
		x.list("after the registration")
	}
	return x
}

func c09Negotiation(r *kit.Run) {
	nak := c09Join(c09Offers["nak"])
	full, part, none := c09Join(c09Offers["full"]), c09Join(c09Offers["part"]), ""
	for _, net := range []string{"net", ""} {
		for ui, up := range [][2]string{{full, full}, {part, none}, {"-", full}, {none, part}, {"-", "-"}, {nak, full}} {
			for hi, hello := range []string{"", "LS", "LS|cap-notify", "LS 302", "LS 302|batch message-tags account-tag", "LS|batch cap-notify message-tags", "LS 302|nope", "LS 301|batch", "LS 302|sasl draft/chathistory"} {
				init := c09Model{net: net, up: up}
				run := func(key string, seq []string) {
					r.World(key, func(c *kit.Ctx, w *kit.World) {
						x := c09Neg_(c, w, init, hello)
						for _, a := range seq {
							if c.Bad() {
								return
							}
							x.apply(a)
						}
						x.final()
					})
				}
				group := fmt.Sprintf("neg:%s/%d/%d", net, ui, hi)
				// sequences, from the state after the registration
				start := init
				if strings.HasPrefix(hello, "LS 302") {
					start.ver = 302
				}
				r.Tree(group, r.Pick(1, 2), func(seq []string) []string {
					m := start
					for _, a := range seq {
						m = m.next(a)
					}
					return m.actions(false)
				}, run)
				if hi == 3 && (ui == 0 || ui == 1) {
					g := start
					g.enabled = "cap-notify"
					kit.Graph(r, group+"/graph", g.settle(), c09Model.key, func(m c09Model) []string { return m.actions(true) }, c09Model.next, r.Pick(3, 5), run)
				}
				if hi == 1 && ui == 0 {
					kit.Graph(r, group+"/graph", start, c09Model.key, func(m c09Model) []string { return m.actions(true) }, c09Model.next, r.Pick(3, 4), run)
				}
			}
		}
	}
}
