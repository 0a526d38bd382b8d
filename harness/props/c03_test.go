package props

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"
	"time"

	"sojuverif/kit"
)

// C03: replies of tracked commands go to the asker only; every command ends.

// The reference model: per command kind a queue of requests, the first of
// which is running.
type c03Req struct {
	who   int // client index
	alive bool
	id    int
}

type c03Model struct {
	on    [2]bool
	q     []c03Req
	stale bool
	flips int
}

func (s c03Model) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %v %d|", s.on, s.stale, s.flips)
	for _, e := range s.q {
		fmt.Fprintf(&b, "%d%v ", e.who, e.alive)
	}
	return b.String()
}

const c03Max = 4

func c03Enabled(kind string) func(s c03Model) []string {
	return func(s c03Model) []string {
		var l []string
		for i := 0; i < 2; i++ {
			if kind == "SASL" && len(s.q) > 0 && s.q[0].alive && s.q[0].who == i {
				// one exchange at a time per client
			} else if s.on[i] && len(s.q) < c03Max {
				l = append(l, fmt.Sprintf("req%d", i))
			}
			if s.flips < 3 {
				l = append(l, fmt.Sprintf("flip%d", i))
			}
		}
		if len(s.q) > 0 {
			if kind == "LIST" || kind == "WHO" || kind == "WHOIS" {
				l = append(l, "item")
			}
			l = append(l, "end", "err421", "err263", "err400", "fail")
			if kind == "WHOIS" {
				l = append(l, "nosuch")
			}
			if !s.stale {
				l = append(l, "tick")
			}
		}
		l = append(l, "drop", "pass0")
		if len(s.q) == 0 && kind != "SASL" {
			l = append(l, "stray")
		}
		return l
	}
}

func c03Next(kind string) func(s c03Model, a string) c03Model {
	return func(s c03Model, a string) c03Model {
		s.q = append([]c03Req(nil), s.q...)
		pop := func() { s.q = s.q[1:]; s.stale = false }
		switch a {
		case "req0", "req1":
			if kind == "SASL" && len(s.q) > 0 {
				return s
			}
			who := int(a[3] - '0')
			s.q = append(s.q, c03Req{who: who, alive: true})
			if s.stale {
				pop()
			}
		case "flip0", "flip1":
			who := int(a[4] - '0')
			s.flips++
			if s.on[who] {
				var q []c03Req
				for i, e := range s.q {
					if e.who == who {
						if i > 0 {
							continue
						}
						e.alive = false
					}
					q = append(q, e)
				}
				s.q = q
			}
			s.on[who] = !s.on[who]
		case "end", "err421", "err263", "err400", "fail", "nosuch":
			pop()
		case "tick":
			s.stale = true
		case "drop":
			s.q = nil
			s.stale = false
		}
		return s
	}
}

var c03Replies = []string{"321", "322", "323", "352", "354", "315", "311", "312", "318", "401", "402", "421", "263", "461", "400", "FAIL", "REGISTER", "VERIFY", "900", "903", "904", "905", "906", "908", "AUTHENTICATE", "366", "353", "341"}

type c03Run struct {
	c        *kit.Ctx
	w        *kit.World
	srv      *kit.UpServer
	kind     string
	lab      bool
	st       c03Model
	cl       [2]*kit.Client
	oth      *kit.Client
	want     [3][]string
	up       []string
	n        int
	ids      []int // ids of the queued requests
	lbl      []string
	anyOrder bool
}

func (x *c03Run) connect(i int) {
	var caps []string
	if x.kind == "SASL" {
		caps = []string{"sasl"}
	}
	x.cl[i] = x.w.Connect(fmt.Sprint("a", i), kit.ConnOpts{User: "alice", Network: "n1", Caps: caps})
	x.cl[i].Take()
	x.srv.Take()
}

func (x *c03Run) reqLine(id int) string {
	switch x.kind {
	case "LIST":
		return fmt.Sprintf("LIST *r%d*", id)
	case "WHO":
		return fmt.Sprintf("WHO w%d %%cuhsnfr", id)
	case "WHOIS":
		if id%2 == 0 {
			return fmt.Sprintf("WHOIS t%d T%d", id, id)
		}
		return fmt.Sprintf("WHOIS t%d", id)
	case "REGISTER":
		return fmt.Sprintf("REGISTER acct%d * pw%d", id, id)
	case "VERIFY":
		return fmt.Sprintf("VERIFY acct%d code", id)
	}
	panic("kind")
}

// reply sends a line from the server to the running request.
func (x *c03Run) reply(line string) {
	if x.lab {
		line = "@label=" + x.lbl[0] + " " + line
	}
	x.srv.Send(line)
}

func (x *c03Run) expect(e c03Req, text string) {
	if e.alive {
		x.want[e.who] = append(x.want[e.who], text)
	}
}

// started notes that the bouncer must have started the request.
func (x *c03Run) started(id int) {
	if x.kind == "SASL" {
		x.up = append(x.up, "AUTHENTICATE PLAIN", "AUTHENTICATE "+c03Payload(id))
		return
	}
	x.up = append(x.up, x.reqLine(id))
}

func c03Payload(id int) string {
	return base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("\x00u%d\x00p%d", id, id)))
}

func (x *c03Run) abortText(id int) string {
	switch x.kind {
	case "LIST":
		return "323 ..."
	case "WHO":
		return fmt.Sprintf("315 w%d ...", id)
	case "WHOIS":
		if id%2 == 0 {
			return fmt.Sprintf("318 T%d ...", id)
		}
		return fmt.Sprintf("318 t%d ...", id)
	case "SASL":
		return "906 ..."
	default:
		return fmt.Sprintf("FAIL %s TEMPORARILY_UNAVAILABLE acct%d ...", x.kind, id)
	}
}

func (x *c03Run) step(a string) {
	x.act(a, true)
	x.check()
}

// act updates the model and expectations and, if perform is set, does it.
func (x *c03Run) act(a string, perform bool) {
	c := x.c
	nick := "alice"
	head := -1
	if len(x.ids) > 0 {
		head = x.ids[0]
	}
	var headReq c03Req
	if len(x.st.q) > 0 {
		headReq = x.st.q[0]
	}
	prev := x.st
	next := c03Next(x.kind)(x.st, a)
	cmd := x.kind
	if cmd == "SASL" {
		cmd = "AUTHENTICATE"
	}
	pop := func() {
		x.ids = x.ids[1:]
		if len(x.ids) > 0 {
			x.started(x.ids[0])
		}
	}
	switch {
	case strings.HasPrefix(a, "req"):
		who := int(a[3] - '0')
		x.n++
		id := x.n
		if x.kind == "SASL" {
			x.cl[who].Send("AUTHENTICATE PLAIN")
			x.want[who] = append(x.want[who], "AUTHENTICATE +")
			x.cl[who].Send("AUTHENTICATE " + c03Payload(id))
			if len(prev.q) > 0 {
				x.want[who] = append(x.want[who], "904 ...")
				break
			}
			x.ids = append(x.ids, id)
			x.started(id)
			break
		}
		x.cl[who].Send(x.reqLine(id))
		x.ids = append(x.ids, id)
		if prev.stale {
			x.expect(headReq, x.abortText(head))
			pop()
		} else if len(x.ids) == 1 {
			x.started(id)
		}
	case strings.HasPrefix(a, "flip"):
		who := int(a[4] - '0')
		if prev.on[who] {
			if perform {
				x.cl[who].Quit()
			}
			var ids []int
			for i, e := range prev.q {
				if i > 0 && e.who == who {
					continue
				}
				ids = append(ids, x.ids[i])
			}
			x.ids = ids
		} else if perform {
			x.connect(who)
		}
		x.want[who] = nil
	case a == "item":
		x.n++
		switch x.kind {
		case "LIST":
			x.reply(fmt.Sprintf(":s 322 %s #r%d 5 :topic", nick, x.n))
			x.expect(headReq, fmt.Sprintf("322 #r%d 5 topic", x.n))
		case "WHO":
			x.reply(fmt.Sprintf(":s 354 %s * u%d h s w%d H 0 :real", nick, x.n, head))
			x.expect(headReq, fmt.Sprintf("354 * u%d h s w%d H 0 real", x.n, head))
		case "WHOIS":
			x.reply(fmt.Sprintf(":s 311 %s t%d u%d h * :real", nick, head, x.n))
			x.expect(headReq, fmt.Sprintf("311 t%d u%d h * real", head, x.n))
		}
	case a == "end":
		switch x.kind {
		case "LIST":
			x.reply(":s 323 " + nick + " :End")
			x.expect(headReq, "323 End")
		case "WHO":
			x.reply(fmt.Sprintf(":s 315 %s w%d :End", nick, head))
			x.expect(headReq, fmt.Sprintf("315 w%d End", head))
		case "WHOIS":
			x.reply(fmt.Sprintf(":s 318 %s t%d :End", nick, head))
			x.expect(headReq, fmt.Sprintf("318 t%d End", head))
		case "REGISTER", "VERIFY":
			x.reply(fmt.Sprintf(":s %s SUCCESS acct%d :done", x.kind, head))
			x.expect(headReq, fmt.Sprintf("%s SUCCESS acct%d done", x.kind, head))
		case "SASL":
			x.reply(":s 903 " + nick + " :ok")
			x.expect(headReq, "903 ok")
		}
		pop()
	case a == "err421", a == "err263", a == "err400":
		x.reply(fmt.Sprintf(":s %s %s %s :nope", a[3:], nick, cmd))
		x.expect(headReq, fmt.Sprintf("%s %s nope", a[3:], cmd))
		pop()
	case a == "fail":
		x.reply(fmt.Sprintf(":s FAIL %s SOME_CODE acct :nope", cmd))
		x.expect(headReq, fmt.Sprintf("FAIL %s SOME_CODE acct nope", cmd))
		pop()
	case a == "nosuch":
		p := x.reqLine(head)
		p = p[strings.LastIndexByte(p, ' ')+1:]
		code := "401"
		if head%2 == 0 {
			code = "402"
		}
		x.reply(fmt.Sprintf(":s %s %s %s :No such", code, nick, strings.ToUpper(p)))
		x.expect(headReq, fmt.Sprintf("%s %s No such", code, strings.ToUpper(p)))
		pop()
	case a == "tick":
		x.w.SleepCoarse(31 * time.Second)
	case a == "stray":
		// replies nobody has asked for, or which come too late
		switch x.kind {
		case "LIST":
			x.srv.Send(":s 321 " + nick + " Channel :Users")
			x.srv.Send(":s 322 " + nick + " #x 5 :topic")
			x.srv.Send(":s 323 " + nick + " :End")
		case "WHO":
			x.srv.Send(":s 352 " + nick + " #x u h s w0 H :0 real")
			x.srv.Send(":s 354 " + nick + " * u h s w0 H 0 :real")
			x.srv.Send(":s 315 " + nick + " w0 :End")
		case "WHOIS":
			x.srv.Send(":s 311 " + nick + " t0 u h * :real")
			x.srv.Send(":s 318 " + nick + " t0 :End")
		}
	case a == "drop":
		for i, e := range prev.q {
			x.expect(e, x.abortText(x.ids[i]))
		}
		x.ids = nil
		if !perform {
			break
		}
		x.srv.Drop()
		if x.srv.Live() == nil {
			c.Violatef("bouncer did not reconnect")
		}
		if x.kind == "SASL" {
			// the capability was withdrawn meanwhile: ask again, and
			// ignore the login of the new connection itself
			for i := range x.cl {
				if prev.on[i] {
					x.cl[i].Send("CAP REQ sasl")
				}
			}
			x.w.Settle()
			x.srv.Take()
		}
	case a == "pass0":
		// an untracked request by client 0 (if connected), answered at once
		x.n++
		if prev.on[0] {
			x.cl[0].Send(fmt.Sprintf("NAMES #far%d", x.n))
			x.w.Settle()
			txt := fmt.Sprintf("366 #far%d End", x.n)
			x.want[0] = append(x.want[0], txt)
			if !x.lab && prev.on[1] {
				x.want[1] = append(x.want[1], txt)
			}
			// an error about a nickname nobody asked a WHOIS for
			e := fmt.Sprintf(":s 401 %s ghost%d :No such", nick, x.n)
			if x.lab {
				e = "@label=" + x.lbl2() + " " + e
			}
			x.srv.Send(e)
			etxt := fmt.Sprintf("401 ghost%d No such", x.n)
			x.want[0] = append(x.want[0], etxt)
			if !x.lab && prev.on[1] {
				x.want[1] = append(x.want[1], etxt)
			}
		}
	}
	x.st = next
}

// c03Mixed runs two kinds of commands side by side.
func c03Mixed(r *kit.Run, k1, k2, key string, seq []string) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		a := c03World(c, w, k1, false)
		b := &c03Run{c: c, w: w, srv: a.srv, kind: k2, st: c03Init(), oth: a.oth, n: 500}
		b.cl = a.cl
		for _, s := range seq {
			c.Step(s)
			switch {
			case strings.HasPrefix(s, "1."):
				a.act(s[2:], true)
			case strings.HasPrefix(s, "2."):
				b.act(s[2:], true)
			default:
				a.act(s, true)
				b.cl = a.cl
				b.act(s, false)
			}
			a.up = append(a.up, b.up...)
			b.up = nil
			for i := range a.want {
				a.want[i] = append(a.want[i], b.want[i]...)
				b.want[i] = nil
			}
			a.anyOrder = true
			a.check()
			if c.Bad() {
				return
			}
		}
	})
}

func (x *c03Run) lbl2() string { return x.lastPassLabel() }

func (x *c03Run) lastPassLabel() string {
	for i := len(x.srv.Conns) - 1; i >= 0; i-- {
		all := x.srv.Conns[i].All
		for j := len(all) - 1; j >= 0; j-- {
			if all[j].Command == "NAMES" {
				return all[j].Tags["label"]
			}
		}
	}
	return ""
}

func (x *c03Run) check() {
	x.w.Settle()
	var got []string
	for _, m := range x.srv.Take() {
		switch m.Command {
		case "LIST", "WHO", "WHOIS", "REGISTER", "VERIFY", "AUTHENTICATE":
			got = append(got, m.Command+" "+strings.Join(m.Params, " "))
			if m.Command == "AUTHENTICATE" && m.Params[0] != "PLAIN" {
				continue
			}
			x.lbl = []string{m.Tags["label"]}
			if x.lab && m.Tags["label"] == "" {
				x.c.Violatef("request %q was sent without a label to a server with labeled-response", got[len(got)-1])
			}
		}
	}
	x.c.Check(kit.Eq(got, x.up), "the server received requests %s, want %s", kit.Q(got), kit.Q(x.up))
	x.up = nil
	for i, cl := range []*kit.Client{x.cl[0], x.cl[1], x.oth} {
		if i < 2 && !x.st.on[i] {
			continue
		}
		var got []string
		for _, m := range kit.Select(cl.Take(), c03Replies...) {
			p := m.Params
			if m.Command[0] >= '0' && m.Command[0] <= '9' && len(p) > 0 {
				p = p[1:]
			}
			got = append(got, m.Command+" "+strings.Join(p, " "))
		}
		if x.anyOrder {
			got, x.want[i] = kit.Sorted(got), kit.Sorted(x.want[i])
		}
		ok := len(got) == len(x.want[i])
		for k := range got {
			if !ok {
				break
			}
			w := x.want[i][k]
			if pre, cut := strings.CutSuffix(w, "..."); cut {
				ok = strings.HasPrefix(got[k], pre)
			} else {
				ok = got[k] == w
			}
		}
		x.c.Check(ok, "client %s received replies %s, want %s", cl.Name, kit.Q(got), kit.Q(x.want[i]))
		x.c.Check(!cl.Closed(), "client %s was disconnected", cl.Name)
		x.want[i] = nil
	}
}

func c03World(c *kit.Ctx, w *kit.World, kind string, lab bool) *c03Run {
	u := w.AddUser("alice", nil)
	_, srv := w.AddNetwork(u, "n1", nil)
	_, srv2 := w.AddNetwork(u, "n2", nil)
	if kind == "SASL" {
		srv.Caps = []string{"sasl=PLAIN,EXTERNAL"}
	} else {
		srv.Caps = []string{"draft/account-registration"}
	}
	if lab {
		srv.Caps = append(srv.Caps, "message-tags", "labeled-response", "batch", "echo-message")
	}
	_ = srv2
	srv.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		switch m.Command {
		case "LIST", "WHO", "WHOIS", "REGISTER", "VERIFY":
			return true
		case "AUTHENTICATE":
			if !uc.Registered {
				return false
			}
			if m.Params[0] == "PLAIN" {
				uc.Send("AUTHENTICATE +")
			}
			return true
		case "NAMES":
			l := ":s 366 alice " + m.Params[0] + " :End"
			if t := m.Tags["label"]; t != "" {
				// answer in a labelled batch
				uc.Send("@label=" + t + " :s BATCH +b" + t + " labeled-response")
				uc.Send("@batch=b" + t + " " + l)
				uc.Send(":s BATCH -b" + t)
			} else {
				uc.Send(l)
			}
			return true
		}
		return false
	}
	w.Start()
	x := &c03Run{c: c, w: w, srv: srv, kind: kind, lab: lab, st: c03Init()}
	x.connect(0)
	x.connect(1)
	x.oth = w.Connect("other", kit.ConnOpts{User: "alice", Network: "n2"})
	x.oth.Take()
	return x
}

func c03Exec(r *kit.Run, kind string, lab bool, key string, seq []string) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		x := c03World(c, w, kind, lab)
		for _, a := range seq {
			c.Step(a)
			x.step(a)
			if c.Bad() {
				return
			}
		}
	})
}

func c03Init() c03Model { return c03Model{on: [2]bool{true, true}} }

func TestC03(t *testing.T) {
	r := kit.Start(t, "C03")
	c03Self(r)
	loginTree(r, r.Pick(3, 4), true)
	loginPair(r, r.Pick(6, 8))
	for _, kind := range []string{"LIST", "WHO", "WHOIS", "REGISTER", "VERIFY", "SASL"} {
		for _, lab := range []bool{false, true} {
			if lab && kind == "SASL" {
				continue
			}
			g := kind
			if lab {
				g += "/labels"
			}
			depth := r.Pick(8, 10)
			// afterwards let every queued request finish, and make one more
			epi := func(s c03Model) []string {
				var l []string
				for range s.q {
					l = append(l, "end")
				}
				if s.on[0] {
					l = append(l, "req0", "end")
				}
				return l
			}
			kit.GraphEpi(r, "graph/"+g, c03Init(), c03Model.key, c03Enabled(kind), c03Next(kind), depth, epi, func(key string, seq []string) {
				c03Exec(r, kind, lab, key, seq)
			})
			r.Tree("tree/"+g, r.Pick(4, 5), func(seq []string) []string {
				s := c03Init()
				for _, a := range seq {
					s = c03Next(kind)(s, a)
				}
				return c03Enabled(kind)(s)
			}, func(key string, seq []string) { c03Exec(r, kind, lab, key, seq) })
		}
	}
	kinds := []string{"LIST", "WHO", "WHOIS", "REGISTER", "VERIFY"}
	for i, k1 := range kinds {
		for _, k2 := range kinds[i+1:] {
			r.Tree("mixed/"+k1+"+"+k2, r.Pick(4, 5), func(seq []string) []string {
				s := [2]c03Model{c03Init(), c03Init()}
				for _, a := range seq {
					switch {
					case strings.HasPrefix(a, "1."):
						s[0] = c03Next(k1)(s[0], a[2:])
					case strings.HasPrefix(a, "2."):
						s[1] = c03Next(k2)(s[1], a[2:])
					default:
						s[0] = c03Next(k1)(s[0], a)
						s[1] = c03Next(k2)(s[1], a)
					}
				}
				l := []string{"1.req0", "2.req0", "1.req1", "2.req1"}
				if !s[0].on[0] {
					l = []string{"1.req1", "2.req1"}
				} else {
					l = append(l, "flip0")
				}
				for j := range s {
					if len(s[j].q) > 0 {
						l = append(l, fmt.Sprintf("%d.end", j+1), fmt.Sprintf("%d.err421", j+1))
					}
				}
				return append(l, "drop")
			}, func(key string, seq []string) { c03Mixed(r, k1, k2, key, seq) })
		}
	}
}
