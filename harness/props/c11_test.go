package props

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"sojuverif/kit"
)

// C11: read markers.
//
// The model maps (network, canonical target) to a mark: 0 is none, 1 to 3 are
// instants of the past and 4 is the instant at which a client asked for a
// time in the future.

const c11Layout = "2006-01-02T15:04:05.000Z"

var c11Past = []time.Time{
	{},
	time.Date(1999, 12, 30, 23, 59, 59, 999e6, time.UTC),
	time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC),
	time.Date(1999, 12, 31, 0, 0, 0, 1e6, time.UTC),
}

// c11Canon maps the spellings of a target to the canonical name; the servers
// announce rfc1459.
var c11Canon = map[string]string{"#c": "#c", "#C": "#c", "bob": "bob", "BoB": "bob", "x[": "x[", "X{": "x["}

var c11Who = map[string]struct{ user, net string }{
	"a": {"alice", "n1"}, "b": {"alice", "n1"}, "m": {"alice", "n1"}, "o": {"alice", "n2"}, "z": {"zoe", "zn"},
}

type c11Model struct{ mark map[string]int }

func (m c11Model) key() string {
	var l []string
	for k, v := range m.mark {
		if v != 0 {
			l = append(l, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (m c11Model) next(a string) c11Model {
	n := c11Model{map[string]int{}}
	for k, v := range m.mark {
		n.mark[k] = v
	}
	f := strings.Split(a, "|")
	switch f[0] {
	case "set":
		k := c11Who[f[1]].net + " " + c11Canon[f[2]]
		n.mark[k] = max(n.mark[k], int(f[3][0]-'0'))
	case "pair":
		k := "n1 #c"
		n.mark[k] = max(n.mark[k], int(f[1][0]-'0'), int(f[2][0]-'0'))
	}
	return n
}

type c11World struct {
	c     *kit.Ctx
	w     *kit.World
	mark  map[string]time.Time
	cl    map[string]*kit.Client
	srv   map[string]*kit.UpServer
	gate  *kit.GateDB
	netID map[string]int64
}

func c11Cmd(who string) string {
	switch who {
	case "b":
		return "READ"
	case "m":
		return ""
	}
	return "MARKREAD"
}

func c11New(c *kit.Ctx, w *kit.World) *c11World {
	x := &c11World{c: c, w: w, mark: map[string]time.Time{}, srv: map[string]*kit.UpServer{}, netID: map[string]int64{}}
	x.gate = w.Gate()
	for _, un := range []struct {
		user string
		nets []string
	}{{"alice", []string{"n1", "n2"}}, {"zoe", []string{"zn"}}} {
		u := w.AddUser(un.user, nil)
		for _, n := range un.nets {
			rec, s := w.AddNetwork(u, n, nil)
			s.ISupport = append(s.ISupport, "CASEMAPPING=rfc1459")
			w.AddChannel(rec, "#C", nil)
			x.srv[n] = s
			x.netID[n] = rec.ID
		}
	}
	w.Start()
	x.connect()
	return x
}

func (x *c11World) connect() {
	x.cl = map[string]*kit.Client{}
	for _, who := range kit.Sorted(kit.Keys(c11Who)) {
		p := c11Who[who]
		caps := map[string][]string{"b": {"soju.im/read"}, "m": {"server-time"}}[who]
		if caps == nil {
			caps = []string{"draft/read-marker"}
			if who == "o" {
				caps = append(caps, "soju.im/read")
			}
		}
		cl := x.w.Connect(who, kit.ConnOpts{User: p.user, Network: p.net, Client: who, Caps: caps})
		x.c.Check(cl.Registered(), "%s is not registered", who)
		x.cl[who] = cl
		// the marker of a channel comes between its JOIN and the end of its names
		var seq []string
		for _, m := range cl.Take() {
			switch m.Command {
			case "JOIN", "366":
				seq = append(seq, m.Command)
			case "READ", "MARKREAD":
				seq = append(seq, m.Command+" "+strings.Join(m.Params, " "))
			}
		}
		want := []string{"JOIN", c11Cmd(who) + " #C " + x.val(p.net+" #c"), "366"}
		if who == "m" {
			want = []string{"JOIN", "366"}
		}
		x.c.Check(kit.Eq(seq, want), "when joining the channel %s receives %s, want %s", who, kit.Q(seq), kit.Q(want))
	}
}

func (x *c11World) val(k string) string {
	if t := x.mark[k]; !t.IsZero() {
		return "timestamp=" + t.UTC().Format(c11Layout)
	}
	return "*"
}

// received checks what each client got since the last step: want has, by
// client, the markers.
func (x *c11World) received(what string, want map[string][]string) {
	for _, who := range kit.Sorted(kit.Keys(c11Who)) {
		got := kit.Lines(x.cl[who].Take())
		var g []string
		for _, l := range got {
			f := strings.SplitN(l, " ", 2)
			if strings.HasPrefix(l, ":") {
				x.c.Check(strings.HasPrefix(f[0], ":"+c11Who[who].user+"!"), "%s: prefix of %q", what, l)
				g = append(g, f[1])
			} else {
				g = append(g, l)
			}
		}
		var exp []string
		if c11Cmd(who) != "" {
			for _, l := range want[who] {
				exp = append(exp, c11Cmd(who)+" "+l)
			}
		}
		x.c.Check(kit.Eq(g, exp), "%s: %s receives %s, want %s", what, who, kit.Q(g), kit.Q(exp))
	}
}

// send makes a client send a command and returns the line.
func (x *c11World) send(who, params string) string {
	cmd := c11Cmd(who)
	if cmd == "" {
		cmd = "MARKREAD"
	}
	if params != "" {
		cmd += " " + params
	}
	x.cl[who].Send(cmd)
	return who + " sends " + cmd
}

func (x *c11World) stamp(v int) time.Time {
	if v == 4 {
		return time.Now().Add(time.Hour)
	}
	return c11Past[v]
}

// set updates the reference and says whether the value changed.
func (x *c11World) set(k string, t time.Time) bool {
	if now := time.Now(); t.After(now) {
		t = now
	}
	t = t.Truncate(time.Millisecond)
	if x.mark[k].Before(t) {
		x.mark[k] = t
		return true
	}
	return false
}

func (x *c11World) apply(a string) {
	x.w.SleepCoarse(1500 * time.Millisecond)
	f := strings.Split(a, "|")
	switch f[0] {
	case "set", "fail":
		who, target := f[1], f[2]
		p := c11Who[who]
		k := p.net + " " + c11Canon[target]
		t := x.stamp(int(f[3][0] - '0'))
		if f[0] == "fail" {
			x.gate.Fail("StoreReadReceipt", true)
		}
		what := x.send(who, target+" timestamp="+t.UTC().Format(c11Layout))
		x.w.Settle()
		if f[0] == "fail" {
			x.gate.Fail("StoreReadReceipt", false)
			now := time.Now()
			if t.After(now) {
				t = now
			}
			if x.mark[k].Before(t.Truncate(time.Millisecond)) {
				x.fails(what, who)
				return
			}
		}
		want := map[string][]string{}
		changed := x.set(k, t)
		for o, q := range c11Who {
			if o == who || changed && q == p {
				want[o] = []string{target + " " + x.val(k)}
			}
		}
		x.received(what, want)
	case "get":
		who, target := f[1], f[2]
		what := x.send(who, target)
		x.w.Settle()
		x.received(what, map[string][]string{who: {target + " " + x.val(c11Who[who].net+" "+c11Canon[target])}})
	case "pair":
		// both clients set the marker at once
		t1, t2 := x.stamp(int(f[1][0]-'0')), x.stamp(int(f[2][0]-'0'))
		what := x.send("a", "#c timestamp="+t1.UTC().Format(c11Layout)) + " and " + x.send("b", "#c timestamp="+t2.UTC().Format(c11Layout))
		x.w.Settle()
		x.set("n1 #c", t1)
		x.set("n1 #c", t2)
		for _, who := range []string{"a", "b"} {
			l := kit.Lines(x.cl[who].Take())
			x.c.Check(len(l) > 0 && strings.HasSuffix(l[len(l)-1], c11Cmd(who)+" #c "+x.val("n1 #c")), "%s: %s is left with %s, want %s", what, who, kit.Q(l), x.val("n1 #c"))
		}
		x.received(what, nil)
	case "bad":
		what := x.send(f[1], f[2])
		x.w.Settle()
		x.fails(what, f[1])
	case "join":
		x.srv[f[1]].Do(":dave!d@d JOIN #c")
		x.srv[f[1]].Do(":dave!d@d PRIVMSG #c :hi")
		x.w.Settle()
		for _, cl := range x.cl {
			cl.Take()
		}
	case "reconnect":
		for _, cl := range x.cl {
			cl.Quit()
		}
		x.w.Settle()
		x.connect()
	case "drop":
		for _, s := range x.srv {
			s.Drop()
		}
		x.w.Settle()
		for _, n := range []string{"n1", "n2", "zn"} {
			x.w.AwaitLive(x.srv[n], 5*time.Minute)
		}
		x.w.Settle()
		for who, cl := range x.cl {
			cl.Take()
			x.c.Check(!cl.Closed(), "%s was disconnected", who)
		}
	case "update":
		a := x.w.DialAdmin("adm")
		a.Send("BOUNCERSERV :user run alice network update n1 -realname r")
		x.w.Settle()
		l := kit.Lines(a.Take())
		x.c.Check(len(l) > 0 && strings.Contains(l[len(l)-1], "BOUNCERSERV OK"), "%s", kit.Q(l))
		a.Conn().Hangup()
		x.w.Settle()
		x.w.AwaitLive(x.srv["n1"], 5*time.Minute)
		for _, cl := range x.cl {
			cl.Take()
		}
	case "restart":
		x.w.Restart()
		x.connect()
	}
}

// fails checks that a command was refused: one error to the sender, nothing
// else.
func (x *c11World) fails(what, who string) {
	l := x.cl[who].Take()
	x.c.Check(len(l) == 1 && l[0].Command == "FAIL" && len(l[0].Params) > 0 && (l[0].Params[0] == c11Cmd(who) || c11Cmd(who) == ""), "%s: the reply is %s", what, kit.Q(kit.Lines(l)))
	x.received(what, nil)
}

func (x *c11World) final() {
	check := func() {
		for who, p := range c11Who {
			for _, target := range kit.Sorted(kit.Keys(c11Canon)) {
				if x.c.Bad() {
					return
				}
				what := x.send(who, target)
				x.w.Settle()
				x.received(what, map[string][]string{who: {target + " " + x.val(p.net+" "+c11Canon[target])}})
			}
		}
		for n, id := range x.netID {
			for _, target := range []string{"#c", "bob", "x["} {
				r, err := x.w.DB.GetReadReceipt(context.Background(), id, target)
				got := time.Time{}
				if r != nil {
					got = r.Timestamp
				}
				x.c.Check(err == nil && got.Equal(x.mark[n+" "+target]), "stored marker of %s %s: %v %v, want %v", n, target, got, err, x.mark[n+" "+target])
			}
		}
	}
	check()
	x.apply("restart")
	check()
}

func TestC11(t *testing.T) {
	r := kit.Start(t, "C11")
	run := func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			x := c11New(c, w)
			for _, a := range seq {
				if c.Bad() {
					return
				}
				x.apply(a)
			}
			if !c.Bad() {
				x.final()
			}
		})
	}
	var sets, small []string
	for _, who := range []string{"a", "b", "m", "o", "z"} {
		for _, target := range kit.Sorted(kit.Keys(c11Canon)) {
			for v := 1; v <= 4; v++ {
				sets = append(sets, fmt.Sprintf("set|%s|%s|%d", who, target, v))
			}
		}
	}
	for _, wt := range []string{"a|#c", "b|#C", "a|bob", "b|x[", "m|X{", "o|#c", "z|#c", "o|BoB"} {
		for v := 1; v <= 4; v++ {
			if r.Thorough() || v != 2 {
				small = append(small, fmt.Sprintf("set|%s|%d", wt, v))
			}
		}
	}
	small = append(small, "fail|a|#c|2", "fail|b|bob|4", "get|a|#C", "get|b|bob", "join|n1", "reconnect", "drop", "update", "restart", "bad|a|#c timestamp=2030-01-01", "pair|1|3", "pair|4|2")
	good := "1999-12-31T12:00:00.000Z"
	for _, who := range []string{"a", "b"} {
		for _, b := range []string{
			"", "#c *", "#c " + good, "#c timestamp", "#c timestamp=", "#c timestamp=*", "#c msgid=abc", "#c Timestamp=" + good, "#c :timestamp=" + good + " ", "#c timestamp=1999-12-31T12:00:00Z", "#c timestamp=1999-12-31T12:00:00.0000Z",
			"#c timestamp=1999-12-31T12:00:00.000+01:00", "#c timestamp=1999-13-31T12:00:00.000Z", "#c timestamp=1999-02-30T12:00:00.000Z", "#c timestamp=1999-12-31T25:00:00.000Z", "#c timestamp=946641600", "#c timestamp=-1", "#c timestamp==" + good,
		} {
			for _, pre := range []string{"", "set|a|#c|1", "set|b|#c|4"} {
				seq := []string{"bad|" + who + "|" + b}
				if pre != "" {
					seq = append([]string{pre}, seq...)
				}
				run(fmt.Sprintf("bad:%s/%s/%q", who, pre, b), seq)
			}
		}
	}
	r.Bound("refused commands: 18 malformed parameter lists x 2 command names x marker unset, in the past, now")
	// all pairs of settings
	r.Tree("pairs", 2, func([]string) []string { return sets }, run)
	// sequences with everything else
	r.Tree("tree", r.Pick(2, 3), func([]string) []string { return small }, run)
	// all reachable marks of the conversations of the first network
	var graph []string
	for _, wt := range []string{"a|#c", "b|#C", "b|bob", "a|X{"} {
		for v := 1; v <= 4; v++ {
			graph = append(graph, fmt.Sprintf("set|%s|%d", wt, v))
		}
	}
	for i := 1; i <= 4; i++ {
		for j := 1; j <= 4; j++ {
			graph = append(graph, fmt.Sprintf("pair|%d|%d", i, j))
		}
	}
	kit.Graph(r, "graph", c11Model{}, c11Model.key, func(c11Model) []string { return graph }, c11Model.next, r.Pick(5, 9), run)
	// three clients, every order of three settings
	three := []string{}
	for _, who := range []string{"a", "b", "m"} {
		for v := 1; v <= 4; v++ {
			three = append(three, fmt.Sprintf("set|%s|#c|%d", who, v))
		}
	}
	r.Tree("three", r.Pick(3, 4), func([]string) []string { return three }, run)

	// the service and connections without a network
	r.World("special", func(c *kit.Ctx, w *kit.World) {
		u := w.AddUser("alice", nil)
		w.AddNetwork(u, "n1", nil)
		w.Start()
		for _, net := range []string{"", "n1"} {
			cl := w.Connect("c"+net, kit.ConnOpts{User: "alice", Network: net, Caps: []string{"draft/read-marker"}})
			cl.Take()
			for _, p := range []string{"BouncerServ", "bouncerserv timestamp=" + good} {
				m := cl.Do("MARKREAD " + p)
				c.Check(len(m) == 1 && m[0].Command == "MARKREAD" && strings.EqualFold(m[0].Params[0], "bouncerserv") && m[0].Params[1] == "*", "MARKREAD %s: %s", p, kit.Q(kit.Lines(m)))
			}
		}
		cl := w.Connect("u", kit.ConnOpts{User: "alice", Caps: []string{"draft/read-marker"}})
		cl.Take()
		for _, p := range []string{"#c", "#c timestamp=" + good, "#c/n1 timestamp=" + good} {
			m := cl.Do("MARKREAD " + p)
			c.Check(len(m) == 1 && m[0].Command == "FAIL", "MARKREAD %s without a network: %s", p, kit.Q(kit.Lines(m)))
		}
	})
}
