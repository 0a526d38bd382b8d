package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"sojuverif/kit"
)

// C02: backlog exactness.
//
// Reference model: per conversation a log (list of messages) and per client
// name a position in it. A conversation becomes tracked for a name when the
// name acknowledges a message of it, or when the conversation's first tracked
// message arrives while the name is known (has a position anywhere).

type c02Model struct {
	on    map[string]bool // client connections: x, y, z
	mute  map[string]bool
	logs  map[string]int            // conversation -> number of messages
	pos   map[string]map[string]int // conversation -> name -> delivered
	store string
	net   bool // unused
}

var c02Names = []string{"x", "y"}
var c02Conns = []string{"x", "x2", "y"} // x and x2 log in under the same client name

func c02Name(conn string) string { return conn[:1] }

var c02Convs = []string{"#c", "bob"}

func c02Init(store string) c02Model {
	return c02Model{on: map[string]bool{}, mute: map[string]bool{}, logs: map[string]int{}, pos: map[string]map[string]int{}, store: store}
}

func (m c02Model) clone() c02Model {
	n := c02Init(m.store)
	for k, v := range m.on {
		n.on[k] = v
	}
	for k, v := range m.mute {
		n.mute[k] = v
	}
	for k, v := range m.logs {
		n.logs[k] = v
	}
	for k, v := range m.pos {
		n.pos[k] = map[string]int{}
		for a, b := range v {
			n.pos[k][a] = b
		}
	}
	return n
}

// key canonicalises: only what is missed matters, not how much was logged.
func (m c02Model) key() string {
	var b strings.Builder
	for _, n := range append([]string{"z"}, c02Conns...) {
		fmt.Fprintf(&b, "%s:%v,%v;", n, m.on[n], m.mute[n])
	}
	for _, cv := range c02Convs {
		e := m.logs[cv]
		if e > 2 {
			e = 2
		}
		fmt.Fprintf(&b, "%s/%d:", cv, e)
		for _, n := range c02Names {
			if p, ok := m.pos[cv][n]; ok {
				fmt.Fprintf(&b, "%d ", m.logs[cv]-p)
			} else {
				b.WriteString("- ")
			}
		}
	}
	return b.String()
}

func (m c02Model) enabled(limit int) []string {
	var acts []string
	for _, n := range c02Conns {
		if m.on[n] {
			acts = append(acts, "disc-"+n)
			if n == "x" {
				acts = append(acts, "mute-"+n)
			}
		} else {
			acts = append(acts, "conn-"+n)
		}
	}
	if m.store != "memory" {
		acts = append(acts, "toggle-z")
	}
	full := func(cv string) bool {
		for _, p := range m.pos[cv] {
			if m.logs[cv]-p >= limit {
				return true
			}
		}
		return false
	}
	if !full("#c") {
		acts = append(acts, "up-chan", "up-notice", "up-CHAN")
	}
	if !full("bob") {
		acts = append(acts, "up-dm")
	}
	for _, n := range c02Names {
		if m.on[n] {
			if !full("#c") {
				acts = append(acts, "say-"+n+"-chan")
			}
			if !full("bob") {
				acts = append(acts, "say-"+n+"-dm")
			}
			break
		}
	}
	acts = append(acts, "drop", "event", "day", "update", "rename")
	if m.store != "memory" {
		acts = append(acts, "restart")
	}
	return acts
}

func (m *c02Model) message(cv string) {
	known := map[string]bool{}
	for _, c := range m.pos {
		for n := range c {
			known[n] = true
		}
	}
	if m.pos[cv] == nil && len(known) > 0 {
		m.pos[cv] = map[string]int{}
		for n := range known {
			m.pos[cv][n] = m.logs[cv]
		}
	}
	m.logs[cv]++
	for _, n := range c02Conns {
		if m.on[n] && !m.mute[n] {
			if m.pos[cv] == nil {
				m.pos[cv] = map[string]int{}
			}
			m.pos[cv][c02Name(n)] = m.logs[cv]
		}
	}
}

func (m c02Model) next(a string) c02Model {
	n := m.clone()
	switch {
	case strings.HasPrefix(a, "conn-"):
		name := c02Name(a[5:])
		first := !m.othersOn(a[5:])
		n.on[a[5:]] = true
		for _, cv := range c02Convs {
			if _, ok := n.pos[cv][name]; ok && first {
				n.pos[cv][name] = n.logs[cv]
			}
		}
	case strings.HasPrefix(a, "disc-"):
		n.on[a[5:]] = false
		n.mute[a[5:]] = false
	case strings.HasPrefix(a, "mute-"):
		n.mute[a[5:]] = !n.mute[a[5:]]
	case a == "toggle-z":
		n.on["z"] = !n.on["z"]
	case a == "up-chan", a == "up-notice", a == "up-CHAN", strings.HasSuffix(a, "-chan"):
		n.message("#c")
	case strings.HasSuffix(a, "dm"):
		n.message("bob")
	case a == "restart":
		n.on = map[string]bool{}
		n.mute = map[string]bool{}
	}
	return n
}

// othersOn reports whether another connection with the same name is up.
func (m c02Model) othersOn(conn string) bool {
	for _, n := range c02Conns {
		if n != conn && c02Name(n) == c02Name(conn) && m.on[n] {
			return true
		}
	}
	return false
}

type c02Msg struct {
	text string // rendered as in kit.Texts
	at   time.Time
}

type c02World struct {
	c    *kit.Ctx
	w    *kit.World
	m    c02Model
	logs map[string][]c02Msg
	cl   map[string]*kit.Client
	srv  *kit.UpServer
	n    int
	net  string
}

// admin runs a service command as the user.
func (x *c02World) admin(cmd string) {
	a := x.w.DialAdmin("admin")
	a.Send("BOUNCERSERV :user run alice " + cmd)
	x.w.Settle()
	l := kit.Lines(a.Take())
	x.c.Check(len(l) > 0 && strings.Contains(l[len(l)-1], "BOUNCERSERV OK"), "%q: %s", cmd, kit.Q(l))
	a.Conn().Hangup()
	x.w.Settle()
	x.w.AwaitLive(x.srv, 5*time.Minute)
}

func c02Setup(c *kit.Ctx, w *kit.World, store string) *c02World {
	x := &c02World{c: c, w: w, m: c02Init(store), logs: map[string][]c02Msg{}, cl: map[string]*kit.Client{}, net: "n1"}
	w.Cfg.MsgStoreDriver = store
	if store == "fs" {
		w.Cfg.MsgStorePath = w.TempDir()
	}
	u := w.AddUser("alice", nil)
	n, s := w.AddNetwork(u, "n1", nil)
	w.AddChannel(n, "#c", nil)
	x.srv = s
	s.Caps = []string{"message-tags", "server-time"}
	w.Start()
	return x
}

func (x *c02World) conv(text string) string {
	f := strings.SplitN(text, " ", 4)
	if strings.EqualFold(f[2], "#c") {
		return "#c"
	}
	return "bob"
}

func (x *c02World) connect(conn string) {
	name := c02Name(conn)
	caps := map[string][]string{
		"x": nil,
		"y": {"server-time", "batch", "message-tags", "echo-message"},
		"z": {"server-time", "batch", "draft/chathistory"},
	}[name]
	// expectation from the model before the transition
	want := map[string][]c02Msg{}
	for _, cv := range c02Convs {
		if p, ok := x.m.pos[cv][name]; ok && !x.m.othersOn(conn) {
			want[cv] = x.logs[cv][p:]
		}
	}
	cl := x.w.Connect(conn, kit.ConnOpts{User: "alice", Network: x.net, Client: name, Caps: caps})
	x.cl[conn] = cl
	msgs := cl.Take()
	if !x.c.Check(cl.Registered(), "client %s could not register", name) {
		return
	}
	got := map[string][]string{}
	batchTarget := map[string]string{}
	open := map[string]bool{}
	for _, m := range msgs {
		if m.Command == "BATCH" {
			ref := m.Params[0][1:]
			if m.Params[0][0] == '+' {
				batchTarget[ref] = m.Params[len(m.Params)-1]
				open[ref] = true
			} else {
				delete(open, ref)
			}
			continue
		}
		t := kit.Texts([]*ircMessage{m})
		if len(t) == 0 {
			continue
		}
		cv := x.conv(t[0])
		i := len(got[cv])
		got[cv] = append(got[cv], t[0])
		if name == "y" {
			ref := string(m.Tags["batch"])
			x.c.Check(open[ref] && strings.EqualFold(batchTarget[ref], cv), "backlog message %q for %s is not in an open batch of that conversation (batch %q, target %q)", t[0], name, ref, batchTarget[ref])
			if i < len(want[cv]) {
				x.checkTime(m, want[cv][i])
			}
		} else if name == "x" {
			x.c.Check(len(m.Tags) == 0, "client x negotiated no tags but received %v", m.Tags)
		}
	}
	for _, cv := range c02Convs {
		var w []string
		for _, m := range want[cv] {
			w = append(w, m.text)
		}
		x.c.Check(kit.Eq(got[cv], w), "client %s reconnecting received for %s the backlog %s, want %s", name, cv, kit.Q(got[cv]), kit.Q(w))
	}
}

func (x *c02World) checkTime(m *ircMessage, want c02Msg) {
	ts, err := time.Parse("2006-01-02T15:04:05.000Z", string(m.Tags["time"]))
	w := want.at
	if x.m.store == "fs" {
		w = w.Truncate(time.Second)
	}
	x.c.Check(err == nil && ts.Equal(w.Truncate(time.Millisecond)), "backlog message %q has time %q, want %v", want.text, m.Tags["time"], w)
}

func (x *c02World) log(cv, text string) {
	x.logs[cv] = append(x.logs[cv], c02Msg{text, time.Now()})
}

func (x *c02World) apply(a string) {
	x.w.SleepCoarse(1500 * time.Millisecond)
	x.n++
	id := fmt.Sprintf("m%d", x.n)
	x.c.Step(a)
	switch {
	case strings.HasPrefix(a, "conn-"):
		x.connect(a[5:])
	case strings.HasPrefix(a, "disc-"):
		x.cl[a[5:]].Quit()
		delete(x.cl, a[5:])
	case strings.HasPrefix(a, "mute-"):
		x.cl[a[5:]].NoPong = !x.cl[a[5:]].NoPong
	case a == "toggle-z":
		if x.m.on["z"] {
			x.cl["z"].Quit()
			delete(x.cl, "z")
		} else {
			x.connect("z")
		}
	case a == "up-chan":
		x.srv.Do(":carl!u@h PRIVMSG #c :" + id + " hello")
		x.log("#c", "PRIVMSG carl #c "+id+" hello")
	case a == "up-notice":
		x.srv.Do(":carl!u@h NOTICE #c :" + id)
		x.log("#c", "NOTICE carl #c "+id)
	case a == "up-CHAN":
		x.srv.Do(":Carl!u@h PRIVMSG #C :" + id)
		if x.m.store == "fs" {
			x.log("#c", "PRIVMSG Carl #c "+id) // the log file keeps one spelling
		} else {
			x.log("#c", "PRIVMSG Carl #C "+id)
		}
	case a == "up-dm":
		x.srv.Do(":Bob!u@h PRIVMSG " + x.srv.Live().Nick + " :" + id)
		x.log("bob", "PRIVMSG Bob "+x.srv.Live().Nick+" "+id)
	case strings.HasPrefix(a, "say-"):
		f := strings.Split(a, "-")
		target := map[string]string{"chan": "#c", "dm": "Bob"}[f[2]]
		x.cl[f[1]].Send("PRIVMSG " + target + " :" + id + " mine")
		x.w.Settle()
		shown := target
		if x.m.store == "fs" {
			shown = strings.ToLower(target)
		}
		x.log(strings.ToLower(target), "PRIVMSG alice "+shown+" "+id+" mine")
	case a == "drop":
		x.srv.Drop()
	case a == "event":
		x.srv.Do(":dave!u@h JOIN #c")
		x.srv.Do(":dave!u@h PART #c :bye")
	case a == "update":
		x.admin("network update " + x.net + " -realname r" + id)
	case a == "rename":
		to := map[string]string{"n1": "n2", "n2": "n1"}[x.net]
		x.admin("network update " + x.net + " -name " + to)
		x.net = to
	case a == "day":
		x.w.SleepCoarse(24 * time.Hour)
	case a == "restart":
		x.w.Restart()
		x.cl = map[string]*kit.Client{}
	}
	x.w.Settle()
	x.m = x.m.next(a)
	// live traffic is C01's subject; drop it
	var names []string
	for n := range x.cl {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x.c.Check(!x.cl[n].Closed(), "client %s was disconnected", n)
		x.cl[n].Take()
	}
	x.c.Check(x.srv.Live() != nil, "bouncer is not connected to the server")
}

// final makes every name reconnect, so that each history ends with a check.
func (x *c02World) final() {
	if x.m.on["x2"] {
		x.apply("disc-x2")
	}
	for _, n := range c02Names {
		if x.c.Bad() {
			return
		}
		if x.m.on[n] {
			x.apply("disc-" + n)
		}
		if x.c.Bad() {
			return
		}
		x.apply("conn-" + n)
	}
}

func TestC02(t *testing.T) {
	r := kit.Start(t, "C02")
	c02Two(r)
	for _, store := range []string{"memory", "db", "fs"} {
		run := func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				x := c02Setup(c, w, store)
				for _, a := range seq {
					x.apply(a)
					if c.Bad() {
						return
					}
				}
				x.final()
			})
		}
		// Histories starting from a state where both names are known.
		prelude := []string{"conn-x", "conn-y", "up-chan"}
		r.Tree(store+"/tree", r.Pick(3, 4), func(seq []string) []string {
			m := c02Init(store)
			for _, a := range append(append([]string(nil), prelude...), seq...) {
				m = m.next(a)
			}
			return m.enabled(3)
		}, func(key string, seq []string) {
			run(key, append(append([]string(nil), prelude...), seq...))
		})
		kit.Graph(r, store+"/graph", c02Init(store), c02Model.key,
			func(m c02Model) []string { return m.enabled(2) },
			func(m c02Model, a string) c02Model { return m.next(a) }, r.Pick(6, 9), run)
	}

	// backlogs are bounded: the latest messages are the ones which matter, and
	// none is lost below the bound
	const bound = 4000
	for _, store := range []string{"memory", "db", "fs"} {
		sizes := []int{1000, bound - 1, bound, bound + 1, 4095, 4096, 4097, 4200, 8300}
		if !r.Thorough() {
			sizes = []int{bound - 1, bound + 1, 4200}
		}
		for _, n := range sizes {
			if store != "memory" && n > 4200 {
				continue
			}
			r.World(fmt.Sprintf("%s/long/%d", store, n), func(c *kit.Ctx, w *kit.World) {
				x := c02Setup(c, w, store)
				cl := w.Connect("x", kit.ConnOpts{User: "alice", Network: x.net, Client: "x"})
				x.srv.Do(":bob!b@h PRIVMSG #c :first")
				w.SleepCoarse(1500 * time.Millisecond)
				cl.Quit()
				w.Settle()
				w.SleepCoarse(1500 * time.Millisecond)
				var want []string
				for i := 0; i < n; i++ {
					text := fmt.Sprintf("m%d", i)
					x.srv.Send(":bob!b@h PRIVMSG #c :" + text)
					if i%500 == 0 {
						w.Settle()
					}
					want = append(want, text)
				}
				w.Settle()
				w.SleepCoarse(1500 * time.Millisecond)
				for round := 0; round < 2; round++ {
					cl = w.Connect("x", kit.ConnOpts{User: "alice", Network: x.net, Client: "x"})
					var got []string
					for i := 0; i < 2; i++ {
						for _, m := range kit.Select(cl.Take(), "PRIVMSG") {
							got = append(got, m.Params[1])
						}
						w.Sleep(5 * time.Second)
					}
					cl.Quit()
					w.Settle()
					if round == 1 {
						want = nil
					} else if len(want) > bound {
						// at most this many, without gaps up to the last one
						c.Check(len(got) >= bound && len(got) <= len(want), "%d messages are replayed of %d missed", len(got), n)
						want = want[len(want)-min(len(got), len(want)):]
					}
					if !kit.Eq(got, want) {
						d := 0
						for d < len(got) && d < len(want) && got[d] == want[d] {
							d++
						}
						c.Violatef("%d messages were missed; round %d: %d are replayed, expected %d; difference at %d: %.60q, expected %.60q", n, round, len(got), len(want), d, fmt.Sprint(got[d:min(d+5, len(got))]), fmt.Sprint(want[d:min(d+5, len(want))]))
						return
					}
				}
			})
		}
	}
	r.Bound("long: absences of up to 8300 messages")

	// servers may attach times which go backwards; backlogs still contain what
	// arrived during the absence
	for _, store := range []string{"memory", "db"} {
		for _, how := range []string{"detach", "away"} {
			max := r.Pick(3, 4)
			var rec func(times []int)
			rec = func(times []int) {
				for before := 0; before <= len(times) && len(times) > 0; before++ {
					if how == "away" && before == 0 {
						continue // the name is not known in the conversation yet
					}
					r.World(fmt.Sprintf("%s/times:%s/%v/%d", store, how, times, before), func(c *kit.Ctx, w *kit.World) {
						x := c02Setup(c, w, store)
						cl := w.Connect("x", kit.ConnOpts{User: "alice", Network: x.net, Client: "x", Caps: []string{"server-time"}})
						type msg struct {
							text string
							at   int
						}
						var missed []msg
						leave := func() {
							w.Sleep(10 * time.Second)
							if how == "detach" {
								cl.Do("PART #c :detach")
							} else {
								cl.Quit()
							}
							w.Settle()
						}
						for i, at := range times {
							if i == before {
								leave()
							}
							x.srv.Do(fmt.Sprintf("@time=2000-01-01T00:00:%02d.000Z :bob!u@h PRIVMSG #c :m%d", at, i))
							if i >= before {
								missed = append(missed, msg{fmt.Sprintf("PRIVMSG bob #c m%d", i), at})
							}
						}
						if before == len(times) {
							leave()
						}
						cl.Take()
						var got []string
						if how == "detach" {
							got = kit.Texts(cl.Do("JOIN #c"))
						} else {
							cl = w.Connect("x2", kit.ConnOpts{User: "alice", Network: x.net, Client: "x", Caps: []string{"server-time"}})
							got = kit.Texts(cl.Take())
						}
						if store == "db" {
							sort.SliceStable(missed, func(i, j int) bool { return missed[i].at < missed[j].at })
						}
						var want []string
						for _, m := range missed {
							want = append(want, m.text)
						}
						c.Check(kit.Eq(got, want), "messages with times %v, %s after %d of them: the backlog is %s, want %s", times, how, before, kit.Q(got), kit.Q(want))
					})
				}
				if len(times) < max {
					for t := 0; t < 3; t++ {
						rec(append(append([]int(nil), times...), t))
					}
				}
			}
			rec(nil)
		}
	}

	c02Slow(r)
	c02Many(r)
}

// c02Many: many conversations, and long backlogs.
func c02Many(r *kit.Run) {
	run := func(key, store, how string, convs, n int, names []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			x := c02Setup(c, w, store)
			for i := 0; i < convs; i++ {
				if i%2 == 0 {
					x.admin(fmt.Sprintf("channel create #k%d/%s", i, x.net))
				}
			}
			w.Sleep(30 * time.Second)
			cls := map[string]*kit.Client{}
			for _, name := range names {
				cls[name] = w.Connect(name, kit.ConnOpts{User: "alice", Network: x.net, Client: name})
			}
			say := func(i int, text string) string {
				if i%2 == 0 {
					x.srv.Send(fmt.Sprintf(":bob!u@h PRIVMSG #k%d :%s", i, text))
					return fmt.Sprintf("PRIVMSG bob #k%d %s", i, text)
				}
				x.srv.Send(fmt.Sprintf(":nick%d!u@h PRIVMSG alice :%s", i, text))
				return fmt.Sprintf("PRIVMSG nick%d alice %s", i, text)
			}
			pause := func() {
				w.Settle()
				if store == "fs" {
					w.SleepCoarse(1500 * time.Millisecond)
				}
			}
			for i := 0; i < convs; i++ {
				say(i, "seen")
			}
			pause()
			for _, name := range names {
				cls[name].Quit()
			}
			pause()
			want := map[int][]string{}
			send := func(m int) {
				for i := 0; i < convs; i++ {
					want[i] = append(want[i], say(i, fmt.Sprintf("m%d", m)))
				}
			}
			for m := 0; m < n/2; m++ {
				send(m)
			}
			pause()
			switch how {
			case "restart":
				w.Restart()
				w.AwaitLive(x.srv, 10*time.Minute)
				w.Sleep(30 * time.Second)
			case "drop":
				x.srv.Drop()
				w.AwaitLive(x.srv, 10*time.Minute)
				w.Sleep(30 * time.Second)
			}
			for m := n / 2; m < n; m++ {
				send(m)
			}
			pause()
			for _, name := range names {
				cl := w.Connect(name, kit.ConnOpts{User: "alice", Network: x.net, Client: name})
				got := map[int][]string{}
				extra := []string{}
				for _, t := range kit.Texts(cl.Take()) {
					f := strings.Fields(t)
					var i int
					if f[2] == "alice" {
						_, err := fmt.Sscanf(f[1], "nick%d", &i)
						c.Check(err == nil, "client %s receives %s", name, t)
					} else {
						_, err := fmt.Sscanf(f[2], "#k%d", &i)
						c.Check(err == nil, "client %s receives %s", name, t)
					}
					got[i] = append(got[i], t)
				}
				for i := 0; i < convs; i++ {
					if !kit.Eq(got[i], want[i]) {
						extra = append(extra, fmt.Sprintf("conversation %d: %d messages (%s), expected %d", i, len(got[i]), kit.Q(got[i][:min(3, len(got[i]))]), len(want[i])))
					}
				}
				c.Check(len(extra) == 0, "client %s: %s", name, strings.Join(extra, "; "))
			}
		})
	}
	for _, store := range []string{"memory", "db", "fs"} {
		for _, how := range []string{"stay", "drop", "restart"} {
			if how == "restart" && store == "memory" {
				continue
			}
			for convs := 1; convs <= r.Pick(6, 12); convs++ {
				for _, names := range [][]string{{"x"}, {"x", "y"}, {"x", "y", "z"}} {
					run(fmt.Sprintf("%s/many:%s,%d,%d", store, how, convs, len(names)), store, how, convs, 2, names)
				}
			}
			for _, n := range []int{10, 63, 64, 65, 100, 130, 257, r.Pick(513, 3999)} {
				run(fmt.Sprintf("%s/long:%s,%d", store, how, n), store, how, 2, n, []string{"x"})
			}
		}
	}
	r.Bound("many: up to %d conversations and 3 client names; backlogs of up to %d messages", r.Pick(6, 12), r.Pick(513, 3999))
}

// c02Slow: a client which reads slowly while others connect. Everything each
// client gets is either part of its own backlog batches or a live message.
func c02Slow(r *kit.Run) {
	caps := map[string][]string{
		"tags":  {"message-tags", "server-time", "batch"},
		"batch": {"server-time", "batch"},
		"plain": nil,
	}
	for _, store := range []string{"memory", "db"} {
		for _, sc := range kit.Sorted(kit.Keys(caps)) {
			for _, lc := range kit.Sorted(kit.Keys(caps)) {
				for _, first := range []string{"live", "backlog"} {
					for n := 1; n <= r.Pick(3, 5); n++ {
						r.World(fmt.Sprintf("%s/slow:%s,%s,%s,%d", store, sc, lc, first, n), func(c *kit.Ctx, w *kit.World) {
							x := c02Setup(c, w, store)
							conn := func(name string, k string) *kit.Client {
								return w.Connect(name, kit.ConnOpts{User: "alice", Network: x.net, Client: name[:1], Caps: caps[k]})
							}
							s, l := conn("s1", sc), conn("l1", lc)
							x.srv.Do(":bob!u@h PRIVMSG #c :hello")
							w.Settle()
							l.Quit()
							var want []string
							send := func() {
								for i := 0; i < n; i++ {
									x.srv.Do(fmt.Sprintf(":bob!u@h PRIVMSG #c :m%d", i))
									want = append(want, fmt.Sprintf("PRIVMSG bob #c m%d", i))
								}
							}
							if first == "backlog" {
								s.Quit()
								w.Settle()
								send()
								s = w.Dial("s2")
								for _, line := range append([]string{"PASS alice", "NICK alice", "USER alice/" + x.net + "@s 0 * :alice"}, c02Reqs(caps[sc])...) {
									s.Send(line)
								}
								w.Settle()
								s.Conn().Stall(true)
								s.Send("CAP END")
								w.Settle()
							} else {
								s.Take()
								s.Conn().Stall(true)
								send()
								w.Settle()
							}
							l = conn("l2", lc)
							l2 := conn("m1", lc)
							_ = l2
							s.Conn().Stall(false)
							w.Settle()
							c02Batches(c, "the slow client", s, want, first == "live")
							c02Batches(c, "the other client", l, want, false)
						})
					}
				}
			}
		}
	}
	r.Bound("slow readers: up to %d messages queued while other clients fetch their backlog, per capability sets", r.Pick(3, 5))
}

func c02Reqs(caps []string) []string {
	if len(caps) == 0 {
		return []string{"CAP LS 302"}
	}
	return []string{"CAP LS 302", "CAP REQ :" + strings.Join(caps, " ")}
}

// c02Batches checks the messages a client got and that each one is tagged with
// the batch it is sent in.
func c02Batches(c *kit.Ctx, who string, cl *kit.Client, want []string, live bool) {
	var got []string
	open, seen := map[string]bool{}, 0
	for _, m := range cl.Take() {
		switch m.Command {
		case "BATCH":
			ref := m.Params[0][1:]
			if m.Params[0][0] == '+' {
				c.Check(!open[ref], "%s: batch %s is opened twice", who, ref)
				open[ref] = true
			} else {
				c.Check(open[ref], "%s: batch %s is not open", who, ref)
				delete(open, ref)
			}
		case "PRIVMSG":
			if m.Prefix.Name != "bob" {
				continue
			}
			got = append(got, kit.Texts([]*ircMessage{m})...)
			ref, tagged := m.Tags["batch"]
			if tagged {
				seen++
				c.Check(open[ref], "%s: %s refers to a batch which is not open", who, m.String())
			}
			c.Check(tagged == (len(open) > 0) && !(live && tagged), "%s: %s with open batches %v", who, m.String(), kit.Keys(open))
		}
	}
	c.Check(len(open) == 0, "%s: batches left open: %v", who, open)
	c.Check(kit.Eq(got, want), "%s got %s, want %s", who, kit.Q(got), kit.Q(want))
}
