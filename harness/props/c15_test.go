package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"sojuverif/kit"
)

// C15: presence monitoring is the union of what the clients ask for.

// c15State is the reference model. Nicknames are folded in the sets.
type c15State struct {
	conn   [3]bool            // clients a, b (network n1) and o (network n2)
	lists  [3]map[string]bool // what each monitors
	online map[string]bool
	taken  bool // our nickname is used by somebody else
	held   bool // the server does not answer for now
	up     bool
	limit  int
}

var c15Names = []string{"a", "b", "o"}

func (s *c15State) copy() *c15State {
	n := *s
	cp := func(m map[string]bool) map[string]bool {
		r := map[string]bool{}
		for k, v := range m {
			if v {
				r[k] = true
			}
		}
		return r
	}
	for i := range s.lists {
		n.lists[i] = cp(s.lists[i])
	}
	n.online = cp(s.online)
	return &n
}

func c15Fold(s string) string {
	return strings.NewReplacer("[", "{", "]", "}", "\\", "|", "~", "^").Replace(strings.ToLower(s))
}

func c15Set(m map[string]bool) string {
	l := kit.Keys(m)
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s *c15State) key() string {
	return fmt.Sprint(s.conn, c15Set(s.lists[0]), ";", c15Set(s.lists[1]), ";", c15Set(s.lists[2]), ";", c15Set(s.online), s.taken, s.held, s.up)
}

// union is the set that must be monitored on network n1.
func (s *c15State) union() map[string]bool {
	u := map[string]bool{}
	for i := 0; i < 2; i++ {
		for k := range s.lists[i] {
			if k != "bouncerserv" {
				u[k] = true
			}
		}
	}
	if s.taken {
		u["alice"] = true
	}
	return u
}

func c15Index(n string) int {
	for i, v := range c15Names {
		if v == n {
			return i
		}
	}
	panic(n)
}

func (s *c15State) next(e string) *c15State {
	n := s.copy()
	f := strings.Fields(e)
	switch f[0] {
	case "+", "-", "C":
		i := c15Index(f[1])
		if f[0] == "C" {
			n.lists[i] = map[string]bool{}
			break
		}
		for _, t := range strings.Split(f[2], ",") {
			if f[0] == "+" {
				n.lists[i][c15Fold(t)] = true
			} else {
				delete(n.lists[i], c15Fold(t))
			}
		}
	case "leave":
		i := c15Index(f[1])
		n.conn[i], n.lists[i] = false, map[string]bool{}
	case "come":
		n.conn[c15Index(f[1])] = true
	case "online":
		for _, t := range strings.Split(f[1], ",") {
			n.online[t] = true
		}
	case "offline":
		for _, t := range strings.Split(f[1], ",") {
			delete(n.online, t)
		}
	case "free": // the nickname we want becomes free and we get it
		n.taken = false
	case "hold":
		n.held = true
	case "flush":
		n.held = false
	}
	return n
}

func (s *c15State) enabled(group string) []string {
	var l []string
	add := func(ok bool, e ...string) {
		if ok {
			l = append(l, e...)
		}
	}
	for i, n := range []string{"a", "b"} {
		if !s.conn[i] {
			add(true, "come "+n)
			continue
		}
		add(true, "+ "+n+" bob", "- "+n+" bob", "leave "+n)
		switch group {
		case "basic":
			add(true, "+ "+n+" carol", "- "+n+" carol", "C "+n)
		case "case":
			add(true, "+ "+n+" BOB", "- "+n+" Bob", "+ "+n+" B[~]", "- "+n+" b{~}", "+ "+n+" BouncerServ,carol", "- "+n+" CAROL,bouncerSERV")
		case "lists":
			add(true, "+ "+n+" bob,carol", "- "+n+" carol,bob", "+ "+n+" carol,dave", "C "+n)
		case "limit":
			add(true, "+ "+n+" carol", "- "+n+" carol", "+ "+n+" dave")
		case "held", "taken", "nets":
			add(true, "C "+n)
		}
	}
	add(!s.online["bob"], "online bob")
	add(s.online["bob"], "offline bob")
	if group == "lists" || group == "basic" {
		none := !s.online["bob"] && !s.online["carol"]
		both := s.online["bob"] && s.online["carol"]
		add(none, "online carol,bob", "online bob,dave,carol")
		add(both, "offline bob,carol", "offline dave,carol,bob")
	}
	if group == "held" {
		add(!s.held, "hold")
		add(s.held, "flush")
	}
	if group == "nets" {
		add(s.conn[2], "+ o bob", "- o bob", "C o")
	}
	add(s.taken, "free")
	add(!s.held, "drop")
	return l
}

type c15World struct {
	c     *kit.Ctx
	w     *kit.World
	s     *kit.UpServer
	st    *c15State
	cl    [3]*kit.Client
	list  [2]map[string]string // what the servers monitor: folded to name
	later []string
	full  map[string]bool
}

func c15New(c *kit.Ctx, w *kit.World, st *c15State) *c15World {
	x := &c15World{c: c, w: w, st: st}
	u := w.AddUser("alice", nil)
	for i := 0; i < 2; i++ {
		i := i
		name := fmt.Sprintf("n%d", i+1)
		_, s := w.AddNetwork(u, name, nil)
		if i == 0 {
			x.s = s
		}
		x.list[i] = map[string]string{}
		monitor := "MONITOR=100"
		if st.limit > 0 && i == 0 {
			monitor = fmt.Sprintf("MONITOR=%d", st.limit)
		}
		s.ISupport = []string{"soju.im/SAFERATE", "CASEMAPPING=rfc1459", monitor}
		s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
			if i == 0 && m.Command == "NICK" && x.st.taken && c15Fold(m.Params[0]) == "alice" {
				nick := uc.Nick
				if nick == "" {
					nick = "*"
				}
				uc.Send(":n1.test 433 " + nick + " " + m.Params[0] + " :in use")
				return true
			}
			if m.Command == "NICK" && i == 0 && !uc.Registered {
				x.list[i] = map[string]string{}
				x.later = nil
			}
			if m.Command != "MONITOR" {
				return false
			}
			say := func(l string) {
				if x.st.held && i == 0 {
					x.later = append(x.later, l)
				} else {
					uc.Send(l)
				}
			}
			switch m.Params[0] {
			case "+":
				// the answers are grouped
				var on, off []string
				for _, t := range strings.Split(m.Params[1], ",") {
					if !c.Check(t != "", "the bouncer monitors an empty nickname") {
						continue
					}
					if _, ok := x.list[i][c15Fold(t)]; !ok && i == 0 && x.st.limit > 0 && len(x.list[i]) >= x.st.limit {
						say(fmt.Sprintf(":n1.test 734 %s %d %s :Monitor list is full", uc.Nick, x.st.limit, t))
						continue
					}
					x.list[i][c15Fold(t)] = t
					if i == 0 && x.isOnline(c15Fold(t)) {
						on = append(on, strings.ToUpper(t)+"!u@h")
					} else {
						off = append(off, t)
					}
				}
				if len(on) > 0 {
					say(":n1.test 730 " + uc.Nick + " " + strings.Join(on, ","))
				}
				if len(off) > 0 {
					say(":n1.test 731 " + uc.Nick + " :" + strings.Join(off, ","))
				}
			case "-":
				for _, t := range strings.Split(m.Params[1], ",") {
					delete(x.list[i], c15Fold(t))
				}
			case "C":
				x.list[i] = map[string]string{}
			default:
				c.Violatef("unexpected MONITOR %v", m.Params)
			}
			return true
		}
	}
	w.Start()
	for i, n := range c15Names {
		if st.conn[i] {
			x.come(i, n)
		}
	}
	return x
}

func (x *c15World) isOnline(n string) bool {
	return x.st.online[n] || n == "alice" && x.st.taken
}

func (x *c15World) come(i int, n string) {
	net := "n1"
	if n == "o" {
		net = "n2"
	}
	x.cl[i] = x.w.Connect(n, kit.ConnOpts{User: "alice", Network: net, Client: n})
	x.cl[i].Take()
}

type c15Told struct {
	nick   string // folded
	online bool
}

func c15Status(l []*ircMessage) (told []c15Told, full []string) {
	for _, m := range l {
		switch m.Command {
		case "730", "731":
			for _, t := range strings.Split(m.Params[1], ",") {
				told = append(told, c15Told{c15Fold(strings.SplitN(t, "!", 2)[0]), m.Command == "730"})
			}
		case "734":
			full = append(full, c15Fold(m.Params[2]))
		}
	}
	return
}

func (x *c15World) exec(e string) bool {
	c := x.c
	c.Step(e)
	prev := x.st
	n := prev.next(e)
	f := strings.Fields(e)
	must := [3]map[string]int{{}, {}, {}} // number of times each client is told
	switch f[0] {
	case "+", "-", "C":
		i := c15Index(f[1])
		line := "MONITOR " + f[0]
		if f[0] != "C" {
			line += " " + f[2]
		}
		if f[0] == "+" {
			for _, t := range strings.Split(f[2], ",") {
				t = c15Fold(t)
				must[i][t]++
			}
		}
		x.st = n
		x.cl[i].Send(line)
	case "leave":
		x.st = n
		x.cl[c15Index(f[1])].Quit()
	case "come":
		x.st = n
		x.come(c15Index(f[1]), f[1])
	case "online", "offline":
		x.st = n
		var args []string
		num := "731"
		for _, k := range strings.Split(f[1], ",") {
			t, ok := x.list[0][k]
			if !ok {
				continue
			}
			if f[0] == "online" {
				num, t = "730", strings.ToUpper(t)+"!u@h"
			}
			args = append(args, t)
			for i := 0; i < 2; i++ {
				if n.lists[i][k] {
					must[i][k]++
				}
			}
		}
		if len(args) > 0 {
			line := ":n1.test " + num + " " + x.s.Live().Nick + " " + strings.Join(args, ",")
			if prev.held {
				x.later = append(x.later, line)
			} else {
				x.s.Send(line)
			}
		}
	case "free":
		// the model says that the nickname is free before the server knows
		x.st = n
		uc := x.s.Live()
		_, ok := x.list[0]["alice"]
		c.Check(ok, "the wanted nickname is not monitored")
		uc.Send(":n1.test 731 " + uc.Nick + " alice")
		x.w.Settle()
		c.Check(uc.Nick == "alice", "the free nickname is not taken")
	case "drop":
		x.st = n
		x.s.Drop()
		x.w.Settle()
		if x.s.Live() == nil {
			x.w.AwaitLive(x.s, 120e9)
		}
		c.Check(x.s.Live() != nil, "no reconnection")
		for i := 0; i < 2; i++ {
			for k := range n.lists[i] {
				if k != "bouncerserv" {
					must[i][k]++
				}
			}
		}
	case "hold":
		x.st = n
	case "flush":
		x.st = n
		for _, l := range x.later {
			x.s.Send(l)
		}
		x.later = nil
	}
	x.w.Settle()
	if c.Bad() {
		return false
	}
	// the servers monitor the union
	if !n.held {
		got, want := kit.Keys(x.list[0]), kit.Keys(n.union())
		if n.limit == 0 {
			c.Check(kit.EqSet(got, want), "the server monitors %s, want %s", kit.Q(kit.Sorted(got)), kit.Q(kit.Sorted(want)))
		} else {
			for _, g := range got {
				c.Check(n.union()[g], "the server monitors %s, which nobody wants", g)
			}
			wl := len(want)
			if wl > n.limit {
				wl = n.limit
			}
			c.Check(len(got) == wl || f[0] == "-" || f[0] == "leave" || f[0] == "C", "the server monitors %s, with a limit of %d for %s", kit.Q(kit.Sorted(got)), n.limit, kit.Q(kit.Sorted(want)))
		}
		got, want = kit.Keys(x.list[1]), kit.Keys(n.lists[2])
		c.Check(kit.EqSet(got, want), "the other server monitors %s, want %s", kit.Q(kit.Sorted(got)), kit.Q(kit.Sorted(want)))
	}
	for i, name := range c15Names {
		if !n.conn[i] {
			continue
		}
		cl := x.cl[i]
		told, full := c15Status(cl.Take())
		count := map[string]int{}
		last := map[string]bool{}
		for _, t := range told {
			count[t.nick]++
			last[t.nick] = t.online
			c.Check(n.lists[i][t.nick], "client %s is told about %s, which it does not monitor", name, t.nick)
		}
		for _, t := range full {
			count[t]++
			c.Check(n.limit > 0 && n.lists[i][t], "client %s is told that the list is full for %s", name, t)
		}
		for k := range count {
			if on, ok := last[k]; ok {
				want := n.online[k] && i != 2 || k == "bouncerserv"
				// a held answer may be older than the present
				c.Check(on == want || prev.held || n.held, "client %s is told online=%v of %s", name, on, k)
			}
		}
		if n.limit == 0 && !n.held && !prev.held {
			for k := range n.lists[i] {
				c.Check(count[k] == must[i][k], "client %s is told %d times about %s, want %d", name, count[k], k, must[i][k])
			}
		} else if !n.held && !prev.held {
			for k := range must[i] {
				c.Check(count[k] > 0, "client %s is not told about %s", name, k)
			}
		}
	}
	return !c.Bad()
}

// finish asks every client for its list and the states.
func (x *c15World) finish() {
	c, s := x.c, x.st
	if s.held && !x.exec("flush") {
		return
	}
	s = x.st
	for i, name := range c15Names {
		if !s.conn[i] {
			continue
		}
		var l []string
		end := 0
		for _, m := range x.cl[i].Do("MONITOR L") {
			switch m.Command {
			case "732":
				for _, t := range strings.Split(m.Params[1], ",") {
					l = append(l, c15Fold(t))
				}
			case "733":
				end++
			}
		}
		c.Check(kit.EqSet(l, kit.Keys(s.lists[i])) && end == 1, "client %s lists %s, want %s", name, kit.Q(l), kit.Q(kit.Keys(s.lists[i])))
		told, _ := c15Status(x.cl[i].Do("MONITOR S"))
		got := map[string]bool{}
		for _, t := range told {
			_, dup := got[t.nick]
			c.Check(!dup, "client %s gets the state of %s twice", name, t.nick)
			got[t.nick] = t.online
		}
		c.Check(len(got) == len(s.lists[i]), "client %s gets states of %d nicknames, want %d", name, len(got), len(s.lists[i]))
		for k := range s.lists[i] {
			on, ok := got[k]
			want := k == "bouncerserv" || s.online[k] && i != 2
			if _, mon := x.list[0][k]; s.limit > 0 && !mon {
				continue
			}
			c.Check(ok && on == want, "client %s is told online=%v of %s, want %v", name, on, k, want)
		}
	}
}

func TestC15(t *testing.T) {
	r := kit.Start(t, "C15")
	init := func(taken bool, limit int) *c15State {
		s := &c15State{conn: [3]bool{true, true, true}, up: true, online: map[string]bool{}, taken: taken, limit: limit}
		for i := range s.lists {
			s.lists[i] = map[string]bool{}
		}
		return s
	}
	for _, v := range []struct {
		name  string
		q, th int
		taken bool
		limit int
	}{
		{"basic", 6, 8, false, 0},
		{"case", 4, 6, false, 0},
		{"lists", 5, 6, false, 0},
		{"held", 5, 8, false, 0},
		{"taken", 6, 8, true, 0},
		{"nets", 6, 8, false, 0},
		{"limit", 5, 6, false, 2},
	} {
		depth := r.Pick(v.q, v.th)
		r.Bound("C15 %s: every reference state within %d events, every event from each", v.name, depth)
		group := v.name
		if group == "held" {
			// the replies under way are not part of the reference state
			st := map[string]*c15State{"": init(false, 0)}
			r.Tree(group, r.Pick(5, 6), func(seq []string) []string {
				k := strings.Join(seq, ",")
				if st[k] == nil {
					st[k] = st[strings.Join(seq[:len(seq)-1], ",")].next(seq[len(seq)-1])
				}
				if len(seq) == 0 {
					return []string{"hold", "+ a bob"}
				}
				return st[k].enabled(group)
			}, func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c15New(c, w, init(false, 0))
					for _, e := range seq {
						if !x.exec(e) {
							return
						}
					}
					x.finish()
				})
			})
			continue
		}
		kit.Graph(r, group, init(v.taken, v.limit), (*c15State).key, func(s *c15State) []string { return s.enabled(group) }, (*c15State).next, depth,
			func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c15New(c, w, init(v.taken, v.limit))
					for _, e := range seq {
						if !x.exec(e) {
							return
						}
					}
					x.finish()
				})
			})
	}
}
