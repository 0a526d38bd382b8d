package props

import (
	"fmt"
	"strings"
	"testing"

	"sojuverif/kit"
)

// C27: replies to labelled requests reach the client that asked.

type c27Req struct {
	who  int // 0, 1, -1 when the asker has left
	kind string
	open bool // a batch of replies has started
}

type c27State struct {
	on    [2]bool
	out   []c27Req
	flips int
	past  int // the asker of the last finished batch, plus 1
}

func (s *c27State) key() string { return fmt.Sprint(s.on, s.out, s.flips, s.past) }

// what a client asks, and the replies: %d is the number of the request
var c27Kinds = map[string][]string{
	"help":   {"HELP q%d", "524 alice q%d :none", "704 alice q%d :start", "706 alice q%d :end"},
	"names":  {"NAMES #x%d", "366 alice #x%d :End", "353 alice = #x%d :bob @carol", "366 alice #x%d :End"},
	"topic":  {"TOPIC #x%d", "331 alice #x%d :none", "332 alice #x%d :text", "333 alice #x%d bob 1000000000"},
	"kick":   {"KICK #c z%d", "441 alice z%d #c :absent", "482 alice #c :not %d", "441 alice z%d #c :absent"},
	"mode":   {"MODE #x%d", "403 alice #x%d :none", "324 alice #x%d +nt", "329 alice #x%d 1000000000"},
	"ban":    {"MODE #c +b *!z%d@*", "482 alice #c :no %d", "367 alice #c *!z%d@* bob 1", "368 alice #c :end %d"},
	"msg":    {"PRIVMSG z%d :hello", "401 alice z%d :none", "301 alice z%d :away", "401 alice z%d :none"},
	"motd":   {"MOTD srv%d", "422 alice :none %d", "375 alice :start %d", "376 alice :end %d"},
	"invite": {"INVITE z%d #c", "341 alice z%d #c", "301 alice z%d :away", "341 alice z%d #c"},
	"nick":   {"SETNAME real%d", "FAIL SETNAME CANNOT_CHANGE_REALNAME :no %d", "NOTE SETNAME SOME :n%d", "FAIL SETNAME OTHER :no %d"},
	"away":   {"SILENCE +z%d", "421 alice SILENCE :unknown %d", "NOTE SILENCE A :n%d", "263 alice SILENCE :later %d"},
	"who":    {"WHO w%d", "315 alice w%d :End", "352 alice * u h s n H :0 r%d", "315 alice w%d :End"},
	"whois":  {"WHOIS z%d", "318 alice z%d :End", "311 alice z%d u h * :r", "318 alice z%d :End"},
	"list":   {"LIST *z%d*", "323 alice :End %d", "322 alice #z%d 3 :t", "323 alice :End %d"},
}

func c27Next(s *c27State, e string) *c27State {
	n := *s
	n.out = append([]c27Req(nil), s.out...)
	f := strings.Fields(e)
	switch f[0] {
	case "ask":
		n.out = append(n.out, c27Req{int(f[1][0] - '0'), f[2], false})
	case "flip":
		i := int(f[1][0] - '0')
		n.on[i] = !n.on[i]
		n.flips++
		if !n.on[i] {
			for k := range n.out {
				if n.out[k].who == i {
					n.out[k].who = -1
				}
			}
		}
	case "one", "two", "batch", "nest", "ack", "end":
		k := int(f[1][0] - '0')
		if f[0] != "one" && f[0] != "two" && f[0] != "ack" {
			n.past = s.out[k].who + 1
		}
		n.out = append(n.out[:k:k], n.out[k+1:]...)
	case "open":
		n.out[f[1][0]-'0'].open = true
	case "drop":
		n.out, n.past = nil, 0
	}
	return &n
}

func c27Enabled(kinds []string, s *c27State) []string {
	var l []string
	for i := 0; i < 2; i++ {
		if s.on[i] && len(s.out) < 3 {
			for _, k := range kinds {
				busy := false
				for _, q := range s.out {
					// the bouncer sends those one after the other
					busy = busy || q.kind == k && (k == "who" || k == "whois" || k == "list")
				}
				if !busy {
					l = append(l, fmt.Sprintf("ask %d %s", i, k))
				}
			}
		}
		if s.flips < 4 {
			l = append(l, fmt.Sprintf("flip %d", i))
		}
	}
	for k, q := range s.out {
		if q.open {
			l = append(l, fmt.Sprintf("end %d", k))
			continue
		}
		l = append(l, fmt.Sprintf("one %d", k), fmt.Sprintf("two %d", k), fmt.Sprintf("batch %d", k), fmt.Sprintf("nest %d", k), fmt.Sprintf("open %d", k))
		if q.kind != "who" && q.kind != "whois" && q.kind != "list" {
			l = append(l, fmt.Sprintf("ack %d", k))
		}
	}
	return append(l, "stray", "drop")
}

type c27World struct {
	c      *kit.Ctx
	w      *kit.World
	s      *kit.UpServer
	st     *c27State
	cl     [2]*kit.Client
	oth    *kit.Client
	n      int
	ids    []int
	labels []string
	used   map[string]bool
	want   [2][]string
}

func c27New(c *kit.Ctx, w *kit.World, caps []string, st *c27State) *c27World {
	x := &c27World{c: c, w: w, st: st, used: map[string]bool{}}
	u := w.AddUser("alice", nil)
	n, s := w.AddNetwork(u, "n1", nil)
	w.AddChannel(n, "#c", nil)
	w.AddNetwork(u, "n2", nil)
	x.s = s
	s.Caps = caps
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		if !uc.Registered {
			return false
		}
		switch m.Command {
		case "HELP", "NAMES", "TOPIC", "KICK", "MODE", "PRIVMSG", "MOTD", "INVITE", "SETNAME", "SILENCE", "WHO", "WHOIS", "LIST":
			return true
		}
		return false
	}
	w.Start()
	for i := range x.cl {
		x.come(i)
	}
	x.oth = w.Connect("oth", kit.ConnOpts{User: "alice", Network: "n2", Client: "oth"})
	x.oth.Take()
	s.Take()
	return x
}

func (x *c27World) come(i int) {
	name := fmt.Sprint("a", i)
	x.cl[i] = x.w.Connect(name, kit.ConnOpts{User: "alice", Network: "n1", Client: name, Caps: []string{"message-tags", "batch", "setname"}})
	x.cl[i].Take()
}

func c27Text(t string, id int) string {
	if strings.Contains(t, "%d") {
		return fmt.Sprintf(t, id)
	}
	return t
}

func c27Norm(m *ircMessage) string {
	p := m.Params
	if m.Command[0] >= '0' && m.Command[0] <= '9' && len(p) > 0 {
		p = p[1:]
	}
	return m.Command + " " + strings.Join(p, "|")
}

// reply makes the server send reply i of request k.
func (x *c27World) reply(tag string, k, i int) {
	q := x.st.out[k]
	t := c27Text(c27Kinds[q.kind][i], x.ids[k])
	x.s.Send(tag + ":s.test " + t)
	if q.who >= 0 {
		x.want[q.who] = append(x.want[q.who], c27Norm(c09Parse(t)))
	}
}

func (x *c27World) exec(e string) bool {
	c := x.c
	c.Step(e)
	f := strings.Fields(e)
	next := c27Next(x.st, e)
	k := 0
	label := ""
	if len(f) > 1 {
		k = int(f[1][0] - '0')
		if f[0] != "ask" && f[0] != "flip" {
			label = x.labels[k]
		}
	}
	batch := func() string {
		// references are used again once they are free
		b, free := "", false
		for i := 1; !free; i++ {
			b, free = fmt.Sprintf("b%d", i), true
			for k, l := range x.labels {
				free = free && (!x.st.out[k].open || l != b)
			}
		}
		x.s.Send("@label=" + label + " :s.test BATCH +" + b + " labeled-response")
		return b
	}
	gone := false
	switch f[0] {
	case "ask":
		x.n++
		line := c27Text(c27Kinds[f[2]][0], x.n)
		x.cl[k].Send(line)
		x.w.Settle()
		var got []string
		lbl := ""
		for _, m := range x.s.Take() {
			got = append(got, m.Command+" "+strings.Join(m.Params, " "))
			lbl = m.Tags["label"]
		}
		line = strings.Replace(line, " :", " ", 1)
		if c.Check(kit.Eq(got, []string{line}), "the server got %s, want %q", kit.Q(got), line) {
			c.Check(lbl != "" && !x.used[lbl], "the request is labelled %q, which is not a new label", lbl)
		}
		x.used[lbl] = true
		x.ids, x.labels = append(x.ids, x.n), append(x.labels, lbl)
	case "flip":
		if x.st.on[k] {
			x.cl[k].Quit()
		} else {
			x.come(k)
		}
		x.w.Settle()
		x.s.Take()
	case "one":
		x.reply("@label="+label+" ", k, 1)
		gone = true
	case "two":
		// each message has the label
		x.reply("@label="+label+" ", k, 2)
		x.reply("@label="+label+" ", k, 3)
		gone = true
	case "batch":
		b := batch()
		x.reply("@batch="+b+" ", k, 2)
		x.reply("@batch="+b+" ", k, 3)
		x.s.Send(":s.test BATCH -" + b)
		gone = true
	case "nest":
		b := batch()
		x.s.Send("@batch=" + b + " :s.test BATCH +i" + b + " vendor/inner p")
		x.reply("@batch=i"+b+" ", k, 2)
		x.s.Send("@batch=" + b + " :s.test BATCH -i" + b)
		x.reply("@batch="+b+" ", k, 3)
		x.s.Send(":s.test BATCH -" + b)
		gone = true
	case "open":
		b := batch()
		x.reply("@batch="+b+" ", k, 2)
		x.labels[k] = b
	case "end":
		x.reply("@batch="+label+" ", k, 3)
		x.s.Send(":s.test BATCH -" + label)
		gone = true
	case "ack":
		x.s.Send("@label=" + label + " :s.test ACK")
		gone = true
	case "stray":
		x.n++
		t := fmt.Sprintf("999 alice x%d :stray", x.n)
		x.s.Send(":s.test " + t)
		for i := range x.want {
			x.want[i] = append(x.want[i], c27Norm(c09Parse(t)))
		}
	case "drop":
		x.s.Drop()
		x.w.Settle()
		if x.s.Live() == nil {
			x.w.AwaitLive(x.s, 120e9)
		}
		x.s.Take()
		x.ids, x.labels = nil, nil
	}
	if gone {
		x.ids = append(x.ids[:k:k], x.ids[k+1:]...)
		x.labels = append(x.labels[:k:k], x.labels[k+1:]...)
	}
	x.st = next
	x.w.Settle()
	up := x.s.Take()
	if f[0] != "drop" {
		for _, m := range up {
			c.Check(m.Command == "PING" || m.Command == "PONG", "the server gets an unexpected %s %s", m.Command, kit.Q(m.Params))
		}
	}
	for i, cl := range x.cl {
		if !x.st.on[i] {
			x.want[i] = nil
			continue
		}
		var got []string
		for _, m := range cl.Take() {
			if f[0] == "drop" {
				continue
			}
			switch m.Command {
			case "PING", "PONG":
				continue
			case "PRIVMSG":
				if f[0] == "ask" {
					continue // of another client
				}
			}
			got = append(got, c27Norm(m))
			c.Check(m.Tags["label"] == "" && m.Tags["batch"] == "", "client %s gets %s with the tags of the server: %v", cl.Name, c27Norm(m), m.Tags)
		}
		c.Check(kit.Eq(got, x.want[i]) || f[0] == "drop", "client %s gets %s, want %s", cl.Name, kit.Q(got), kit.Q(x.want[i]))
		c.Check(!cl.Closed(), "client %s was disconnected", cl.Name)
		x.want[i] = nil
	}
	got := kit.Select(x.oth.Take(), "524", "704", "353", "366", "331", "332", "441", "482", "324", "401", "999", "FAIL", "315", "318", "323")
	c.Check(len(got) == 0, "the client of another network gets replies")
	return !c.Bad()
}

func TestC27(t *testing.T) {
	r := kit.Start(t, "C27")
	full := []string{"message-tags", "labeled-response", "batch", "echo-message", "setname"}
	for _, v := range []struct {
		name  string
		kinds []string
		caps  []string
		q, th int
	}{
		{"help", []string{"help", "names"}, full, 4, 6},
		{"topic", []string{"topic", "kick"}, full, 4, 6},
		{"mode", []string{"mode", "ban"}, full, 4, 6},
		{"msg", []string{"msg", "motd"}, full, 4, 6},
		{"invite", []string{"invite", "away"}, full, 4, 6},
		{"setname", []string{"nick", "who"}, full, 4, 6},
		{"whois", []string{"whois", "list"}, full, 4, 6},
		{"notags", []string{"help", "kick"}, []string{"labeled-response", "batch"}, 4, 6},
	} {
		v := v
		depth := r.Pick(v.q, v.th)
		r.Bound("C27 %s: every state of the outstanding requests within %d events, every event from each", v.name, depth)
		init := &c27State{on: [2]bool{true, true}}
		kit.Graph(r, v.name, init, (*c27State).key, func(s *c27State) []string { return c27Enabled(v.kinds, s) }, c27Next, depth,
			func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c27New(c, w, v.caps, init)
					for _, e := range seq {
						if !x.exec(e) {
							return
						}
					}
				})
			})
	}
}
