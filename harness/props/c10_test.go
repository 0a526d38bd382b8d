package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C10: history queries return exactly the selected messages.

type c10Msg struct {
	target string // canonical
	at     time.Time
	nick   string
	event  bool
	line   string // without tags and prefix: "PRIVMSG #a :text"
}

// what the client gets for it
func (m c10Msg) String() string {
	return fmt.Sprintf("%s %s %s", m.at.Format("2006-01-02T15:04:05.000Z"), m.nick, m.line)
}

const c10Layout = "2006-01-02T15:04:05.000Z"

// the instants messages are sent at: around midnight, two in one second, and
// some days later
var c10Times = []time.Time{
	time.Date(1999, 12, 20, 23, 59, 59, 0, time.UTC),
	time.Date(1999, 12, 21, 0, 0, 0, 0, time.UTC),
	time.Date(1999, 12, 21, 0, 0, 1, 500e6, time.UTC),
	time.Date(1999, 12, 21, 0, 0, 1, 600e6, time.UTC),
	time.Date(1999, 12, 24, 12, 30, 0, 0, time.UTC),
}

func c10Bounds() []time.Time {
	var l []time.Time
	for i, t := range c10Times {
		l = append(l, t)
		if i == 2 {
			l = append(l, t.Truncate(time.Second), t.Add(50*time.Millisecond))
		}
	}
	return append(l, time.Date(1999, 12, 20, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 22, 0, 0, 0, 0, time.UTC), time.Date(2000, 2, 1, 0, 0, 0, 0, time.UTC), c10Times[1].Add(-time.Millisecond))
}

type c10World struct {
	c     *kit.Ctx
	w     *kit.World
	store string
	dir   string
	srv   *kit.UpServer
	other *kit.UpServer
	cl    *kit.Client
	ev    bool
	log   []c10Msg
	net   string
	now   func() time.Time
}

func c10New(c *kit.Ctx, w *kit.World, store string, decoy bool) *c10World {
	x := &c10World{c: c, w: w, store: store, net: "net", now: time.Now}
	w.Cfg.MsgStoreDriver = store
	if store == "fs" {
		x.dir = w.TempDir()
		w.Cfg.MsgStorePath = x.dir
	}
	u := w.AddUser("alice", nil)
	n, s := w.AddNetwork(u, "net", nil)
	w.AddChannel(n, "#a", nil)
	s.Caps = []string{"message-tags", "server-time"}
	x.srv = s
	if decoy {
		n2, s2 := w.AddNetwork(u, "other", nil)
		w.AddChannel(n2, "#a", nil)
		s2.Caps = s.Caps
		x.other = s2
		b := w.AddUser("zoe", nil)
		n3, s3 := w.AddNetwork(b, "zoenet", nil)
		w.AddChannel(n3, "#a", nil)
		s3.Caps = s.Caps
	}
	w.Start()
	x.joined()
	return x
}

// joined records the event of the user joining the channel.
func (x *c10World) joined() {
	x.log = append(x.log, c10Msg{target: "#a", at: time.Now().UTC().Truncate(time.Second), nick: "alice", event: true, line: "JOIN #a"})
}

// sorted is the log in chronological order.
func (x *c10World) sorted() []c10Msg {
	l := slices.Clone(x.log)
	sort.SliceStable(l, func(i, j int) bool { return l[i].at.Before(l[j].at) })
	return l
}

func (x *c10World) connect(ev bool, batch bool) {
	if x.cl != nil {
		x.cl.Quit()
	}
	x.ev = ev
	caps := []string{"server-time", "message-tags", "draft/chathistory"}
	if batch {
		caps = append(caps, "batch")
	}
	x.cl = x.w.Connect("q", kit.ConnOpts{User: "alice", Network: x.net, Caps: caps})
	if ev {
		// only offered once the network is known
		x.cl.Do("CAP REQ draft/event-playback")
	}
	x.cl.Take()
}

// say has the server send a message with a time tag.
func (x *c10World) say(i int, kind string, at time.Time) {
	tag := "@time=" + at.Format(c10Layout) + " "
	m := c10Msg{at: at, nick: "Bob"}
	var line string
	switch kind {
	case "pa": // a message to the channel
		m.target, m.line = "#a", fmt.Sprintf("PRIVMSG #a :text %d", i)
	case "na":
		m.target, m.line = "#a", fmt.Sprintf("NOTICE #a :- note> %d", i)
	case "xa":
		m.target, m.line = "#a", fmt.Sprintf("PRIVMSG #a :\x01ACTION acts %d\x01", i)
	case "pb": // a private message
		m.target, m.line = "bob", fmt.Sprintf("PRIVMSG alice :private %d", i)
	case "nb":
		m.target, m.line = "bob", fmt.Sprintf("NOTICE alice :priv- note %d", i)
	case "ea":
		m.target, m.event, m.nick = "#a", true, fmt.Sprintf("new%d", i)
		m.line = "JOIN #a"
	case "ta":
		m.target, m.event = "#a", true
		m.line = fmt.Sprintf("TOPIC #a :topic %d", i)
	}
	line = m.line
	x.srv.Send(tag + ":" + m.nick + "!user@host " + line)
	if x.other != nil {
		x.other.Send(tag + ":Bob!user@host " + strings.Replace(strings.Replace(line, "text", "DECOY", 1), "private", "DECOY", 1))
		x.w.Server("zoenet.test:6667").Send(tag + ":Bob!user@host " + strings.Replace(strings.Replace(strings.Replace(line, "text", "DECOY", 1), "private", "DECOY", 1), "alice", "zoe", 1))
	}
	if x.store == "fs" {
		m.at = m.at.Truncate(time.Second)
	}
	x.log = append(x.log, m)
}

type c10Query struct {
	cmd    string
	target string
	b0, b1 time.Time
	limit  int
}

func (q c10Query) line() string {
	ts := func(t time.Time) string {
		if t.IsZero() {
			return "*"
		}
		return "timestamp=" + t.Format(c10Layout)
	}
	switch q.cmd {
	case "BETWEEN":
		return fmt.Sprintf("CHATHISTORY BETWEEN %s %s %s %d", q.target, ts(q.b0), ts(q.b1), q.limit)
	case "TARGETS":
		return fmt.Sprintf("CHATHISTORY TARGETS %s %s %d", ts(q.b0), ts(q.b1), q.limit)
	}
	return fmt.Sprintf("CHATHISTORY %s %s %s %d", q.cmd, q.target, ts(q.b0), q.limit)
}

// want is what the query selects, written down from the specification.
func (x *c10World) want(q c10Query) []string {
	if q.cmd == "TARGETS" {
		latest := map[string]time.Time{}
		for _, m := range x.log {
			if !m.event || x.ev {
				if m.at.After(latest[m.target]) {
					latest[m.target] = m.at
				}
			}
		}
		lo, hi := q.b0, q.b1
		if hi.Before(lo) {
			lo, hi = hi, lo
		}
		var l []string
		for t, at := range latest {
			if at.After(lo) && at.Before(hi) {
				l = append(l, at.Format(c10Layout)+" "+t)
			}
		}
		sort.Strings(l)
		if len(l) > q.limit {
			if q.b0.Before(q.b1) {
				l = l[:q.limit]
			} else {
				l = l[len(l)-q.limit:]
			}
		}
		return l
	}
	lo, hi := time.Time{}, time.Now()
	fromEnd := false
	switch q.cmd {
	case "LATEST":
		lo, fromEnd = q.b0, true
	case "BEFORE":
		hi, fromEnd = q.b0, true
	case "AFTER":
		lo = q.b0
	case "BETWEEN":
		lo, hi = q.b0, q.b1
		if hi.Before(lo) {
			lo, hi, fromEnd = hi, lo, true
		}
	}
	var l []string
	for _, m := range x.sorted() {
		if m.target == q.target && (!m.event || x.ev) && m.at.After(lo) && m.at.Before(hi) {
			l = append(l, m.String())
		}
	}
	if len(l) > q.limit {
		if fromEnd {
			l = l[len(l)-q.limit:]
		} else {
			l = l[:q.limit]
		}
	}
	return l
}

// replies splits what the client received into one list per query.
func c10Replies(c *kit.Ctx, msgs []*ircMessage) (out [][]string, kinds []string) {
	var ref string
	for _, m := range msgs {
		switch {
		case m.Command == "BATCH" && len(m.Params) > 1 && strings.HasPrefix(m.Params[0], "+"):
			c.Check(ref == "", "nested batches")
			ref = m.Params[0][1:]
			out = append(out, nil)
			kinds = append(kinds, strings.Join(m.Params[1:], " "))
		case m.Command == "BATCH":
			c.Check(m.Params[0] == "-"+ref && ref != "", "batch end %s", m)
			ref = ""
		case ref != "":
			c.Check(string(m.Tags["batch"]) == ref, "a message without the batch inside of a batch: %s", m)
			i := len(out) - 1
			if m.Command == "CHATHISTORY" {
				c.Check(len(m.Params) == 3 && m.Params[0] == "TARGETS", "%s", m)
				out[i] = append(out[i], m.Params[2]+" "+m.Params[1])
				continue
			}
			name := ""
			if m.Prefix != nil {
				name = m.Prefix.Name
			}
			r := m.Copy()
			r.Tags, r.Prefix = nil, nil
			out[i] = append(out[i], fmt.Sprintf("%s %s %s", m.Tags["time"], name, c10Norm(r)))
		default:
			out = append(out, []string{m.String()})
			kinds = append(kinds, "other")
		}
	}
	c.Check(ref == "", "a batch is not finished")
	return
}

// c10Norm writes a message with the last parameter always as trailing.
func c10Norm(m *ircMessage) string {
	if m.Command == "JOIN" || len(m.Params) == 0 {
		return m.Command + " " + strings.Join(m.Params, " ")
	}
	n := len(m.Params) - 1
	return strings.Join(append([]string{m.Command}, m.Params[:n]...), " ") + " :" + m.Params[n]
}

func (x *c10World) ask(qs []c10Query) {
	for len(qs) > 0 && !x.c.Bad() {
		n := min(40, len(qs))
		for _, q := range qs[:n] {
			x.cl.Send(q.line())
		}
		x.w.Settle()
		msgs := x.cl.Take()
		replies, kinds := c10Replies(x.c, msgs)
		if !x.c.Check(len(replies) == n, "%d queries get %d replies", n, len(replies)) {
			return
		}
		for i, q := range qs[:n] {
			want := x.want(q)
			kind := "chathistory " + q.target
			if q.cmd == "TARGETS" {
				kind = "draft/chathistory-targets"
			}
			x.c.Check(kinds[i] == kind, "%s: the reply is of type %q: %s", q.line(), kinds[i], kit.Q(replies[i]))
			if q.cmd == "TARGETS" {
				x.targetsOK(q, replies[i], want)
				continue
			}
			x.c.Check(kit.Eq(replies[i], want), "%s (events %v) returns %s, expected %s", q.line(), x.ev, kit.Q(replies[i]), kit.Q(want))
		}
		qs = qs[n:]
	}
}

// targetsOK compares lists of targets; those with equal times are
// interchangeable.
func (x *c10World) targetsOK(q c10Query, got, want []string) {
	q.limit = 1 << 20
	all := x.want(q)
	ok := len(got) == len(want)
	if len(got) > 1 && got[0] > got[len(got)-1] && q.b1.Before(q.b0) {
		// backwards queries may be answered in either order
		got = slices.Clone(got)
		slices.Reverse(got)
	}
	seen := map[string]bool{}
	for i := 0; ok && i < len(got); i++ {
		ok = strings.Fields(got[i])[0] == strings.Fields(want[i])[0] && !seen[got[i]] && slices.Contains(all, got[i])
		seen[got[i]] = true
	}
	x.c.Check(ok, "%s (events %v) returns %s, expected %s", q.line(), x.ev, kit.Q(got), kit.Q(want))
}

// touch makes the modification times agree with the log, as they do when
// messages are logged as they come in: the clock of the exploration is not the
// one of the file system.
func (x *c10World) touch() {
	if x.store != "fs" {
		return
	}
	filepath.Walk(x.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		day := strings.TrimSuffix(filepath.Base(p), ".log")
		target := filepath.Base(filepath.Dir(p))
		var last time.Time
		for _, m := range x.log {
			if m.target == target && m.at.Format("2006-01-02") == day && (!m.event || x.ev) {
				last = m.at
			}
		}
		if last.IsZero() {
			last = time.Unix(0, 0)
		}
		os.Chtimes(p, last, last)
		return nil
	})
}

func (x *c10World) queries(full bool) []c10Query {
	bounds := c10Bounds()
	limits := []int{1, 2, 100}
	if full {
		limits = []int{0, 1, 2, 3, 1000}
	}
	var l []c10Query
	for _, target := range []string{"#a", "bob"} {
		for _, lim := range limits {
			l = append(l, c10Query{"LATEST", target, time.Time{}, time.Time{}, lim})
			for _, b0 := range bounds {
				for _, cmd := range []string{"LATEST", "BEFORE", "AFTER"} {
					l = append(l, c10Query{cmd, target, b0, time.Time{}, lim})
				}
				for _, b1 := range bounds {
					l = append(l, c10Query{"BETWEEN", target, b0, b1, lim})
				}
			}
		}
	}
	return l
}

func (x *c10World) targets() []c10Query {
	var l []c10Query
	for _, lim := range []int{0, 1, 2, 50} {
		for _, b0 := range c10Bounds() {
			for _, b1 := range c10Bounds() {
				l = append(l, c10Query{"TARGETS", "", b0, b1, lim})
			}
		}
	}
	return l
}

// c10Seqs enumerates the non-decreasing sequences over 0..n-1 up to length max.
func c10Seqs(n, max int) [][]int {
	out := [][]int{{}}
	var rec func(s []int)
	rec = func(s []int) {
		if len(s) == max {
			return
		}
		from := 0
		if len(s) > 0 {
			from = s[len(s)-1]
		}
		for i := from; i < n; i++ {
			t := append(append([]int(nil), s...), i)
			out = append(out, t)
			rec(t)
		}
	}
	rec(nil)
	return out
}

func TestC10(t *testing.T) {
	r := kit.Start(t, "C10")
	patterns := [][]string{{"pa"}, {"pb", "pa"}, {"pa", "ea", "nb", "na"}, {"xa", "pb", "ta"}}
	depth := r.Pick(3, 5)
	seqs := c10Seqs(len(c10Times), depth)
	r.Bound("logs: all %d non-decreasing time sequences of up to %d messages over %d instants x %d patterns of kinds and targets", len(seqs), depth, len(c10Times), len(patterns))
	for _, store := range []string{"db", "fs"} {
		for pi, pat := range patterns {
			for _, seq := range seqs {
				key := fmt.Sprintf("%s/%d:%v", store, pi, seq)
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c10New(c, w, store, pi == 1)
					for i, ti := range seq {
						x.say(i, pat[i%len(pat)], c10Times[ti])
					}
					w.Settle()
					x.connect(false, true)
					qs := x.queries(r.Thorough() && len(seq) <= 3)
					x.ask(qs)
					x.touch()
					if store == "db" || pi < 2 {
						x.ask(x.targets())
					}
					if pi >= 2 {
						x.connect(true, true)
						x.ask(qs)
						x.touch()
						x.ask(x.targets())
					}
					// after a restart
					if len(seq) > 1 {
						w.Restart()
						x.joined()
						x.cl = nil
						x.connect(pi >= 2, true)
						var some []c10Query
						for i, q := range qs {
							if i%7 == pi {
								some = append(some, q)
							}
						}
						x.ask(some)
					}
					r.Count(0, len(qs))
				})
			}
		}
	}

	// several days, one message each, all gaps; other zones
	zones := []int{0, 5*3600 + 1800, -8 * 3600, 13 * 3600}
	for _, store := range []string{"db", "fs"} {
		for _, z := range zones {
			for gap := 1; gap <= r.Pick(4, 12); gap++ {
				r.World(fmt.Sprintf("%s/days:%d/%d", store, z, gap), func(c *kit.Ctx, w *kit.World) {
					old := time.Local
					time.Local = time.FixedZone("test", z)
					defer func() { time.Local = old }()
					x := c10New(c, w, store, false)
					var bounds []time.Time
					for i := 0; i < 5; i++ {
						at := time.Date(1999, 11, 1+i*gap, 0, 0, 0, 0, time.Local).UTC()
						if i%2 == 1 {
							at = at.Add(24*time.Hour - time.Second)
						}
						x.say(i, "pa", at)
						bounds = append(bounds, at, at.Add(time.Second), at.Add(-time.Second))
					}
					w.Settle()
					x.connect(false, true)
					var qs []c10Query
					for _, b0 := range bounds {
						for lim := 1; lim <= 6; lim += 2 {
							for _, cmd := range []string{"LATEST", "BEFORE", "AFTER"} {
								qs = append(qs, c10Query{cmd, "#a", b0, time.Time{}, lim})
							}
							for _, b1 := range bounds {
								qs = append(qs, c10Query{"BETWEEN", "#a", b0, b1, lim})
							}
						}
					}
					x.ask(qs)
					r.Count(0, len(qs))
				})
			}
		}
	}

	// messages the user sends, and everything again after a rename of the network
	for _, store := range []string{"db", "fs"} {
		for _, echo := range []bool{false, true} {
			r.World(fmt.Sprintf("%s/own:%v", store, echo), func(c *kit.Ctx, w *kit.World) {
				x := c10New(c, w, store, true)
				if echo {
					x.srv.Drop()
					x.srv.Caps = append(x.srv.Caps, "echo-message", "labeled-response", "batch")
					w.AwaitLive(x.srv, 5*time.Minute)
				}
				x.connect(false, true)
				lines := []string{"PRIVMSG #a :hello all", "NOTICE #A :note", "PRIVMSG BOB :psst", "PRIVMSG #a :\x01ACTION waves\x01", "PRIVMSG alice :note to self", "PRIVMSG #a,bob :to both"}
				for _, l := range lines {
					x.cl.Send(l)
					w.Settle()
					at := time.Now().UTC()
					add := func(target, line string) {
						m := c10Msg{target: target, at: at, nick: "alice", line: line}
						if store == "fs" {
							m.at = m.at.Truncate(time.Second)
						}
						x.log = append(x.log, m)
					}
					switch {
					case strings.HasSuffix(l, "to both"):
						add("#a", "PRIVMSG #a :to both")
						add("bob", "PRIVMSG bob :to both")
					case strings.Contains(l, "self"):
						add("alice", l)
					case strings.Contains(l, "BOB"):
						add("bob", l)
					default:
						add("#a", l)
					}
					w.SleepCoarse(1500 * time.Millisecond)
				}
				x.cl.Take()
				norm := func() {
					// file logs name the target by its canonical name
					if store == "fs" {
						for i, m := range x.log {
							f := strings.SplitN(m.line, " ", 3)
							if len(f) < 3 {
								continue
							}
							x.log[i].line = f[0] + " " + m.target + " " + f[2]
						}
					}
				}
				norm()
				check := func() {
					var qs []c10Query
					for _, tg := range []string{"#a", "bob", "alice"} {
						for _, lim := range []int{1, 3, 10} {
							qs = append(qs, c10Query{"LATEST", tg, time.Time{}, time.Time{}, lim})
							for _, m := range x.log {
								qs = append(qs, c10Query{"AFTER", tg, m.at, time.Time{}, lim}, c10Query{"BEFORE", tg, m.at, time.Time{}, lim})
							}
						}
					}
					x.ask(qs)
				}
				check()
				if c.Bad() {
					return
				}
				rename := func(from, to string) {
					c.Step("rename " + from + " to " + to)
					a := w.DialAdmin("adm")
					a.Send("BOUNCERSERV :user run alice network update " + from + " -name " + to)
					w.Settle()
					w.Sleep(2 * time.Minute)
					l := kit.Lines(a.Take())
					c.Check(len(l) > 0 && strings.Contains(l[len(l)-1], "BOUNCERSERV OK"), "rename: %s", kit.Q(l))
					a.Conn().Hangup()
				}
				for i, to := range []string{"renamed", "''", "again"} {
					rename(x.net, to)
					x.net = to
					if to == "''" {
						// the address serves as name
						x.net = "irc+insecure://net.test"
					} else {
						x.cl = nil
						x.connect(false, true)
						check()
					}
					x.say(99+i, "pa", time.Now().UTC().Truncate(time.Second))
					w.Settle()
					w.SleepCoarse(1500 * time.Millisecond)
					if to != "''" {
						x.cl.Take()
						check()
					}
					if c.Bad() {
						return
					}
				}
			})
		}
	}

	c10Buffers(r)

	// invalid queries
	for _, store := range []string{"db", "fs", "memory"} {
		r.World(store+"/invalid", func(c *kit.Ctx, w *kit.World) {
			x := c10New(c, w, store, false)
			for i := 0; i < 3; i++ {
				x.say(i, "pa", c10Times[i])
			}
			w.Settle()
			x.cl = w.Connect("q", kit.ConnOpts{User: "alice", Network: "net", Caps: []string{"server-time", "message-tags", "batch"}})
			x.cl.Take()
			ok := "timestamp=1999-12-20T00:00:00.000Z"
			for _, cmd := range []string{"LATEST", "BEFORE", "AFTER", "BETWEEN", "TARGETS", "AROUND", "NOPE", ""} {
				for _, b := range []string{"*", "timestamp=", "timestamp=yesterday", "msgid=abc", "1999-12-20T00:00:00.000Z", "timestamp=1999-13-20T00:00:00.000Z", "x", ok} {
					for _, lim := range []string{"-1", "1001", "x", "", "1e3", "99999999999999999999", "10"} {
						for _, both := range []bool{false, true} {
							b1 := ok
							if both {
								b1 = b
							}
							p := []string{"CHATHISTORY", cmd}
							if cmd != "TARGETS" {
								p = append(p, "#a")
							}
							p = append(p, b)
							if cmd == "BETWEEN" || cmd == "TARGETS" {
								p = append(p, b1)
							}
							p = append(p, ":"+lim)
							valid := b == ok && lim == "10" || cmd == "LATEST" && b == "*" && lim == "10"
							if cmd == "AROUND" || cmd == "NOPE" || cmd == "" || store == "memory" {
								valid = false
							}
							line := strings.Join(p, " ")
							got := x.cl.Do(line)
							if valid {
								c.Check(len(got) >= 2 && got[0].Command == "BATCH", "%s: %s", line, kit.Q(kit.Lines(got)))
							} else {
								c.Check(len(got) == 1 && (got[0].Command == "FAIL" || got[0].Command == "421" || got[0].Command == "461"), "%s: %s", line, kit.Q(kit.Lines(got)))
							}
						}
					}
				}
				for _, n := range []int{0, 1, 2} {
					line := strings.Join(append([]string{"CHATHISTORY", cmd}, []string{"#a", ok, ok}[:n]...), " ")
					got := x.cl.Do(line)
					c.Check(len(got) == 1 && (got[0].Command == "FAIL" || got[0].Command == "421" || got[0].Command == "461"), "%s: %s", line, kit.Q(kit.Lines(got)))
				}
			}
			r.Count(0, 900)
		})
	}

	// a client without batches, one without any capability, one on no network
	for _, store := range []string{"db", "fs"} {
		r.World(store+"/plain", func(c *kit.Ctx, w *kit.World) {
			x := c10New(c, w, store, true)
			for i := 0; i < 3; i++ {
				x.say(i, []string{"pa", "na", "pb"}[i], c10Times[i])
			}
			w.Settle()
			for _, caps := range [][]string{nil, {"server-time"}, {"batch"}, {"message-tags"}} {
				cl := w.Connect("p", kit.ConnOpts{User: "alice", Network: "net", Caps: caps})
				cl.Take()
				got := cl.Do("CHATHISTORY LATEST #A * 10")
				var lines []string
				for _, m := range got {
					if m.Command != "BATCH" {
						lines = append(lines, m.Prefix.Name+" "+c10Norm(m))
					} else {
						c.Check(len(caps) == 1 && caps[0] == "batch", "an unexpected batch: %s", m)
					}
				}
				c.Check(kit.Eq(lines, []string{"Bob PRIVMSG #a :text 0", "Bob NOTICE #a :- note> 1"}), "%v: %s", caps, kit.Q(lines))
				cl.Quit()
			}
			cl := w.Connect("n", kit.ConnOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks", "batch"}})
			cl.Take()
			for _, l := range []string{"CHATHISTORY LATEST #a * 10", "CHATHISTORY LATEST #a/net * 10", "CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2001-01-01T00:00:00.000Z 10"} {
				got := kit.Lines(cl.Do(l))
				c.Check(!strings.Contains(strings.Join(got, ""), "text") && len(got) > 0, "%s without a network: %s", l, kit.Q(got))
			}
			// another user cannot ask for it
			z := w.Connect("z", kit.ConnOpts{User: "zoe", Network: "zoenet", Caps: []string{"batch"}})
			z.Take()
			for _, l := range []string{"CHATHISTORY LATEST #a * 10", "CHATHISTORY LATEST #a/net * 10", "CHATHISTORY LATEST ../../alice/net/#a * 10", "CHATHISTORY LATEST ../net/#a * 10", "CHATHISTORY LATEST bob * 10", "CHATHISTORY LATEST . * 10", "CHATHISTORY LATEST .. * 10"} {
				got := kit.Lines(z.Do(l))
				all := strings.Join(got, "")
				c.Check(!strings.Contains(all, "text") && !strings.Contains(all, "private"), "%s by another user: %s", l, kit.Q(got))
			}
		})
	}

	// detached channels are not listed and do not count
	for _, store := range []string{"db", "fs"} {
		for lim := 1; lim <= 3; lim++ {
			for _, rev := range []bool{false, true} {
				r.World(fmt.Sprintf("%s/detached:%d/%v", store, lim, rev), func(c *kit.Ctx, w *kit.World) {
					x := c10New(c, w, store, false)
					x.say(0, "pb", c10Times[1])
					x.say(1, "pa", c10Times[0])
					w.Settle()
					x.connect(false, true)
					x.cl.Do("PART #a :detach")
					x.log = x.log[1:2] // the private message
					x.touch()
					b0, b1 := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2005, 1, 1, 0, 0, 0, 0, time.UTC)
					if rev {
						b0, b1 = b1, b0
					}
					x.ask([]c10Query{{"TARGETS", "", b0, b1, lim}})
				})
			}
		}
	}

	c10SearchText(r)

	// searching
	for _, store := range []string{"db", "fs"} {
		for _, seq := range c10Seqs(len(c10Times), r.Pick(3, 4)) {
			if !r.Thorough() && len(seq) > 2 && seq[0] != 0 {
				continue
			}
			r.World(fmt.Sprintf("%s/search:%v", store, seq), func(c *kit.Ctx, w *kit.World) {
				x := c10New(c, w, store, true)
				for i, ti := range seq {
					x.say(i, []string{"pa", "na", "pb", "ea"}[i%4], c10Times[ti])
				}
				w.Settle()
				x.cl = w.Connect("q", kit.ConnOpts{User: "alice", Network: "net", Caps: []string{"server-time", "message-tags", "batch", "soju.im/search"}})
				x.cl.Take()
				bounds := []time.Time{{}, time.Date(1999, 12, 20, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 22, 0, 0, 0, 0, time.UTC)}
				for _, in := range []string{"#a", "#A", "bob", "#zzz"} {
					for _, from := range []string{"", "Bob", "carol"} {
						for _, text := range []string{"", "text", "TEXT", "note", "private", "nothing"} {
							for _, after := range bounds {
								for _, before := range bounds {
									for _, lim := range []int{0, 1, 2} {
										attrs := "in=" + in
										if from != "" {
											attrs += ";from=" + from
										}
										if text != "" {
											attrs += ";text=" + text
										}
										if !after.IsZero() {
											attrs += ";after=" + after.Format(c10Layout)
										}
										if !before.IsZero() {
											attrs += ";before=" + before.Format(c10Layout)
										}
										if lim > 0 {
											attrs += fmt.Sprintf(";limit=%d", lim)
										}
										var want []string
										for _, m := range x.log {
											if m.target == strings.ToLower(in) && !m.event && (from == "" || from == m.nick) && strings.Contains(m.line, strings.ToLower(text)) &&
												(after.IsZero() || m.at.After(after)) && (before.IsZero() || m.at.Before(before)) {
												want = append(want, m.String())
											}
										}
										if lim > 0 && len(want) > lim {
											if !after.IsZero() {
												want = want[:lim]
											} else {
												want = want[len(want)-lim:]
											}
										}
										got, _ := c10Replies(c, x.cl.Do("SEARCH "+attrs))
										if c.Check(len(got) == 1, "SEARCH %s: %d replies", attrs, len(got)) {
											c.Check(kit.Eq(got[0], want), "SEARCH %s returns %s, expected %s", attrs, kit.Q(got[0]), kit.Q(want))
										}
									}
								}
							}
						}
					}
				}
				r.Count(0, 1900)
			})
		}
	}
}

var c10Texts = []string{
	"hello world", "Hello, World!", "HELLOWORLD", "it's a trap", "foo-bar foo_bar", "foo bar", "a AND b", "NOT this OR that", "c10:text^2 near*", "\"quoted\" words",
	"\x02bo\x02ld wo\x0304rl\x03d", "\x0304,12red\x03 and \x1dslanted\x0f", "\x04ff0000hex\x04 done", "caf\u00e9 na\u00efve \u00c9COLE", "\u65e5\u672c \u8a9e", "100% of 3.14 $5", "x", "...", "\x01ACTION waves hello\x01", "tab\tbed",
}

var c10Words = []string{
	"hello", "HELLO", "world", "hello world", "world hello", "hello,", "hel", "helloworld", "it's", "trap", "foo-bar", "foo_bar", "foo bar", "bar foo", "and", "AND", "a AND b", "b a", "OR", "NOT this", "not that this",
	"near*", "near", "NEAR(a b)", "text:", "c10:text", "^2", "*", "\"", "\"quoted", "quoted\" words", "'", "''", "--", "%", "_", "(", "bold", "world", "red", "12red", "slanted", "04,12", "hex", "ff0000hex", "done",
	"caf\u00e9", "CAF\u00c9", "\u00e9cole", "\u65e5\u672c", "\u8a9e", "100%", "3.14", "3", "14", "$5", "...", "!", ";", "\\", " ", "hello  world", "absent", "hello absent", "waves", "ACTION waves", "tab\tbed", "tab bed",
}

var c10Format = regexp.MustCompile("\x03(\\d{1,2}(,\\d{1,2})?)?|\x04([0-9a-fA-F]{6}(,[0-9a-fA-F]{6})?)?|[\x02\x1d\x1f\x1e\x11\x16\x0f]")

func c10Tokens(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return !unicode.In(r, unicode.L, unicode.N, unicode.Co) })
}

// c10SearchText: words are found in whatever text contains them.
func c10SearchText(r *kit.Run) {
	for _, store := range []string{"db", "fs"} {
		for _, from := range []string{"", "Bob", "Bo", "Bobby"} {
			r.World(fmt.Sprintf("%s/searchtext/%s", store, from), func(c *kit.Ctx, w *kit.World) {
				x := c10New(c, w, store, true)
				for _, t := range c10Texts {
					x.srv.Do(":Bob!u@h PRIVMSG #a :" + t)
					x.srv.Do(":carol!u@h NOTICE #a :" + t)
				}
				w.Settle()
				w.Sleep(5 * time.Second)
				cl := w.Connect("q", kit.ConnOpts{User: "alice", Network: "net", Caps: []string{"server-time", "message-tags", "batch", "soju.im/search"}})
				cl.Take()
				for _, q := range c10Words {
					attrs := "in=#a;limit=100;text=" + irc.EncodeTagValue(q)
					if from != "" {
						attrs += ";from=" + from
					}
					var must, may []string
					for _, t := range c10Texts {
						in, maybe := strings.Contains(strings.ToLower(t), strings.ToLower(q)), false
						if store == "db" {
							// full words, in any order; accents and other cases may match as well
							have, all := c10Tokens(c10Format.ReplaceAllString(t, "")), len(c10Tokens(q)) > 0
							for _, tok := range c10Tokens(q) {
								all = all && slices.Contains(have, tok)
							}
							in, maybe = all, false
							for _, tok := range c10Tokens(q) {
								maybe = maybe || strings.ContainsFunc(tok, func(r rune) bool { return r > 127 })
							}
							maybe = maybe || len(c10Tokens(q)) == 0 // nothing to look for
						}
						for _, m := range []string{"Bob PRIVMSG #a :" + t, "carol NOTICE #a :" + t} {
							if from != "" && !strings.HasPrefix(m, from+" ") {
								continue
							}
							if in {
								must = append(must, m)
							}
							if in || maybe {
								may = append(may, m)
							}
						}
					}
					var got []string
					for _, m := range cl.Do("SEARCH :" + attrs) {
						switch m.Command {
						case "BATCH":
						case "PRIVMSG", "NOTICE":
							got = append(got, fmt.Sprintf("%s %s %s :%s", m.Prefix.Name, m.Command, m.Params[0], m.Params[1]))
						default:
							c.Violatef("SEARCH for %q is answered with %v", q, m)
							return
						}
					}
					for _, m := range must {
						c.Check(slices.Contains(got, m), "SEARCH for %q (from %q) does not find %q", q, from, m)
					}
					for i, m := range got {
						c.Check(slices.Contains(may, m) && !slices.Contains(got[:i], m), "SEARCH for %q (from %q) finds %q", q, from, m)
					}
				}
			})
			r.Count(0, len(c10Words))
		}
	}
	r.Bound("searchtext: %d words x %d texts x 4 senders", len(c10Words), len(c10Texts))
}

// c10Buffers: each kind of message is found in the log of the right target, and
// of no other, whatever names are made of.
func c10Buffers(r *kit.Run) {
	type kind struct{ line, target string } // target "" for none
	kinds := []kind{
		{":Bob!u@h PRIVMSG #A :T", "#a"}, {":Bob!u@h NOTICE @#a :T", "#a"}, {":Bob!u@h PRIVMSG +#A :T", "#a"}, {":Bob!u@h PRIVMSG @+#a :T", "#a"}, {":Bob!u@h PRIVMSG +@#a :T", "#a"},
		{":Bob!u@h PRIVMSG Alice :T", "bob"}, {":BOB!u@h NOTICE alice :T", "bob"}, {":alice!u@h PRIVMSG Bob :T", "bob"}, {":alice!u@h PRIVMSG alice :T", "alice"},
		{":srv.test NOTICE * :T", ""}, {":Bob!u@h NOTICE $$srv.test :T", ""}, {":Bob!u@h PRIVMSG $* :T", ""}, {":net.test NOTICE alice :T", ""}, {":net.test PRIVMSG alice :T", ""},
		{"@+draft/channel-context=#A :Bob!u@h PRIVMSG alice :T", "bob"}, // not a member
		{"@+draft/channel-context=#A :member!u@h PRIVMSG alice :T", "#a"},
		{"@+draft/channel-context=#b :member!u@h PRIVMSG alice :T", "member"}, // not joined
		{"@+draft/channel-context=#A :alice!u@h PRIVMSG Bob :T", "#a"},
		{":BouncerServ!u@h PRIVMSG alice :T", ""}, {":alice!u@h PRIVMSG BouncerServ :T", ""},
		{":Bob!u@h PRIVMSG #Unjoined :T", "#unjoined"},
		{"@batch=b :Bob!u@h PRIVMSG #a :T", "#a"},
		// said by a client
		{">PRIVMSG #A :T", "#a"}, {">NOTICE #a :T", "#a"}, {">PRIVMSG @#A :T", "#a"}, {">PRIVMSG +@#a :T", "#a"}, {">PRIVMSG Bob :T", "bob"}, {">PRIVMSG alice :T", "alice"},
		{">PRIVMSG #A,Bob,BouncerServ :T", "#a,bob"}, {">PRIVMSG #unjoined :T", "#unjoined"},
		{">PRIVMSG $* :T", ""}, {">NOTICE $*.test :T", ""}, {">PRIVMSG $$net.test :T", ""}, {">PRIVMSG NickServ :T", ""}, {">NOTICE nickserv :T", ""}, {">PRIVMSG BouncerServ :T", ""}, {">NOTICE bouncerserv :T", ""},
		{"@+typing=active :Bob!u@h TAGMSG alice", ""}, {"@+typing=active;account=b :Bob!u@h TAGMSG #a", ""}, {"@+draft/react=:);+draft/reply=x :Bob!u@h TAGMSG Alice", "bob/"}, {"@+react=:) :Bob!u@h TAGMSG #A", "#a/"},
		{">@+typing=active TAGMSG Bob", ""}, {">@+react=x TAGMSG Bob", "bob/"}, {">@+draft/react=x;+y TAGMSG #a,Bob", "#a/,bob/"}, {">@+react=x TAGMSG $*", ""}, {">@+react=x TAGMSG NickServ", ""},
	}
	for _, n := range []string{".", "..", "../x", "a/../../b", "\\..\\x", "con", "-", "--", "%2e", "x.log", "Ä", "[]", strings.Repeat("n", 200)} {
		kinds = append(kinds, kind{":" + n + "!u@h PRIVMSG alice :T", c10ASCII(n)}, kind{":Bob!u@h PRIVMSG #" + n + " :T", "#" + c10ASCII(n)}, kind{":alice!u@h PRIVMSG " + n + " :T", c10ASCII(n)})
	}
	nets := []string{"net", "..", ".", "../y", "a/b"}
	for _, store := range []string{"db", "fs"} {
		for i := range kinds {
			for j := range kinds {
				if j != i && j != (i+1)%len(kinds) && j != (i+7)%len(kinds) {
					continue
				}
				for ni, net := range nets {
					if ni > 0 && j != i {
						continue
					}
					r.World(fmt.Sprintf("%s/buffers:%d,%d,%d", store, i, j, ni), func(c *kit.Ctx, w *kit.World) {
						w.Cfg.MsgStoreDriver = store
						top := w.TempDir()
						root := filepath.Join(top, "1", "2", "3", "4")
						if store == "fs" {
							w.Cfg.MsgStorePath = root
						}
						u := w.AddUser("alice", nil)
						n, s := w.AddNetwork(u, "net", func(n *database.Network) { n.Name = net; n.Addr = "irc+insecure://net.test" })
						w.AddChannel(n, "#a", nil)
						s.Caps = []string{"message-tags", "server-time"}
						s.ISupport = append(s.ISupport, "STATUSMSG=@+", "CASEMAPPING=ascii", "CHANTYPES=#")
						w.Start()
						s.Live().Send(":member!u@h JOIN #a")
						w.Settle()
						var say *kit.Client
						if kinds[i].line[0] == '>' || kinds[j].line[0] == '>' {
							say = c10Bind(c, w, "say", n.ID)
						}
						want := map[string][]string{}
						tagged := map[string]int{}
						for k, x := range []int{i, j} {
							text := fmt.Sprintf("text %d", k)
							c.Step(kinds[x].line)
							line := strings.Replace(kinds[x].line, " :T", " :"+text, 1)
							if l, ok := strings.CutPrefix(line, ">"); ok {
								say.Send(l)
							} else {
								s.Send(":net.test BATCH +b x")
								s.Send(line)
								s.Send(":net.test BATCH -b")
							}
							w.Settle()
							w.SleepCoarse(1500 * time.Millisecond)
							for _, t := range strings.Split(kinds[x].target, ",") {
								if t, tag := strings.CutSuffix(t, "/"); tag {
									tagged[t]++
								} else if t != "" {
									want[t] = append(want[t], text)
								}
							}
						}
						q := c10Bind(c, w, "q", n.ID)
						norm := func(t string) string {
							if store == "fs" {
								return strings.NewReplacer("/", "-", "\\", "-").Replace(c10Dots(t))
							}
							return t
						}
						merged := map[string][]string{}
						for _, t := range c14Sorted(want) {
							merged[norm(t)] = append(merged[norm(t)], want[t]...)
						}
						if store == "fs" && merged["#a"] == nil {
							merged["#a"] = nil // the join
						}
						var got []string
						q.Send("CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2100-01-01T00:00:00.000Z 100")
						w.Settle()
						for _, m := range q.Take() {
							if m.Command == "CHATHISTORY" && len(m.Params) > 1 {
								got = append(got, norm(m.Params[1]))
							}
						}
						c.Check(kit.EqSet(got, c14Sorted(merged)), "network %q: there are logs of %s, want %s", net, kit.Q(got), kit.Q(c14Sorted(merged)))
						for _, t := range c14Sorted(want) {
							got = nil
							for _, m := range q.Do("CHATHISTORY LATEST " + t + " * 10") {
								if m.Command == "PRIVMSG" || m.Command == "NOTICE" {
									got = append(got, m.Params[1])
								}
							}
							l := kit.Sorted(merged[norm(t)])
							c.Check(kit.Eq(got, l), "network %q: the history of %s is %s, want %s", net, t, kit.Q(got), kit.Q(l))
						}
						if store == "db" && ni == 0 {
							// reactions are kept, passing notices such as typing aren't
							e := c10Bind(c, w, "e", n.ID)
							e.Do("CAP REQ :draft/event-playback")
							for _, t := range []string{"#a", "bob", "alice", "$*", "nickserv"} {
								n := 0
								for _, m := range e.Do("CHATHISTORY LATEST " + t + " * 10") {
									if m.Command == "TAGMSG" {
										n++
									}
								}
								c.Check(n == tagged[t], "the history of %s has %d tag messages, want %d", t, n, tagged[t])
							}
						}
						// files are kept in the user's directory
						err := filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
							if err != nil || fi.IsDir() {
								return err
							}
							rel, _ := filepath.Rel(root, p)
							f := strings.Split(rel, "/")
							c.Check(len(f) == 4 && f[0] == "alice", "the bouncer wrote %s", rel)
							return nil
						})
						c.Check(err == nil, "%v", err)
					})
				}
			}
		}
	}
	r.Bound("buffers: %d kinds of messages and names, alone and in pairs, on networks named %q", len(kinds), nets)
}

// c10ASCII folds a name.
func c10ASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// c10Dots is how the file store calls targets.
func c10Dots(s string) string {
	switch s {
	case ".":
		return "-"
	case "..":
		return "--"
	}
	return s
}

// c10Bind connects a client to a network by its number.
func c10Bind(c *kit.Ctx, w *kit.World, name string, id int64) *kit.Client {
	q := w.Dial(name)
	for _, l := range []string{"CAP LS 302", "CAP REQ :sasl server-time message-tags batch draft/chathistory soju.im/bouncer-networks", "NICK q", "USER q 0 * :q", "AUTHENTICATE PLAIN", "AUTHENTICATE " + b64("\x00alice\x00alice"), fmt.Sprintf("BOUNCER BIND %d", id), "CAP END"} {
		q.Do(l)
	}
	c.Check(q.Registered(), "cannot bind to network %d", id)
	q.Take()
	return q
}
