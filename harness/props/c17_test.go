package props

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"sojuverif/kit"
)

// C17: the output of connections. The real connections of the bouncer are
// driven through transports which stall, fail or hang up.

// c17Down is the reference model of the output towards client d.
type c17Down struct {
	sent    int // messages sent to the user
	mine    int // sent before client d quit
	stalled bool
	fails   bool
	hung    bool
	quit    bool
	dead    bool // closed
	pending int  // messages not delivered
	since   int  // time of the first of them
	now     int  // seconds
	bulk    bool // a large amount of output waits
}

const c17Write = 10 // seconds a write may take

// settle computes what must have happened by now.
func (s c17Down) settle() c17Down {
	if s.dead {
		s.pending, s.bulk = 0, false
		return s
	}
	waits := s.pending > 0 || s.quit
	switch {
	case s.fails && s.pending > 0:
		s.dead = true
	case !s.stalled:
		if s.quit || s.hung {
			s.dead = true
		}
		s.pending = 0
	case s.hung && s.pending == 0:
		s.dead = true // the writer is idle
	case s.quit && s.pending == 0:
		s.dead = true
	case waits && s.now-s.since >= c17Write:
		s.dead = true
	}
	if s.dead || s.pending == 0 {
		s.pending, s.bulk = 0, false
	}
	return s
}

func (s c17Down) next(e string) c17Down {
	f := strings.Fields(e)
	switch f[0] {
	case "msg":
		n, _ := strconv.Atoi(f[1])
		s.sent += n
		if !s.dead {
			if s.pending == 0 {
				s.since = s.now
			}
			if s.stalled {
				s.bulk = s.bulk || n > 60
			}
			s.pending += n
			if !s.quit {
				s.mine += n
			}
		}
	case "stall":
		s.stalled = true
	case "resume":
		s.stalled = false
	case "fail":
		s.fails = true
	case "hang":
		s.hung = true
	case "quit":
		s.quit = true
	case "time":
		n, _ := strconv.Atoi(f[1])
		s.now += n
	}
	return s.settle()
}

func (s c17Down) enabled() []string {
	l := []string{"msg 1", "time 4", "time 11"}
	if s.pending == 0 {
		l = append(l, "msg 80")
	}
	if s.dead {
		return l[:1]
	}
	if s.stalled {
		l = append(l, "resume")
	} else {
		l = append(l, "stall")
	}
	if !s.fails {
		l = append(l, "fail")
	}
	if !s.hung {
		l = append(l, "hang")
	}
	if !s.quit && !s.hung {
		l = append(l, "quit")
	}
	return l
}

func c17Numbers(l []*ircMessage) []int {
	var out []int
	for _, m := range l {
		if m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == "bob" {
			n, err := strconv.Atoi(m.Params[1])
			if err != nil {
				n = -1
			}
			out = append(out, n)
		}
	}
	return out
}

// c17Run replays a sequence on client d, while client e reads everything.
func c17Run(c *kit.Ctx, w *kit.World, seq []string) {
	u := w.AddUser("alice", nil)
	_, s := w.AddNetwork(u, "n1", nil)
	s.ISupport = []string{"soju.im/SAFERATE", "CASEMAPPING=ascii"}
	w.Start()
	d := w.Connect("d", kit.ConnOpts{User: "alice", Network: "n1", Client: "d"})
	e := w.Connect("e", kit.ConnOpts{User: "alice", Network: "n1", Client: "e"})
	st := c17Down{}
	check := func() bool {
		got := c17Numbers(d.Peek())
		for i, n := range got {
			if !c.Check(n == i+1, "client d gets message %d as number %d", n, i+1) {
				return false
			}
		}
		switch {
		case !st.dead && !st.stalled:
			c.Check(len(got) == st.sent, "client d got %d of %d messages", len(got), st.sent)
			c.Check(!d.Closed(), "client d was disconnected")
		case !st.dead:
			c.Check(!d.Closed(), "client d was disconnected while it had time to read")
			c.Check(len(got) == st.sent-st.pending, "client d got %d messages of %d with %d waiting", len(got), st.sent, st.pending)
		default:
			c.Check(d.Closed(), "client d is still connected")
			if !st.fails && !st.hung && st.quit && !st.stalled {
				c.Check(len(got) >= st.mine, "client d quit after %d messages and got %d of them", st.mine, len(got))
			}
		}
		others := c17Numbers(e.Peek())
		for i, n := range others {
			if !c.Check(n == i+1, "client e gets message %d as number %d", n, i+1) {
				return false
			}
		}
		if !st.bulk {
			c.Check(len(others) == st.sent, "client e got %d of %d messages", len(others), st.sent)
		}
		return !c.Bad()
	}
	d.Take()
	e.Take()
	// acknowledgements would delay the processing of other messages
	d.NoPong, e.NoPong = true, true
	for _, a := range seq {
		c.Step(a)
		prev := st
		st = st.next(a)
		f := strings.Fields(a)
		switch f[0] {
		case "msg":
			n, _ := strconv.Atoi(f[1])
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, ":bob!b@h PRIVMSG alice %d\r\n", prev.sent+i+1)
			}
			s.Live().Conn().Feed(sb.String())
		case "stall":
			d.Conn().Stall(true)
		case "resume":
			d.Conn().Stall(false)
		case "fail":
			d.Conn().FailWrites(errors.New("write failed"))
		case "hang":
			d.Conn().Hangup()
		case "quit":
			d.Send("QUIT")
		case "time":
			n, _ := strconv.Atoi(f[1])
			for i := 0; i < n; i++ {
				w.Sleep(time.Second)
			}
		}
		w.Settle()
		if !check() {
			return
		}
	}
	// whatever happened, everything is released in the end
	st.now += 30
	st = st.settle()
	w.Sleep(30 * time.Second)
	if !check() {
		return
	}
	pong := kit.Select(e.Do("PING token"), "PONG")
	c.Check(len(pong) == 1, "the other client gets no answer")
	if !st.dead {
		d.Conn().Stall(false)
		w.Settle()
		pong = kit.Select(d.Do("PING token"), "PONG")
		c.Check(len(pong) == 1 != st.fails, "client d gets %d answers", len(pong))
	}
}

// The rate limit towards servers.

type c17Up struct {
	sent, queued int
	safe         bool
}

func (s c17Up) enabled() []string {
	l := []string{"say 1", "say 15", "time 3", "time 21", "server 1", "server 12"}
	if s.queued < 50 {
		l = append(l, "say 90")
	}
	if s.safe {
		l = append(l, "unsafe")
	} else {
		l = append(l, "safe")
	}
	return append(l, "quit", "drop")
}

func c17RunUp(c *kit.Ctx, w *kit.World, seq []string) {
	const burst, delay = 10, 2 * time.Second
	u := w.AddUser("alice", nil)
	_, s := w.AddNetwork(u, "n1", nil)
	s.ISupport = []string{"CASEMAPPING=ascii"}
	w.Start()
	d := w.Connect("d", kit.ConnOpts{User: "alice", Network: "n1", Client: "d"})
	d.NoPong = true
	var want []string // lines the server must get, on the present connection
	sent, pings := 0, 0
	safe := false
	limited := time.Time{}
	check := func(final bool) {
		uc := s.Live()
		if !c.Check(uc != nil, "not connected") {
			return
		}
		// in order, once
		var got, pong []string
		for _, m := range uc.All {
			switch m.Command {
			case "PRIVMSG":
				got = append(got, m.Params[1])
			case "PONG":
				pong = append(pong, m.Params[0])
			}
		}
		for i, g := range got {
			if !c.Check(i < len(want) && g == want[i], "the server gets %q as line %d, want %s", g, i, kit.Q(want)) {
				return
			}
		}
		for i, g := range pong {
			c.Check(g == fmt.Sprintf("p%d", i+1), "the server gets PONG %s as number %d", g, i+1)
		}
		// with more output waiting the announcement itself waits
		if final || safe && len(want)+pings < 60 {
			c.Check(len(got) == len(want), "the server got %d of %d messages", len(got), len(want))
			c.Check(len(pong) == pings, "the server got %d of %d pongs", len(pong), pings)
		}
		// never faster than allowed
		if limited.IsZero() {
			stamps := uc.Conn().Stamps()
			for i := burst; i < len(stamps); i++ {
				// among burst+1+k lines there are at least k+1 delays
				for j := 0; j+burst <= i; j++ {
					n := i - j + 1 - burst
					if dt := stamps[i].Sub(stamps[j]); dt < time.Duration(n)*delay-time.Millisecond {
						c.Violatef("%d lines sent within %v", i-j+1, dt)
						return
					}
				}
			}
		}
	}
	name := 0
	for _, a := range seq {
		c.Step(a)
		f := strings.Fields(a)
		n := 0
		if len(f) > 1 {
			n, _ = strconv.Atoi(f[1])
		}
		switch f[0] {
		case "say":
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sent++
				t := fmt.Sprintf("m%d", sent)
				want = append(want, t)
				sb.WriteString("PRIVMSG bob " + t + "\r\n")
			}
			d.Conn().Feed(sb.String())
		case "server":
			for i := 0; i < n; i++ {
				pings++
				s.Send(fmt.Sprintf("PING p%d", pings))
			}
		case "time":
			w.Sleep(time.Duration(n) * time.Second)
		case "safe", "unsafe":
			safe = f[0] == "safe"
			limited = time.Now()
			tok := "soju.im/SAFERATE"
			if !safe {
				tok = "-" + tok
			}
			s.Send(":n1.test 005 alice " + tok + " :are supported")
			// the line which waits for its turn is not concerned, and the
			// user may be blocked behind it
			w.Sleep(3 * time.Second)
		case "quit":
			d.Send("QUIT")
			w.Settle()
			name++
			d = w.Connect("d", kit.ConnOpts{User: "alice", Network: "n1", Client: fmt.Sprintf("d%d", name)})
			d.NoPong = true
		case "drop":
			// what waits is lost with the connection
			w.Sleep(400 * time.Second)
			check(true)
			s.Drop()
			w.Settle()
			want, pings, safe, limited = nil, 0, false, time.Time{}
		}
		w.Settle()
		check(false)
		if c.Bad() {
			return
		}
	}
	w.Sleep(400 * time.Second)
	check(true)
}

func TestC17(t *testing.T) {
	r := kit.Start(t, "C17")
	r.Tree("down", r.Pick(5, 7), func(seq []string) []string {
		s := c17Down{}
		for _, e := range seq {
			s = s.next(e)
		}
		return s.enabled()
	}, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) { c17Run(c, w, seq) })
	})
	r.Tree("up", r.Pick(4, 5), func(seq []string) []string {
		s := c17Up{}
		for _, e := range seq {
			f := strings.Fields(e)
			switch f[0] {
			case "say":
				n, _ := strconv.Atoi(f[1])
				s.queued += n
			case "safe", "unsafe":
				s.safe = f[0] == "safe"
			case "drop":
				s = c17Up{}
			}
		}
		return s.enabled()
	}, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) { c17RunUp(c, w, seq) })
	})
}
