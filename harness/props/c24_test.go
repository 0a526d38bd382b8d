package props

import (
	"fmt"
	"net"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/identd"

	"sojuverif/kit"
)

// C24: the ident server answers exactly for live upstream connections.

// c24Ask opens a connection from a host, feeds the pieces and returns the
// reply lines and whether the connection was closed by the server.
func c24Ask(ln *kit.MemListener, host string, pieces ...string) (*kit.MemConn, []string) {
	ip := net.ParseIP(host)
	c := kit.NewMemConn(&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 113}, &net.TCPAddr{IP: ip, Port: 55555})
	ln.Push(c)
	for _, p := range pieces {
		c.Feed(p)
		synctest.Wait()
	}
	synctest.Wait()
	return c, c24Lines(c)
}

func c24Lines(c *kit.MemConn) []string {
	s := string(c.Output())
	if s == "" {
		return nil
	}
	if !strings.HasSuffix(s, "\r\n") {
		return []string{"(unterminated)" + s}
	}
	return strings.Split(strings.TrimSuffix(s, "\r\n"), "\r\n")
}

// c24Parse reads a reply: the port pair, and the user ID or "" for an error.
func c24Parse(line string) (lport, rport int, id string, ok bool) {
	parts := strings.SplitN(line, ":", 4)
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	if len(parts) < 3 {
		return
	}
	a, b, _ := strings.Cut(parts[0], ",")
	lport, _ = strconv.Atoi(strings.TrimSpace(a))
	rport, _ = strconv.Atoi(strings.TrimSpace(b))
	switch parts[1] {
	case "ERROR":
		ok = len(parts) == 3 && (parts[2] == "NO-USER" || parts[2] == "INVALID-PORT" || parts[2] == "HIDDEN-USER" || parts[2] == "UNKNOWN-ERROR")
	case "USERID":
		ok = len(parts) == 4 && parts[2] != "" && parts[3] != ""
		if ok {
			id = parts[3]
		}
	}
	return
}

// c24Valid is the grammar of RFC 1413 queries.
func c24Valid(l string) (lport, rport int, ok bool) {
	a, b, found := strings.Cut(l, ",")
	if !found {
		return
	}
	num := func(s string) int {
		s = strings.Trim(s, " \t\r")
		if s == "" || len(s) > 9 {
			return 0
		}
		n := 0
		for _, r := range s {
			if r < '0' || r > '9' {
				return 0
			}
			n = n*10 + int(r-'0')
		}
		return n
	}
	lport, rport = num(a), num(b)
	return lport, rport, lport > 0 && rport > 0
}

type c24Entry struct{ remote, local, host string }

var c24Entries = []c24Entry{
	{"10.9.9.9:6667", "10.0.0.1:20001", "10.9.9.9"},
	{"10.9.9.9:6667", "10.0.0.1:20002", "10.9.9.9"},
	{"10.9.9.8:6667", "10.0.0.1:20001", "10.9.9.8"},
	{"[2001:db8::1]:6667", "[2001:db8::2]:20001", "2001:db8::1"},
}

// model: one ident ("" for none) per entry
type c24Model [4]string

func c24Next(s c24Model, a string) c24Model {
	i := int(a[1] - '0')
	switch a[0] {
	case 's':
		s[i] = a[2:]
	case 'd':
		s[i] = ""
	}
	return s
}

func c24Apply(id *identd.Identd, a string) {
	switch a {
	case "xbad":
		id.Store("@", "10.0.0.1:20001", "evil")
		id.Store("10.9.9.9:6667", "nonsense", "evil")
		id.Store("/run/irc.sock", "", "evil")
		id.Delete("/run/irc.sock", "")
		id.Delete("10.9.9.9:6667", "")
		return
	}
	e := c24Entries[a[1]-'0']
	switch a[0] {
	case 's':
		id.Store(e.remote, e.local, a[2:])
	case 'd':
		id.Delete(e.remote, e.local)
	}
}

// c24Audit queries every combination of host and ports.
func c24Audit(c *kit.Ctx, ln *kit.MemListener, want func(host string, lport, rport int) string, hosts []string, lports, rports []int) {
	for _, h := range hosts {
		for _, lp := range lports {
			for _, rp := range rports {
				conn, l := c24Ask(ln, h, fmt.Sprintf("%d, %d\r\n", lp, rp))
				w := want(h, lp, rp)
				if !c.Check(len(l) == 1, "query %d,%d from %s: %d replies: %s", lp, rp, h, len(l), kit.Q(l)) {
					return
				}
				glp, grp, id, ok := c24Parse(l[0])
				if !c.Check(ok && glp == lp && grp == rp && id == w, "query %d,%d from %s: reply %q, expected user %q", lp, rp, h, l[0], w) {
					return
				}
				conn.Hangup()
				synctest.Wait()
				c.Check(conn.Closed(), "query %d,%d from %s: the connection is not closed at the end", lp, rp, h)
			}
		}
	}
}

func TestC24(t *testing.T) {
	r := kit.Start(t, "C24")
	hosts := []string{"10.9.9.9", "10.9.9.8", "2001:db8::1", "10.9.9.7"}
	serve := func(c *kit.Ctx, f func(id *identd.Identd, ln *kit.MemListener)) {
		id := identd.New()
		ln := kit.NewMemListener()
		go id.Serve(ln)
		f(id, ln)
		ln.Close()
		time.Sleep(time.Minute)
	}

	// 1. the table: every transition of the model, every query after each step
	acts := []string{"s0a", "s1a", "s0b", "s2b", "s3c", "d0", "d1", "d2", "d3", "xbad"}
	if r.Thorough() {
		acts = append(acts, "s1b", "s2a", "s3a")
	}
	kit.Graph(r, "table", c24Model{}, func(s c24Model) string { return fmt.Sprint(s) }, func(c24Model) []string { return acts }, c24Next, 12, func(key string, seq []string) {
		r.Bubble(key, func(c *kit.Ctx) {
			serve(c, func(id *identd.Identd, ln *kit.MemListener) {
				var m c24Model
				for _, a := range seq {
					c.Step(a)
					c24Apply(id, a)
					m = c24Next(m, a)
					c24Audit(c, ln, func(h string, lp, rp int) string {
						if rp != 6667 {
							return ""
						}
						for i, e := range c24Entries {
							if e.host == h && strings.HasSuffix(e.local, fmt.Sprintf(":%d", lp)) {
								return m[i]
							}
						}
						return ""
					}, hosts, []int{20001, 20002, 6667}, []int{6667, 20001})
				}
			})
		})
	})

	// 2. every short line: valid queries are answered, everything else gets an
	// error, and the server goes on serving
	alpha := []string{"1", "2", "0", ",", " ", ":", "-", "x", "\t", "\x00", "é"}
	depth := r.Pick(5, 6)
	for _, first := range alpha {
		for _, second := range append([]string{""}, alpha...) {
			r.Bubble("lines:"+strconv.Quote(first+"/"+second), func(c *kit.Ctx) {
				serve(c, func(id *identd.Identd, ln *kit.MemListener) {
					id.Store("10.9.9.9:2", "10.0.0.1:1", "u12")
					id.Store("10.9.9.9:1", "10.0.0.1:21", "u211")
					id.Store("10.9.9.9:12", "10.0.0.1:2", "u2_12")
					var rec func(s string, n int)
					rec = func(s string, n int) {
						if c.Bad() {
							return
						}
						_, l := c24Ask(ln, "10.9.9.9", s+"\r\n")
						lp, rp, ok := c24Valid(s)
						want := ""
						if ok {
							want = map[[2]int]string{{1, 2}: "u12", {21, 1}: "u211", {2, 12}: "u2_12"}[[2]int{lp, rp}]
						}
						if !c.Check(len(l) == 1, "query %q: %d replies: %s", s, len(l), kit.Q(l)) {
							return
						}
						if want == "" {
							c.Check(strings.Contains(l[0], " : ERROR : "), "query %q: reply %q, expected an error", s, l[0])
						} else {
							glp, grp, id, ok := c24Parse(l[0])
							c.Check(ok && glp == lp && grp == rp && id == want, "query %q: reply %q, expected user %q", s, l[0], want)
						}
						if second == "" {
							return
						}
						if n < depth {
							for _, a := range alpha {
								rec(s+a, n+1)
							}
						}
					}
					if second == "" {
						rec(first, 1)
					} else {
						rec(first+second, 2)
					}
					c24Audit(c, ln, func(h string, lp, rp int) string {
						if h == "10.9.9.9" && lp == 1 && rp == 2 {
							return "u12"
						}
						return ""
					}, []string{"10.9.9.9"}, []int{1, 2}, []int{1, 2})
				})
			})
		}
	}
	n := len(alpha)
	tot := n
	for k, p := 2, n; k <= depth; k++ {
		p *= n
		tot += p
	}
	r.Count(tot, tot)
	r.Bound("lines: every query line up to %d characters over %q", depth, strings.Join(alpha, ""))

	// 3. fragmentation, several queries on one connection, stuck connections
	for _, q := range []string{"20001, 6667\r\n", "20001,6667\n", " 20001 , 6667 \r\n", "20009, 6667\r\n"} {
		for i := 0; i <= len(q); i++ {
			for j := i; j <= len(q); j++ {
				r.Bubble(fmt.Sprintf("split:%q/%d/%d", q, i, j), func(c *kit.Ctx) {
					serve(c, func(id *identd.Identd, ln *kit.MemListener) {
						id.Store("10.9.9.9:6667", "10.0.0.1:20001", "me")
						// connections that never finish, or send too much
						c24Ask(ln, "10.9.9.9", "20001,")
						c24Ask(ln, "10.9.9.9")
						huge, _ := c24Ask(ln, "10.9.9.9", strings.Repeat("1", 600))
						_, l := c24Ask(ln, "10.9.9.9", q[:i], q[i:j], q[j:])
						want := "me"
						if strings.Contains(q, "20009") {
							want = ""
						}
						if c.Check(len(l) == 1, "replies %s", kit.Q(l)) {
							_, _, id, ok := c24Parse(l[0])
							c.Check(ok && id == want, "reply %q", l[0])
						}
						c.Check(huge.Closed(), "a connection sending an endless line is not closed")
					})
				})
			}
		}
	}
	qs := []string{"20001,6667", "20002,6667", "20001 , 6667"}
	r.Tree("many", r.Pick(5, 6), func([]string) []string { return qs }, func(key string, seq []string) {
		r.Bubble(key, func(c *kit.Ctx) {
			serve(c, func(id *identd.Identd, ln *kit.MemListener) {
				id.Store("10.9.9.9:6667", "10.0.0.1:20001", "me")
				id.Store("10.9.9.9:6667", "10.0.0.1:20002", "me2")
				conn, _ := c24Ask(ln, "10.9.9.9")
				del := false
				for i, q := range seq {
					if i == len(seq)-1 {
						id.Delete("10.9.9.9:6667", "10.0.0.1:20001")
						del = true
					}
					conn.Feed(q + "\r\n")
					synctest.Wait()
					want := "me"
					if q == "20002,6667" {
						want = "me2"
					} else if del {
						want = ""
					}
					l := c24Lines(conn)
					if c.Check(len(l) == 1, "query %d: replies %s", i, kit.Q(l)) {
						_, _, id, ok := c24Parse(l[0])
						c.Check(ok && id == want, "query %d: reply %q, expected %q", i, l[0], want)
					}
				}
			})
		})
	})

	// 4. the bouncer itself: the entries follow the upstream connections
	wacts := []string{"dropA", "refuseA", "muteA", "okA", "dropB", "disableA", "enableA", "delB", "tick"}
	r.Tree("bouncer", r.Pick(4, 5), func(seq []string) []string { return wacts }, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			alice := w.AddUser("alice", nil)
			bob := w.AddUser("bob", nil)
			w.AddNetwork(alice, "neta", nil)
			w.AddNetwork(bob, "netb", nil)
			w.AddNetwork(alice, "netc", nil)
			ln := kit.NewMemListener()
			id := identd.New()
			w.OnStart = func(s *soju.Server) { s.Identd = id }
			go id.Serve(ln)
			defer ln.Close()
			w.Start()
			admin := w.DialAdmin("admin")
			sa, sb, sc := w.Server("neta.test:6667"), w.Server("netb.test:6667"), w.Server("netc.test:6667")
			idents := map[string]string{}
			audit := func() {
				byPort := map[int]*kit.UpConn{}
				lports := []int{6667}
				for _, s := range []*kit.UpServer{sa, sb, sc} {
					for _, uc := range s.Conns {
						p := uc.Conn().LocalAddr().(*net.TCPAddr).Port
						byPort[p] = uc
						lports = append(lports, p)
					}
				}
				for _, lp := range lports {
					for _, h := range []string{"10.9.9.9", "10.9.9.8"} {
						for _, rp := range []int{6667, 6668} {
							_, l := c24Ask(ln, h, fmt.Sprintf("%d,%d\r\n", lp, rp))
							if !c.Check(len(l) == 1, "query %d,%d: replies %s", lp, rp, kit.Q(l)) {
								return
							}
							_, _, got, ok := c24Parse(l[0])
							uc := byPort[lp]
							open := uc != nil && !uc.Closed() && h == "10.9.9.9" && rp == 6667
							c.Check(ok && (got != "") == open, "query %d,%d from %s: reply %q, connection open: %v", lp, rp, h, l[0], open)
							if got != "" && uc != nil {
								owner := "alice"
								if uc.S == sb {
									owner = "bob"
								}
								if prev, ok := idents[owner]; ok {
									c.Check(prev == got, "the identifier of %s changes from %q to %q", owner, prev, got)
								}
								idents[owner] = got
							}
						}
					}
				}
				c.Check(idents["alice"] != "" && idents["alice"] != idents["bob"], "identifiers are not distinct: %v", idents)
			}
			audit()
			for _, a := range seq {
				c.Step(a)
				switch a {
				case "dropA":
					if uc := sa.Last(); uc != nil {
						uc.Hangup()
					}
				case "dropB":
					if uc := sb.Last(); uc != nil {
						uc.Hangup()
					}
				case "refuseA":
					sa.Refuse = true
				case "muteA":
					sa.Silent, sa.Refuse = true, false
				case "okA":
					sa.Silent, sa.Refuse = false, false
				case "disableA":
					admin.Do("BOUNCERSERV :user run alice network update neta -enabled false")
				case "enableA":
					admin.Do("BOUNCERSERV :user run alice network update neta -enabled true")
				case "delB":
					admin.Do("BOUNCERSERV :user run bob network delete netb")
				case "tick":
					w.Sleep(90 * time.Second)
				}
				w.Settle()
				audit()
			}
		})
	})
	_ = database.User{}
}
